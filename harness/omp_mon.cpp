// C15: parallel assembly and evaluation against the same work on one thread, under the race detector.
#include "model.h"
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
extern "C" { void shim_perturb(int,uint64_t); void shim_counts(long*); void omp_set_num_threads(int); int omp_get_thread_num(); int omp_get_num_threads(); }
namespace vm {
typedef std::vector<std::pair<std::string,Mat>> Out; typedef MaterialOutput MO;
static Out work(const Model&m,const Mat&u,int what){
  Out o; auto A=m.fresh(); auto K=[&](const char*n){ o.push_back({n,A->matrix().toDense()}); }; auto R=[&](const char*n){ o.push_back({n,A->rhs()}); };
  if(what&1){ A->assemble(); K("linear matrix"); R("linear vector"); }
  MP def; A->constructSolution(u,def);
  if(what&2){ o.push_back({"status vector",Mat::Constant(1,1,(double)(int)A->assembleVector(def))}); R("residual"); o.push_back({"status matrix",Mat::Constant(1,1,(double)(int)A->assembleMatrix(def))}); K("tangent"); }
  if(what&4){ A->assembleMass(); o.push_back({"mass",A->massMatrix().toDense()}); A->assembleMass(true); o.push_back({"lumped mass",A->rhs()}); }
  if(what&8){ if(m.hasPress&&m.d==3){ A->assemblePressureVector(*m.press.f,def); R("pressure vector"); A->assemblePressureMatrix(*m.press.f,def); K("pressure matrix"); } o.push_back({"area",Mat::Constant(1,1,A->getArea(def))}); o.push_back({"displacement norm",Mat::Constant(1,1,A->getDisplacementNorm(def))}); std::vector<patchSide> all(m.mp.topology().bBegin(),m.mp.topology().bEnd()); o.push_back({"boundary force",A->boundaryForce(def,all[0])}); }
  return o; }
// one evaluator shared by all threads, each taking the next slice of points
template<MO o> static Mat evalShared(int T,const gsMaterialMatrixContainer<real_t>&cont,const MP&mp,const MP&def,const Mat&u,int np){ gsMaterialMatrixIntegrate<real_t,o> I(cont,&mp,&def); Mat R; std::vector<Mat> part(u.cols()*np); int n=part.size();
#pragma omp parallel num_threads(T)
  {
#pragma omp for schedule(dynamic,1)
    for(int k=0;k<n;k++){ Mat x=u.col(k/np),y; I.piece(k%np).eval_into(x,y); part[k]=y; }
  }
  if(n==0) return R; R.resize(part[0].size(),n); for(int k=0;k<n;k++) R.col(k)=part[k]; return R; }
template<MO o> static Mat evalPoint(int T,const gsMaterialMatrixContainer<real_t>&cont,const MP&mp,const MP&def,const Mat&u,int np){ Mat z=Mat::Zero(1,1); gsMaterialMatrixEval<real_t,o> I(cont,&mp,&def,z); Mat R; std::vector<Mat> part(u.cols()*np); int n=part.size();
#pragma omp parallel num_threads(T)
  {
#pragma omp for schedule(dynamic,1)
    for(int k=0;k<n;k++){ Mat x=u.col(k/np),y; I.piece(k%np).eval_into(x,y); part[k]=y; }
  }
  if(n==0) return R; R.resize(part[0].size(),n); for(int k=0;k<n;k++) R.col(k)=part[k]; return R; }
static Out fields(int T,const gsMaterialMatrixContainer<real_t>&cont,const MP&mp,const MP&def,const Mat&u,int kind,bool three){ Out o; int np=mp.nPatches();
  o.push_back({"membrane force",evalShared<MO::VectorN>(T,cont,mp,def,u,np)}); o.push_back({"membrane stiffness",evalShared<MO::MatrixA>(T,cont,mp,def,u,np)}); o.push_back({"areal density",evalShared<MO::Density>(T,cont,mp,def,u,np)});
  if(three&&kind!=2){ o.push_back({"moment",evalShared<MO::VectorM>(T,cont,mp,def,u,np)}); o.push_back({"flexural stiffness",evalShared<MO::MatrixD>(T,cont,mp,def,u,np)}); }
  if(kind==0){ o.push_back({"stress",evalPoint<MO::StressN>(T,cont,mp,def,u,np)}); o.push_back({"stretch",evalPoint<MO::Stretch>(T,cont,mp,def,u,np)}); o.push_back({"principal stress",evalPoint<MO::PStressN>(T,cont,mp,def,u,np)}); }
  return o; }
static void cmp(Case&c,const Out&ref,const Out&got,double tol){ for(size_t i=0;i<ref.size();i++){ const Mat&a=ref[i].second; double s=1e-300; for(index_t k=0;k<a.size();k++) if(std::isfinite(a.data()[k])) s=std::max(s,std::fabs(a.data()[k])); c.near(ref[i].first,got[i].second,a,tol,s,c.tag); } }
struct Conc { long c0[4]; Case&c; Conc(Case&x,int T):c(x){ shim_counts(c0); omp_set_num_threads(T); shim_perturb(1,mix(c.seed,c.index)); } ~Conc(){ omp_set_num_threads(1); shim_perturb(0,1); long c1[4]; shim_counts(c1); for(long k=0;k<c1[1]-c0[1];k++) c.note("parallel regions on several threads"); for(long k=0;k<c1[3]-c0[3];k++) c.note("work-sharing chunks"); for(long k=0;k<c1[2]-c0[2];k++) c.note("critical sections"); } };
static void fieldCase(Case&c){ Rng&r=c.rng; Model m; m.d=r.chance(0.3)?2:3; int np=r.integer(1,2); GeoOpt g={m.d,np,m.d==2?r.integer(0,1):(np>1?r.integer(0,G_WILD):r.integer(0,G_N-1)),2,1,1,np>1&&r.chance(0.5),0.03}; genGeo(r,m,g); np=m.mp.nPatches(); int combo=(c.index/4)%combos().size(); genMats(r,m,false,r.chance(0.6),r.chance(0.5),0.005,0.08,combo); MP def=m.mp; applyDeform(r,genDeform(r,m.d,0.1,0.01,r.chance(0.4)),def);
  int kind=r.integer(0,3); if(kind==3) kind=0; int T=r.pick(std::vector<int>{2,3,4,8}); static const char*kn[]={"plain","laminate","tension field"}; if(!defAdmissible(m,def,2.0)){ c.trivial=true; return; }
  c.key=std::string("fields/")+kn[kind]+"/"+(kind==1?"":m.specs[0].name())+"/d"+std::to_string(m.d)+"/T"+std::to_string(T); c.tag=kn[kind]; c.desc<<c.key<<" np"<<np;
  Mat u(2,r.integer(6,16)); for(index_t i=0;i<u.size();i++) u.data()[i]=r.uni(0.01,0.99); std::vector<std::shared_ptr<gsFunctionSet<real_t>>> keep; std::vector<gsFunctionSet<real_t>*> T_,G_,A_,R_;
  if(kind==1){ int n=r.integer(1,4); for(int i=0;i<n;i++){ auto add=[&](std::vector<gsFunctionSet<real_t>*>&v,gsFunctionSet<real_t>*f){ keep.push_back(std::shared_ptr<gsFunctionSet<real_t>>(f)); v.push_back(f); }; gsVector<real_t> gv(9); gv<<3,0.4,0,0.4,1,0,0,0,0.5; add(T_,new gsConstantFunction<real_t>(0.01*(i+1),m.d)); add(G_,new gsConstantFunction<real_t>(gv,m.d)); add(A_,new gsFunctionExpr<real_t>(std::to_string(r.uni(-2,2))+"+0.3*x",m.d)); add(R_,new gsConstantFunction<real_t>(1.0+i,m.d)); } }
  auto make=[&](gsMaterialMatrixContainer<real_t>&cont,std::vector<gsMaterialMatrixBase<real_t>::Ptr>&own){ cont=gsMaterialMatrixContainer<real_t>(np); m.makeMats(); for(int p=0;p<np;p++){ gsMaterialMatrixBase<real_t>::Ptr x; if(kind==0) x=m.mats[p]; else if(kind==1) x=m.d==2?gsMaterialMatrixBase<real_t>::Ptr(new gsMaterialMatrixComposite<2,real_t>(m.mp,T_,G_,A_,R_)):gsMaterialMatrixBase<real_t>::Ptr(new gsMaterialMatrixComposite<3,real_t>(m.mp,T_,G_,A_,R_)); else { bool lin=m.specs[p].law==SvK; gsMaterialMatrixBase<real_t>*b=m.mats[p].get(); b->options().setInt("TensionField",2); x.reset(m.d==2?(lin?(gsMaterialMatrixBase<real_t>*)new gsMaterialMatrixTFT<2,real_t,true>(b):new gsMaterialMatrixTFT<2,real_t,false>(b)):(lin?(gsMaterialMatrixBase<real_t>*)new gsMaterialMatrixTFT<3,real_t,true>(b):new gsMaterialMatrixTFT<3,real_t,false>(b))); } if(p>0&&kind!=0&&m.piecewise) x=own[0]; own.push_back(x); cont.set(p,x); } };
  omp_set_num_threads(1); shim_perturb(0,1); Out ref,got; { gsMaterialMatrixContainer<real_t> cont; std::vector<gsMaterialMatrixBase<real_t>::Ptr> own; make(cont,own); ref=fields(1,cont,m.mp,def,u,kind,m.d==3); } { Conc k(c,T); gsMaterialMatrixContainer<real_t> cont; std::vector<gsMaterialMatrixBase<real_t>::Ptr> own; make(cont,own); got=fields(T,cont,m.mp,def,u,kind,m.d==3); } cmp(c,ref,got,1e-12); }
static Out dwrWork(Model&m,const gsMultiBasis<real_t>&L,const gsMultiBasis<real_t>&H,const Mat&u,GoalFunction goal,int comp){ Out o; gsMaterialMatrixBase<real_t>*mat=m.mats[0].get(); std::unique_ptr<gsThinShellAssemblerDWRBase<real_t>> D; if(m.d==3&&m.bending) D.reset(new gsThinShellAssemblerDWR<3,real_t,true>(m.mp,L,H,m.bc,*m.force.f,mat)); else D.reset(new gsThinShellAssemblerDWR<3,real_t,false>(m.mp,L,H,m.bc,*m.force.f,mat));
  D->setGoal(goal,comp); MP prim,def; D->constructMultiPatchL(u,prim); D->constructSolutionL(u,def); D->assembleMatrixL(); o.push_back({"coarse matrix",D->matrixL().toDense()}); D->assembleMatrixH(def); o.push_back({"enriched tangent",D->matrixH().toDense()}); o.push_back({"goal",Mat::Constant(1,1,D->computeGoal(def))}); D->assembleDualL(prim,def); o.push_back({"coarse dual",D->dualL()}); D->assembleDualH(prim,def); o.push_back({"enriched dual",D->dualH()}); D->assembleMassL(); o.push_back({"coarse mass",D->massL().toDense()}); return o; }
static void dwrCase(Case&c){ Rng&r=c.rng; Model m; m.d=3; m.bending=r.chance(0.6); GeoOpt g={3,1,r.integer(0,G_N-1),2,2,r.integer(1,2),false,0.03}; genGeo(r,m,g); genMats(r,m,false,r.chance(0.5),false,0.01,0.08,r.chance(0.5)?0:(c.index/4)%combos().size()); m.makeMats(); BcOpt b={true,false,false,false,false,false,false,true}; genBC(r,m,b); LoadOpt lo={true,false,false,false}; genLoads(r,m,lo,1); gsMultiBasis<real_t> L=m.basis,H=m.basis; H.degreeElevate(1);
  static const GoalFunction gs[]={GoalFunction::Displacement,GoalFunction::MembraneStrain,GoalFunction::MembraneForce,GoalFunction::PStrain}; int gi=r.integer(0,3); int comp=r.chance(0.5)?9:0; int T=r.pick(std::vector<int>{2,3,4}); c.key=std::string("dwr/")+(m.bending?"KL":"MB")+"/"+m.specs[0].name()+"/goal"+std::to_string(gi)+"/T"+std::to_string(T); c.tag="dwr"; c.desc<<c.key<<m.desc;
  omp_set_num_threads(1); shim_perturb(0,1); index_t n; { auto A=m.fresh(); n=A->numDofs(); } if(n==0){ c.trivial=true; return; } Mat u=randSol(r,n,0.01); Out ref=dwrWork(m,L,H,u,gs[gi],comp),got; { Conc k(c,T); m.makeMats(); got=dwrWork(m,L,H,u,gs[gi],comp); } m.makeMats(); cmp(c,ref,got,1e-9); }
VM_PROPERTY(C15,160,2400){ if(c.index%4==1){ fieldCase(c); return; } if(c.index%8==3){ dwrCase(c); return; } Rng&r=c.rng; Model m; m.d=r.chance(0.3)?2:3; m.bending=m.d==3&&r.chance(0.75); int np=r.pick(std::vector<int>{1,1,2,4}); GeoOpt g={m.d,np,m.d==2?r.integer(0,1):r.integer(0,G_N-1),r.integer(2,3),r.integer(2,4),r.integer(2,3),np>1&&r.chance(0.3),0.03}; genGeo(r,m,g); if(m.mp.nPatches()>1) m.continuity=0;
  int combo=c.index%combos().size(); genMats(r,m,false,r.chance(0.6),r.chance(0.4),0.005,0.05,combo); BcOpt bo={r.chance(0.8),r.chance(0.4),m.bending,true,true,r.chance(0.3),m.bending&&r.chance(0.3),r.chance(0.5)}; genBC(r,m,bo); LoadOpt lo={true,r.chance(0.5),r.chance(0.4),r.chance(0.4)}; genLoads(r,m,lo,m.specs[0].par[0].c0*m.specs[0].t.c0*0.02);
  c.key=std::string(m.d==2?"2D":m.bending?"KL":"MB")+"/"+geoName(m.kind)+"/np"+std::to_string(m.mp.nPatches())+"/"+m.specs[0].name(); c.tag=m.d==2?"2D":m.bending?"KL":"MB"; c.desc<<c.key<<m.desc;
  omp_set_num_threads(1); shim_perturb(0,1); index_t n; { auto A=m.fresh(); n=A->numDofs(); } if(n==0){ c.trivial=true; return; } Mat u=randSol(r,n,0.004); { auto A=m.fresh(); MP def; A->constructSolution(u,def); if(!defAdmissible(m,def)){ c.trivial=true; return; } }
  int what=r.integer(1,15); Out ref=work(m,u,what); int T=r.pick(std::vector<int>{2,3,4,8}); c.desc<<" threads="<<T; c.key+="/T"+std::to_string(T); Out got; { Conc k(c,T); m.makeMats(); got=work(m,u,what); } m.makeMats(); cmp(c,ref,got,1e-9);
}
}
