// C14: results depend on the current inputs only.  A long-lived assembler (copied, assigned, moved, with changing
// loads, conditions, options, geometry, sharing its materials with other assemblers and evaluators) is compared after
// every observation with a fresh assembler built from the current inputs.
#include "model.h"
namespace vm {
typedef ThinShellAssemblerStatus St;
struct Hist {
  Model m; double pwd,pwc,pifc; int quB; int ifc; gsPointLoads<real_t> pm; std::vector<std::shared_ptr<gsBoundaryConditions<real_t>>> bcs; std::vector<std::shared_ptr<VField>> vf; std::vector<std::shared_ptr<MP>> defs; std::vector<std::shared_ptr<gsMultiBasis<real_t>>> bases;
  void options(ShellA&a) const { gsOptionList o=a.options(); o.setReal("WeakDirichlet",pwd); o.setReal("WeakClamped",pwc); o.setReal("IfcPenalty",pifc); o.setInt("ExprAssembler.quB",quB); o.setInt("Continuity",m.continuity); a.setOptions(o); }
  void inputs(ShellA&a) const { gsBoxTopology::ifContainer none; a.addWeakC0((ifc&1)?m.mp.topology().interfaces():none); a.addWeakC1((ifc&2)&&m.d==3?m.mp.topology().interfaces():none); a.setPointLoads(m.pl); a.setPointMass(pm); if(m.hasPress) a.setPressure(*m.press.f); if(m.hasFound) a.setFoundation(*m.found.f); }
  ShellA* raw() const { if(m.d==2) return new gsThinShellAssembler<2,real_t,false>(m.mp,m.basis,m.bc,*m.force.f,m.cont); if(m.bending) return new gsThinShellAssembler<3,real_t,true>(m.mp,m.basis,m.bc,*m.force.f,m.cont); return new gsThinShellAssembler<3,real_t,false>(m.mp,m.basis,m.bc,*m.force.f,m.cont); }
  std::unique_ptr<ShellA> fresh() const { std::unique_ptr<ShellA> a(raw()); options(*a); inputs(*a); return a; }
};
template<class A> static std::unique_ptr<ShellA> dup(Rng&r,std::unique_ptr<ShellA>&x,std::unique_ptr<ShellA>&old,std::string&log){ A&a=dynamic_cast<A&>(*x); int k=r.integer(0,3); std::unique_ptr<ShellA> n;
  if(k==0){ n.reset(new A(a)); log+=" copy"; } else if(k==1){ A*b=new A(a); A*q=new A(); *q=*b; delete b; n.reset(q); log+=" assign"; } else if(k==2){ n.reset(new A(std::move(a))); log+=" move"; old.reset(); x.reset(); return n; } else { A*q=new A(a); A*w=new A(); *w=std::move(*q); delete q; n.reset(w); log+=" moveassign"; }
  old=std::move(x); return n; }
VM_PROPERTY(C14,3000,16000){
  Rng&r=c.rng; Hist h; Model&m=h.m; int v=c.index%3; m.d=v==0?2:3; m.bending=v==2; int np=r.chance(0.5)?2:1; GeoOpt g; g.d=m.d; g.np=np; g.kind=m.d==2?r.integer(0,1):r.integer(0,G_WILD); g.p=2; g.n1=1; g.n2=r.integer(1,2); g.reorient=np>1&&r.chance(0.6); g.noise=0.02; genGeo(r,m,g); c.tag=m.d==2?"2d":m.bending?"shell":"membrane";
  m.desc=std::string(c.tag)+" "+geoName(g.kind)+" np"+std::to_string(m.mp.nPatches()); genMats(r,m,r.chance(0.6),r.chance(0.4),np>1&&r.chance(0.5),0.01,0.06); double E=m.specs[0].par[0].c0*m.specs[0].t.c0;
  auto newBC=[&](){ m.weakBC=false; BcOpt b={r.chance(0.8),r.chance(0.6),r.chance(0.3),r.chance(0.2),r.chance(0.3),m.linearMat&&r.chance(0.3),m.linearMat&&m.d==3&&m.bending&&r.chance(0.3),r.chance(0.4)}; std::string keepd=m.desc; std::vector<VField> k0=m.keep; std::vector<Model::Neu> n0=m.neu; for(auto&x:k0) h.vf.push_back(std::make_shared<VField>(x)); for(auto&x:n0) h.vf.push_back(std::make_shared<VField>(x.f)); genBC(r,m,b); m.desc=keepd; };
  newBC(); { LoadOpt lo={r.chance(0.5),r.chance(0.4),r.chance(0.3),r.chance(0.4)}; genLoads(r,m,lo,E*0.05); }
  h.pwd=r.logu(1,100);h.pwc=r.logu(1,100);h.pifc=r.logu(1,100);h.quB=1;h.ifc=np>1&&m.linearMat?r.integer(0,3):0; m.continuity=np>1&&h.ifc==0&&r.chance(0.6)?0:-1;
  std::unique_ptr<ShellA> A=h.fresh(),old; std::string log; int steps=c.thorough?r.integer(6,24):r.integer(5,12); int obs=0; std::set<std::string> kinds;
  auto field=[&](const VField&f){ h.vf.push_back(std::make_shared<VField>(f)); return h.vf.back(); };
  // one bystander assembler on another geometry sharing the materials
  MP other=m.mp; for(size_t p=0;p<other.nPatches();++p) other.patch(p).coefs()*=1.3; 
  auto newU=[&](ShellA&a){ return randSol(r,a.numDofs(),0.01); };
  auto eq=[&](const std::string&mon,const Mat&x,const Mat&y){ double sc=std::max(y.size()?y.cwiseAbs().maxCoeff():0.0,1e-300); if(x.rows()!=y.rows()||x.cols()!=y.cols()){ c.fail(mon,m.desc+log+": sizes differ"); return; } c.near(mon,x,y,1e-11,sc,m.desc+log); obs++; };
  auto sys=[&](const std::string&mon,ShellA&a,ShellA&b,bool mat,bool vec){ if(mat) eq(mon+" matrix",a.matrix().toDense(),b.matrix().toDense()); if(vec) eq(mon+" vector",a.rhs(),b.rhs()); };
  std::vector<int> last;
  for(int st=0;st<steps&&c.violations==0;++st){
    int op=r.integer(0,25); switch(op){
    case 0: case 1: { log+=" assemble"; auto f=h.fresh(); if(!c.is("status",A->assemble()==f->assemble(),m.desc+log)) break; sys("linear",*A,*f,true,true); } break;
    case 2: case 3: { log+=" matrix"; auto f=h.fresh(); Mat u=newU(*f); MP def=f->constructSolution(u); if(!defAdmissible(m,def,1.6)) break; bool byu=r.chance(0.5); St s1=byu?A->assembleMatrix(u):A->assembleMatrix(def),s2=f->assembleMatrix(def); if(c.is("status",s1==s2,m.desc+log)) sys("tangent",*A,*f,true,false); } break;
    case 4: case 5: { log+=" vector"; auto f=h.fresh(); Mat u=newU(*f); MP def=f->constructSolution(u); if(!defAdmissible(m,def,1.6)) break; bool byu=r.chance(0.5); St s1=byu?A->assembleVector(u):A->assembleVector(def),s2=f->assembleVector(def); if(c.is("status",s1==s2,m.desc+log)) sys("residual",*A,*f,false,true); } break;
    case 6: { log+=" mass"; auto f=h.fresh(); bool l=r.chance(0.3); A->assembleMass(l); f->assembleMass(l); eq("mass",A->massMatrix().toDense(),f->massMatrix().toDense()); } break;
    case 7: { log+=" solution"; auto f=h.fresh(); Mat u=newU(*f); if(!c.is("number of unknowns",A->numDofs()==f->numDofs(),m.desc+log)) break; MP a=A->constructSolution(u),b=f->constructSolution(u),e=A->constructDisplacement(u),d2=f->constructDisplacement(u); for(size_t p=0;p<a.nPatches();++p){ eq("reconstruction",a.patch(p).coefs(),b.patch(p).coefs()); eq("reconstruction",e.patch(p).coefs(),d2.patch(p).coefs()); } } break;
    case 8: { log+=" bforce"; auto f=h.fresh(); Mat u=newU(*f); MP def=f->constructSolution(u); if(!defAdmissible(m,def,1.6)) break; patchSide ps=*m.mp.topology().bBegin(); Mat a=A->boundaryForce(def,ps),b=f->boundaryForce(def,ps); eq("boundary force",a,b); } break;
    case 9: { log+=" both"; auto f=h.fresh(); Mat u=newU(*f); MP def=f->constructSolution(u); if(!defAdmissible(m,def,1.6)) break; bool mt=r.chance(0.7); St s1=A->assemble(def,mt),s2=f->assemble(def,mt); if(c.is("status",s1==s2,m.desc+log)) sys("combined",*A,*f,mt,true); } break;
    case 10: { log+=" setPointLoads"; LoadOpt lo={false,false,false,r.chance(0.7)}; bool p=m.hasPress,k=m.hasFound; VField F=m.force,P=m.press,K=m.found; std::string d0=m.desc; genLoads(r,m,lo,E*0.05); m.desc=d0; m.hasPress=p;m.hasFound=k;m.force=F;m.press=P;m.found=K; A->setPointLoads(m.pl); } break;
    case 11: { log+=" setPressure"; auto f=field(vfield(r,m.d,1,E*0.05,E*0.02,r.chance(0.3))); m.press=*f; m.hasPress=true; A->setPressure(*m.press.f); } break;
    case 12: if(m.d==3){ log+=" setFoundation"; auto f=field(vfield(r,3,3,E,E*0.1,r.chance(0.3))); m.found=*f; m.hasFound=true; A->setFoundation(*m.found.f); } break;
    case 13: case 14: { log+=" updateBCs"; newBC(); A->updateBCs(m.bc); } break;
    case 15: { log+=" setOptions"; h.pwd=r.logu(1,100);h.pwc=r.logu(1,100);h.pifc=r.logu(1,100); h.quB=r.integer(1,2); if(np>1&&h.ifc==0) m.continuity=r.chance(0.5)?0:-1; h.options(*A); } break;
    case 16: { log+=" setUndeformed"; Deform D=genDeform(r,m.d,0.03,0.0,r.chance(0.4)); applyDeform(r,D,m.mp); m.bc.setGeoMap(m.mp); bool b=r.chance(0.5); A->updateBCs(m.bc); if(b) A->setUndeformed(m.mp); else A->setGeometry(m.mp); if(r.chance(0.5)) A->updateBCs(m.bc); } break;
    case 17: case 18: { bool withMass=r.chance(0.5); Mat m0; if(withMass){ withMass=A->assembleMass()==ThinShellAssemblerStatus::Success; m0=Mat(A->massMatrix().toDense()); } if(m.d==2) A=dup<gsThinShellAssembler<2,real_t,false>>(r,A,old,log); else if(m.bending) A=dup<gsThinShellAssembler<3,real_t,true>>(r,A,old,log); else A=dup<gsThinShellAssembler<3,real_t,false>>(r,A,old,log); if(withMass){ Mat m1=Mat(A->massMatrix().toDense()); if(c.is("mass matrix of the copy",m0.rows()==m1.rows()&&m0.cols()==m1.cols(),log)&&m0.size()) c.near("mass matrix of the copy",(m0-m1).cwiseAbs().maxCoeff(),0,1e-14,std::max(m0.cwiseAbs().maxCoeff(),(real_t)1e-300),log); } if(old&&r.chance(0.5)){ old->assemble(); log+="+useold"; } if(old&&r.chance(0.3)){ old.reset(); log+="+dropold"; } } break;
    case 19: { log+=" bystander"; gsBoundaryConditions<real_t> nb; nb.setGeoMap(other); ShellA*q; if(m.d==2) q=new gsThinShellAssembler<2,real_t,false>(other,m.basis,nb,*m.force.f,m.cont); else if(m.bending) q=new gsThinShellAssembler<3,real_t,true>(other,m.basis,nb,*m.force.f,m.cont); else q=new gsThinShellAssembler<3,real_t,false>(other,m.basis,nb,*m.force.f,m.cont); std::unique_ptr<ShellA> B(q); B->assemble(); B->assembleVector(other); B->assembleMass(); } break;
    case 20: { log+=" evaluator"; MP def=other; for(size_t p=0;p<def.nPatches();++p) def.patch(p).coefs()*=1.05; Mat pts(2,3); for(index_t i=0;i<6;i++) pts(i%2,i/2)=r.uni(0,1); gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixA> ev(m.cont,&other,&def); gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> en(m.cont,&other,&def); for(size_t p=0;p<other.nPatches();++p){ Mat z; ev.piece(p).eval_into(pts,z); en.piece(p).eval_into(pts,z); } if(m.d==3){ h.defs.push_back(std::make_shared<MP>(def)); for(auto&x:m.mats) x->setDeformed(h.defs.back().get()); } } break;
    case 21: if(np>1&&m.linearMat&&m.continuity<0){ log+=" addWeak"; h.ifc=r.integer(0,3); gsBoxTopology::ifContainer none; A->addWeakC0((h.ifc&1)?m.mp.topology().interfaces():none); A->addWeakC1((h.ifc&2)&&m.d==3?m.mp.topology().interfaces():none); } break;
    case 22: { log+=" setPointMass"; h.pm.clear(); if(r.chance(0.7)){ gsVector<real_t> pt(2),val(1); pt<<r.uni(0.1,0.9),r.uni(0.1,0.9); val<<r.logu(0.1,10); h.pm.addLoad(pt,val,r.integer(0,m.mp.nPatches()-1),true); } A->setPointMass(h.pm); } break;
    case 23: { log+=" queries"; A->getArea(m.mp); A->interfaceErrorC0(m.mp); if(m.d==3){ Mat pt(2,1); pt<<0.3,0.6; A->computePrincipalStretches(pt,m.mp,0); gsPiecewiseFunction<real_t> pw; A->constructStress(m.mp,pw,stress_type::membrane); Mat z=pw.piece(0).eval(pt); (void)z; } A->numDofs(); A->getMapper(); A->options(); A->materials(); } break;
    case 24: { log+=" pressurevec"; auto f=h.fresh(); Mat u=newU(*f); MP def=f->constructSolution(u); if(m.d==3&&r.chance(0.5)){ auto pf=field(vfield(r,3,1,1,0.3)); A->assemblePressureVector(*pf->f,def); } else A->homogenizeDirichlet(); if(r.chance(0.6)) A->updateBCs(m.bc); else { log+="+hom"; A->updateBCs(m.bc); } } break;
    case 25: if(m.mp.nPatches()==1||m.continuity>=0||h.ifc==0){ if(h.bases.size()<1){ log+=" refine"; m.mp.uniformRefine(); auto nb=std::make_shared<gsMultiBasis<real_t>>(m.mp,false); h.bases.push_back(nb); m.basis=*nb; m.bc.setGeoMap(m.mp); std::vector<VField> dummy; A->setGeometry(m.mp); A->setBasis(m.basis); A->updateBCs(m.bc); other=m.mp; for(size_t p=0;p<other.nPatches();++p) other.patch(p).coefs()*=1.3; } } break;
    } kinds.insert(std::to_string(op)); }
  c.desc<<m.desc<<log; std::string sk; for(auto&k:kinds) sk+=k+","; c.key=m.desc.substr(0,m.desc.find(" mat"))+" ops "+sk; if(obs==0) c.trivial=true;
}
}
