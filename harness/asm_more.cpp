// C10 (mass), C11 (boundary conditions, reconstruction), C12 (multi-patch), C13 (invariance), C14 (history).
#include "model.h"
namespace vm {
typedef ThinShellAssemblerStatus St;
static void setup(Case&c,Model&m,int np,bool nurbs=true,bool reorient=true){ Rng&r=c.rng;
  int v=c.index%3; m.d=v==0?2:3; m.bending=v==2;
  GeoOpt g; g.d=m.d; g.np=np; g.kind=m.d==2?r.integer(0,1):(np==1&&nurbs?r.integer(0,G_N-1):r.integer(0,G_WILD)); g.p=r.chance(0.7)?2:3; g.n1=r.integer(1,2); g.n2=np>1?1:r.integer(1,2); g.reorient=reorient&&np>1&&r.chance(0.7); g.noise=r.chance(0.6)?0.03:0; genGeo(r,m,g);
  m.desc=std::string(m.d==2?"planar":m.bending?"shell":"membrane")+" "+geoName(g.kind)+" np"+std::to_string(m.mp.nPatches())+" p"+std::to_string(g.p)+(g.reorient?" reoriented":""); c.tag=m.d==2?"2d":m.bending?"shell":"membrane"; }
static std::string kindKey(const Model&m){ return m.desc.substr(0,m.desc.find(" mat")); }

// reference mass matrix on the free degrees of freedom (rows/columns in mapper order)
static Mat refMass(const Model&m,const gsDofMapper&map,const std::vector<PLoad>&pm,Mat*rowsum=nullptr){
  index_t n=map.freeSize(); Mat M=Mat::Zero(n,n); if(rowsum) *rowsum=Mat::Zero(n,1);
  auto add=[&](int p,const QP&q,double w){ for(int c=0;c<m.d;c++) for(size_t i=0;i<q.idx.size();++i){ if(!map.is_free(q.idx[i],p,c)) continue; index_t a=map.index(q.idx[i],p,c); if(rowsum) (*rowsum)(a,0)+=w*(double)q.N[i][0]; for(size_t j=0;j<q.idx.size();++j) if(map.is_free(q.idx[j],p,c)) M(a,map.index(q.idx[j],p,c))+=w*(double)(q.N[i][0]*q.N[j][0]); } };
  forQP(m,nullptr,[&](const QP&q){ add(q.p,q,(double)(q.w*q.so.meas)*m.specs[q.p].t.at(q.x)*m.specs[q.p].rho.at(q.x)); });
  for(auto&L:pm){ QP q; basisAt(m.basis.basis(L.patch),L.par,q); add(L.patch,q,L.val(0,0)); }
  return M; }
static double refTotalMass(const Model&m){ double s=0; forQP(m,nullptr,[&](const QP&q){ s+=(double)(q.w*q.so.meas)*m.specs[q.p].t.at(q.x)*m.specs[q.p].rho.at(q.x); }); return s; }

VM_PROPERTY(C10,4000,100000){
  Rng&r=c.rng; Model m; setup(c,m,r.chance(0.45)?(r.chance(0.3)?4:2):1); genMats(r,m,false,r.chance(0.6),r.chance(0.6),0.005,0.2,(c.index/3)%(int)combos().size());
  bool bcs=r.chance(0.6); BcOpt b={bcs,r.chance(0.4),r.chance(0.3),r.chance(0.3),r.chance(0.3),false,false,false}; if(bcs) genBC(r,m,b); else { m.bc.clear(); m.bc.setGeoMap(m.mp); }
  LoadOpt lo={false,false,false,false}; genLoads(r,m,lo,1); m.continuity=m.mp.nPatches()>1&&r.chance(0.6)?0:-1; m.A=m.fresh(); gsDofMapper map=m.A->getMapper(); index_t n=m.A->numDofs();
  std::vector<PLoad> pm; gsPointLoads<real_t> gp; bool physical=false; if(r.chance(0.4)){ int k=r.integer(1,3); for(int i=0;i<k;i++){ PLoad L; L.patch=r.integer(0,m.mp.nPatches()-1); L.par=Mat(2,1); L.par<<r.uni(0.05,0.95),r.uni(0.05,0.95); L.val=Mat(1,1); L.val(0,0)=r.logu(0.01,10); L.parametric=r.chance(0.7); physical|=!L.parametric; pm.push_back(L); gsVector<real_t> pt=L.parametric?L.par.col(0):m.mp.patch(L.patch).eval(L.par).col(0),v=L.val.col(0); gp.addLoad(pt,v,L.patch,L.parametric); } static_cast<ShellA&>(*m.A).setPointMass(gp); }
  c.key=kindKey(m)+" "+m.specs[0].name()+(bcs?" bc":" free")+(pm.empty()?"":" pm")+" c"+std::to_string(m.continuity); c.desc<<m.desc<<" dofs="<<n<<" pm="<<pm.size(); if(n==0){ c.trivial=true; return; }
  Mat rs; Mat R=refMass(m,map,pm,&rs); double sc=R.cwiseAbs().maxCoeff(); double tol=physical?1e-4:1e-10;
  if(!c.is("status",m.A->assembleMass()==St::Success,"assembleMass failed")) return; Mat M=m.A->massMatrix().toDense();
  if(!c.is("mass size",M.rows()==n&&M.cols()==n,"size")) return;
  c.near("mass=rho t N N integral",M,R,tol,sc,m.desc); c.near("mass symmetric",M,Mat(M.transpose()),1e-13,sc,"");
  { Mat D=M.diagonal().cwiseSqrt().cwiseInverse(); bool fin=D.allFinite(); c.is("mass positive diagonal",fin,m.desc); if(fin){ Mat S=D.asDiagonal()*M*D.asDiagonal(); gsEigen::SelfAdjointEigenSolver<Mat::Base> es(S); c.is("mass positive definite",es.eigenvalues().minCoeff()>1e-10,m.desc+" min scaled eigenvalue "+std::to_string(es.eigenvalues().minCoeff())); } }
  if(!bcs){ double tot=refTotalMass(m); for(auto&L:pm) tot+=L.val(0,0); for(int k=0;k<m.d;k++){ Full W=zeroFull(m); for(auto&w:W) w.col(k).setOnes(); Mat t=Mat::Zero(n,1); for(size_t p=0;p<W.size();++p) for(index_t i=0;i<W[p].rows();++i) t(map.index(i,p,k),0)=1; c.near("translation carries the total mass",(t.transpose()*M*t)(0,0),tot,1e-9,tot,m.desc); } }
  // unaffected by deformation states and independent of the lumped variant assembled in between
  if(!c.is("status",m.A->assembleMass(true)==St::Success,"lumped")) return; Mat L=m.A->massMatrix().toDense(); if(!c.is("mass size",L.rows()==n&&L.cols()==n,"lumped size")) return;
  Mat off=L; off.diagonal().setZero(); c.is("lumped mass diagonal",off.cwiseAbs().maxCoeff()==0,m.desc); c.near("lumped mass=row sums",Mat(L.diagonal()),rs,tol,rs.cwiseAbs().maxCoeff(),m.desc);
  m.A->assembleMass(); c.near("mass again",Mat(m.A->massMatrix().toDense()),M,1e-14,sc,m.desc);
  if(m.A->assembleMass(r.chance(0.5))==St::Success&&r.chance(0.5)){ gsPointLoads<real_t> none; m.A->setPointMass(none); m.A->assembleMass(); std::vector<PLoad> e; c.near("mass without point masses",Mat(m.A->massMatrix().toDense()),refMass(m,map,e),1e-10,sc,m.desc); }
}

// ---------------------------------------------------------------------------------------- C11
VM_PROPERTY(C11,4000,100000){
  Rng&r=c.rng; Model m; setup(c,m,r.chance(0.4)?(r.chance(0.3)?4:2):1); genMats(r,m,true,r.chance(0.4),r.chance(0.4)); int d=m.d;
  m.continuity=m.mp.nPatches()>1&&r.chance(0.7)?0:-1; LoadOpt lo={r.chance(0.5),false,false,false}; genLoads(r,m,lo,1);
  // one global prescribed field so that neighbouring sides agree
  VField g=vfield(r,d,d,0.03,0.02,r.chance(0.3)); std::vector<VField> comp; for(int k=0;k<d;k++){ VField f; f.m=d;f.n=1;f.a=Mat(1,1);f.a(0,0)=g.a(k,0);f.B=g.B.row(k); std::ostringstream os; os.precision(17); os<<"("<<f.a(0,0)<<")"; const char*x="xyz"; for(int j=0;j<d;j++) os<<"+("<<f.B(0,j)<<")*"<<x[j]; f.f.reset(new gsFunctionExpr<real_t>(os.str(),d)); comp.push_back(f); }
  std::vector<patchSide> sides(m.mp.topology().bBegin(),m.mp.topology().bEnd()); for(size_t i=sides.size();i>1;--i) std::swap(sides[i-1],sides[r.next()%i]);
  struct D{ patchSide s; int c; bool zero; }; std::vector<D> ds; std::vector<std::pair<patchSide,int>> cl,col; std::ostringstream os; m.bc.clear(); bool hom=r.chance(0.25);
  int nd=r.integer(0,std::min<int>(3,sides.size())); for(int i=0;i<nd;i++){ D x; x.s=sides[i]; x.c=r.chance(0.5)?-1:r.integer(0,d-1); x.zero=hom; ds.push_back(x); os<<" D"<<x.s.patch<<"/"<<(int)x.s.side()<<"c"<<x.c<<(hom?"z":"");
    if(hom) m.bc.addCondition(x.s.patch,x.s.side(),condition_type::dirichlet,0,0,false,x.c); else m.bc.addCondition(x.s.patch,x.s.side(),condition_type::dirichlet,x.c==-1?g.f.get():comp[x.c].f.get(),0,false,x.c); }
  // clamping couples the second row to the first: with a prescribed side only where the prescribed field is constant along the normal direction is irrelevant (coefficients are equal)
  if(r.chance(0.4)&&nd<(int)sides.size()){ patchSide s=sides[nd>0&&r.chance(0.5)&&hom?0:nd]; bool touchesD=false; for(auto&x:ds) if(!(x.s==s)&&!hom) touchesD=true; if(!touchesD){ int cc=r.chance(0.5)?-1:r.integer(0,d-1); m.bc.addCondition(s.patch,s.side(),condition_type::clamped,0,0,false,cc); cl.push_back(std::make_pair(s,cc)); os<<" Cl"<<s.patch<<"/"<<(int)s.side()<<"c"<<cc; } }
  if(r.chance(0.4)&&nd==0&&cl.empty()){ patchSide s=sides[0]; int cc=r.chance(0.3)?-1:r.integer(0,d-1); m.bc.addCondition(s.patch,s.side(),condition_type::collapsed,0,0,false,cc); col.push_back(std::make_pair(s,cc)); os<<" Col"<<s.patch<<"/"<<(int)s.side()<<"c"<<cc; }
  struct Co{ int p; int k; int comp; double v; }; std::vector<Co> cs; if(r.chance(0.3)&&cl.empty()&&col.empty()){ Co k; k.p=r.integer(0,m.mp.nPatches()-1); k.k=r.integer(1,4); k.comp=r.integer(0,d-1); Mat x=m.mp.patch(k.p).eval(cornerParam(k.k-1)); k.v=hom?0:g.at(x)(k.comp,0); bool alone=nd==0; if(alone&&!hom) k.v=r.uni(-0.05,0.05); m.bc.addCornerValue((boundary::corner)k.k,k.v,k.p,0,k.comp); cs.push_back(k); os<<" Corner"<<k.p<<"/"<<k.k<<"c"<<k.comp; }
  m.bc.setGeoMap(m.mp); m.A=m.fresh(); gsDofMapper map=m.A->getMapper(); index_t n=m.A->numDofs(); m.desc+=os.str();
  c.key=kindKey(m)+(nd?" D":"")+(cl.empty()?"":" Cl")+(col.empty()?"":" Col")+(cs.empty()?"":" K")+(hom?" hom":"")+" c"+std::to_string(m.continuity); c.desc<<m.desc<<" dofs="<<n; if(nd==0&&cl.empty()&&col.empty()&&cs.empty()) c.trivial=true;
  if(!c.is("mapper size",map.freeSize()==n&&map.numPatches()==m.mp.nPatches(),"")) return;
  Mat u=randSol(r,n,0.05); MP dis=m.A->constructDisplacement(u),def=m.A->constructSolution(u),mpv=m.A->constructMultiPatch(u),def2,dis2,upd=m.mp; m.A->constructSolution(u,def2); m.A->constructDisplacement(u,dis2); m.A->updateMultiPatch(u,upd);
  for(size_t p=0;p<m.mp.nPatches();++p){ const Mat&cd=dis.patch(p).coefs(); if(!c.is("patch count",dis.nPatches()==m.mp.nPatches()&&cd.rows()==m.basis.basis(p).size(),"")) return; c.near("deformed=original+displacement",def.patch(p).coefs(),Mat(m.mp.patch(p).coefs()+cd),1e-14,1,""); c.near("both overloads",def2.patch(p).coefs(),def.patch(p).coefs(),1e-15,1,""); c.near("both overloads",dis2.patch(p).coefs(),cd,1e-15,1,""); c.near("multipatch=displacement",mpv.patch(p).coefs(),cd,1e-15,1,""); c.near("update=solution",upd.patch(p).coefs(),def.patch(p).coefs(),1e-15,1,"");
    for(index_t k=0;k<cd.rows();++k) for(int q=0;q<d;q++) if(map.is_free(k,p,q)) { if(std::fabs(cd(k,q)-u(map.index(k,p,q),0))>1e-14) c.fail("free dofs carry the solution vector",m.desc+" patch "+std::to_string(p)+" function "+std::to_string(k)); } else c.note("eliminated dof"); (*c.stats)["free dofs carry the solution vector"].n++; }
  { gsVector<real_t> back=m.A->constructSolutionVector(dis); c.near("solution vector round trip",Mat(back),u,1e-14,1,m.desc); }
  { Mat full=m.A->fullSolutionVector(u); bool ok=full.rows()==(index_t)map.mapSize()||full.rows()>0; c.is("full vector size",ok,""); }
  // prescribed values
  std::vector<double> ts={0.0,0.13,0.5,0.77,1.0};
  for(auto&x:ds) for(double t:ts){ Mat q(2,1); q(x.s.direction(),0)=x.s.parameter()?1:0; q(1-x.s.direction(),0)=t; Mat X=m.mp.patch(x.s.patch).eval(q),v=dis.patch(x.s.patch).eval(q),w=g.at(X); for(int k=0;k<d;k++) if(x.c==-1||x.c==k) c.near("prescribed displacement",v(k,0),x.zero?0:w(k,0),1e-9,1,m.desc); }
  for(auto&k:cs){ Mat v=dis.patch(k.p).eval(cornerParam(k.k-1)); c.near("corner value",v(k.comp,0),k.v,1e-12,1,m.desc); }
  for(auto&x:cl){ gsMatrix<index_t> a=m.basis.basis(x.first.patch).boundaryOffset(x.first.side(),0),b=m.basis.basis(x.first.patch).boundaryOffset(x.first.side(),1); for(index_t k=0;k<a.size();++k) for(int q=0;q<d;q++) if(x.second==-1||x.second==q) c.near("clamped rows move together",dis.patch(x.first.patch).coefs()(a(k,0),q),dis.patch(x.first.patch).coefs()(b(k,0),q),1e-14,1,m.desc); }
  for(auto&x:col) for(double t:ts){ Mat q(2,1),q0; q(x.first.direction(),0)=x.first.parameter()?1:0; q0=q; q0(1-x.first.direction(),0)=0; q(1-x.first.direction(),0)=t; Mat v=dis.patch(x.first.patch).eval(q),w=dis.patch(x.first.patch).eval(q0); for(int k=0;k<d;k++) if(x.second==-1||x.second==k) c.near("collapsed side moves as one",v(k,0),w(k,0),1e-13,1,m.desc); }
  if(m.continuity==0) for(auto it=m.mp.topology().iBegin();it!=m.mp.topology().iEnd();++it) for(double t:ts){ gsAffineFunction<real_t> T(it->dirMap(),it->dirOrientation(),Mat(m.basis.basis(it->first().patch).support()),Mat(m.basis.basis(it->second().patch).support())); Mat q(2,1); q(it->first().direction(),0)=it->first().parameter()?1:0; q(1-it->first().direction(),0)=t; Mat q2=T.eval(q); c.near("strong coupling: no gap",Mat(def.patch(it->first().patch).eval(q)),Mat(def.patch(it->second().patch).eval(q2)),1e-9,1,m.desc); }
  // unconstrained dofs are exactly those not touched by a condition: count free dofs
  { std::set<std::pair<int,std::pair<int,int>>> el; for(auto&x:ds){ gsMatrix<index_t> b=m.basis.basis(x.s.patch).boundary(x.s.side()); for(index_t k=0;k<b.size();++k) for(int q=0;q<d;q++) if(x.c==-1||x.c==q) el.insert(std::make_pair((int)x.s.patch,std::make_pair((int)b(k,0),q))); } for(auto&k:cs) el.insert(std::make_pair(k.p,std::make_pair((int)m.basis.basis(k.p).functionAtCorner((boundary::corner)k.k),k.comp)));
    if(cl.empty()&&col.empty()){ for(size_t p=0;p<m.mp.nPatches();++p) for(index_t k=0;k<m.basis.basis(p).size();++k) for(int q=0;q<d;q++){ bool e=el.count(std::make_pair((int)p,std::make_pair((int)k,q)))>0; if(e) c.is("conditions eliminate their dofs",!map.is_free(k,p,q),m.desc); else if(m.continuity<0) c.is("no other dof is eliminated",map.is_free(k,p,q),m.desc); } } }
  // linear system: K u = F - K_fixed g
  if(n>0&&c.is("status",m.A->assemble()==St::Success,"assemble")){ Mat rhs=m.A->rhs(),K=m.A->matrix().toDense(); Full G=zeroFull(m); Mat zero=Mat::Zero(n,1); MP d0=m.A->constructDisplacement(zero); for(size_t p=0;p<G.size();++p) G[p]=d0.patch(p).coefs(); Mat kg=collapse(map,refTangentDir(m,m.mp,G)),f=collapse(map,refForce(m)); double sc=std::max(kg.cwiseAbs().maxCoeff(),std::max(f.cwiseAbs().maxCoeff(),1e-12)); c.near("linear rhs carries the prescribed displacements",rhs,Mat(f-kg),2e-6,sc,m.desc);
    // stationarity: the solved field has zero residual against every free function
    gsEigen::LDLT<Mat::Base> ldl(K); if(nd>0&&ldl.info()==gsEigen::Success&&ldl.isPositive()){ gsEigen::VectorXd dd=ldl.vectorD().cwiseAbs(); if(dd.minCoeff()>1e-6*dd.maxCoeff()){ Mat us=ldl.solve(rhs); MP ds2=m.A->constructDisplacement(us); Full W=zeroFull(m); for(size_t p=0;p<W.size();++p) W[p]=ds2.patch(p).coefs(); Mat res=collapse(map,refTangentDir(m,m.mp,W)); c.near("solution minimises the constrained energy",res,f,2e-6,std::max(sc,res.cwiseAbs().maxCoeff()),m.desc); } else c.skip("solution minimises the constrained energy"); } else c.skip("solution minimises the constrained energy"); }
}
}
