// C12 (multi-patch coupling against a single patch) and C13 (frame, parametrisation, refinement).
#include "model.h"
namespace vm {
typedef ThinShellAssemblerStatus St;
typedef std::vector<gsGeometry<real_t>::uPtr> Parts;
struct Ori { bool s,a,b; bool odd() const { return ((int)s+(int)a+(int)b)%2; } };
static Mat oriPar(const Ori&o,const Mat&u){ Mat v(2,1); double a=o.a?1-u(0,0):u(0,0),b=o.b?1-u(1,0):u(1,0); if(o.s) v<<b,a; else v<<a,b; return v; }
static boxSide oriSide(const Ori&o,boxSide s){ int dir=s.direction(); bool par=s.parameter(); if(dir==0?o.a:o.b) par=!par; if(o.s) dir=1-dir; return boxSide(dir,par); }
static gsGeometry<real_t>::uPtr like(const gsGeometry<real_t>&g,const Mat&c){ gsGeometry<real_t>::uPtr h(g.clone().release()); h->coefs()=c; return h; }
// scalar work of a full field with a dof vector
static double work(const gsDofMapper&map,const Mat&v,const Full&w){ double s=0; std::vector<char> seen(map.freeSize(),0); for(size_t p=0;p<w.size();++p) for(index_t k=0;k<w[p].rows();++k) for(index_t c=0;c<w[p].cols();++c) if(map.is_free(k,p,c)){ index_t i=map.index(k,p,c); if(!seen[i]){ seen[i]=1; s+=v(i,0)*w[p](k,c); } } return s; }
static Mat toDofs(const gsDofMapper&map,const Full&w){ Mat r=Mat::Zero(map.freeSize(),1); for(size_t p=0;p<w.size();++p) for(index_t k=0;k<w[p].rows();++k) for(index_t c=0;c<w[p].cols();++c) if(map.is_free(k,p,c)) r(map.index(k,p,c),0)=w[p](k,c); return r; }
static Full toFull(const gsDofMapper&map,const Model&m,const Mat&v){ Full F=zeroFull(m); for(size_t p=0;p<F.size();++p) for(index_t k=0;k<F[p].rows();++k) for(index_t c=0;c<F[p].cols();++c) if(map.is_free(k,p,c)) F[p](k,c)=v(map.index(k,p,c),0); return F; }

struct SplitMap { int dir; bool four; std::vector<Ori> ori; std::vector<int> perm; // perm[k]: position of part k
  Parts cut(const gsGeometry<real_t>&g) const { Parts v=split(g,dir,0.5); if(four){ Parts a=split(*v[0],1-dir,0.5),b=split(*v[1],1-dir,0.5); v.clear(); for(auto&x:a) v.push_back(give(x)); for(auto&x:b) v.push_back(give(x)); } Parts o(v.size()); for(size_t k=0;k<v.size();++k) o[perm[k]]=orient(*v[k],ori[k].s,ori[k].a,ori[k].b); return o; }
  void map(const Mat&u,int&p,Mat&v) const { Mat w=u; int k=0; if(w(dir,0)>0.5){ k=1; w(dir,0)=2*w(dir,0)-1; } else w(dir,0)*=2; if(four){ k*=2; if(w(1-dir,0)>0.5){ k+=1; w(1-dir,0)=2*w(1-dir,0)-1; } else w(1-dir,0)*=2; } p=perm[k]; v=oriPar(ori[k],w); }
  void sides(boxSide s,std::vector<patchSide>&o) const { for(size_t k=0;k<perm.size();++k){ int k0=four?(int)k/2:(int)k,k1=four?(int)k%2:-1; int need=s.parameter()?1:0; if(s.direction()==dir){ if(k0!=need) continue; } else if(four&&k1!=need) continue; o.push_back(patchSide(perm[k],oriSide(ori[k],s))); } }
};
// make the single-patch model with C0 lines where it will be cut, and the split model
static void pair(Case&c,Model&s,Model&t,SplitMap&sm,bool odd){ Rng&r=c.rng; int v=c.index%3; s.d=v==0?2:3; s.bending=v==2; t.d=s.d; t.bending=s.bending;
  int kind=s.d==2?r.integer(0,1):r.integer(0,G_WILD); int p1=r.chance(0.7)?2:3,p2=r.chance(0.7)?2:3; auto g=genPatch(r,s.d,kind,p1,p2,r.integer(1,2),r.integer(1,2),0,1,0,1,nullptr,r.chance(0.6)?0.03:0);
  sm.dir=r.integer(0,1); sm.four=r.chance(0.3); gsTensorBSpline<2,real_t>&b=dynamic_cast<gsTensorBSpline<2,real_t>&>(*g);
  for(int q=0;q<2;q++) if(q==sm.dir||sm.four){ int mu=b.knots(q).multiplicity(0.5); if(mu<b.degree(q)) b.insertKnot(0.5,q,b.degree(q)-mu); }
  // make the geometry non-smooth at the cut in part of the cases: move the middle control rows
  bool kink=r.chance(0.4)&&kind!=G_FLAT; if(kink) for(index_t i=0;i<b.coefs().rows();++i) for(int k=0;k<s.d;k++) b.coefs()(i,k)+=0.02*r.uni(-1,1);
  int np=sm.four?4:2; sm.perm.resize(np); for(int k=0;k<np;k++) sm.perm[k]=k; if(r.chance(0.5)) for(int k=np;k>1;--k) std::swap(sm.perm[k-1],sm.perm[r.next()%k]);
  bool re=r.chance(0.7); for(int k=0;k<np;k++){ Ori o={re&&r.chance(0.4),re&&r.chance(0.4),re&&r.chance(0.4)}; if(o.odd()&&(s.d==2||!odd)) o.a=!o.a; sm.ori.push_back(o); }
  s.mp.clear(); s.mp.addPatch(like(b,b.coefs())); s.mp.computeTopology(1e-6); s.mp.addAutoBoundaries(); s.basis=gsMultiBasis<real_t>(s.mp,false);
  Parts ps=sm.cut(b); t.mp.clear(); for(auto&x:ps) t.mp.addPatch(give(x)); t.mp.computeTopology(1e-6); t.mp.addAutoBoundaries(); t.basis=gsMultiBasis<real_t>(t.mp,false);
  std::ostringstream os; os<<(s.d==2?"planar":s.bending?"shell":"membrane")<<" "<<geoName(kind)<<(kink?" kink":"")<<" p"<<p1<<p2<<" dir"<<sm.dir<<" np"<<np<<(re?" reoriented":""); s.desc=t.desc=os.str(); }
static Full cutFull(const Model&s,const SplitMap&sm,const Mat&w){ Parts p=sm.cut(*like(s.mp.patch(0),w)); Full F; for(auto&x:p) F.push_back(x->coefs()); return F; }

VM_PROPERTY(C12,1500,30000){
  Rng&r=c.rng; Model s,t; SplitMap sm; bool press=r.chance(0.4); pair(c,s,t,sm,!press); int d=s.d;
  int combo=r.chance(0.5)?0:r.integer(0,(int)combos().size()-1); genMats(r,s,false,r.chance(0.5),false,0.01,0.06,combo); for(size_t p=0;p<t.mp.nPatches();++p) t.specs.push_back(s.specs[0]); t.linearMat=s.linearMat; t.makeMats();
  LoadOpt lo={r.chance(0.6),press,false,r.chance(0.5)}; genLoads(r,s,lo,1); if(s.force.m==2&&d==3) s.force=vfield(r,3,3,1,0.5); t.force=s.force; t.hasPress=s.hasPress; t.press=s.press; t.hasFound=d==3&&r.chance(0.4); if(t.hasFound) t.found=vfield(r,3,3,5,1); s.hasFound=t.hasFound; s.found=t.found;
  for(auto&L:s.loads){ PLoad q=L; q.parametric=true; sm.map(L.par,q.patch,q.par); t.loads.push_back(q); gsVector<real_t> pt=q.par.col(0),vv=q.val.col(0); t.pl.addLoad(pt,vv,q.patch,true); } if(!s.loads.empty()){ s.pl.clear(); for(auto&L:s.loads){ gsVector<real_t> pt=L.par.col(0),vv=L.val.col(0); s.pl.addLoad(pt,vv,0,true); } }
  s.bc.clear(); t.bc.clear(); std::vector<VField> keep; keep.reserve(8); bool fixed=r.chance(0.5); int fs=r.integer(1,4); VField g=vfield(r,d,d,0.02,0.01);
  if(r.chance(0.5)){ int ns=r.integer(1,4); if(!(fixed&&ns==fs)){ keep.push_back(vfield(r,d,d,1,0.5)); s.bc.addCondition(0,boxSide(ns),condition_type::neumann,keep.back().f.get(),0,false,-1); std::vector<patchSide> o; sm.sides(boxSide(ns),o); for(auto&x:o) t.bc.addCondition(x.patch,x.side(),condition_type::neumann,keep.back().f.get(),0,false,-1); s.desc+=" N"; } }
  if(fixed){ s.bc.addCondition(0,boxSide(fs),condition_type::dirichlet,g.f.get(),0,false,-1); std::vector<patchSide> o; sm.sides(boxSide(fs),o); for(auto&x:o) t.bc.addCondition(x.patch,x.side(),condition_type::dirichlet,g.f.get(),0,false,-1); s.desc+=" D"; }
  s.bc.setGeoMap(s.mp); t.bc.setGeoMap(t.mp); t.continuity=0; s.A=s.fresh(); t.A=t.fresh(); gsDofMapper ms=s.A->getMapper(),mt=t.A->getMapper();
  c.key=t.desc+" "+s.specs[0].name(); c.desc<<s.desc<<" "<<s.specs[0].name()<<" perm"<<sm.perm[0]; c.tag=d==2?"2d":s.bending?"shell":"membrane";
  if(!c.is("same number of unknowns",ms.freeSize()==mt.freeSize(),c.desc.str()+": "+std::to_string(ms.freeSize())+" / "+std::to_string(mt.freeSize()))) return; index_t n=ms.freeSize(); if(n==0){ c.trivial=true; return; }
  Mat u=randSol(r,n,0.008); MP sd=s.A->constructSolution(u); if(!defAdmissible(s,sd,1.6)){ c.trivial=true; return; }
  // transfer: coefficients of the displacement, cut
  Mat us=s.A->constructDisplacement(u).patch(0).coefs(); Full ut=cutFull(s,sm,us); Mat uT=toDofs(mt,ut);
  MP td=t.A->constructSolution(uT); { Full want=cutFull(s,sm,sd.patch(0).coefs()); for(size_t p=0;p<want.size();++p) c.near("same deformed surface",td.patch(p).coefs(),want[p],1e-9,1,c.desc.str()); }
  auto dirS=[&](Mat&x,Mat&y){ x=randSol(r,n,1); Full X=toFull(ms,s,x); Full Y=cutFull(s,sm,X[0]); y=toDofs(mt,Y); };
  Mat w1,v1,w2,v2; dirS(w1,v1); dirS(w2,v2);
  auto cmp=[&](const std::string&mon,bool mat){ Mat rs=s.A->rhs(),rt=t.A->rhs(); double a=(rs.transpose()*w1)(0,0),b=(rt.transpose()*v1)(0,0); double sc=(rs.cwiseAbs().transpose()*w1.cwiseAbs())(0,0)+(rt.cwiseAbs().transpose()*v1.cwiseAbs())(0,0)+1e-12; c.near(mon+" vector",b,a,2e-7,sc,c.desc.str());
    if(mat){ Mat Ks=s.A->matrix().toDense()*w2,Kt=t.A->matrix().toDense()*v2; a=(w1.transpose()*Ks)(0,0); b=(v1.transpose()*Kt)(0,0); sc=(Ks.cwiseAbs().transpose()*w1.cwiseAbs())(0,0)+(Kt.cwiseAbs().transpose()*v1.cwiseAbs())(0,0); c.near(mon+" matrix",b,a,2e-7,sc,c.desc.str()); } };
  if(!c.is("status",s.A->assemble()==St::Success&&t.A->assemble()==St::Success,"")) return; cmp("linear",true);
  if(!c.is("status",s.A->assembleVector(sd)==St::Success&&t.A->assembleVector(td)==St::Success,"")) return; cmp("residual",false);
  if(!c.is("status",s.A->assembleMatrix(sd)==St::Success&&t.A->assembleMatrix(td)==St::Success,"")) return; { Mat Ks=s.A->matrix().toDense()*w2,Kt=t.A->matrix().toDense()*v2; double a=(w1.transpose()*Ks)(0,0),b=(v1.transpose()*Kt)(0,0),sc=(Ks.cwiseAbs().transpose()*w1.cwiseAbs())(0,0)+(Kt.cwiseAbs().transpose()*v1.cwiseAbs())(0,0); c.near("tangent matrix",b,a,2e-7,sc,c.desc.str()); }
  if(!c.is("status",s.A->assembleMass()==St::Success&&t.A->assembleMass()==St::Success,"")) return; { Mat Ks=s.A->massMatrix().toDense()*w2,Kt=t.A->massMatrix().toDense()*v2; double a=(w1.transpose()*Ks)(0,0),b=(v1.transpose()*Kt)(0,0),sc=(Ks.cwiseAbs().transpose()*w1.cwiseAbs())(0,0); c.near("mass",b,a,1e-9,sc,c.desc.str()); }
}
// weak interface conditions
VM_PROPERTY(C12w,1500,30000){
  Rng&r=c.rng; Model s,t; SplitMap sm; pair(c,s,t,sm,r.chance(0.6)); int d=s.d; if(d==3) s.bending=t.bending=r.chance(0.6);
  genMats(r,s,true,r.chance(0.3),false,0.02,0.1); for(size_t p=0;p<t.mp.nPatches();++p) t.specs.push_back(s.specs[0]); t.makeMats(); LoadOpt lo={false,false,false,false}; genLoads(r,t,lo,1); t.bc.clear(); t.bc.setGeoMap(t.mp); t.continuity=-1;
  int im=d==2?1:r.integer(1,3); double pd=r.logu(0.5,1e3),pr=pd; 
  std::unique_ptr<ShellA> A=t.fresh(),B=t.fresh(),C=t.fresh(); gsBoxTopology::ifContainer ifs=t.mp.topology().interfaces(),inv; for(auto&x:ifs) inv.push_back(x.getInverse());
  for(ShellA*a:{A.get(),C.get()}){ gsOptionList o=a->options(); o.setReal("IfcPenalty",pd); a->setOptions(o); if(im&1) a->addWeakC0(a==A.get()?ifs:inv); if(im&2) a->addWeakC1(a==A.get()?ifs:inv); }
  gsDofMapper map=A->getMapper(); index_t n=map.freeSize(); c.key=t.desc+" ifc"+std::to_string(im); c.desc<<t.desc<<" weak"<<im<<" pen="<<pd; c.tag=std::string(d==2?"2d":"3d")+" ifc"+std::to_string(im); (void)pr;
  double big=0,bigK=0; auto fl=[&](double sc,double tol){ return std::max(std::max(sc,1e-300),1e-12*big/tol); }; // round-off of the cancelled internal forces
  auto res=[&](const MP&def,ShellA&X){ if(X.assembleVector(def)!=St::Success) c.fail("status","assembleVector"); Mat a=X.rhs(); big=a.cwiseAbs().maxCoeff(); B->assembleVector(def); return Mat(a-B->rhs()); };
  auto tan=[&](const MP&def,ShellA&X){ X.assembleMatrix(def); Mat a=X.matrix().toDense(); bigK=std::max(bigK,a.cwiseAbs().maxCoeff()); B->assembleMatrix(def); return Mat(a-Mat(B->matrix().toDense())); };
  auto move=[&](const Full&u){ MP def=t.mp; for(size_t p=0;p<u.size();++p) def.patch(p).coefs()+=u[p]; return def; };
  Mat K0=tan(t.mp,*A); double kk=K0.cwiseAbs().maxCoeff(); double L=0.02; if(!c.is("coupling present",kk>0||im==2,c.desc.str())) return;
  double h=1e-3; // reference force level: response to a jump of size L of one patch (C0), or a rotation (C1)
  Full jump=zeroFull(t); int jp=r.integer(0,t.mp.nPatches()-1); Mat dirv(1,d); for(int k=0;k<d;k++) dirv(0,k)=r.uni(-1,1); for(index_t i=0;i<jump[jp].rows();++i) jump[jp].row(i)=L*dirv; Mat rj=res(move(jump),*A),wj=toDofs(map,jump); double E1=-(rj.transpose()*wj)(0,0);
  if(im&1){ c.is("jump is resisted",E1>0,c.desc.str()+" work "+std::to_string(E1)); Full j2=jump; for(auto&x:j2) x*=2; Mat r2=res(move(j2),*A); c.near("jump force linear in jump",r2,Mat(2*rj),im==1?1e-7:1e-6,fl(rj.cwiseAbs().maxCoeff(),1e-7),c.desc.str()); }
  // translation of everything: no coupling force; rigid rotation: none either
  { Full tr=zeroFull(t); for(auto&x:tr) for(index_t i=0;i<x.rows();++i) x.row(i)=0.3*dirv; Mat q=res(move(tr),*A); c.near("no force under translation",q,Mat(Mat::Zero(n,1)),1e-8,fl(kk*0.3,1e-8),c.desc.str()); }
  { Deform D=genDeform(r,d,0,0,true); MP def=t.mp; applyDeform(r,D,def); Mat q=res(def,*A); c.near("no force under rigid motion",q,Mat(Mat::Zero(n,1)),1e-8,fl(kk,1e-8),c.desc.str()); }
  // any displacement the single patch (smooth in the cut direction) can make: only for C0 parts the displacement needs to be continuous
  if(im==1){ Mat w=randSol(r,s.basis.basis(0).size()*d,0.03); w.resize(s.basis.basis(0).size(),d); Full F=cutFull(s,sm,w); Mat q=res(move(F),*A); c.near("no force for continuous displacement",q,Mat(Mat::Zero(n,1)),1e-8,fl(kk*0.03,1e-8),c.desc.str()); Mat wd=toDofs(map,F); c.near("no stiffness for continuous displacement",Mat(K0*wd),Mat(Mat::Zero(n,1)),1e-8,0.03*std::max(kk,1e-4*bigK),c.desc.str()); }
  else { // smooth displacement of a surface with a kink-free cut: affine map of the whole keeps normals aligned if the surface is smooth; use a C1 polynomial field on the smooth geometry
    if(t.desc.find("kink")==std::string::npos){ // quadratic global displacement, applied before the cut: knots at 0.5 inserted afterwards, so C1
      gsTensorBSpline<2,real_t>&gs=dynamic_cast<gsTensorBSpline<2,real_t>&>(s.mp.patch(0)); int p1=gs.degree(0),p2=gs.degree(1); gsKnotVector<real_t> k1(0,1,0,p1+1),k2(0,1,0,p2+1); Mat cw((p1+1)*(p2+1),d); for(index_t i=0;i<cw.rows();++i)for(int k=0;k<d;k++) cw(i,k)=0.04*r.uni(-1,1); gsTensorBSpline<2,real_t> u0(k1,k2,cw);
      for(int q=0;q<2;q++){ std::vector<real_t> un=gs.knots(q).unique(); for(real_t x:un) if(x>1e-12&&x<1-1e-12) u0.insertKnot(x,q,gs.knots(q).multiplicity(x)); }
      Full F=cutFull(s,sm,u0.coefs()); Mat q=res(move(F),*A); c.near("no force for smooth displacement",q,Mat(Mat::Zero(n,1)),1e-7,fl(kk*0.04,1e-7),c.desc.str()); } }
  if(im&2){ // rotate one patch about an axis through a random point: with C1 coupling alone a relative rotation costs work
    Full rot=zeroFull(t); double e[3]={r.uni(-1,1),r.uni(-1,1),r.uni(-1,1)}; const Mat&X=t.mp.patch(jp).coefs(); for(index_t i=0;i<X.rows();++i){ double x[3]={X(i,0),X(i,1),X(i,2)}; rot[jp](i,0)=h*(e[1]*x[2]-e[2]*x[1]); rot[jp](i,1)=h*(e[2]*x[0]-e[0]*x[2]); rot[jp](i,2)=h*(e[0]*x[1]-e[1]*x[0]); } Mat wd=toDofs(map,rot); double q=(wd.transpose()*(K0*wd))(0,0); c.is("relative rotation is resisted",q>0,c.desc.str()+" "+std::to_string(q)); }
  // positive semi-definite at rest
  { Mat S=0.5*(K0+K0.transpose()); gsEigen::SelfAdjointEigenSolver<Mat::Base> es(S,gsEigen::EigenvaluesOnly); c.is("penalty never negative",es.eigenvalues().minCoeff()>-1e-9*std::max(kk,1e-4*bigK)*n,c.desc.str()+" "+std::to_string(es.eigenvalues().minCoeff())); c.near("penalty symmetric",K0,Mat(K0.transpose()),1e-9,std::max(kk,1e-4*bigK),c.desc.str()); }
  // naming the other side first: same patch-wise metrics and material here, except the kinked ones
  if(s.specs[0].t.constant&&s.specs[0].par[0].constant&&s.specs[0].par[1].constant&&t.desc.find("kink")==std::string::npos){ Full rd=zeroFull(t); for(auto&x:rd) for(index_t i=0;i<x.rows();++i) for(int k=0;k<d;k++) x(i,k)=0.02*r.uni(-1,1); MP def=move(rd); Mat a=res(def,*A),b=res(def,*C); double sc=std::max(a.cwiseAbs().maxCoeff(),1e-300); c.near("independent of the side named first",b,a,1e-6,fl(sc,1e-6),c.desc.str()); }
  // interfaces that are not named get the default coupling; named ones (uncoupled, strong) do not
  if(r.chance(0.6)){ std::unique_ptr<ShellA> X=t.fresh(),Y=t.fresh(); int deflt=d==2?r.integer(-1,0):r.integer(-1,1); gsOptionList o=X->options(); o.setReal("IfcPenalty",pd); Y->setOptions(o); o.setInt("IfcDefault",deflt); X->setOptions(o);
    gsBoxTopology::ifContainer s0,s1,un,w0,w1; for(auto&x:ifs){ int k=r.integer(0,6); if(k==0) s0.push_back(x); else if(k==1) s1.push_back(x); else if(k==2) un.push_back(x); else if(k==3) w0.push_back(x); else if(k==4&&d==3) w1.push_back(x); }
    X->addStrongC0(s0); X->addStrongC1(s1); X->addUncoupled(un); X->addWeakC0(w0); X->addWeakC1(w1); X->initInterfaces(); if(r.chance(0.3)) X->initInterfaces();
    for(auto&x:ifs){ auto in=[&](const gsBoxTopology::ifContainer&v){ return std::find(v.begin(),v.end(),x)!=v.end(); }; if(in(s0)||in(s1)||in(un)||in(w0)||in(w1)) continue; if(deflt==0) w0.push_back(x); if(deflt==1) w1.push_back(x); } Y->addWeakC0(w0); Y->addWeakC1(w1);
    Full rd=zeroFull(t); for(auto&x:rd) for(index_t i=0;i<x.rows();++i) for(int k=0;k<d;k++) x(i,k)=0.02*r.uni(-1,1); MP def=move(rd); Mat a=res(def,*X),b=res(def,*Y); double sc=std::max(b.cwiseAbs().maxCoeff(),1e-3*big); c.near("default interface coupling",a,b,1e-9,sc,c.desc.str()+" default "+std::to_string(deflt)); }
}

// ---------------------------------------------------------------------------------------- C13
static Field moveField(const Field&f,const Mat&R,const Vec&t){ if(f.constant) return f; int d=R.rows(); Mat a(1,d); a(0,0)=f.ax;a(0,1)=f.ay; if(d>2) a(0,2)=f.az; Mat ar=a*R.transpose(); double k=1-(ar*t)(0,0); Field g; g.d=d; g.constant=false; g.c0=f.c0*k; g.ax=ar(0,0)/k; g.ay=ar(0,1)/k; g.az=d>2?ar(0,2)/k:0; std::ostringstream os; os.precision(17); os<<g.c0<<"*(1+("<<g.ax<<")*x+("<<g.ay<<")*y"; if(d>2) os<<"+("<<g.az<<")*z"; os<<")"; g.f.reset(new gsFunctionExpr<real_t>(os.str(),d)); return g; }
static void exprOf(VField&F){ std::vector<std::string> e; const char*x="xyz"; for(int i=0;i<F.n;i++){ std::ostringstream os; os.precision(17); os<<"("<<F.a(i,0)<<")"; for(int j=0;j<F.m;j++) os<<"+("<<F.B(i,j)<<")*"<<x[j]; e.push_back(os.str()); } F.f.reset(new gsFunctionExpr<real_t>(e,F.m)); }
static VField moveVF(const VField&f,const Mat&R,const Vec&t){ VField g=f; Mat Q=f.n==1?Mat(Mat::Identity(1,1)):R; g.B=Q*f.B*R.transpose(); g.a=Q*f.a-g.B*t; exprOf(g); return g; }
static VField scaleVF(const VField&f,double s){ VField g=f; g.a*=s; g.B*=s; exprOf(g); return g; }
static void base(Case&c,Model&m,int np,bool loads,bool nurbs=true){ Rng&r=c.rng; int v=c.index%3; m.d=v==0?2:3; m.bending=v==2; GeoOpt g; g.d=m.d; g.np=np; g.kind=m.d==2?r.integer(0,1):(np==1&&nurbs?r.integer(0,G_N-1):r.integer(0,G_WILD)); g.p=r.chance(0.7)?2:3; g.n1=r.integer(1,2); g.n2=np>1?1:r.integer(1,2); g.reorient=np>1&&r.chance(0.6); g.noise=r.chance(0.6)?0.03:0; genGeo(r,m,g);
  m.desc=std::string(m.d==2?"planar":m.bending?"shell":"membrane")+" "+geoName(g.kind)+" np"+std::to_string(m.mp.nPatches())+" p"+std::to_string(g.p); c.tag=m.d==2?"2d":m.bending?"shell":"membrane";
  LoadOpt lo={loads&&r.chance(0.6),loads&&r.chance(0.5),false,loads&&r.chance(0.4)}; genLoads(r,m,lo,1); if(m.force.m!=m.d) m.force=vfield(r,m.d,m.d,1,0.5,m.d==2); for(auto&L:m.loads) L.parametric=true; m.pl.clear(); for(auto&L:m.loads){ gsVector<real_t> pt=L.par.col(0),vv=L.val.col(0); m.pl.addLoad(pt,vv,L.patch,true); } }
struct BcRec { patchSide s; int type; VField f; };
static std::vector<BcRec> someBC(Rng&r,const Model&m){ std::vector<BcRec> v; std::vector<patchSide> sides(m.mp.topology().bBegin(),m.mp.topology().bEnd()); for(size_t i=sides.size();i>1;--i) std::swap(sides[i-1],sides[r.next()%i]); size_t k=0; int kinds[]={0,1,2,3}; for(int q:kinds) if(k<sides.size()&&r.chance(q==0?0.6:0.35)){ if((q==3)&&!(m.d==3&&m.bending)) continue; BcRec b; b.s=sides[k++]; b.type=q; b.f=q==1?vfield(r,m.d,m.d,1,0.5):q==3?vfield(r,m.d,m.d,0,0,true):vfield(r,m.d,m.d,0.01,0.005); v.push_back(b); } return v; }
static void applyBC(Model&m,const std::vector<BcRec>&v){ m.bc.clear(); for(auto&b:v) m.bc.addCondition(b.s.patch,b.s.side(),b.type==0?condition_type::dirichlet:b.type==1?condition_type::neumann:b.type==2?condition_type::weak_dirichlet:condition_type::weak_clamped,b.f.f.get(),0,false,-1); m.bc.setGeoMap(m.mp); }
static void copyLoads(Model&b,const Model&a){ b.force=a.force;b.hasPress=a.hasPress;b.press=a.press;b.hasFound=a.hasFound;b.found=a.found;b.loads=a.loads;b.pl=a.pl;b.continuity=a.continuity; }
// compare all assembled objects of two models; tr maps full fields of a to full fields of b (linear)
static void compareModels(Case&c,Model&a,Model&b,const std::function<Full(const Full&)>&tr,double tol,const MP&da,const MP&db){ Rng&r=c.rng; gsDofMapper ma=a.A->getMapper(),mb=b.A->getMapper(); std::string D=c.desc.str();
  if(!c.is("same number of unknowns",ma.freeSize()==mb.freeSize(),D)) return; index_t n=ma.freeSize(); if(n==0){ c.trivial=true; return; }
  auto mv=[&](const Mat&v){ return toDofs(mb,tr(toFull(ma,a,v))); }; Mat w=randSol(r,n,1),wb=mv(w);
  auto cmp=[&](const std::string&mon,const Mat&x,const Mat&y,double f=1){ double sc=std::max(x.cwiseAbs().maxCoeff(),1e-14); c.near(mon,y,mv(x),tol*f,sc,D); };
  if(!c.is("status",a.A->assemble()==St::Success&&b.A->assemble()==St::Success,"assemble")) return; double lin=std::max(1e-14,(double)a.A->rhs().cwiseAbs().maxCoeff()); c.near("linear load vector",Mat(b.A->rhs()),mv(a.A->rhs()),tol*10,lin,D); cmp("linear stiffness",Mat(a.A->matrix()*w),Mat(b.A->matrix()*wb));
  if(!c.is("status",a.A->assembleVector(da)==St::Success&&b.A->assembleVector(db)==St::Success,"assembleVector")) return; cmp("residual",a.A->rhs(),b.A->rhs(),20);
  if(!c.is("status",a.A->assembleMatrix(da)==St::Success&&b.A->assembleMatrix(db)==St::Success,"assembleMatrix")) return; cmp("tangent",Mat(a.A->matrix()*w),Mat(b.A->matrix()*wb),20);
  if(!c.is("status",a.A->assembleMass()==St::Success&&b.A->assembleMass()==St::Success,"assembleMass")) return; cmp("mass",Mat(a.A->massMatrix()*w),Mat(b.A->massMatrix()*wb)); }
VM_PROPERTY(C13,2100,40000){
  Rng&r=c.rng; Model a; int mode=(c.index/3)%3; bool multi=mode==0&&r.chance(0.4); base(c,a,multi?2:1,true,mode!=2||r.chance(0.3)); int d=a.d; genMats(r,a,r.chance(0.5),r.chance(0.5),multi&&r.chance(0.5),0.01,0.06); a.continuity=multi&&r.chance(0.7)?0:-1; bool weakIfc=multi&&a.continuity<0&&a.linearMat&&r.chance(0.6);
  std::vector<BcRec> bcs=someBC(r,a); if(mode==2||!a.linearMat) for(size_t i=0;i<bcs.size();) { if(bcs[i].type>=2) bcs.erase(bcs.begin()+i); else ++i; } applyBC(a,bcs); a.A=a.fresh();
  if(weakIfc){ a.A->addWeakC0(a.mp.topology().interfaces()); if(d==3) a.A->addWeakC1(a.mp.topology().interfaces()); }
  Mat u=randSol(r,a.A->numDofs(),0.02); MP da=a.A->constructSolution(u); Model b; b.d=d;b.bending=a.bending; b.linearMat=a.linearMat; std::string D;
  { std::ostringstream os; os<<a.desc<<" "<<a.specs[0].name(); for(auto&x:bcs) os<<" b"<<x.type; if(weakIfc) os<<" weakIfc"; D=os.str(); }
  if(!defAdmissible(a,da,1.6)){ c.trivial=true; return; }
  if(mode==0){ // frame
    Mat R=randRot(r,d); Vec t(d); for(int k=0;k<d;k++) t(k)=r.uni(-2,2); auto rig=[&](const MP&m){ MP o=m; for(size_t p=0;p<o.nPatches();++p){ Mat&x=o.patch(p).coefs(); x=(x*R.transpose()).eval(); for(index_t i=0;i<x.rows();++i) x.row(i)+=t.transpose(); } return o; };
    b.mp=rig(a.mp); b.basis=gsMultiBasis<real_t>(b.mp,false); MP db=rig(da); copyLoads(b,a); b.force=moveVF(a.force,R,t); if(d==2){ b.force=a.force; b.force.a=R*a.force.a; gsVector<real_t> vv=b.force.a.col(0); b.force.f.reset(new gsConstantFunction<real_t>(vv,2)); } if(a.hasPress) b.press=moveVF(a.press,R,t);
    b.pl.clear(); b.loads.clear(); for(auto&L:a.loads){ PLoad q=L; q.val=R*L.val; b.loads.push_back(q); gsVector<real_t> pt=q.par.col(0),vv=q.val.col(0); b.pl.addLoad(pt,vv,q.patch,true); }
    b.specs=a.specs; for(auto&s:b.specs){ s.t=moveField(s.t,R,t); s.rho=moveField(s.rho,R,t); for(auto&p:s.par) p=moveField(p,R,t); } b.makeMats(); std::vector<BcRec> bb=bcs; for(auto&x:bb) x.f=x.type==3?x.f:moveVF(x.f,R,t); applyBC(b,bb); b.A=b.fresh(); if(weakIfc){ b.A->addWeakC0(b.mp.topology().interfaces()); if(d==3) b.A->addWeakC1(b.mp.topology().interfaces()); }
    c.key=a.desc+" frame "+a.specs[0].name()+(weakIfc?" weakIfc":""); c.desc<<D<<" frame"; c.tag+=" frame";
    compareModels(c,a,b,[&](const Full&f){ Full g=f; for(auto&x:g) x=(x*R.transpose()).eval(); return g; },1e-8,da,db);
    c.near("area",b.A->getArea(b.mp),a.A->getArea(a.mp),1e-10,1,c.desc.str());
    if(d==3){ Mat pts(2,2); pts<<r.uni(0.1,0.9),r.uni(0.1,0.9),r.uni(0.1,0.9),r.uni(0.1,0.9); Mat sa=a.A->computePrincipalStretches(pts,da,0),sb=b.A->computePrincipalStretches(pts,db,0); c.near("principal stretches",sb,sa,1e-9,1,c.desc.str()); }
    if(!bcs.empty()&&a.mp.nPatches()==1){ patchSide ps=bcs[0].s; Mat fa=a.A->boundaryForce(da,ps),fb=b.A->boundaryForce(db,ps); c.near("boundary force",Mat(fb),Mat(R*fa),1e-7,std::max(fa.norm(),1e-10),c.desc.str()); }
  } else if(mode==1){ // parameter directions
    Ori o={r.chance(0.5),r.chance(0.5),r.chance(0.5)}; if(d==2&&o.odd()) o.a=!o.a; const gsGeometry<real_t>&g=a.mp.patch(0); auto ro=[&](const gsGeometry<real_t>&x){ return orient(x,o.s,o.a,o.b); }; b.mp.clear(); b.mp.addPatch(ro(g)); b.mp.computeTopology(1e-6); b.mp.addAutoBoundaries(); b.basis=gsMultiBasis<real_t>(b.mp,false); MP db; db.addPatch(ro(da.patch(0)));
    copyLoads(b,a); if(a.hasPress&&o.odd()) b.press=scaleVF(a.press,-1); b.pl.clear(); b.loads.clear(); for(auto&L:a.loads){ PLoad q=L; q.par=oriPar(o,L.par); b.loads.push_back(q); gsVector<real_t> pt=q.par.col(0),vv=q.val.col(0); b.pl.addLoad(pt,vv,0,true); }
    b.specs=a.specs; b.makeMats(); std::vector<BcRec> bb=bcs; for(auto&x:bb) x.s=patchSide(0,oriSide(o,x.s.side())); applyBC(b,bb); b.A=b.fresh(); c.key=a.desc+" reparam"+std::to_string(o.s*4+o.a*2+o.b)+" "+a.specs[0].name(); c.desc<<D<<" reparam "<<o.s<<o.a<<o.b; c.tag+=" reparam";
    compareModels(c,a,b,[&](const Full&f){ gsGeometry<real_t>::uPtr x(g.clone().release()); x->coefs()=f[0]; Full q; q.push_back(ro(*x)->coefs()); return q; },1e-8,da,db);
  } else { // refinement / elevation of geometry and basis together; forces tested with coarse functions
    bool fields=false; for(auto&s:a.specs){ if(!s.t.constant||!s.rho.constant) fields=true; for(auto&p:s.par) if(!p.constant) fields=true; } (void)fields;
    int how=r.integer(0,3); const char*nm[]={"h","p","k","h+p"}; MP mpb=a.mp,db=da; auto refine=[&](gsGeometry<real_t>&x){ if(how==0) x.uniformRefine(); if(how==1) x.degreeElevate(1); if(how==2) x.uniformRefine(1,2); if(how==3){ x.uniformRefine(); x.degreeElevate(1); } };
    refine(mpb.patch(0)); refine(db.patch(0)); b.mp=mpb; b.basis=gsMultiBasis<real_t>(b.mp,false); copyLoads(b,a); b.specs=a.specs; b.makeMats(); applyBC(b,bcs); b.A=b.fresh(); for(ShellA*x:{a.A.get(),b.A.get()}){ gsOptionList op=x->options(); op.setInt("ExprAssembler.quB",7); x->setOptions(op); }
    // BC data on the finer basis: use homogeneous ones only
    c.key=a.desc+" refine-"+nm[how]+" "+a.specs[0].name(); c.desc<<D<<" refine "<<nm[how]; c.tag+=std::string(" refine"); for(auto&x:bcs) if(x.type==0){ c.key+=" D"; }
    gsDofMapper ma=a.A->getMapper(),mb=b.A->getMapper(); index_t n=ma.freeSize(); if(n==0){ c.trivial=true; return; } Mat w1=randSol(r,n,1),w2=randSol(r,n,1); auto lift=[&](const Mat&v){ Full f=toFull(ma,a,v); gsGeometry<real_t>::uPtr x(a.mp.patch(0).clone().release()); x->coefs()=f[0]; refine(*x); Full q; q.push_back(x->coefs()); return toDofs(mb,q); }; Mat v1=lift(w1),v2=lift(w2); double tol=2e-6;
    auto sc1=[&](const Mat&x,const Mat&y,const Mat&p,const Mat&q){ return std::max(1e-13,0.5*((x.cwiseAbs().transpose()*p.cwiseAbs())(0,0)+(y.cwiseAbs().transpose()*q.cwiseAbs())(0,0))); };
    auto vec=[&](const char*mon){ Mat x=a.A->rhs(),y=b.A->rhs(); c.near(mon,(y.transpose()*v1)(0,0),(x.transpose()*w1)(0,0),tol,sc1(x,y,w1,v1),c.desc.str()); }; auto mat=[&](const char*mon,const gsSparseMatrix<real_t>&X,const gsSparseMatrix<real_t>&Y){ Mat x=X*w2,y=Y*v2; c.near(mon,(y.transpose()*v1)(0,0),(x.transpose()*w1)(0,0),tol,sc1(x,y,w1,v1),c.desc.str()); };
    bool inh=false; for(auto&x:bcs) if(x.type==0) inh=true;
    if(!c.is("status",a.A->assemble()==St::Success&&b.A->assemble()==St::Success,"assemble")) return; if(!inh) vec("linear load work"); mat("linear stiffness work",a.A->matrix(),b.A->matrix());
    a.A->assembleVector(da); b.A->assembleVector(db); vec("residual work"); a.A->assembleMatrix(da); b.A->assembleMatrix(db); tol=1e-5; mat("tangent work",a.A->matrix(),b.A->matrix()); a.A->assembleMass(); b.A->assembleMass(); mat("mass work",a.A->massMatrix(),b.A->massMatrix());
  }
}
}
