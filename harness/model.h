// Random shell models (geometry, bases, materials, boundary conditions, loads) and an independent weak-form
// reference: own kinematics, own constitutive reference, own quadrature.
#pragma once
#include "gen.h"
namespace vm {
typedef gsThinShellAssemblerBase<real_t> ShellA;

// affine vector field  v_i(x) = a_i + sum_j B_ij x_j  over an m-dimensional argument
struct VField {
  int m,n; Mat a,B; std::shared_ptr<gsFunction<real_t>> f;
  Mat at(const Mat&x) const { Mat r=a; for(int i=0;i<n;i++) for(int j=0;j<m;j++) r(i,0)+=B(i,j)*x(j,0); return r; }
};
inline VField vfield(Rng&r,int m,int n,double amp,double grad,bool cnst=false){ VField F; F.m=m;F.n=n;F.a=Mat::Zero(n,1);F.B=Mat::Zero(n,m);
  for(int i=0;i<n;i++){ F.a(i,0)=amp*r.uni(-1,1); if(!cnst) for(int j=0;j<m;j++) F.B(i,j)=grad*r.uni(-1,1); }
  if(cnst){ gsVector<real_t> v(n); for(int i=0;i<n;i++) v(i)=F.a(i,0); F.f.reset(new gsConstantFunction<real_t>(v,m)); return F; }
  std::vector<std::string> e; for(int i=0;i<n;i++){ std::ostringstream os; os.precision(17); os<<"("<<F.a(i,0)<<")"; const char*x="xyz"; for(int j=0;j<m;j++) os<<"+("<<F.B(i,j)<<")*"<<x[j]; e.push_back(os.str()); }
  F.f.reset(new gsFunctionExpr<real_t>(e,m)); return F; }

struct PLoad { int patch; Mat par,val; bool parametric; };
struct Model {
  int d; bool bending; MP mp; gsMultiBasis<real_t> basis; gsBoundaryConditions<real_t> bc;
  std::vector<MatSpec> specs; std::vector<gsMaterialMatrixBase<real_t>::Ptr> mats; gsMaterialMatrixContainer<real_t> cont;
  VField force; bool hasPress,hasFound; VField press,found; std::vector<PLoad> loads; gsPointLoads<real_t> pl;
  struct Neu{ patchSide ps; VField f; }; std::vector<Neu> neu; std::vector<VField> keep;
  std::unique_ptr<ShellA> A; std::string desc; int kind; std::vector<double> q;
  int continuity; bool weakBC; bool linearMat;
  std::function<std::shared_ptr<gsFunction<real_t>>(std::shared_ptr<gsFunction<real_t>>,const char*)> wrap; // decorates boundary data (fault injection)
  void deco(VField&f,const char*n) const { if(wrap) f.f=wrap(f.f,n); }
  Model():d(3),bending(true),hasPress(false),hasFound(false),kind(0),continuity(-1),weakBC(false),linearMat(true),piecewise(false){}
  Model(const Model&)=delete;
  bool piecewise; std::vector<std::shared_ptr<gsPiecewiseFunction<real_t>>> pw; // one material whose fields are given per patch
  void makeMats(){ mats.clear(); cont=gsMaterialMatrixContainer<real_t>(mp.nPatches());
    if(piecewise){ gsMaterialMatrixBase<real_t>::Ptr one(makePiecewise(specs,mp,pw).release()); for(size_t p=0;p<mp.nPatches();++p){ mats.push_back(one); cont.set(p,one); } return; }
    for(size_t p=0;p<mp.nPatches();++p){ mats.push_back(gsMaterialMatrixBase<real_t>::Ptr(specs[p].make(mp).release())); cont.set(p,mats.back()); } }
  std::unique_ptr<ShellA> fresh(bool loadsOn=true) const {
    ShellA*a; if(d==2) a=new gsThinShellAssembler<2,real_t,false>(mp,basis,bc,*force.f,cont); else if(bending) a=new gsThinShellAssembler<3,real_t,true>(mp,basis,bc,*force.f,cont); else a=new gsThinShellAssembler<3,real_t,false>(mp,basis,bc,*force.f,cont);
    std::unique_ptr<ShellA> r(a); configure(*r,loadsOn); return r; }
  void configure(ShellA&a,bool loadsOn=true) const { if(continuity>=0){ gsOptionList o=a.options(); o.setInt("Continuity",continuity); a.setOptions(o); }
    if(loadsOn){ if(hasPress) a.setPressure(*press.f); if(hasFound) a.setFoundation(*found.f); if(!loads.empty()) a.setPointLoads(pl); } }
};
// ------------------------------------------------------------------ geometry
// re-orient a tensor B-spline/NURBS patch: swap parameters and/or reverse directions
inline gsKnotVector<real_t> revKnots(const gsKnotVector<real_t>&k){ std::vector<real_t> v; for(auto it=k.rbegin();it!=k.rend();++it) v.push_back(1-*it); return gsKnotVector<real_t>(give(v),k.degree()); }
inline gsGeometry<real_t>::uPtr orient(const gsGeometry<real_t>&g,bool swap,bool r1,bool r2){
  const gsTensorBSpline<2,real_t>*b=dynamic_cast<const gsTensorBSpline<2,real_t>*>(&g); const gsTensorNurbs<2,real_t>*nb=dynamic_cast<const gsTensorNurbs<2,real_t>*>(&g);
  gsKnotVector<real_t> k1=b?b->knots(0):nb->knots(0),k2=b?b->knots(1):nb->knots(1); int n1=k1.size()-k1.degree()-1,n2=k2.size()-k2.degree()-1; Mat c=g.coefs(),o(c.rows(),c.cols()),w,wo; if(nb){ w=nb->weights(); wo=w; }
  int m1=swap?n2:n1;
  for(int j=0;j<n2;j++)for(int i=0;i<n1;i++){ int ii=r1?n1-1-i:i,jj=r2?n2-1-j:j; int a=swap?jj:ii,bb=swap?ii:jj; o.row(a+m1*bb)=c.row(i+n1*j); if(nb) wo(a+m1*bb,0)=w(i+n1*j,0); }
  if(r1) k1=revKnots(k1); if(r2) k2=revKnots(k2); if(swap) std::swap(k1,k2);
  if(nb) return gsGeometry<real_t>::uPtr(new gsTensorNurbs<2,real_t>(k1,k2,o,wo)); return gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(k1,k2,o)); }
inline std::vector<gsGeometry<real_t>::uPtr> split(const gsGeometry<real_t>&g,int dir,double xi){
  gsTensorBSpline<2,real_t> b=dynamic_cast<const gsTensorBSpline<2,real_t>&>(g); int p=b.degree(dir); int mult=b.knots(dir).multiplicity(xi); if(mult<p+1) b.insertKnot(xi,dir,p+1-mult);
  // cut the coefficient grid
  gsKnotVector<real_t> k=b.knots(dir),ko=b.knots(1-dir); std::vector<real_t> l,r; for(auto it=k.begin();it!=k.end();++it){ if(*it<=xi+1e-14) l.push_back(*it/xi); if(*it>=xi-1e-14) r.push_back((*it-xi)/(1-xi)); }
  int nl=(int)l.size()-p-1,nr=(int)r.size()-p-1; int n1=b.basis().component(0).size(),n2=b.basis().component(1).size(); int no=dir==0?n2:n1; Mat cl(nl*no,g.targetDim()),cr(nr*no,g.targetDim());
  for(int j=0;j<n2;j++)for(int i=0;i<n1;i++){ int a=dir==0?i:j,o=dir==0?j:i; Mat row=b.coefs().row(i+n1*j); if(a<nl) cl.row(dir==0?a+nl*o:o+no*a)=row; if(a>=nl) cr.row(dir==0?(a-nl)+nr*o:o+no*(a-nl))=row; }
  gsKnotVector<real_t> kl(give(l),p),kr(give(r),p); std::vector<gsGeometry<real_t>::uPtr> v; 
  if(dir==0){ v.push_back(gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(kl,ko,cl))); v.push_back(gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(kr,ko,cr))); }
  else { v.push_back(gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(ko,kl,cl))); v.push_back(gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(ko,kr,cr))); }
  return v; }
struct GeoOpt { int d,np,kind,p,n1,n2; bool reorient; double noise; };
inline void genGeo(Rng&r,Model&m,const GeoOpt&o){
  m.kind=o.kind; auto g=genPatch(r,o.d,o.kind,o.p,o.p,o.n1*(o.np>1?2:1),o.n2*(o.np>2?2:1),0,o.np>1?2:1,0,o.np>2?2:1,&m.q,o.noise);
  std::vector<gsGeometry<real_t>::uPtr> parts; if(o.np==1||o.kind==G_NURBS) parts.push_back(give(g)); else { parts=split(*g,0,0.5); if(o.np==4){ auto a=split(*parts[0],1,0.5),b=split(*parts[1],1,0.5); parts.clear(); for(auto&x:a) parts.push_back(give(x)); for(auto&x:b) parts.push_back(give(x)); } }
  m.mp.clear(); for(auto&x:parts){ if(o.reorient){ bool s=r.chance(0.3),a=r.chance(0.4),b=r.chance(0.4); if(o.d==2&&((int)s+(int)a+(int)b)%2){ a=!a; } m.mp.addPatch(orient(*x,s,a,b)); } else m.mp.addPatch(give(x)); }
  m.mp.computeTopology(1e-6); m.mp.addAutoBoundaries(); m.basis=gsMultiBasis<real_t>(m.mp,false); }
inline Mat cornerParam(int k){ Mat u(2,1); u<<(k&1),(k>>1); return u; }
// --------------------------------------------------------------------- boundary conditions
struct BcOpt { bool strong,inhom,clamped,collapsed,corner,weakD,weakC,neumann; };
inline void genBC(Rng&r,Model&m,const BcOpt&o,double L=0.02){
  std::ostringstream os; m.bc.clear(); m.keep.clear(); m.neu.clear(); m.keep.reserve(64);
  std::vector<patchSide> sides(m.mp.topology().bBegin(),m.mp.topology().bEnd()); std::vector<patchSide> pool=sides; for(size_t i=pool.size();i>1;--i) std::swap(pool[i-1],pool[r.next()%i]);
  auto take=[&](){ patchSide s=pool.empty()?sides[r.next()%sides.size()]:pool.back(); if(!pool.empty()) pool.pop_back(); return s; };
  if(o.strong){ int n=r.integer(1,2); for(int i=0;i<n;i++){ patchSide s=take(); int comp=r.chance(0.6)?-1:r.integer(0,m.d-1);
      if(o.inhom&&r.chance(0.6)){ m.keep.push_back(vfield(r,m.d,comp==-1?m.d:1,L,0.3*L,r.chance(0.4))); m.deco(m.keep.back(),"Dirichlet"); m.bc.addCondition(s.patch,s.side(),condition_type::dirichlet,m.keep.back().f.get(),0,false,comp); os<<" D"<<s.patch<<s.side()<<"c"<<comp<<"inh"; }
      else { m.bc.addCondition(s.patch,s.side(),condition_type::dirichlet,0,0,false,comp); os<<" D"<<s.patch<<s.side()<<"c"<<comp; }
      if(o.clamped&&r.chance(0.4)&&comp==-1){ int cc=m.d==3?2:0; m.bc.addCondition(s.patch,s.side(),condition_type::clamped,0,0,false,cc); os<<" Cl"; } } }
  if(o.collapsed&&r.chance(0.4)){ patchSide s=take(); int comp=r.integer(0,m.d-1); m.bc.addCondition(s.patch,s.side(),condition_type::collapsed,0,0,false,comp); os<<" Col"<<s.patch<<s.side()<<"c"<<comp; }
  if(o.corner&&r.chance(0.5)){ int p=r.integer(0,m.mp.nPatches()-1); int comp=r.integer(0,m.d-1); m.bc.addCornerValue((boundary::corner)r.integer(1,4),o.inhom?L*r.uni(-1,1):0.0,p,0,comp); os<<" Corner"; }
  if(o.weakD){ patchSide s=take(); m.keep.push_back(vfield(r,m.d,m.d,L,0.3*L,r.chance(0.4))); m.deco(m.keep.back(),"weak Dirichlet"); m.bc.addCondition(s.patch,s.side(),condition_type::weak_dirichlet,m.keep.back().f.get()); os<<" wD"<<s.patch<<s.side(); m.weakBC=true; }
  if(o.weakC){ patchSide s=take(); m.keep.push_back(vfield(r,m.d,m.d,0,0,true)); m.bc.addCondition(s.patch,s.side(),condition_type::weak_clamped,m.keep.back().f.get()); os<<" wC"<<s.patch<<s.side(); m.weakBC=true; }
  if(o.neumann){ int n=r.integer(1,2); for(int i=0;i<n&&!pool.empty();i++){ patchSide s=take(); Model::Neu N; N.ps=s; N.f=vfield(r,m.d,m.d,1,0.5,r.chance(0.3)); m.deco(N.f,"traction"); m.neu.push_back(N); m.bc.addCondition(s.patch,s.side(),condition_type::neumann,m.neu.back().f.f.get(),0,false,-1); os<<" N"<<s.patch<<s.side(); } }
  m.bc.setGeoMap(m.mp); m.desc+=os.str(); }
// ------------------------------------------------------------------ materials
inline void genMats(Rng&r,Model&m,bool onlyLinear,bool fields,bool differ,double tmin=0.005,double tmax=0.05,int combo=-1){
  m.specs.clear(); m.linearMat=true; m.piecewise=differ&&m.mp.nPatches()>1&&r.chance(0.5); Combo c0={SvK,false,1};
  for(size_t p=0;p<m.mp.nPatches();++p){ if(p>0&&!differ){ m.specs.push_back(m.specs[0]); continue; }
    Combo co=onlyLinear?combos()[0]:combos()[combo>=0?combo:r.integer(0,(int)combos().size()-1)]; if(p==0) c0=co; if(m.piecewise) co=c0; m.specs.push_back(genMat(r,m.d,co,tmin,tmax,fields)); if(co.law!=SvK) m.linearMat=false; 
    if(m.piecewise&&p>0&&co.law==OG) m.specs.back().par=m.specs[0].par; }
  m.makeMats(); m.desc+=m.piecewise?" pwmat=":" mat="; for(auto&s:m.specs) m.desc+=s.name()+","; }
// ------------------------------------------------------------------ loads
struct LoadOpt { bool force,press,found,point; };
inline void genLoads(Rng&r,Model&m,const LoadOpt&o,double scale){
  std::ostringstream os;
  int fm=m.d==2?2:(r.chance(0.7)?3:2); bool cst=m.d==2||r.chance(0.3); m.force=o.force?vfield(r,fm,m.d,scale,scale*0.5,cst):vfield(r,m.d,m.d,0,0,true); if(o.force) os<<" force"<<fm<<(cst?"c":"");
  m.hasPress=o.press; if(o.press){ m.press=vfield(r,m.d,1,scale,scale*0.4,r.chance(0.3)); os<<" press"; }
  m.hasFound=o.found&&m.d==3; if(m.hasFound){ m.found=vfield(r,3,3,0,0,true); m.found=vfield(r,3,3,scale*20,scale*3,r.chance(0.3)); for(int i=0;i<3;i++) m.found.a(i,0)=std::fabs(m.found.a(i,0)); 
    std::vector<std::string> e; for(int i=0;i<3;i++){ std::ostringstream q; q.precision(17); q<<"("<<m.found.a(i,0)<<")+("<<m.found.B(i,0)<<")*x+("<<m.found.B(i,1)<<")*y+("<<m.found.B(i,2)<<")*z"; e.push_back(q.str()); } m.found.f.reset(new gsFunctionExpr<real_t>(e,3)); os<<" found"; }
  m.loads.clear(); m.pl.clear(); if(o.point){ int n=r.integer(1,3); for(int i=0;i<n;i++){ PLoad L; L.patch=r.integer(0,m.mp.nPatches()-1); L.par=Mat(2,1); L.par<<(r.chance(0.2)?1.0:r.uni(0.05,0.95)),(r.chance(0.2)?0.0:r.uni(0.05,0.95)); L.val=Mat(m.d,1); for(int k=0;k<m.d;k++) L.val(k,0)=r.chance(0.2)?0:scale*r.uni(-1,1); L.parametric=r.chance(0.6); m.loads.push_back(L);
      gsVector<real_t> pt,v=L.val.col(0); if(L.parametric) pt=L.par.col(0); else pt=m.mp.patch(L.patch).eval(L.par).col(0); m.pl.addLoad(pt,v,L.patch,L.parametric); } os<<" point"<<n; }
  m.desc+=os.str(); }
// ------------------------------------------------------------------ reference weak form
typedef std::vector<Mat> Full; // per patch: (basis functions) x d
struct QP { int p; Mat u; double w; Mat act; std::vector<std::array<ld,6>> N; /* val,1,2,11,22,12 */ std::vector<int> idx; SurfPt so,sd; Mat x; };
inline void basisAt(const gsBasis<real_t>&b,const Mat&u,QP&q){ gsMatrix<index_t> act; std::vector<Mat> res; b.active_into(u,act); b.evalAllDers_into(u,2,res); q.idx.clear(); q.N.clear();
  for(index_t i=0;i<act.rows();++i){ q.idx.push_back(act(i,0)); std::array<ld,6> a={ {(ld)res[0](i,0),(ld)res[1](2*i,0),(ld)res[1](2*i+1,0),(ld)res[2](3*i,0),(ld)res[2](3*i+1,0),(ld)res[2](3*i+2,0)} }; q.N.push_back(a); } }
inline Full zeroFull(const Model&m){ Full F; for(size_t p=0;p<m.mp.nPatches();++p) F.push_back(Mat::Zero(m.basis.basis(p).size(),m.d)); return F; }
inline void gauss(int n,std::vector<double>&x,std::vector<double>&w){ x.resize(n);w.resize(n); for(int i=0;i<n;i++){ ld z=cosl(3.14159265358979323846L*(i+0.75L)/(n+0.5L)),pp=1; for(int it=0;it<100;it++){ ld p1=1,p2=0; for(int j=0;j<n;j++){ ld p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1);} pp=n*(z*p1-p2)/(z*z-1); ld z1=z; z=z1-p1/pp; if(fabsl(z-z1)<1e-19L) break; } x[i]=(double)(0.5L*(1-z)); w[i]=(double)(1/((1-z*z)*pp*pp)); } } // on [0,1]
// visit all quadrature points (degree+1 Gauss points per direction and element, as the assembler's default rule)
template<class Fn> inline void forQP(const Model&m,const gsFunctionSet<real_t>*def,Fn fn){
  for(size_t p=0;p<m.mp.nPatches();++p){ const gsBasis<real_t>&b=m.basis.basis(p); std::vector<double> x1,w1,x2,w2; gauss(b.degree(0)+1,x1,w1); gauss(b.degree(1)+1,x2,w2);
    auto dom=b.domain(); auto ie=dom->endAll(); for(auto it=dom->beginAll();it!=ie;++it){ gsVector<real_t> lo=it.lowerCorner(),up=it.upperCorner(); for(size_t i=0;i<x1.size();i++)for(size_t j=0;j<x2.size();j++){ QP q; q.p=p; q.u=Mat(2,1); q.u<<lo(0)+(up(0)-lo(0))*x1[i],lo(1)+(up(1)-lo(1))*x2[j]; q.w=w1[i]*w2[j]*(up(0)-lo(0))*(up(1)-lo(1)); basisAt(b,q.u,q); q.so=surfPt(m.mp.patch(p),q.u); if(def) q.sd=surfPt(static_cast<const gsFunction<real_t>&>(def->piece(p)),q.u); else q.sd=q.so; q.x=m.mp.patch(p).eval(q.u); fn(q); } } } }
// boundary quadrature on one side
template<class Fn> inline void forSide(const Model&m,const patchSide&ps,Fn fn){ const gsBasis<real_t>&b=m.basis.basis(ps.patch); int dir=ps.direction(),t=1-dir; double fix=ps.parameter()?1:0; std::vector<double> x,w; gauss(b.degree(t)+1,x,w);
  gsKnotVector<real_t> kv; { const gsTensorBasis<2,real_t>*tb=dynamic_cast<const gsTensorBasis<2,real_t>*>(&b); const gsRationalBasis<gsTensorBSplineBasis<2,real_t>>*rb=dynamic_cast<const gsRationalBasis<gsTensorBSplineBasis<2,real_t>>*>(&b); if(rb) kv=dynamic_cast<const gsBSplineBasis<real_t>&>(rb->source().component(t)).knots(); else kv=dynamic_cast<const gsBSplineBasis<real_t>&>(tb->component(t)).knots(); }
  std::vector<real_t> br=kv.unique(); for(size_t e=0;e+1<br.size();++e) for(size_t i=0;i<x.size();i++){ QP q; q.p=ps.patch; q.u=Mat(2,1); q.u(dir,0)=fix; q.u(t,0)=br[e]+(br[e+1]-br[e])*x[i]; basisAt(b,q.u,q); q.so=surfPt(m.mp.patch(q.p),q.u); q.sd=q.so; q.x=m.mp.patch(q.p).eval(q.u); const ld*g=t==0?q.so.g1:q.so.g2; q.w=w[i]*(br[e+1]-br[e])*(double)sqrtl(dot3(g,g)); fn(q); } }
// first variations of membrane strain E=(a-A)/2 and bending strain B-b for function i, component c: (11,22,2*12)
inline void firstVar(const SurfPt&s,const std::array<ld,6>&N,int c,ld dE[3],ld dK[3]){
  dE[0]=s.g1[c]*N[1]; dE[1]=s.g2[c]*N[2]; dE[2]=s.g1[c]*N[2]+s.g2[c]*N[1];
  ld e[3]={0,0,0}; e[c]=1; ld a[3],b[3],mv[3],dn[3]; ld v1[3]={0,0,0},v2[3]={0,0,0}; v1[c]=N[1];v2[c]=N[2]; cross3(v1,s.g2,a); cross3(s.g1,v2,b); for(int i=0;i<3;i++) mv[i]=(a[i]+b[i])/s.meas; ld pr=dot3(mv,s.n); for(int i=0;i<3;i++) dn[i]=mv[i]-pr*s.n[i];
  dK[0]=-(N[3]*s.n[c]+dot3(s.g11,dn)); dK[1]=-(N[4]*s.n[c]+dot3(s.g22,dn)); dK[2]=-2*(N[5]*s.n[c]+dot3(s.g12,dn)); }
inline S3 linStressRef(const LawPar&lp,const S3&A,const S3&E){ ld det=A[0]*A[1]-A[2]*A[2]; ld a[2][2]={{A[1]/det,-A[2]/det},{-A[2]/det,A[0]/det}}; ld mu=lp.E/(2*(1+lp.nu)); ld lb=lp.E*lp.nu/(1-lp.nu*lp.nu); ld e[2][2]={{E[0],E[2]},{E[2],E[1]}};
  ld tr=0; for(int i=0;i<2;i++)for(int j=0;j<2;j++) tr+=a[i][j]*e[i][j]; S3 s; int I[3]={0,1,0},J[3]={0,1,1}; for(int q=0;q<3;q++){ int i=I[q],j=J[q]; ld v=lb*a[i][j]*tr; for(int k=0;k<2;k++)for(int l=0;l<2;l++) v+=2*mu*a[i][k]*a[j][l]*e[k][l]; s[q]=v; } return s; }
// stress resultants of a material at a point
inline void resultants(const MatSpec&ms,const SurfPt&so,const SurfPt&sd,const Mat&x,bool dim3,S3&N,S3&M,bool&ok,int ng=4){
  LawPar lp=ms.at(x); ld t=ms.t.at(x); ok=true;
  if(ms.law==SvK){ S3 E,K; for(int i=0;i<3;i++){ E[i]=(sd.A[i]-so.A[i])/2; K[i]=so.B[i]-sd.B[i]; } N=linStressRef(lp,so.A,E); M=linStressRef(lp,so.A,K); for(int i=0;i<3;i++){ N[i]*=t; M[i]*=t*t*t/12; } return; }
  std::vector<double> gx,gw; gauss(ng,gx,gw); N=S3{{0,0,0}};M=S3{{0,0,0}}; for(int k=0;k<ng;k++){ ld z=(gx[k]-0.5)*t; bool o; S3 s=stressCon(lp,dim3?metricAt(so,z):so.A,dim3?metricAt(sd,z):sd.A,nullptr,&o); ok=ok&&o; for(int i=0;i<3;i++){ N[i]+=gw[k]*t*s[i]; M[i]+=gw[k]*t*z*s[i]; } } }
inline void stiffnesses(const MatSpec&ms,const SurfPt&so,const SurfPt&sd,const Mat&x,bool dim3,T33&A,T33&B,T33&D,int ng=4){
  LawPar lp=ms.at(x); ld t=ms.t.at(x); for(int i=0;i<3;i++)for(int j=0;j<3;j++) A[i][j]=B[i][j]=D[i][j]=0;
  if(ms.law==SvK){ for(int j=0;j<3;j++){ S3 E={{0,0,0}}; E[j]=j<2?1:0.5L; S3 s=linStressRef(lp,so.A,E); for(int i=0;i<3;i++){ A[i][j]=t*s[i]; D[i][j]=t*t*t/12*s[i]; } } return; }
  std::vector<double> gx,gw; gauss(ng,gx,gw); for(int k=0;k<ng;k++){ ld z=(gx[k]-0.5)*t; T33 C=tangentCon(lp,dim3?metricAt(so,z):so.A,dim3?metricAt(sd,z):sd.A); for(int i=0;i<3;i++)for(int j=0;j<3;j++){ A[i][j]+=gw[k]*t*C[i][j]; B[i][j]+=gw[k]*t*z*C[i][j]; D[i][j]+=gw[k]*t*z*z*C[i][j]; } } }
// internal forces (virtual work of the resultants); abs accumulates magnitudes for scaling
inline Full refInternal(const Model&m,const gsFunctionSet<real_t>&def,bool&ok,double*scale=nullptr){ Full F=zeroFull(m); ok=true; double sc=0;
  forQP(m,&def,[&](const QP&q){ S3 N,M; bool o; resultants(m.specs[q.p],q.so,q.sd,q.x,m.d==3,N,M,o); ok=ok&&o; ld wm=q.w*q.so.meas;
    for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<m.d;c++){ ld dE[3],dK[3]; firstVar(q.sd,q.N[i],c,dE,dK); ld f=0,a=0; for(int k=0;k<3;k++){ f+=N[k]*dE[k]; a+=fabsl(N[k]*dE[k]); if(m.bending&&m.d==3){ f+=M[k]*dK[k]; a+=fabsl(M[k]*dK[k]); } } F[q.p](q.idx[i],c)+=(double)(f*wm); sc=std::max(sc,(double)(a*wm)); } });
  if(scale) *scale=sc; return F; }
inline Full refForce(const Model&m){ Full F=zeroFull(m); forQP(m,nullptr,[&](const QP&q){ Mat f=m.force.at(m.force.m==2?q.u:q.x); for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<m.d;c++) F[q.p](q.idx[i],c)+=(double)(q.N[i][0]*f(c,0)*q.w*q.so.meas); }); return F; }
inline Full refPressure(const Model&m,const gsFunctionSet<real_t>&def,const VField*other=nullptr){ Full F=zeroFull(m); if((!m.hasPress&&!other)||m.d!=3) return F; const VField&pf=other?*other:m.press; forQP(m,&def,[&](const QP&q){ double p=pf.at(q.x)(0,0); for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<3;c++) F[q.p](q.idx[i],c)+=(double)(q.N[i][0]*p*q.sd.n[c]*q.w*q.so.meas); }); return F; }
inline Full refFoundation(const Model&m,const gsFunctionSet<real_t>&def,const VField*other=nullptr){ Full F=zeroFull(m); if(!m.hasFound&&!other) return F; const VField&kf=other?*other:m.found; forQP(m,&def,[&](const QP&q){ Mat k=kf.at(q.x),y=def.piece(q.p).eval(q.u); for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<3;c++) F[q.p](q.idx[i],c)-=(double)(q.N[i][0]*k(c,0)*(y(c,0)-q.x(c,0))*q.w*q.so.meas); }); return F; }
inline Full refNeumann(const Model&m){ Full F=zeroFull(m); for(auto&n:m.neu) forSide(m,n.ps,[&](const QP&q){ Mat f=n.f.at(q.x); for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<m.d;c++) F[q.p](q.idx[i],c)+=(double)(q.N[i][0]*f(c,0)*q.w); }); return F; }
inline Full refPoint(const Model&m){ Full F=zeroFull(m); for(auto&L:m.loads){ QP q; basisAt(m.basis.basis(L.patch),L.par,q); for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<m.d;c++) F[L.patch](q.idx[i],c)+=(double)q.N[i][0]*L.val(c,0); } return F; }
inline void addFull(Full&a,const Full&b,double s=1){ for(size_t p=0;p<a.size();++p) a[p]+=s*b[p]; }
inline double maxFull(const Full&a){ double m=0; for(auto&x:a) if(x.size()) m=std::max(m,x.cwiseAbs().maxCoeff()); return m; }
inline Mat collapse(const gsDofMapper&map,const Full&F){ Mat r=Mat::Zero(map.freeSize(),1); for(size_t p=0;p<F.size();++p) for(index_t k=0;k<F[p].rows();++k) for(index_t c=0;c<F[p].cols();++c) if(map.is_free(k,p,c)) r(map.index(k,p,c),0)+=F[p](k,c); return r; }
// displacement coefficients (per patch) of a dof direction, zero on eliminated dofs
inline Full expandDir(const Model&m,const gsDofMapper&map,const Mat&w){ Full F=zeroFull(m); for(size_t p=0;p<F.size();++p) for(index_t k=0;k<F[p].rows();++k) for(index_t c=0;c<F[p].cols();++c) if(map.is_free(k,p,c)) F[p](k,c)=w(map.index(k,p,c),0); return F; }
// reference directional tangent K*w of the internal forces (documented form: resultant tangents times first variations + geometric part)
// with prev/upd: the resultants of the geometric part are extrapolated from the previous state along the update (mixed integration points)
inline Full refTangentDir(const Model&m,const gsFunctionSet<real_t>&def,const Full&w,const gsFunctionSet<real_t>*prev=nullptr,const Full*upd=nullptr){ Full F=zeroFull(m);
  forQP(m,&def,[&](const QP&q){ S3 N,M; bool o; resultants(m.specs[q.p],q.so,q.sd,q.x,m.d==3,N,M,o); T33 A,B,D; ld wm=q.w*q.so.meas; bool bend=m.bending&&m.d==3;
    if(prev){ SurfPt sp=surfPt(static_cast<const gsFunction<real_t>&>(prev->piece(q.p)),q.u); resultants(m.specs[q.p],q.so,sp,q.x,m.d==3,N,M,o); stiffnesses(m.specs[q.p],q.so,sp,q.x,m.d==3,A,B,D); ld uE[3]={0,0,0},uK[3]={0,0,0}; for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<m.d;c++){ ld a[3],b[3]; firstVar(sp,q.N[i],c,a,b); ld ui=(*upd)[q.p](q.idx[i],c); for(int k=0;k<3;k++){ uE[k]+=ui*a[k]; uK[k]+=ui*b[k]; } } for(int i=0;i<3;i++)for(int j=0;j<3;j++){ N[i]+=A[i][j]*uE[j]+B[i][j]*uK[j]; M[i]+=B[i][j]*uE[j]+D[i][j]*uK[j]; } }
    stiffnesses(m.specs[q.p],q.so,q.sd,q.x,m.d==3,A,B,D);
    ld wE[3]={0,0,0},wK[3]={0,0,0}; ld dv[5][3]; for(auto&r:dv) for(ld&x:r) x=0; for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<m.d;c++){ ld wi=w[q.p](q.idx[i],c); if(wi==0) continue; ld a[3],b[3]; firstVar(q.sd,q.N[i],c,a,b); for(int k=0;k<3;k++){ wE[k]+=wi*a[k]; wK[k]+=wi*b[k]; } for(int k=0;k<5;k++) dv[k][c]+=wi*q.N[i][k+1]; }
    ld dN[3],dM[3]; for(int i=0;i<3;i++){ dN[i]=dM[i]=0; for(int j=0;j<3;j++){ dN[i]+=A[i][j]*wE[j]+(bend?B[i][j]*wK[j]:0); dM[i]+=B[i][j]*wE[j]+D[i][j]*wK[j]; } }
    ld h=1e-5L; auto moved=[&](ld f){ SurfPt s=q.sd; for(int c=0;c<3;c++){ s.g1[c]+=f*dv[0][c]; s.g2[c]+=f*dv[1][c]; s.g11[c]+=f*dv[2][c]; s.g22[c]+=f*dv[3][c]; s.g12[c]+=f*dv[4][c]; } finishSurf(s); return s; }; SurfPt sp=moved(h),sm=moved(-h);
    for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<m.d;c++){ ld e[3],k[3],ep[3],kp[3],em[3],km[3]; firstVar(q.sd,q.N[i],c,e,k); firstVar(sp,q.N[i],c,ep,kp); firstVar(sm,q.N[i],c,em,km); ld f=0; for(int j=0;j<3;j++){ f+=dN[j]*e[j]+N[j]*(ep[j]-em[j])/(2*h); if(bend) f+=dM[j]*k[j]+M[j]*(kp[j]-km[j])/(2*h); } F[q.p](q.idx[i],c)+=(double)(f*wm); } }); return F; }
// directional tangent of the follower pressure (as it enters the matrix: minus the derivative of its virtual work) and of the foundation
inline Full refPressureTangentDir(const Model&m,const VField&press,const gsFunctionSet<real_t>&def,const Full&w){ Full F=zeroFull(m); forQP(m,&def,[&](const QP&q){ ld dv[2][3]={{0,0,0},{0,0,0}}; for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<3;c++) for(int k=0;k<2;k++) dv[k][c]+=w[q.p](q.idx[i],c)*q.N[i][k+1];
    ld h=1e-5L; auto nrm=[&](ld f,ld n[3]){ ld a[3],b[3]; for(int c=0;c<3;c++){ a[c]=q.sd.g1[c]+f*dv[0][c]; b[c]=q.sd.g2[c]+f*dv[1][c]; } cross3(a,b,n); ld l=sqrtl(dot3(n,n)); for(int c=0;c<3;c++) n[c]/=l; }; ld np[3],nm[3]; nrm(h,np); nrm(-h,nm); double p=press.at(q.x)(0,0);
    for(size_t i=0;i<q.idx.size();++i)for(int c=0;c<3;c++) F[q.p](q.idx[i],c)-=(double)(q.N[i][0]*p*(np[c]-nm[c])/(2*h)*q.w*q.so.meas); }); return F; }
inline Full refFoundationTangentDir(const Model&m,const VField&found,const Full&w){ Full F=zeroFull(m); forQP(m,nullptr,[&](const QP&q){ Mat k=found.at(q.x); for(int c=0;c<3;c++){ ld v=0; for(size_t i=0;i<q.idx.size();++i) v+=w[q.p](q.idx[i],c)*q.N[i][0]; for(size_t i=0;i<q.idx.size();++i) F[q.p](q.idx[i],c)+=(double)(q.N[i][0]*k(c,0)*v*q.w*q.so.meas); } }); return F; }
inline bool defAdmissible(const Model&m,const gsFunctionSet<real_t>&def,double lim=1.8){ bool ok=true; forQP(m,&def,[&](const QP&q){ ld t=m.specs[q.p].t.at(q.x); for(int k=-1;k<=1;k++){ ld z=m.d==3?k*0.5L*t:0; S3 G=metricAt(q.so,z),g=metricAt(q.sd,z); ld dG=G[0]*G[1]-G[2]*G[2],dg=g[0]*g[1]-g[2]*g[2]; if(!(dG>0&&dg>0)){ ok=false; return; } ld tr=(G[1]*g[0]+G[0]*g[1]-2*G[2]*g[2])/dG; ld disc=sqrtl(fabsl(tr*tr/4-dg/dG)); if(!(tr/2-disc>1/(lim*lim)&&tr/2+disc<lim*lim)) ok=false; } }); return ok; }
inline Mat randSol(Rng&r,index_t n,double amp){ Mat u(n,1); for(index_t i=0;i<n;i++) u(i,0)=amp*r.uni(-1,1); return u; }
} // namespace
