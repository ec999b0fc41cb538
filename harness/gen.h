// Generators: surfaces, deformations, materials.
#pragma once
#include "common.h"
#include "refmat.h"
namespace vm {
typedef gsMultiPatch<real_t> MP;

// value of a "physical field" used for thickness / parameters: c0*(1+a*x+b*y(+e*z)) ; always positive for small a,b
struct Field {
  double c0,ax,ay,az; int d; bool constant;
  std::shared_ptr<gsFunctionSet<real_t>> f;
  double at(const Mat&x) const { return constant?c0:c0*(1+ax*x(0,0)+ay*x(1,0)+(d>2?az*x(2,0):0)); }
};
inline Field constField(double v,int d){ Field F; F.c0=v;F.ax=F.ay=F.az=0;F.d=d;F.constant=true; F.f.reset(new gsConstantFunction<real_t>(v,d)); return F; }
inline Field varField(Rng&r,double v,int d,double amp){ Field F; F.c0=v;F.d=d;F.constant=false; F.ax=r.uni(-amp,amp);F.ay=r.uni(-amp,amp);F.az=d>2?r.uni(-amp,amp):0;
  std::ostringstream os; os.precision(17); os<<v<<"*(1+("<<F.ax<<")*x+("<<F.ay<<")*y"; if(d>2) os<<"+("<<F.az<<")*z"; os<<")"; F.f.reset(new gsFunctionExpr<real_t>(os.str(),d)); return F; }

struct MatSpec {
  Law law; bool comp; int impl; int d;
  Field t, rho; std::vector<Field> par; // E,nu,(ratio | mu1,al1,..)
  std::string name() const { static const char*n[]={"SvK","NH","NHe","MR","OG"}; std::ostringstream os; os<<n[law]<<(law==SvK?"":(comp?"c":"i"))<<impl<<"d"<<d; return os.str(); }
  std::vector<gsFunctionSet<real_t>*> pars() const { std::vector<gsFunctionSet<real_t>*> v; for(auto&p:par) v.push_back(p.f.get()); return v; }
  gsOptionList opts() const { gsOptionList o; o.addInt("Material","",(int)law); o.addSwitch("Compressibility","",comp); o.addInt("Implementation","",impl); return o; }
  LawPar at(const Mat&x) const { LawPar p; p.law=law;p.comp=comp;p.E=par[0].at(x);p.nu=par[1].at(x);p.ratio=law==MR?par[2].at(x):1; if(law==OG) for(size_t i=2;i+1<par.size();i+=2){ p.mu.push_back(par[i].at(x)); p.al.push_back(par[i+1].at(x)); } return p; }
  template<short_t D> gsMaterialMatrixBase<real_t>::uPtr makeD(const MP&mp,bool withRho=true) const {
    return withRho? getMaterialMatrix<D,real_t>(mp,*t.f,pars(),*rho.f,opts()) : getMaterialMatrix<D,real_t>(mp,*t.f,pars(),opts()); }
  gsMaterialMatrixBase<real_t>::uPtr make(const MP&mp,bool withRho=true) const { return d==2?makeD<2>(mp,withRho):makeD<3>(mp,withRho); }
};
// one material with per-patch fields (the specs agree in law, compressibility and implementation)
inline gsMaterialMatrixBase<real_t>::uPtr makePiecewise(const std::vector<MatSpec>&sp,const MP&mp,std::vector<std::shared_ptr<gsPiecewiseFunction<real_t>>>&keep){
  keep.clear(); auto pwf=[&](std::function<const Field&(const MatSpec&)> get){ std::shared_ptr<gsPiecewiseFunction<real_t>> f(new gsPiecewiseFunction<real_t>()); for(auto&s:sp) f->addPiece(dynamic_cast<const gsFunction<real_t>&>(*get(s).f)); keep.push_back(f); return f.get(); };
  gsFunctionSet<real_t>*t=pwf([](const MatSpec&s)->const Field&{return s.t;}),*rho=pwf([](const MatSpec&s)->const Field&{return s.rho;}); std::vector<gsFunctionSet<real_t>*> par; for(size_t i=0;i<sp[0].par.size();++i) par.push_back(pwf([i](const MatSpec&s)->const Field&{return s.par[i];}));
  return sp[0].d==2?getMaterialMatrix<2,real_t>(mp,*t,par,*rho,sp[0].opts()):getMaterialMatrix<3,real_t>(mp,*t,par,*rho,sp[0].opts()); }
// the law/compressibility/implementation combinations that exist
struct Combo { Law law; bool comp; int impl; };
inline const std::vector<Combo>& combos(){ static std::vector<Combo> v={ {SvK,false,1},{NH,false,1},{NH,false,2},{NH,false,3},{NH,true,1},{NH,true,2},{NH,true,3},{NHe,true,1},{NHe,true,2},{NHe,true,3},
  {MR,false,1},{MR,false,2},{MR,false,3},{MR,true,1},{MR,true,2},{MR,true,3},{OG,false,3},{OG,true,3} }; return v; }
// E scale ~ Escale, thickness ~ t
inline MatSpec genMat(Rng&r,int d,const Combo&co,double tmin,double tmax,bool fields){
  MatSpec m; m.law=co.law;m.comp=co.comp;m.impl=co.impl;m.d=d;
  double E=r.logu(0.5,5e3), nu = (co.law!=SvK&&!co.comp)?0.5: r.uni(0.05,0.45); if(co.law==SvK&&r.chance(0.15)) nu=0;
  double t=r.logu(tmin,tmax), rho=r.logu(0.1,1e3);
  auto F=[&](double v,double amp){ return (fields&&r.chance(0.7))?varField(r,v,d,amp):constField(v,d); };
  m.t=F(t,0.15); m.rho=F(rho,0.2); m.par.push_back(F(E,0.15));
  m.par.push_back(constField(nu,d)); if(fields&&co.comp&&r.chance(0.4)) m.par[1]=varField(r,nu*0.8,d,0.04);
  if(co.law==MR) m.par.push_back(constField(r.logu(0.5,8),d));
  if(co.law==OG){ // stable Ogden terms with sum mu_i al_i = 2 mu
    int nt=r.integer(1,3); double mu=E/(2*(1+nu)); std::vector<double> w(nt); double s=0; for(auto&x:w){x=r.uni(0.2,1);s+=x;}
    for(int i=0;i<nt;i++){ double al=(i%2==0)?r.uni(1.2,4.5):-r.uni(1.2,3.); double mi=2*mu*w[i]/s/al; m.par.push_back(constField(mi,d)); m.par.push_back(constField(al,d)); } }
  return m;
}

// ---------------------------------------------------------------- geometry
struct Knots { int p; std::vector<double> interior; };
inline gsKnotVector<real_t> knotVec(Rng&r,int p,int nel,bool nonuni=true){
  std::vector<real_t> k; for(int i=0;i<=p;i++) k.push_back(0);
  for(int e=1;e<nel;e++){ double x=(double)e/nel; if(nonuni) x+=r.uni(-0.2,0.2)/nel; k.push_back(x);} for(int i=0;i<=p;i++) k.push_back(1);
  return gsKnotVector<real_t>(give(k),p); }
// surface kinds
enum GeoKind { G_FLAT=0,G_SKEW,G_CURVED,G_CYL,G_WILD,G_NURBS, G_N };
inline const char* geoName(int k){ static const char*n[]={"flat","skew","curved","cyl","wild","nurbs"}; return n[k]; }
inline void mapPoint(int kind,const std::vector<double>&q,double x,double y,double o[3]){
  o[0]=x;o[1]=y;o[2]=0;
  switch(kind){
   case G_FLAT: o[0]=q[0]*x;o[1]=q[1]*y; break;
   case G_SKEW: o[0]=q[0]*x+0.4*q[2]*y+0.1*q[3]*x*y;o[1]=0.3*q[3]*x+q[1]*y+0.15*q[2]*x*x; break;
   case G_CURVED: o[0]=q[0]*x+0.2*q[2]*y;o[1]=q[1]*y+0.1*q[3]*x; o[2]=0.3*q[2]*x*x+0.25*q[3]*y*y+0.2*q[4]*x*y; break;
   case G_CYL: { double R=0.8+0.3*std::fabs(q[2]); o[0]=R*std::sin(x/R*q[0]); o[1]=q[1]*y; o[2]=R*std::cos(x/R*q[0]); } break;
   case G_WILD: o[0]=q[0]*x+0.3*q[2]*y*y;o[1]=q[1]*y+0.2*q[3]*x*x; o[2]=0.3*std::sin(2*x+q[4])*std::cos(1.5*y+q[5]); break;
  }
}
// random single-patch geometry with degree p and nel x nel2 elements in dimension d
inline gsGeometry<real_t>::uPtr genPatch(Rng&r,int d,int kind,int p1,int p2,int n1,int n2,double x0=0,double x1=1,double y0=0,double y1=1,std::vector<double>*qq=nullptr,double noise=0.03){
  std::vector<double> q; if(qq&&!qq->empty()) q=*qq; else { q={r.uni(0.7,1.4),r.uni(0.7,1.4),r.uni(-1,1),r.uni(-1,1),r.uni(-1,1),r.uni(-1,1)}; if(qq) *qq=q; }
  gsKnotVector<real_t> k1=knotVec(r,p1,n1),k2=knotVec(r,p2,n2);
  gsTensorBSplineBasis<2,real_t> b(k1,k2);
  Mat an; b.anchors_into(an); Mat c(b.size(),d);
  bool rat=(kind==G_NURBS); int kk=rat?G_CURVED:kind; if(d==2&&kk>G_SKEW) kk=G_SKEW;
  for(index_t i=0;i<b.size();++i){ double o[3]; mapPoint(kk,q,x0+(x1-x0)*an(0,i),y0+(y1-y0)*an(1,i),o); for(int k=0;k<d;k++) c(i,k)=o[k]+ (kind==G_FLAT?0:noise*r.uni(-1,1)); }
  if(kind==G_FLAT&&d==3) c.col(2).setZero();
  if(rat){ Mat w(b.size(),1); for(index_t i=0;i<b.size();++i) w(i,0)=r.uni(0.7,1.3); return gsGeometry<real_t>::uPtr(new gsTensorNurbs<2,real_t>(k1,k2,c,w)); }
  return gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(k1,k2,c));
}
// rotation matrix
inline Mat randRot(Rng&r,int d){ Mat R=Mat::Identity(d,d); if(d==2){ double a=r.uni(0,6.28); R<<std::cos(a),-std::sin(a),std::sin(a),std::cos(a); return R; }
  double q[4],n=0; for(double&x:q){ x=r.uni(-1,1);n+=x*x;} n=std::sqrt(n); for(double&x:q)x/=n;
  R<<1-2*(q[2]*q[2]+q[3]*q[3]),2*(q[1]*q[2]-q[0]*q[3]),2*(q[1]*q[3]+q[0]*q[2]), 2*(q[1]*q[2]+q[0]*q[3]),1-2*(q[1]*q[1]+q[3]*q[3]),2*(q[2]*q[3]-q[0]*q[1]), 2*(q[1]*q[3]-q[0]*q[2]),2*(q[2]*q[3]+q[0]*q[1]),1-2*(q[1]*q[1]+q[2]*q[2]); return R; }
// deform: linear stretch/shear of the whole plus control point noise, optional rigid rotation
struct Deform { Mat F; Vec t; double noise; };
inline Deform genDeform(Rng&r,int d,double amp,double noise,bool rot){ Deform D; D.F=Mat::Identity(d,d); for(int i=0;i<d;i++)for(int j=0;j<d;j++) D.F(i,j)+=amp*r.uni(-1,1); if(rot) D.F=(randRot(r,d)*D.F).eval(); D.t=Vec::Zero(d); if(rot) for(int i=0;i<d;i++) D.t(i)=r.uni(-1,1); D.noise=noise; return D; }
inline void applyDeform(Rng&r,const Deform&D,MP&def){ for(size_t p=0;p<def.nPatches();++p){ Mat&c=def.patch(p).coefs(); for(index_t i=0;i<c.rows();++i){ Vec x=c.row(i).transpose(); x=(D.F*x+D.t).eval(); for(index_t k=0;k<x.size();k++) x(k)+=D.noise*r.uni(-1,1); c.row(i)=x.transpose(); } } }

// ------------------------------------------------ differential geometry of a patch in extended precision
struct SurfPt { ld g1[3],g2[3],g11[3],g22[3],g12[3],n[3],n1[3],n2[3]; S3 A,B,NN; ld meas; int d; };
inline ld dot3(const ld*a,const ld*b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline void cross3(const ld*a,const ld*b,ld*c){ c[0]=a[1]*b[2]-a[2]*b[1];c[1]=a[2]*b[0]-a[0]*b[2];c[2]=a[0]*b[1]-a[1]*b[0]; }
inline void finishSurf(SurfPt&s){
  ld m[3]; cross3(s.g1,s.g2,m); s.meas=sqrtl(dot3(m,m)); for(int i=0;i<3;i++) s.n[i]=m[i]/s.meas;
  s.A[0]=dot3(s.g1,s.g1);s.A[1]=dot3(s.g2,s.g2);s.A[2]=dot3(s.g1,s.g2);
  s.B[0]=dot3(s.g11,s.n);s.B[1]=dot3(s.g22,s.n);s.B[2]=dot3(s.g12,s.n);
  // derivatives of the normal by differentiating the cross product
  for(int k=0;k<2;k++){ ld a[3],b[3],dm[3]; const ld*g1k=k==0?s.g11:s.g12; const ld*g2k=k==0?s.g12:s.g22; cross3(g1k,s.g2,a); cross3(s.g1,g2k,b); for(int i=0;i<3;i++) dm[i]=a[i]+b[i]; ld pr=dot3(dm,s.n); ld*o=k==0?s.n1:s.n2; for(int i=0;i<3;i++) o[i]=(dm[i]-pr*s.n[i])/s.meas; }
  s.NN[0]=dot3(s.n1,s.n1);s.NN[1]=dot3(s.n2,s.n2);s.NN[2]=dot3(s.n1,s.n2);
}
inline SurfPt surfPt(const gsFunction<real_t>&g,const Mat&u){ // u: 2x1
  SurfPt s; s.d=g.targetDim(); Mat D1,D2; g.deriv_into(u,D1); g.deriv2_into(u,D2); int d=s.d;
  for(int i=0;i<3;i++){ s.g1[i]=s.g2[i]=s.g11[i]=s.g22[i]=s.g12[i]=0; }
  for(int i=0;i<d;i++){ s.g1[i]=D1(2*i,0);s.g2[i]=D1(2*i+1,0); s.g11[i]=D2(3*i,0);s.g22[i]=D2(3*i+1,0);s.g12[i]=D2(3*i+2,0); }
  finishSurf(s); return s; }
inline S3 metricAt(const SurfPt&s,ld z){ S3 g; for(int i=0;i<3;i++) g[i]=s.A[i]-2*z*s.B[i]+z*z*s.NN[i]; return g; }
} // namespace
