// C03: thickness integration. Real materials against the extended-precision moments of the reference law; a probe
// material with polynomial through-thickness behaviour against exact moments, for every integration mode.
#include "model.h"
namespace vm {
typedef MaterialOutput MO;
// probe: component i at (u,zeta) = amp(u,patch) * sum_q c(i,q) zeta^q, zeta in [-1/2,1/2]
struct Probe : public gsMaterialMatrixBaseDim<3,real_t> {
  typedef gsMaterialMatrixBaseDim<3,real_t> Base; MatIntegration vi,mi; Mat cv,cm;
  Probe(const MP&mp,const gsFunctionSet<real_t>*t,const gsFunctionSet<real_t>*rho):Base(&mp,t,rho){ this->defaultOptions(); }
  MatIntegration isVecIntegrated() const override { return vi; } MatIntegration isMatIntegrated() const override { return mi; }
  static double amp(const Mat&u,index_t k,index_t p){ return 1+0.7*u(0,k)-0.4*u(1,k)*u(1,k)+0.3*p; }
  static double outf(MO o){ return 1+0.1*(int)o; }
  gsMatrix<real_t> ev(const Mat&c,index_t p,const Mat&u,const Mat&z,MO o) const { Mat r(c.rows(),u.cols()*z.rows()); for(index_t k=0;k<u.cols();k++)for(index_t j=0;j<z.rows();j++)for(index_t i=0;i<c.rows();i++){ double s=0,x=1; for(index_t q=0;q<c.cols();q++){ s+=c(i,q)*x; x*=z(j,k); } r(i,j*u.cols()+k)=outf(o)*amp(u,k,p)*s; } return r; }
  gsMatrix<real_t> eval3D_matrix(const index_t p,const gsMatrix<real_t>&u,const gsMatrix<real_t>&z,enum MaterialOutput o) const override { return ev(cm,p,u,z,o); }
  gsMatrix<real_t> eval3D_vector(const index_t p,const gsMatrix<real_t>&u,const gsMatrix<real_t>&z,enum MaterialOutput o) const override { return ev(cv,p,u,z,o); }
  gsMatrix<real_t> eval3D_CauchyVector(const index_t p,const gsMatrix<real_t>&u,const gsMatrix<real_t>&z,enum MaterialOutput o) const override { return ev(cv,p,u,z,o); }
};
template<MO o> static Mat evalInt(int how,gsMaterialMatrixContainer<real_t>&cont,gsMaterialMatrixBase<real_t>*mat,gsMaterialMatrixBase<real_t>::uPtr&up,const MP&mp,const MP&def,int patch,const Mat&u){
  Mat r; auto go=[&](const gsMaterialMatrixIntegrate<real_t,o>&I){ I.piece(patch).eval_into(u,r); };
  switch(how){ case 0: { gsMaterialMatrixIntegrate<real_t,o> I(cont,&def); go(I); } break; case 1: { gsMaterialMatrixIntegrate<real_t,o> I(cont,&mp,&def); go(I); } break;
    case 2: { gsMaterialMatrixIntegrate<real_t,o> I(mat,&def); go(I); } break; case 3: { gsMaterialMatrixIntegrate<real_t,o> I(mat,&mp,&def); go(I); } break;
    case 4: { gsMaterialMatrixIntegrate<real_t,o> I(up,&def); go(I); } break; default: { gsMaterialMatrixIntegrate<real_t,o> I(up,&mp,&def); go(I); } }
  return r; }
static Mat evalIntO(MO o,int how,gsMaterialMatrixContainer<real_t>&cont,gsMaterialMatrixBase<real_t>*mat,gsMaterialMatrixBase<real_t>::uPtr&up,const MP&mp,const MP&def,int p,const Mat&u){
  switch(o){ case MO::VectorN: return evalInt<MO::VectorN>(how,cont,mat,up,mp,def,p,u); case MO::VectorM: return evalInt<MO::VectorM>(how,cont,mat,up,mp,def,p,u); case MO::CauchyVectorN: return evalInt<MO::CauchyVectorN>(how,cont,mat,up,mp,def,p,u); case MO::CauchyVectorM: return evalInt<MO::CauchyVectorM>(how,cont,mat,up,mp,def,p,u);
    case MO::MatrixA: return evalInt<MO::MatrixA>(how,cont,mat,up,mp,def,p,u); case MO::MatrixB: return evalInt<MO::MatrixB>(how,cont,mat,up,mp,def,p,u); case MO::MatrixC: return evalInt<MO::MatrixC>(how,cont,mat,up,mp,def,p,u); case MO::MatrixD: return evalInt<MO::MatrixD>(how,cont,mat,up,mp,def,p,u); default: return evalInt<MO::Density>(how,cont,mat,up,mp,def,p,u); } }
static int momentOf(MO o){ return (o==MO::VectorM||o==MO::CauchyVectorM||o==MO::MatrixB||o==MO::MatrixC)?1:o==MO::MatrixD?2:0; }
static const char* oname(MO o){ switch(o){ case MO::VectorN: return "N"; case MO::VectorM: return "M"; case MO::CauchyVectorN: return "Nc"; case MO::CauchyVectorM: return "Mc"; case MO::MatrixA: return "A"; case MO::MatrixB: return "B"; case MO::MatrixC: return "C"; case MO::MatrixD: return "D"; default: return "rho"; } }

static void probeCase(Case&c){ Rng&r=c.rng; MP mp; int np=r.integer(1,3); for(int p=0;p<np;p++) mp.addPatch(genPatch(r,3,r.integer(0,G_N-1),2,2,1,1,p,p+1)); mp.computeTopology(); MP def=mp; applyDeform(r,genDeform(r,3,0.1,0.02,r.chance(0.5)),def);
  Field t=r.chance(0.5)?varField(r,r.logu(0.01,3),3,0.15):constField(r.logu(0.01,3),3),rho=r.chance(0.5)?varField(r,r.logu(0.1,100),3,0.15):constField(r.logu(0.1,100),3);
  static const MatIntegration md[]={MatIntegration::NotIntegrated,MatIntegration::Linear,MatIntegration::Constant,MatIntegration::Integrated}; int iv=r.integer(0,3),im=r.integer(0,3);
  Probe*P=new Probe(mp,t.f.get(),rho.f.get()); gsMaterialMatrixBase<real_t>::uPtr up(P); P->vi=md[iv]; P->mi=md[im]; int ng=r.integer(1,7); bool setng=r.chance(0.8); if(setng){ gsOptionList o; o.addInt("NumGauss","",ng); P->setOptions(o); } else ng=4;
  auto poly=[&](int rows,int mode){ int deg=mode==0?r.integer(0,2*ng-1):mode==1?1:0; Mat m(rows,deg+1); for(index_t i=0;i<m.size();i++) m.data()[i]=r.uni(-1,1)*std::pow(2.0,(double)(i/rows)); return m; }; P->cv=poly(3,iv); P->cm=poly(9,im);
  gsMaterialMatrixContainer<real_t> cont(np); for(int p=0;p<np;p++) cont.set(p,P);
  int nu=r.integer(1,6); Mat u(2,nu); for(index_t i=0;i<u.size();i++) u.data()[i]=r.uni(0,1); static const char*mn[]={"not","lin","const","int"};
  c.key=std::string("probe vec=")+mn[iv]+" mat="+mn[im]+" ng"+std::to_string(ng)+" np"+std::to_string(np)+(nu>1?" multi":" one"); c.tag="probe"; c.desc<<c.key<<" t="<<t.c0<<" u="<<mstr(u);
  static const MO outs[]={MO::VectorN,MO::VectorM,MO::CauchyVectorN,MO::CauchyVectorM,MO::MatrixA,MO::MatrixB,MO::MatrixC,MO::MatrixD};
  for(MO o:outs) { int p=r.integer(0,np-1); bool vec=(o==MO::VectorN||o==MO::VectorM||o==MO::CauchyVectorN||o==MO::CauchyVectorM); int mode=vec?iv:im,mom=momentOf(o); const Mat&cf=vec?P->cv:P->cm; if(mode==0&&cf.cols()-1+mom>2*ng-1) { c.skip("moments of a polynomial law"); continue; }
    int how=r.integer(0,5); Mat got=evalIntO(o,how,cont,P,up,mp,def,p,u); Mat x=mp.patch(p).eval(u),want(cf.rows(),nu); double sc=0;
    for(int k=0;k<nu;k++){ double tt=t.at(x.col(k)),a=Probe::amp(u,k,p)*Probe::outf(o); for(index_t i=0;i<cf.rows();i++){ double s=0; if(mode==3) s=cf(i,0); else if(mode==2) s= (o==MO::VectorM||o==MO::CauchyVectorM)? cf(i,0)*tt*tt*tt/12 : mom==1?0:mom==0?tt*cf(i,0):tt*tt*tt/12*cf(i,0);
        else for(index_t q=0;q<cf.cols();q++) if((q+mom)%2==0) s+=cf(i,q)*std::pow(tt,mom+1)*2/(q+mom+1)*std::pow(0.5,q+mom+1); want(i,k)=a*s; sc=std::max(sc,std::fabs(a)*std::pow(tt,mode==3?0:mode==2&&(o==MO::VectorM||o==MO::CauchyVectorM)?3:mom+1)*cf.row(i).cwiseAbs().maxCoeff()); } }
    c.near("moments of a polynomial law",got,want,1e-10,sc,std::string(oname(o))+" how"+std::to_string(how)+" "+c.desc.str()); }
  { int p=r.integer(0,np-1); Mat got=evalIntO(MO::Density,r.integer(0,5),cont,P,up,mp,def,p,u); Mat x=mp.patch(p).eval(u),want(1,nu); for(int k=0;k<nu;k++) want(0,k)=t.at(x.col(k))*rho.at(x.col(k)); c.near("areal density",got,want,1e-12,-1,c.desc.str()); }
}
VM_PROPERTY(C03,1600,24000){
  Rng&r=c.rng; if(c.index%4==3){ probeCase(c); return; }
  long q=c.index-c.index/4; int nc=combos().size(); Model m; m.d=(q/nc)%3==0?2:3; int np=r.chance(0.5)?2:1; GeoOpt g; g.d=m.d; g.np=np; g.kind=m.d==2?r.integer(0,1):(np==1?r.integer(0,G_N-1):r.integer(0,G_WILD)); g.p=r.integer(2,3); g.n1=g.n2=1; g.reorient=np>1&&r.chance(0.5); g.noise=0.02; genGeo(r,m,g); np=m.mp.nPatches();
  genMats(r,m,false,r.chance(0.7),np>1&&r.chance(0.7),0.005,0.12,q%nc); m.makeMats();
  MP def=m.mp; int mode=r.integer(0,3); double amp[]={0,1e-5,0.1,0.25}; applyDeform(r,genDeform(r,m.d,amp[mode],amp[mode]*0.1,mode&&r.chance(0.5)),def); if(!defAdmissible(m,def,2.2)){ c.trivial=true; c.skip("resultants=moments of stress"); return; }
  int ng=4; if(r.chance(0.5)){ ng=r.integer(1,8); for(auto&x:m.mats){ gsOptionList o; o.addInt("NumGauss","",ng); x->setOptions(o); } } int rg=ng;
  bool shared=m.piecewise||np==1; gsMaterialMatrixBase<real_t>::uPtr up; std::vector<std::shared_ptr<gsPiecewiseFunction<real_t>>> keep; if(shared){ up=m.piecewise?makePiecewise(m.specs,m.mp,keep):m.specs[0].make(m.mp); if(ng!=4){ gsOptionList o; o.addInt("NumGauss","",ng); up->setOptions(o); } }
  int nu=r.integer(1,5); c.key=m.specs[0].name()+"/"+geoName(g.kind)+"/mode"+std::to_string(mode)+"/np"+std::to_string(np)+(m.piecewise?"pw":"")+"/ng"+std::to_string(ng)+(nu>1?"/multi":"/one"); c.tag=m.specs[0].name(); c.desc<<c.key;
  std::vector<MO> outs; if(m.d==3) outs={MO::VectorN,MO::VectorM,MO::MatrixA,MO::MatrixB,MO::MatrixC,MO::MatrixD}; else outs={MO::VectorN,MO::MatrixA};
  for(MO o:outs){ int p=r.integer(0,np-1); Mat u(2,nu); for(index_t i=0;i<u.size();i++) u.data()[i]=r.chance(0.1)?r.integer(0,1):r.uni(0,1); int how=r.integer(0,shared?5:1); gsMaterialMatrixBase<real_t>*one=m.mats[0].get(); Mat got=evalIntO(o,how,m.cont,one,up,m.mp,def,p,u);
    bool vec=o==MO::VectorN||o==MO::VectorM; Mat want(vec?3:9,nu),x=m.mp.patch(p).eval(u); double sc=0; bool ok=true;
    for(int k=0;k<nu;k++){ SurfPt so=surfPt(m.mp.patch(p),u.col(k)),sd=surfPt(def.patch(p),u.col(k)); LawPar lp=m.specs[p].at(x.col(k)); double t=m.specs[p].t.at(x.col(k)); ld det=so.A[0]*so.A[1]-so.A[2]*so.A[2]; double cs=(double)std::max(so.A[0],so.A[1])/(double)det;
      if(vec){ S3 N,M; bool okk; resultants(m.specs[p],so,sd,x.col(k),m.d==3,N,M,okk,rg); ok=ok&&okk; for(int i=0;i<3;i++){ want(i,k)=o==MO::VectorN?N[i]:M[i]; double nn=std::max({std::fabs((double)N[0]),std::fabs((double)N[1]),std::fabs((double)N[2])}); sc=std::max(sc,o==MO::VectorN?nn:std::max(std::fabs((double)M[i]),nn*t*0.02)); } sc=std::max(sc,(m.specs[p].comp?2e-4/(1-2*(double)lp.nu):1e-5)*(double)lp.E*t*cs*(o==MO::VectorM?t*0.3:1)); }
      else { T33 A,B,D; stiffnesses(m.specs[p],so,sd,x.col(k),m.d==3,A,B,D,rg); for(int i=0;i<3;i++)for(int j=0;j<3;j++){ want(3*j+i,k)=o==MO::MatrixA?A[i][j]:o==MO::MatrixD?D[i][j]:B[i][j]; sc=std::max(sc,o==MO::MatrixA?std::fabs((double)A[i][j]):o==MO::MatrixD?std::fabs((double)D[i][j]):std::max(std::fabs((double)B[i][j]),std::fabs((double)A[i][j])*t*0.02)); } } }
    if(!ok){ c.skip("resultants=moments of stress"); continue; }
    c.near(vec?"resultants=moments of stress":"stiffness=moments of tangent",got,want,1e-6,sc,std::string(oname(o))+" how"+std::to_string(how)+" patch"+std::to_string(p)+" u="+mstr(u)+" "+c.desc.str()); }
  { int p=r.integer(0,np-1); Mat u(2,nu); for(index_t i=0;i<u.size();i++) u.data()[i]=r.uni(0,1); Mat got=evalIntO(MO::Density,r.integer(0,1),m.cont,nullptr,up,m.mp,def,p,u); Mat x=m.mp.patch(p).eval(u),want(1,nu); for(int k=0;k<nu;k++) want(0,k)=m.specs[p].t.at(x.col(k))*m.specs[p].rho.at(x.col(k)); c.near("areal density",got,want,1e-12,-1,c.desc.str()); }
}
}
