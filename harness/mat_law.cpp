// C01 / C02: pointwise constitutive monitors against the extended-precision reference.
#include "matcase.h"
namespace vm {
static S3 linStress(const LawPar&lp,const S3&A,const S3&E){ // contravariant stress of the linear law for strain E (11,22,12)
  ld det=A[0]*A[1]-A[2]*A[2]; ld a[2][2]={{A[1]/det,-A[2]/det},{-A[2]/det,A[0]/det}}; ld mu=lp.E/(2*(1+lp.nu)); ld lb=lp.E*lp.nu/(1-lp.nu*lp.nu); ld e[2][2]={{E[0],E[2]},{E[2],E[1]}};
  ld tr=0; for(int i=0;i<2;i++)for(int j=0;j<2;j++) tr+=a[i][j]*e[i][j]; S3 s; int I[3]={0,1,0},J[3]={0,1,1};
  for(int q=0;q<3;q++){ int i=I[q],j=J[q]; ld v=lb*a[i][j]*tr; for(int k=0;k<2;k++)for(int l=0;l<2;l++) v+=2*mu*a[i][k]*a[j][l]*e[k][l]; s[q]=v; } return s; }
static double conScale(const S3&G){ ld det=G[0]*G[1]-G[2]*G[2]; return (double)std::max(G[0],G[1])/(double)det; }

VM_PROPERTY(C01,2160,40000){
  MatCase m; genMatCase(c,m); const gsFunction<real_t>&o=m.mp.patch(m.patch),&f=m.def.patch(m.patch);
  Mat pts=m.mp.patch(m.patch).eval(m.u); int nu=m.u.cols(),nz=m.z.rows();
  std::vector<MaterialOutput> outs={MaterialOutput::Generic}; if(m.ms.law==SvK){ outs.push_back(MaterialOutput::VectorN); outs.push_back(MaterialOutput::VectorM);} else { outs.push_back(MaterialOutput::VectorN); outs.push_back(MaterialOutput::VectorM);}
  std::vector<SurfPt> so,sd; bool adm=true;
  for(int k=0;k<nu;k++){ so.push_back(surfPt(o,m.u.col(k))); sd.push_back(surfPt(f,m.u.col(k))); double t=m.ms.t.at(pts.col(k)); for(int j=0;j<nz;j++){ double zz=m.d==3?m.z(j,k)*t:0; if(!admissible(metricAt(so[k],zz),metricAt(sd[k],zz),2.5)) adm=false; } }
  if(!adm){ c.trivial=true; c.skip("stress=dPsi/dE"); return; }
  for(MaterialOutput out:outs){
    Mat S=m.mat->eval3D_vector(m.patch,m.u,m.z,out), S2=m.mat->eval3D_stress(m.patch,m.u,m.z,out);
    Mat R(3,nu*nz); double sc=0;
    bool ok=true;
    for(int k=0;k<nu;k++) for(int j=0;j<nz;j++){ LawPar lp=m.ms.at(pts.col(k)); ld zz=m.d==3?m.z(j,k)*m.ms.t.at(pts.col(k)):0; S3 G=metricAt(so[k],zz),g=metricAt(sd[k],zz); S3 s;
      if(m.ms.law==SvK){ S3 E; for(int i=0;i<3;i++) E[i]= out==MaterialOutput::VectorN?(sd[k].A[i]-so[k].A[i])/2: out==MaterialOutput::VectorM? (m.d==3?so[k].B[i]-sd[k].B[i]:0):(g[i]-G[i])/2; s=linStress(lp,so[k].A,E); if(out==MaterialOutput::VectorM&&m.d==2){ ok=false; } }
      else { bool o2; s=stressCon(lp,G,g,nullptr,&o2); ok=ok&&o2; }
      double cs=conScale(G); for(int i=0;i<3;i++){ R(i,j*nu+k)=s[i]; sc=std::max(sc,std::fabs((double)s[i])); } sc=std::max(sc,(m.ms.comp?2e-4/(1-2*(double)lp.nu): m.mode=="undef"||m.mode=="tiny"?1e-6:1e-5)*(double)lp.E*cs); }
    if(!ok){ c.skip("stress=dPsi/dE"); continue; }
    c.near("stress=dPsi/dE",S,R,2e-6,sc,m.ms.name()+" out="+std::to_string((int)out));
    c.near("vector==stress",S2,S,1e-9,sc,m.ms.name());
    if(m.mode=="undef") c.near("stress-free rest state",S,Mat::Zero(3,nu*nz),1e-12,sc/1e-6);
  }
  // strain driven evaluation at mid-surface height of the first point
  if(m.ms.law!=SvK||true){
    double z0=m.ms.law==SvK?0:m.z(0,0); double t=m.ms.t.at(pts.col(0)); S3 G=metricAt(so[0],m.d==3?z0*t:0); S3 g; double f1=c.rng.uni(0.75,1.4),f2=c.rng.uni(0.75,1.4); g[0]=G[0]*f1;g[1]=G[1]*f2;g[2]=G[2]*sqrtl(f1*f2)+c.rng.uni(-0.15,0.15)*sqrtl(G[0]*G[1]);
    if(admissible(G,g,2.0)){ Mat Cm(3,1); Cm<<(double)g[0],(double)g[1],(double)g[2]; Vec uu=m.u.col(0);
      Mat S=m.mat->eval3D_vector_C(Cm,m.patch,uu,z0,MaterialOutput::VectorN); LawPar lp=m.ms.at(pts.col(0)); bool ok=true; S3 s;
      if(m.ms.law==SvK){ S3 E; for(int i=0;i<3;i++) E[i]=(g[i]-so[0].A[i])/2; s=linStress(lp,so[0].A,E);} else s=stressCon(lp,G,g,nullptr,&ok);
      if(ok){ Mat R(3,1); R<<(double)s[0],(double)s[1],(double)s[2]; c.near("stress at given C",S,R,2e-6,std::max(R.cwiseAbs().maxCoeff(),1e-4*(double)lp.E*conScale(G)),m.ms.name()); } } }
}

VM_PROPERTY(C02,3600,30000){
  MatCase m; genMatCase(c,m); const gsFunction<real_t>&o=m.mp.patch(m.patch),&f=m.def.patch(m.patch);
  Mat pts=m.mp.patch(m.patch).eval(m.u); int nu=m.u.cols(),nz=m.z.rows(); std::vector<SurfPt> so,sd; bool adm=true;
  for(int k=0;k<nu;k++){ so.push_back(surfPt(o,m.u.col(k))); sd.push_back(surfPt(f,m.u.col(k))); double t=m.ms.t.at(pts.col(k)); for(int j=0;j<nz;j++){ double zz=m.d==3?m.z(j,k)*t:0; if(!admissible(metricAt(so[k],zz),metricAt(sd[k],zz),2.5)) adm=false; } }
  if(!adm){ c.trivial=true; c.skip("tangent=dS/dE"); return; }
  static const MaterialOutput mo[]={MaterialOutput::MatrixA,MaterialOutput::MatrixB,MaterialOutput::MatrixC,MaterialOutput::MatrixD};
  MaterialOutput out=mo[c.rng.integer(0,3)];
  Mat C=m.mat->eval3D_matrix(m.patch,m.u,m.z,out); Mat R(9,nu*nz); double sc=0;
  auto refT=[&](const LawPar&lp,const SurfPt&s0,const S3&G,const S3&g)->T33{ if(m.ms.law!=SvK) return tangentCon(lp,G,g); T33 D; for(int j=0;j<3;j++){ S3 E={0,0,0}; E[j]=j<2?1:0.5L; S3 s=linStress(lp,s0.A,E); for(int i=0;i<3;i++) D[i][j]=s[i]; } return D; };
  for(int k=0;k<nu;k++) for(int j=0;j<nz;j++){ LawPar lp=m.ms.at(pts.col(k)); ld zz=m.d==3?m.z(j,k)*m.ms.t.at(pts.col(k)):0; T33 D=refT(lp,so[k],metricAt(so[k],zz),metricAt(sd[k],zz)); for(int a=0;a<3;a++)for(int b=0;b<3;b++){ R(3*b+a,j*nu+k)=D[a][b]; sc=std::max(sc,std::fabs((double)D[a][b])); } }
  if(!c.is("size",C.rows()==9&&C.cols()==nu*nz,"matrix size")) return;
  c.near("tangent=dS/dE",C,R,5e-6,sc,m.ms.name());
  for(int q=0;q<nu*nz;q++){ Mat X=C.col(q); X.resize(3,3); c.near("tangent symmetric",X,X.transpose(),1e-8,sc,m.ms.name()); }
  // given C: matrix and its derivative
  { int k=0; double z0=m.z(0,k); double t=m.ms.t.at(pts.col(k)); LawPar lp=m.ms.at(pts.col(k)); ld zz=m.d==3?z0*t:0; S3 G=metricAt(so[k],zz),g=metricAt(sd[k],zz); Vec uu=m.u.col(k); S3 gc=g; bool other=c.rng.chance(0.5);
    if(other){ double f1=c.rng.uni(0.8,1.3),f2=c.rng.uni(0.8,1.3); gc[0]=G[0]*f1;gc[1]=G[1]*f2;gc[2]=G[2]*sqrtl(f1*f2)+c.rng.uni(-0.15,0.15)*sqrtl(G[0]*G[1]); }
    if(admissible(G,gc,2.0)){ Mat Cm(3,1); Cm<<(double)gc[0],(double)gc[1],(double)gc[2]; Mat X=m.mat->eval3D_matrix_C(Cm,m.patch,uu,z0,out); T33 D=refT(lp,so[k],G,gc); Mat RR(9,1); for(int a=0;a<3;a++)for(int b=0;b<3;b++) RR(3*b+a,0)=D[a][b]; c.near("tangent at given C",X,RR,5e-6,RR.cwiseAbs().maxCoeff(),m.ms.name()); }
    // derivative of the tangent w.r.t. the deformation tensor (C11,C22,2*C12) against differences of the reference tangent
    Mat dC=m.mat->eval3D_dmatrix(m.patch,m.u,m.z,out); if(c.is("size",dC.rows()==27&&dC.cols()==nu*nz,"dmatrix size")) {
      int kk=c.rng.integer(0,nu-1), jj=c.rng.integer(0,nz-1); LawPar l2=m.ms.at(pts.col(kk)); ld z2=m.d==3?m.z(jj,kk)*m.ms.t.at(pts.col(kk)):0; S3 G2=metricAt(so[kk],z2),g2=metricAt(sd[kk],z2);
      Mat RR(27,1); double s2=0; for(int v=0;v<3;v++){ ld d2=g2[0]*g2[1]-g2[2]*g2[2],h=2e-3L*d2/(v==0?g2[1]:v==1?g2[0]:sqrtl(g2[0]*g2[1])); auto T=[&](ld q){ S3 x=g2; x[v]+=q; return refT(l2,so[kk],G2,x); }; T33 a=T(h),b=T(-h),e=T(2*h),w=T(-2*h); for(int i=0;i<3;i++)for(int l=0;l<3;l++){ ld d=(8*(a[i][l]-b[i][l])-(e[i][l]-w[i][l]))/(12*h); if(v==2) d/=2; RR(3*(3*l+i)+v,0)=d; s2=std::max(s2,std::fabs((double)d)); } }
      s2=std::max(s2,1e-3*(double)l2.E*std::pow(conScale(G2),3)); c.near("dtangent/dC",Mat(dC.col(jj*nu+kk)),RR,4e-4,s2,m.ms.name()); } }
}
}
