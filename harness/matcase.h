// Random material evaluation cases: geometry, deformation, material, points and heights.
#pragma once
#include "gen.h"
namespace vm {
struct MatCase { MP mp,def; MatSpec ms; gsMaterialMatrixBase<real_t>::uPtr mat; int d; int patch; Mat u,z; std::string mode; std::vector<std::shared_ptr<gsPiecewiseFunction<real_t>>> pw; };
inline void genMatCase(Case&c,MatCase&m){
  Rng&r=c.rng; const Combo&co=combos()[c.index%combos().size()]; m.d=((c.index/combos().size())%3==0)?2:3;
  int np=r.chance(0.25)?2:1; int kind=m.d==2?r.integer(0,1):r.integer(0,G_N-1);
  for(int p=0;p<np;p++){ auto g=genPatch(r,m.d,kind,r.integer(2,3),2,r.integer(1,3),r.integer(1,2),p,p+1); m.mp.addPatch(give(g)); }
  m.mp.computeTopology(); m.def=m.mp;
  int mode=r.integer(0,7); static const char*mn[]={"undef","tiny","small","moderate","moderate","large","equibiax","tiny"}; double mic=r.logu(1e-10,1e-6); m.mode=mn[mode];
  double amp[]={0,1e-6,1e-3,0.15,0.25,0.35,0,mic}; double noise[]={0,1e-7,1e-4,0.02,0.03,0.03,0,mic*0.3};
  Deform D=genDeform(r,m.d,amp[mode],noise[mode],mode!=0&&r.chance(0.5));
  if(mode==6){ double s=r.uni(0.8,1.5); D.F=(D.F*s).eval(); }
  if(mode) applyDeform(r,D,m.def);
  m.ms=genMat(r,m.d,co,0.005,0.15,r.chance(0.5));
  m.patch=r.integer(0,np-1);
  if(np>1&&r.chance(0.5)){ std::vector<MatSpec> sp; for(int p=0;p<np;p++){ sp.push_back(p==m.patch?m.ms:genMat(r,m.d,co,0.005,0.15,r.chance(0.5))); if(co.law==OG) sp.back().par=m.ms.par; } m.mat=makePiecewise(sp,m.mp,m.pw); } else m.mat=m.ms.make(m.mp);
  m.mat->setDeformed(&m.def); int nu=r.integer(1,4), nz=r.integer(1,3);
  m.u.resize(2,nu); m.z.resize(nz,nu); for(int k=0;k<nu;k++){ m.u(0,k)=r.uni(0.02,0.98);m.u(1,k)=r.uni(0.02,0.98); for(int j=0;j<nz;j++) m.z(j,k)=r.chance(0.2)?0:r.uni(-0.5,0.5);} 
  c.key=m.ms.name()+"/"+geoName(kind)+"/"+m.mode+"/np"+std::to_string(np)+(nu>1?"/multi":"/one")+(nz>1?"/zs":"/z1"); c.tag=m.ms.name();
  c.desc<<c.key<<" u="<<mstr(m.u)<<" z="<<mstr(m.z)<<" patch="<<m.patch;
  if(mode==0) c.trivial=false;
}
// usable deformation states: orientation preserving, not too far
inline bool admissible(const S3&G,const S3&g,double lim){ ld dG=G[0]*G[1]-G[2]*G[2],dg=g[0]*g[1]-g[2]*g[2]; if(!(dG>0)||!(dg>0)) return false; ld j=sqrtl(dg/dG); ld tr=(G[1]*g[0]+G[0]*g[1]-2*G[2]*g[2])/dG; ld disc=sqrtl(fabsl(tr*tr/4-dg/dG)); ld l1=tr/2+disc,l2=tr/2-disc; return l2>1/(lim*lim)&&l1<lim*lim&&j>0; }

// base vectors and tensors at a height
struct Frame { ld g[3][3]; ld G[3][3]; S3 cov; }; // covariant / contravariant base vectors at a height (rows: vector)
inline Frame frameAt(const SurfPt&s,ld z){ Frame f; for(int i=0;i<3;i++){ f.g[0][i]=s.g1[i]+z*s.n1[i]; f.g[1][i]=s.g2[i]+z*s.n2[i]; f.g[2][i]=s.n[i]; } f.cov[0]=dot3(f.g[0],f.g[0]);f.cov[1]=dot3(f.g[1],f.g[1]);f.cov[2]=dot3(f.g[0],f.g[1]);
  ld det=f.cov[0]*f.cov[1]-f.cov[2]*f.cov[2]; for(int i=0;i<3;i++){ f.G[0][i]=(f.cov[1]*f.g[0][i]-f.cov[2]*f.g[1][i])/det; f.G[1][i]=(f.cov[0]*f.g[1][i]-f.cov[2]*f.g[0][i])/det; f.G[2][i]=s.n[i]; } return f; }
inline Mat tensor(const S3&q,const ld(*b)[3]){ Mat T=Mat::Zero(3,3); ld M[2][2]={{q[0],q[2]},{q[2],q[1]}}; for(int i=0;i<3;i++)for(int j=0;j<3;j++){ ld v=0; for(int k=0;k<2;k++)for(int l=0;l<2;l++) v+=M[k][l]*b[k][i]*b[l][j]; T(i,j)=(double)v; } return T; }
inline void eig2(const S3&q,const S3&met,bool contra,ld&lo,ld&hi){ // eigenvalues of the mixed tensor of q (contra: q^ij with metric g_ij; else q_ij with metric inverse)
  ld a[2][2]={{q[0],q[2]},{q[2],q[1]}},m[2][2]={{met[0],met[2]},{met[2],met[1]}}; if(!contra){ ld d=met[0]*met[1]-met[2]*met[2]; m[0][0]=met[1]/d;m[1][1]=met[0]/d;m[0][1]=m[1][0]=-met[2]/d; }
  ld x[2][2]; for(int i=0;i<2;i++)for(int j=0;j<2;j++){ x[i][j]=0; for(int k=0;k<2;k++) x[i][j]+=a[i][k]*m[k][j]; }
  ld tr=x[0][0]+x[1][1]; ld disc=((x[0][0]-x[1][1])/2)*((x[0][0]-x[1][1])/2)+x[0][1]*x[1][0]; if(disc<0) disc=0; disc=sqrtl(disc); lo=tr/2-disc; hi=tr/2+disc; }
inline S3 col3(const Mat&m,int c){ S3 s; for(int i=0;i<3;i++) s[i]=m(i,c); return s; }
inline Mat sq(const Mat&m,int c,int r=3){ Mat x=m.col(c); x.resize(r,m.rows()/r); return x; }
inline Mat voigt(const Mat&Q,const ld(*b)[3]){ Mat v(3,1); auto f=[&](int k,int l){ ld s=0; for(int i=0;i<3;i++)for(int j=0;j<3;j++) s+=b[k][i]*Q(i,j)*b[l][j]; return (double)s; }; v<<f(0,0),f(1,1),f(0,1); return v; }

}
