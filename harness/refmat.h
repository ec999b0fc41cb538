// Independent constitutive reference in extended precision: strain energies, plane-stress condensation and
// numerically differentiated stress / tangent. Uses only the documented energies.
#pragma once
#include "common.h"
namespace vm {
enum Law { SvK=0, NH=1, NHe=2, MR=3, OG=4 };
struct LawPar { Law law; bool comp; ld E,nu,ratio; std::vector<ld> mu,al; };
typedef std::array<ld,3> S3;           // (11,22,12)
typedef std::array<std::array<ld,3>,3> T33;

// psi(C) for an in-plane C (orthonormal components) and transverse C33
inline ld psi(const LawPar&p, ld C11,ld C22,ld C12,ld C33){
  ld mu=p.E/(2*(1+p.nu));
  ld det2=C11*C22-C12*C12; ld J2=det2*C33; ld J=sqrtl(J2); ld tr=C11+C22;
  ld I1=tr+C33; ld I2=det2+tr*C33;
  ld vol=0;
  if(p.comp){ ld K=p.E/(3-6*p.nu); vol=K/4*(J2-1-2*logl(J)); }
  switch(p.law){
   case NH: return p.comp? mu/2*(powl(J,-2.L/3)*I1-3)+vol : mu/2*(I1-3);
   case NHe:{ ld lam=p.E*p.nu/((1+p.nu)*(1-2*p.nu)); return mu/2*(I1-3)-mu*logl(J)+lam/4*(J2-1-2*logl(J)); }
   case MR:{ ld c2=mu/(p.ratio+1), c1=p.ratio*c2;
     return p.comp? c1/2*(powl(J,-2.L/3)*I1-3)+c2/2*(powl(J,-4.L/3)*I2-3)+vol : c1/2*(I1-3)+c2/2*(I2-3); }
   case OG:{ ld h=tr/2, disc=sqrtl(((C11-C22)/2)*((C11-C22)/2)+C12*C12); ld l1=sqrtl(h+disc), l2=sqrtl(det2)/l1, l3=sqrtl(C33); ld s=0;
     for(size_t i=0;i<p.mu.size();++i){ ld a=p.al[i]; ld sum=powl(l1,a)+powl(l2,a)+powl(l3,a); s+= p.mu[i]/a*((p.comp?powl(J,-a/3):1)*sum-3); }
     return s+vol; }
   case SvK: default: return 0;
  }
}
// 4th order central derivative in x of f
template<class F> ld d4(F f, ld h){ return (8*(f(h)-f(-h))-(f(2*h)-f(-2*h)))/(12*h); }

// transverse stretch (C33) with vanishing transverse stress
inline ld solveC33(const LawPar&p, ld C11,ld C22,ld C12, bool&ok){
  ld det2=C11*C22-C12*C12; ok=true;
  if(!p.comp) return 1/det2;
  // Newton/bisection on g(x)=dpsi/dlog C33
  auto g=[&](ld x){ ld e=expl(x); ld h=1e-3L; return d4([&](ld q){ return psi(p,C11,C22,C12,e*expl(q)); },h); };
  ld lo=-14, hi=6;
  // g increasing near the solution for reasonable laws: bracket around the incompressible guess
  ld x0=-logl(det2); ld a=x0,b=x0; ld ga=g(a); if(ga==0) return expl(a);
  ld step=0.05L; int it=0; ld gb=ga;
  if(ga>0){ while(ga>0&&a>lo&&it++<400){ b=a;gb=ga;a-=step; ga=g(a);} } else { while(gb<0&&b<hi&&it++<400){ a=b;ga=gb;b+=step; gb=g(b);} }
  if(!(ga<=0&&gb>=0)) { ok=false; return 1; }
  for(int i=0;i<200&&(b-a)>1e-18L;i++){ ld m=(a+b)/2; ld gm=g(m); if(gm>0) b=m; else a=m; if(m==a&&m==b) break; }
  return expl((a+b)/2);
}
// orthonormal-frame PK2 stress, plane stress
inline S3 stressOrtho(const LawPar&p, ld C11,ld C22,ld C12, ld*C33out=nullptr,bool*okout=nullptr){
  bool ok; S3 s;
  if(p.law==SvK){ ld lam=p.E*p.nu/((1+p.nu)*(1-2*p.nu)),mu=p.E/(2*(1+p.nu)); ld lb=2*lam*mu/(lam+2*mu); ld E11=(C11-1)/2,E22=(C22-1)/2,E12=C12/2; s[0]=lb*(E11+E22)+2*mu*E11; s[1]=lb*(E11+E22)+2*mu*E22; s[2]=2*mu*E12; if(C33out)*C33out=1; if(okout)*okout=true; return s; }
  ld C33=solveC33(p,C11,C22,C12,ok); if(C33out)*C33out=C33; if(okout)*okout=ok;
  ld h=4e-4L*(C11*C22-C12*C12)/(C11+C22);
  // incompressible laws: C33 is slaved to the in-plane part, so differentiate the reduced energy; compressible: envelope theorem
  auto f=[&](ld a,ld b,ld c){ ld x=p.comp?C33:1/(a*b-c*c); return psi(p,a,b,c,x); };
  s[0]=2*d4([&](ld q){return f(C11+q,C22,C12);},h);
  s[1]=2*d4([&](ld q){return f(C11,C22+q,C12);},h);
  s[2]=  d4([&](ld q){return f(C11,C22,C12+q);},h);
  return s;
}
struct M2 { ld a,b,c,d; }; // [[a,b],[c,d]]
// contravariant stress components for covariant metrics Gori, Gdef = (11,22,12)
inline S3 stressCon(const LawPar&p,const S3&G,const S3&g,ld*C33=nullptr,bool*ok=nullptr){
  ld L11=sqrtl(G[0]), L21=G[2]/L11, L22=sqrtl(G[1]-L21*L21); // G = L L^T
  ld i11=1/L11, i22=1/L22, i21=-L21/(L11*L22);               // L^{-1}
  // C = L^{-1} g L^{-T}
  ld C11=i11*i11*g[0];
  ld C12=i11*(g[0]*i21+g[2]*i22);
  ld C22=i21*i21*g[0]+2*i21*i22*g[2]+i22*i22*g[1];
  S3 s=stressOrtho(p,C11,C22,C12,C33,ok);
  // S^ij = (L^{-T} S L^{-1}), L^{-T}=[[i11,i21],[0,i22]]
  S3 r; r[0]=i11*i11*s[0]+2*i11*i21*s[2]+i21*i21*s[1]; r[1]=i22*i22*s[1]; r[2]=i22*(i11*s[2]+i21*s[1]);
  return r;
}
// dS^i / dE_j with E=(E11,E22,2E12)
inline T33 tangentCon(const LawPar&p,const S3&G,const S3&g){
  T33 D; ld det=g[0]*g[1]-g[2]*g[2]; ld hh[3]={5e-4L*det/g[1],5e-4L*det/g[0],5e-4L*det/sqrtl(g[0]*g[1])}; // steps relative to the inverse metric, so that sheared frames are not over-stepped
  for(int j=0;j<3;j++){ auto S=[&](ld q){ S3 x=g; x[j]+=q; return stressCon(p,G,x); };
    S3 a=S(hh[j]),b=S(-hh[j]),c=S(2*hh[j]),d=S(-2*hh[j]);
    for(int i=0;i<3;i++){ D[i][j]=(8*(a[i]-b[i])-(c[i]-d[i]))/(12*hh[j]); if(j<2) D[i][j]*=2; } }
  return D;
}
} // namespace
