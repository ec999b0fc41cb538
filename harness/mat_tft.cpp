// C05: tension-field wrapper against the wrapped material and an own wrinkling search.
#include "matcase.h"
namespace vm {
typedef MaterialOutput MO;
static gsMaterialMatrixBase<real_t>* makeTFT(int d,bool lin,gsMaterialMatrixBase<real_t>*b){ if(d==2) return lin?(gsMaterialMatrixBase<real_t>*)new gsMaterialMatrixTFT<2,real_t,true>(b):new gsMaterialMatrixTFT<2,real_t,false>(b); return lin?(gsMaterialMatrixBase<real_t>*)new gsMaterialMatrixTFT<3,real_t,true>(b):new gsMaterialMatrixTFT<3,real_t,false>(b); }
static void updateDef(gsMaterialMatrixBase<real_t>*t,int d,bool lin,const MP*def){ if(d==2){ if(lin) static_cast<gsMaterialMatrixTFT<2,real_t,true>*>(t)->updateDeformed(def); else static_cast<gsMaterialMatrixTFT<2,real_t,false>*>(t)->updateDeformed(def);} else { if(lin) static_cast<gsMaterialMatrixTFT<3,real_t,true>*>(t)->updateDeformed(def); else static_cast<gsMaterialMatrixTFT<3,real_t,false>*>(t)->updateDeformed(def);} }
struct Wr { ld f,nS,tE,gam; };
static Wr wr(const Mat&C,const Mat&S,const Mat&E,ld th){ ld c=cosl(th),s=sinl(th); ld n[3]={c*c,s*s,2*c*s},m[3]={-s*c,s*c,c*c-s*s},t[3]={s*s,c*c,-2*c*s}; Wr w; ld nCn=0,mCn=0,mS=0; w.nS=w.tE=0; for(int i=0;i<3;i++){ w.nS+=n[i]*S(i,0); mS+=m[i]*S(i,0); w.tE+=t[i]*E(i,0); for(int j=0;j<3;j++){ nCn+=n[i]*C(i,j)*n[j]; mCn+=m[i]*C(i,j)*n[j]; } } w.gam=-w.nS/nCn; w.f=mS+w.gam*mCn; return w; }

VM_PROPERTY(C05,6000,80000){
  MatCase m; genMatCase(c,m); Rng&r=c.rng; bool lin=m.ms.law==SvK; int nu=m.u.cols(),nz=m.z.rows(),N=nu*nz,P=m.patch; std::string nm=m.ms.name();
  if(lin) m.z.setZero();
  const gsFunction<real_t>&o=m.mp.patch(P),&f=m.def.patch(P); Mat pts=o.eval(m.u);
  std::vector<Frame> fo(N),fd(N); std::vector<ld> zz(N);
  for(int k=0;k<nu;k++){ SurfPt a=surfPt(o,m.u.col(k)),b=surfPt(f,m.u.col(k)); for(int j=0;j<nz;j++){ int q=j*nu+k; zz[q]=m.d==3?m.z(j,k)*m.ms.t.at(pts.col(k)):0; fo[q]=frameAt(a,zz[q]); fd[q]=frameAt(b,zz[q]); if(!admissible(fo[q].cov,fd[q].cov,2.0)){ c.trivial=true; c.skip("classification"); return; } } }
  int crit=r.chance(0.5)?2:r.integer(0,1); m.mat->options().setInt("TensionField",crit);
  std::unique_ptr<gsMaterialMatrixBase<real_t>> tft(makeTFT(m.d,lin,m.mat.get())); double slack=r.chance(0.5)?0:r.logu(1e-6,0.5); if(slack>0) tft->options().setReal("SlackMultiplier",slack);
  if(r.chance(0.3)) tft->setDeformed(&m.def); if(r.chance(0.3)) tft->setUndeformed(&m.mp);
  gsMaterialMatrixBase<real_t>&B=*m.mat,&T=*tft; c.key+="/crit"+std::to_string(crit)+(slack>0?"/slackmul":"");
  Mat S=B.eval3D_stress(P,m.u,m.z,lin?MO::VectorN:MO::Generic),C=B.eval3D_matrix(P,m.u,m.z,lin?MO::MatrixA:MO::Generic),E=B.eval3D_strain(P,m.u,m.z);
  Mat tf=T.eval3D_tensionfield(P,m.u,m.z,MO::TensionField); Mat tS=T.eval3D_stress(P,m.u,m.z,MO::VectorN),tV=T.eval3D_vector(P,m.u,m.z,MO::VectorN),tC=T.eval3D_matrix(P,m.u,m.z,MO::MatrixA),tE=T.eval3D_strain(P,m.u,m.z),th=T.eval3D_theta(P,m.u,m.z,MO::Theta),ga=T.eval3D_gamma(P,m.u,m.z,MO::Gamma);
  Mat bP=B.eval3D_pstress(P,m.u,m.z,MO::Generic),tP=T.eval3D_pstress(P,m.u,m.z,MO::Generic),bEp=B.eval3D_pstrain(P,m.u,m.z),tEp=T.eval3D_pstrain(P,m.u,m.z),tCa=T.eval3D_CauchyStress(P,m.u,m.z,MO::CauchyStressN),bCa=B.eval3D_CauchyStress(P,m.u,m.z,MO::CauchyStressN),DF=B.eval3D_detF(P,m.u,m.z,MO::Generic);
  auto sz=[&](const Mat&a,int rw){ return a.rows()==rw&&a.cols()==N; };
  if(!c.is("size",sz(tf,1)&&sz(tS,3)&&sz(tV,3)&&sz(tC,9)&&sz(tE,3)&&sz(th,1)&&sz(ga,1)&&sz(tP,2)&&sz(tEp,3)&&sz(tCa,3),"sizes")) return;
  Mat bt,tt; B.thickness_into(P,m.u,bt); T.thickness_into(P,m.u,tt); c.near("thickness of the wrapper",tt,bt,1e-14,bt.cwiseAbs().maxCoeff(),nm); B.density_into(P,m.u,bt); T.density_into(P,m.u,tt); c.near("density of the wrapper",tt,bt,1e-14,bt.cwiseAbs().maxCoeff(),nm);
  c.near("vector == stress",tV,tS,1e-14,std::max(1e-300,tS.cwiseAbs().maxCoeff()),nm);
  if(r.chance(0.25)){ Mat z1=m.z.col(0),zr=z1.replicate(1,nu); gsMaterialMatrixBase<real_t>*tm=tft.get(); auto ev=[&](const gsFunctionSet<real_t>&fs){ Mat x; static_cast<const gsFunction<real_t>&>(fs.piece(P)).eval_into(m.u,x); return x; };
#define CMPT(OUT,EXPR) { gsMaterialMatrixEval<real_t,MO::OUT> e(tm,&m.mp,&m.def,z1); Mat x=ev(e),y=T.EXPR; if(x.rows()==y.rows()&&x.cols()==y.cols()) for(index_t i=0;i<x.size();++i) if(std::isnan(x.data()[i])&&std::isnan(y.data()[i])) x.data()[i]=y.data()[i]=0; /* angle of a taut or slack point */ c.near("evaluator "#OUT,x,y,1e-12,std::max(1e-300,y.cwiseAbs().maxCoeff()),nm); c.is("evaluator dimension",e.piece(P).targetDim()==x.rows(),#OUT); }
    CMPT(Theta,eval3D_theta(P,m.u,zr,MO::Theta)) CMPT(Gamma,eval3D_gamma(P,m.u,zr,MO::Gamma)) CMPT(TensionField,eval3D_tensionfield(P,m.u,zr,MO::TensionField)) CMPT(StressN,eval3D_stress(P,m.u,zr,MO::StressN)) CMPT(PStressN,eval3D_pstress(P,m.u,zr,MO::PStressN)) }
  int taut=0,wrk=0,slk=0;
  for(int q=0;q<N;q++){ int k=q%nu,j=q/nu; ld S0,S1,E0,E1; S3 s={S(0,q),S(1,q),S(2,q)},e={E(0,q),E(1,q),E(2,q)/2}; eig2(s,fo[q].cov,true,S0,S1); eig2(e,fo[q].cov,false,E0,E1); ld Em=std::max(fabsl(E0),fabsl(E1)),Sm=std::max(fabsl(S0),fabsl(S1));
    double Es=m.ms.at(pts.col(k)).E; bool num=Em<(m.ms.comp?1e-5:1e-8); if(num){ c.skip("classification"); continue; }
    ld a0=crit==0?E0:S0,am=crit==0?Em:Sm,b1=crit==1?S1:E1,bm=crit==1?Sm:Em; int want=a0>0?1:b1<0?-1:0; bool amb=fabsl(a0)<1e-7*am||(a0<=0&&fabsl(b1)<1e-7*bm); double got=tf(0,q);
    if(amb){ c.skip("classification"); continue; } c.near("classification",got,want,0,1,nm); if(got!=want) continue;
    Mat Sq=S.col(q),Cq=sq(C,q),Eq=E.col(q); double sc=std::max(Sq.cwiseAbs().maxCoeff(),1e-300),cs=Cq.cwiseAbs().maxCoeff(),es=Eq.cwiseAbs().maxCoeff();
    if(want!=0){ double w=want==1?1:slack; std::string L=want==1?"taut: ":"slack: "; (want==1?taut:slk)++;
      c.near(L+"stress",Mat(tS.col(q)),Mat(w*Sq),1e-13,sc,nm); c.near(L+"tangent",sq(tC,q),Mat(w*Cq),1e-13,cs,nm); c.near(L+"strain",Mat(tE.col(q)),Mat(w*Eq),1e-13,es,nm); c.near(L+"principal stress",Mat(tP.col(q)),Mat(w*bP.col(q)),1e-13,sc,nm); c.near(L+"principal strain",Mat(tEp.col(q)),Mat(w*bEp.col(q)),1e-13,es,nm); c.near(L+"Cauchy stress",Mat(tCa.col(q)),Mat(w*bCa.col(q)),1e-13,std::max(1e-300,bCa.col(q).cwiseAbs().maxCoeff()),nm); c.is(L+"no wrinkling direction",std::isnan(th(0,q))&&std::isnan(ga(0,q)),nm); continue; }
    wrk++; c.near("wrinkled: principal stress of the wrapped material",Mat(tP.col(q)),Mat(bP.col(q)),1e-13,sc,nm);
    if(!(S0<-1e-6*Sm&&E1>1e-6*Em)){ c.skip("wrinkled: uniaxial"); continue; } // only then a uniaxial tensile state exists
    // own search for wrinkling directions
    const int M=720; const ld PI=3.14159265358979323846264338L; std::vector<ld> roots; ld fp=wr(Cq,Sq,Eq,0).f; ld fmax=0; for(int i=1;i<=M;i++){ ld x=PI*i/M; ld fx=wr(Cq,Sq,Eq,x).f; fmax=std::max(fmax,fabsl(fx)); if((fp<0)!=(fx<0)){ ld a=PI*(i-1)/M,b=x,fa=fp; for(int it=0;it<90;it++){ ld mm=(a+b)/2,fm=wr(Cq,Sq,Eq,mm).f; if((fm<0)==(fa<0)){a=mm;fa=fm;} else b=mm; } roots.push_back((a+b)/2); } fp=fx; }
    std::vector<ld> good; for(ld x:roots){ Wr w=wr(Cq,Sq,Eq,x); if(w.nS<-1e-9*sc&&w.tE>1e-9*es) good.push_back(x); }
    if(good.empty()){ c.skip("wrinkled: uniaxial"); continue; }
    double t0=th(0,q); Wr w=wr(Cq,Sq,Eq,t0); ld dist=10; for(ld x:good){ ld dd=fabsl(remainderl(t0-x,PI)); dist=std::min(dist,dd); }
    double nz_=1e-12/(double)Em+3e-8/std::min(sc,(double)Sm); // rounding of the strains and the absolute tolerance (1e-8) of the fallback root finder, relative
    if(Em>1e-4&&nz_<1e-5&&!(m.ms.comp&&Em<1e-3)) c.near("wrinkled: direction",(double)dist,0,1e-5+1e2*nz_,1,nm+" theta="+std::to_string(t0)); c.near("wrinkled: no shear across the wrinkles",(double)(w.f),0,1e-7+nz_,(double)std::max(fmax,(ld)sc),nm+" theta="+std::to_string(t0)); c.is("wrinkled: tension line",w.nS<=(1e-7+10*nz_)*sc&&w.tE>=-(1e-7+10*nz_)*es,nm+" theta="+std::to_string(t0));
    c.near("wrinkled: wrinkling strain",ga(0,q),(double)w.gam,1e-8,std::max((double)fabsl(w.gam),1e-6*es),nm); c.is("wrinkled: wrinkling strain positive",ga(0,q)>-(1e-9+10*nz_)*es,nm);
    // returned stress: rank one, tensile
    S3 ts={tS(0,q),tS(1,q),tS(2,q)}; ld R0,R1; eig2(ts,fo[q].cov,true,R0,R1); c.near("wrinkled: uniaxial",(double)(R1>-R0?R0:R1),0,1e-7+10*nz_,(double)Sm,nm); if(lin) c.is("wrinkled: tensile",R1>-(1e-7+10*nz_)*Sm,nm+" S1="+std::to_string((double)R1));
    ld cc=cosl(t0),ss=sinl(t0); Mat n(3,1); n<<(double)(cc*cc),(double)(ss*ss),(double)(2*cc*ss); c.near("wrinkled: stress",Mat(tS.col(q)),Mat(Sq+ga(0,q)*Cq*n),1e-9,sc,nm); c.near("wrinkled: strain",Mat(tE.col(q)),Mat(Eq+ga(0,q)*n),1e-9,es,nm);
    c.near("wrinkled: Cauchy stress",Mat(tCa.col(q)),Mat(tS.col(q)/DF(0,q)),1e-9,std::max(sc,bCa.col(q).cwiseAbs().maxCoeff()),nm);
    // tangent against differences of the returned stress
    if(r.chance(lin?1.0:0.5)){ bool ok=true; Mat K=sq(tC,q); Mat uu=m.u.col(k),z1(1,1); z1(0,0)=m.z(j,k); double sl=0; Mat hh=Mat::Zero(3,3); for(int i=0;i<2;i++)for(int l=i;l<2;l++){ double v=r.uni(-1,1); for(int x=0;x<3;x++)for(int y=0;y<3;y++) hh(x,y)+=v*(double)(fd[q].G[i][x]*fd[q].G[l][y]+fd[q].G[l][x]*fd[q].G[i][y])/2*(double)sqrtl(fd[q].cov[i]*fd[q].cov[l]); }
      if(m.d==2) hh=Mat(hh.block(0,0,2,2)); double h0=1e-4*std::min(1.0,1e2*(double)Em); Mat d1[2],e1[2];
      for(int lev=0;lev<2&&ok;lev++){ double h=h0/(lev+1); Mat sv[2],ev[2]; for(int sg=0;sg<2;sg++){ MP dd=m.def; Mat A=Mat::Identity(m.d,m.d)+(sg?-h:h)*hh; for(size_t p=0;p<dd.nPatches();++p){ Mat cf=dd.patch(p).coefs()*A.transpose(); dd.patch(p).coefs()=cf; } T.setDeformed(&dd); Mat tfp=T.eval3D_tensionfield(P,uu,z1,MO::TensionField); if(tfp(0,0)!=0) ok=false; sv[sg]=T.eval3D_stress(P,uu,z1,MO::VectorN); SurfPt b=surfPt(dd.patch(P),uu); S3 g=metricAt(b,zz[q]); ev[sg].resize(3,1); ev[sg]<<(double)(g[0]/2),(double)(g[1]/2),(double)g[2]; T.setDeformed(&m.def); } if(ok){ d1[lev]=(sv[0]-sv[1])/(2*h); e1[lev]=(ev[0]-ev[1])/(2*h); } }
      if(ok){ Mat p1=K*e1[1]; double ds=std::max(d1[1].cwiseAbs().maxCoeff(),1e-3*cs*e1[1].cwiseAbs().maxCoeff()); double err=(d1[0]-d1[1]).cwiseAbs().maxCoeff()/ds; if(err>1e-5) c.skip("wrinkled: tangent"); else c.near("wrinkled: tangent",p1,d1[1],(lin?1e-5:2e-3)+1e2*nz_,ds,nm); } else c.skip("wrinkled: tangent"); }
  }
  c.tag=nm; if(taut) c.note("taut"); if(wrk) c.note("wrinkled"); if(slk) c.note("slack");
  c.key+=taut?"/t":""; c.key+=wrk?"/w":""; c.key+=slk?"/s":"";
  // thickness-integrated wrapper
  { gsMaterialMatrixIntegrate<real_t,MO::VectorN> iN(tft.get(),&m.def); gsMaterialMatrixIntegrate<real_t,MO::MatrixA> iA(tft.get(),&m.def); Mat a,b,zp=Mat::Constant(1,nu,0.5),zm=-zp; static_cast<const gsFunction<real_t>&>(iN.piece(P)).eval_into(m.u,a); static_cast<const gsFunction<real_t>&>(iA.piece(P)).eval_into(m.u,b); Mat ra=(T.eval3D_stress(P,m.u,zp,MO::VectorN)+T.eval3D_stress(P,m.u,zm,MO::VectorN))/2,rb=(T.eval3D_matrix(P,m.u,zp,MO::MatrixA)+T.eval3D_matrix(P,m.u,zm,MO::MatrixA))/2; for(int k=0;k<nu;k++){ double t=m.ms.t.at(pts.col(k)); ra.col(k)*=t; rb.col(k)*=t; } c.near("integrated stress",a,ra,1e-12,std::max(1e-300,ra.cwiseAbs().maxCoeff()),nm); c.near("integrated tangent",b,rb,1e-12,std::max(1e-300,rb.cwiseAbs().maxCoeff()),nm); }
  // explicit mode: classification of a frozen state
  if(r.chance(0.3)){ MP d0=m.mp; Deform D=genDeform(r,m.d,0.2,0.01,false); applyDeform(r,D,d0); B.setDeformed(&d0); Mat t0; bool okk=true; for(int k=0;k<nu&&okk;k++) for(int j=0;j<nz;j++){ Frame x=frameAt(surfPt(d0.patch(P),m.u.col(k)),zz[j*nu+k]); if(!admissible(fo[j*nu+k].cov,x.cov,2.0)) okk=false; } if(okk) t0=B.eval3D_tensionfield(P,m.u,m.z,MO::TensionField); B.setDeformed(&m.def);
    if(okk){ tft->options().setSwitch("Explicit",true); updateDef(tft.get(),m.d,lin,&d0); T.setDeformed(&m.def); Mat t1=T.eval3D_tensionfield(P,m.u,m.z,MO::TensionField); c.near("explicit: classification of the frozen state",t1,t0,0,1,nm); Mat s1=T.eval3D_stress(P,m.u,m.z,MO::VectorN); for(int q=0;q<N;q++) if(t0(0,q)!=0){ double w=t0(0,q)==1?1:slack; c.near("explicit: stress of the current state",Mat(s1.col(q)),Mat(w*S.col(q)),1e-13,std::max(1e-300,S.col(q).cwiseAbs().maxCoeff()),nm); } } }
}
}
