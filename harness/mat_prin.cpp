// C06: principal quantities, transformations and Cauchy stress against tensors rebuilt from own base vectors.
#include "matcase.h"
namespace vm {
VM_PROPERTY(C06,9000,120000){
  MatCase m; genMatCase(c,m); const gsFunction<real_t>&o=m.mp.patch(m.patch),&f=m.def.patch(m.patch); Mat pts=o.eval(m.u); int nu=m.u.cols(),nz=m.z.rows(),N=nu*nz; std::string nm=m.ms.name();
  std::vector<SurfPt> so,sd; bool adm=true; std::vector<Frame> fo(N),fd(N); std::vector<LawPar> lp(N); std::vector<ld> zz(N);
  for(int k=0;k<nu;k++){ so.push_back(surfPt(o,m.u.col(k))); sd.push_back(surfPt(f,m.u.col(k))); for(int j=0;j<nz;j++){ int q=j*nu+k; zz[q]=m.d==3?m.z(j,k)*m.ms.t.at(pts.col(k)):0; fo[q]=frameAt(so[k],zz[q]); fd[q]=frameAt(sd[k],zz[q]); lp[q]=m.ms.at(pts.col(k)); if(!admissible(fo[q].cov,fd[q].cov,2.2)) adm=false; } }
  if(!adm){ c.trivial=true; c.skip("stretch"); return; }
  auto&M=*m.mat; int P=m.patch; typedef MaterialOutput MO;
  // deformation, strain, stretches
  Mat C=M.eval3D_deformation(P,m.u,m.z),E=M.eval3D_strain(P,m.u,m.z),L=M.eval3D_pstretch(P,m.u,m.z),LD=M.eval3D_pstretchDir(P,m.u,m.z),EP=M.eval3D_pstrain(P,m.u,m.z);
  if(!c.is("size",C.rows()==9&&C.cols()==N&&E.rows()==3&&E.cols()==N&&L.rows()==3&&L.cols()==N&&LD.rows()==9&&LD.cols()==N&&EP.rows()==3&&EP.cols()==N,"sizes")) return;
  std::vector<ld> C33(N);
  for(int q=0;q<N;q++){ const S3&G=fo[q].cov,&g=fd[q].cov; ld J02=(g[0]*g[1]-g[2]*g[2])/(G[0]*G[1]-G[2]*G[2]); C33[q]=1/J02; bool ok=true; if(m.ms.law!=SvK&&m.ms.comp) stressCon(lp[q],G,g,&C33[q],&ok); if(!ok){ c.skip("stretch"); return; }
    Mat Cq=sq(C,q),R=Mat::Zero(3,3); R<<(double)g[0],(double)g[2],0,(double)g[2],(double)g[1],0,0,0,Cq(2,2); double sc=(double)std::max(g[0],g[1]); c.near("deformation tensor",Cq,R,1e-11,sc,nm);
    Mat Er(3,1); Er<<(double)((g[0]-G[0])/2),(double)((g[1]-G[1])/2),(double)(g[2]-G[2]); c.near("Green-Lagrange strain",Mat(E.col(q)),Er,1e-11,(double)std::max(sc,(double)std::max(G[0],G[1])),nm);
    ld lo,hi; eig2(g,G,false,lo,hi); Mat Lr(3,1); Lr<<(double)sqrtl(lo),(double)sqrtl(hi),(double)sqrtl(C33[q]); c.near("principal stretches",Mat(L.col(q)),Lr,2e-7,1,nm);
    Mat D=sq(LD,q); c.near("stretch directions orthonormal",Mat(D.transpose()*D),Mat::Identity(3,3),1e-10,1,nm);
    Mat nn(3,1); nn<<(double)so[q%nu].n[0],(double)so[q%nu].n[1],(double)so[q%nu].n[2]; c.near("third stretch direction",Mat(D.col(2)),nn,1e-11,1,nm);
    Mat rec=L(0,q)*L(0,q)*D.col(0)*D.col(0).transpose()+L(1,q)*L(1,q)*D.col(1)*D.col(1).transpose(); c.near("stretches and directions rebuild C",rec,tensor(g,fo[q].G),1e-9,1,nm);
    S3 e={(g[0]-G[0])/2,(g[1]-G[1])/2,(g[2]-G[2])/2}; eig2(e,G,false,lo,hi); Mat Epr(3,1); Epr<<(double)lo,(double)hi,0; c.near("principal strains",Mat(EP.col(q)),Epr,1e-10,1,nm); }
  if(m.ms.law!=SvK&&m.ms.comp){ Mat z0=Mat::Zero(1,nu),a,b; M.pstretch_into(P,m.u,a); M.pstretchDir_into(P,m.u,b); c.near("mid-surface stretches",a,Mat(M.eval3D_pstretch(P,m.u,z0)),1e-12,1,nm); c.near("mid-surface stretch directions",b,Mat(M.eval3D_pstretchDir(P,m.u,z0)),1e-12,1,nm); }
  // stresses
  std::vector<MO> outs={MO::Generic,MO::StressN,MO::StressM}; MO out=outs[c.rng.integer(0,2)]; if(m.d==2&&out==MO::StressM) out=MO::StressN; // the bending stress of a planar problem is void
  MO pout=out==MO::Generic?(m.ms.law==SvK?MO::PStress:MO::Generic):out==MO::StressN?MO::PStressN:MO::PStressM, cout=out==MO::Generic?MO::CauchyStressN:out==MO::StressN?MO::CauchyStressN:MO::CauchyStressM, cpout=cout==MO::CauchyStressN?MO::PCauchyStressN:MO::PCauchyStressM; MO scout=cout==MO::CauchyStressN?MO::StressN:MO::StressM;
  Mat S=M.eval3D_stress(P,m.u,m.z,out),SP=M.eval3D_pstress(P,m.u,m.z,pout),SD=M.eval3D_pstressDir(P,m.u,m.z,pout),Sc0=M.eval3D_stress(P,m.u,m.z,scout),SC=M.eval3D_CauchyStress(P,m.u,m.z,cout),SCV=M.eval3D_CauchyVector(P,m.u,m.z,cout==MO::CauchyStressN?MO::CauchyVectorN:MO::CauchyVectorM),SCP=M.eval3D_CauchyPStress(P,m.u,m.z,cpout),DF=M.eval3D_detF(P,m.u,m.z,MO::Generic);
  if(!c.is("size",SP.rows()==2&&SP.cols()==N&&SD.rows()==9&&SD.cols()==N&&SC.rows()==3&&SC.cols()==N&&SCP.rows()==2&&SCP.cols()==N&&DF.cols()==N,"sizes of stress fields")) return;
  for(int q=0;q<N;q++){ ld lo,hi; eig2(col3(S,q),fo[q].cov,true,lo,hi); Mat T=tensor(col3(S,q),fo[q].g); double sc=std::max(T.cwiseAbs().maxCoeff(),1e-9*(double)lp[q].E); Mat r(2,1); r<<(double)lo,(double)hi; c.near("principal stresses",Mat(SP.col(q)),r,1e-9,sc,nm);
    Mat D=sq(SD,q); c.near("stress directions orthonormal",Mat(D.transpose()*D),Mat::Identity(3,3),m.mode=="undef"?1e300:1e-9,1,nm); Mat rec=SP(0,q)*D.col(0)*D.col(0).transpose()+SP(1,q)*D.col(1)*D.col(1).transpose(); c.near("stresses and directions rebuild S",rec,T,1e-9,sc,nm);
    const S3&G=fo[q].cov,&g=fd[q].cov; ld J0=sqrtl((g[0]*g[1]-g[2]*g[2])/(G[0]*G[1]-G[2]*G[2])); ld J=m.ms.law==SvK?J0:m.ms.comp?J0*sqrtl(C33[q]):1; c.near("detF",DF(0,q),(double)J,2e-7,1,nm);
    Mat sr=Sc0.col(q)/(double)J; double s2=std::max(sr.cwiseAbs().maxCoeff(),1e-6*(double)lp[q].E/(double)std::min(G[0],G[1])); c.near("Cauchy = S/J on the deformed basis",Mat(SC.col(q)),sr,1e-6,s2,nm); c.near("Cauchy vector == Cauchy stress",Mat(SCV.col(q)),Mat(SC.col(q)),1e-9,s2,nm);
    eig2(col3(SC,q),g,true,lo,hi); Mat T2=tensor(col3(SC,q),fd[q].g); double s3=std::max(T2.cwiseAbs().maxCoeff(),1e-9*(double)lp[q].E); r<<(double)lo,(double)hi; c.near("principal Cauchy stresses",Mat(SCP.col(q)),r,1e-9,s3,nm); }
  // transformations of an arbitrary symmetric tangential tensor
  Mat T1=M.eval3D_spec2cov(P,m.u,m.z),T2=M.eval3D_spec2con(P,m.u,m.z),T3=M.eval3D_cov2cart(P,m.u,m.z),T4=M.eval3D_con2cart(P,m.u,m.z);
  if(c.is("size",T1.rows()==9&&T1.cols()==N&&T2.cols()==N&&T3.cols()==N&&T4.cols()==N,"sizes of transformations")) for(int q=0;q<N;q++){
    S3 v={c.rng.uni(-1,1),c.rng.uni(-1,1),c.rng.uni(-1,1)}; Mat vv(3,1); vv<<(double)v[0],(double)v[1],(double)v[2]; Mat D=sq(LD,q); ld nb[3][3]; for(int i=0;i<3;i++)for(int k=0;k<3;k++) nb[k][i]=D(i,k);
    Mat Q=tensor(v,fo[q].g); c.near("transformation covariant/spectral",Mat(sq(T1,q)*vv),voigt(Q,nb),1e-10,std::max(1.0,Q.cwiseAbs().maxCoeff()),nm);
    Q=tensor(v,fo[q].G); c.near("transformation contravariant/spectral",Mat(sq(T2,q)*vv),voigt(Q,nb),1e-10,std::max(1.0,Q.cwiseAbs().maxCoeff()),nm);
    ld e[3][3]={{1,0,0},{0,1,0},{0,0,1}}; Q=tensor(v,e); double w=(double)std::max(fo[q].cov[0],fo[q].cov[1]); c.near("transformation Cartesian/covariant",Mat(sq(T3,q)*vv),voigt(Q,fo[q].g),1e-10,std::max(1.0,w),nm);
    ld det=fo[q].cov[0]*fo[q].cov[1]-fo[q].cov[2]*fo[q].cov[2]; c.near("transformation Cartesian/contravariant",Mat(sq(T4,q)*vv),voigt(Q,fo[q].G),1e-10,std::max(1.0,(double)(w/det)),nm); }
  { Mat T5=M.eval3D_pstressTransform(P,m.u,m.z),St=M.eval3D_stress(P,m.u,m.z,MO::Generic),Pp=M.eval3D_pstress(P,m.u,m.z,MO::Generic); if(c.is("size",T5.rows()==9&&T5.cols()==N,"size of the stress transformation")) for(int q=0;q<N;q++){ if(m.ms.law==SvK&&m.z(q/nu,q%nu)!=0) continue; Mat Q=tensor(col3(St,q),fo[q].g); double s5=std::max(Q.cwiseAbs().maxCoeff(),1e-6*(double)lp[q].E); Mat want(3,1); want<<Pp(0,q),Pp(1,q),0; c.near("stress transformation gives the principal stresses",Mat(sq(T5,q)*St.col(q)),want,1e-8,s5,nm); } }
  // evaluator objects report the same values (one column of heights for all points)
  { Mat z1(nz,1); for(int j=0;j<nz;j++) z1(j,0)=m.z(j,0); Mat zr=z1.replicate(1,nu); auto ev=[&](const gsFunctionSet<real_t>&fs){ Mat r; static_cast<const gsFunction<real_t>&>(fs.piece(P)).eval_into(m.u,r); return r; }; gsMaterialMatrixBase<real_t>*mm=m.mat.get();
    gsMaterialMatrixContainer<real_t> mc(m.def.nPatches()); for(size_t p=0;p<m.def.nPatches();++p) mc.set(p,mm); int how=c.rng.integer(0,5);
#define CMP(OUT,EXPR) { typedef gsMaterialMatrixEval<real_t,MO::OUT> Ev; std::unique_ptr<Ev> ep(how==0?new Ev(mm,&m.def,z1):how==1?new Ev(mm,&m.mp,&m.def,z1):how==2?new Ev(m.mat,&m.def,z1):how==3?new Ev(m.mat,&m.mp,&m.def,z1):how==4?new Ev(mc,&m.def,z1):new Ev(mc,&m.mp,&m.def,z1)); Ev&e=*ep; Mat a=ev(e); Mat b=M.EXPR; c.near("evaluator "#OUT,a,b,1e-12,std::max(1e-12*(double)lp[0].E,b.cwiseAbs().maxCoeff()),nm); c.is("evaluator dimension",e.piece(P).targetDim()==a.rows(),#OUT " declares "+std::to_string(e.piece(P).targetDim())+" rows but returns "+std::to_string(a.rows())); }
    switch(c.rng.integer(0,8)){
     case 0: CMP(Stretch,eval3D_pstretch(P,m.u,zr)) CMP(StretchDir,eval3D_pstretchDir(P,m.u,zr)) CMP(Deformation,eval3D_deformation(P,m.u,zr)) break;
     case 1: CMP(PStressN,eval3D_pstress(P,m.u,zr,MO::PStressN)) CMP(PStress,eval3D_pstress(P,m.u,zr,MO::PStress)) CMP(StressN,eval3D_stress(P,m.u,zr,MO::StressN)) break;
     case 2: CMP(CauchyStressN,eval3D_CauchyStress(P,m.u,zr,MO::CauchyStressN)) CMP(PCauchyStressN,eval3D_CauchyPStress(P,m.u,zr,MO::PCauchyStressN)) CMP(Strain,eval3D_strain(P,m.u,zr)) break;
     case 3: CMP(Spec2CovTransform,eval3D_spec2cov(P,m.u,zr)) CMP(Spec2ConTransform,eval3D_spec2con(P,m.u,zr)) CMP(Cov2CartTransform,eval3D_cov2cart(P,m.u,zr)) CMP(Con2CartTransform,eval3D_con2cart(P,m.u,zr)) break;
     case 4: CMP(VectorN,eval3D_vector(P,m.u,zr,MO::VectorN)) CMP(MatrixA,eval3D_matrix(P,m.u,zr,MO::MatrixA)) CMP(TensionField,eval3D_tensionfield(P,m.u,zr,MO::TensionField)) CMP(PStrainN,eval3D_pstrain(P,m.u,zr)) CMP(PStressDir,eval3D_pstressDir(P,m.u,zr,MO::PStressDir)) break;
     case 5: CMP(CauchyVectorN,eval3D_CauchyVector(P,m.u,zr,MO::CauchyVectorN)) CMP(PStressTransform,eval3D_pstressTransform(P,m.u,zr)) CMP(StretchTransform,eval3D_pstretchTransform(P,m.u,zr)) CMP(StrainN,eval3D_strain(P,m.u,zr)) break;
     case 6: if(m.d==3){ CMP(PStressM,eval3D_pstress(P,m.u,zr,MO::PStressM)) CMP(StressM,eval3D_stress(P,m.u,zr,MO::StressM)) CMP(CauchyStressM,eval3D_CauchyStress(P,m.u,zr,MO::CauchyStressM)) CMP(PCauchyStressM,eval3D_CauchyPStress(P,m.u,zr,MO::PCauchyStressM)) CMP(CauchyVectorM,eval3D_CauchyVector(P,m.u,zr,MO::CauchyVectorM)) CMP(StrainM,eval3D_strain(P,m.u,zr)) CMP(PStrainM,eval3D_pstrain(P,m.u,zr)) } break;
     case 7: if(m.d==3){ CMP(VectorM,eval3D_vector(P,m.u,zr,MO::VectorM)) CMP(MatrixB,eval3D_matrix(P,m.u,zr,MO::MatrixB)) CMP(MatrixC,eval3D_matrix(P,m.u,zr,MO::MatrixC)) CMP(MatrixD,eval3D_matrix(P,m.u,zr,MO::MatrixD)) CMP(Generic,eval3D_vector(P,m.u,zr,MO::Generic)) } break;
     case 8: { typedef gsMaterialMatrixEval<real_t,MO::Density> D1; typedef gsMaterialMatrixEval<real_t,MO::Thickness> T1; typedef gsMaterialMatrixEval<real_t,MO::Parameters> P1; D1 e1(mm,&m.def,z1); T1 e2(mc,&m.mp,&m.def,z1); P1 e3(mc,&m.def,z1); Mat a1=ev(e1),a2=ev(e2),a3=ev(e3);
       if(c.is("size",a1.rows()==1&&a2.rows()==1&&a3.rows()==(index_t)m.ms.par.size()&&a1.cols()==nu&&a2.cols()==nu&&a3.cols()==nu,"sizes of density, thickness, parameters")){ c.is("evaluator dimension",e1.piece(P).targetDim()==1&&e2.piece(P).targetDim()==1&&e3.piece(P).targetDim()==a3.rows(),"density, thickness, parameters"); for(int k=0;k<nu;k++){ double t=(double)m.ms.t.at(pts.col(k)),rho=(double)m.ms.rho.at(pts.col(k)); c.near("evaluator Thickness",a2(0,k),t,1e-12,t,nm); c.near("evaluator Density",a1(0,k),t*rho,1e-12,t*rho,nm); for(size_t i=0;i<m.ms.par.size();++i){ double v=(double)m.ms.par[i].at(pts.col(k)); c.near("evaluator Parameters",a3(i,k),v,1e-12,std::max(std::fabs(v),1e-9),nm); } } } } break; }
  }
}
}
