// C04: laminates against an own classical lamination theory in local Cartesian axes.
#include "model.h"
#include "matcase.h"
namespace vm {
typedef MaterialOutput MO;
struct Ply { Field t,a,rho; std::vector<Field> G; Mat Gc; };
struct Lam { int d,n; std::vector<Ply> ply; std::vector<std::shared_ptr<gsFunctionSet<real_t>>> keep; bool isoAll; double E,nu; std::vector<gsFunctionSet<real_t>*> T,G,A,R; };
static Mat orthoG(Rng&r,bool iso,double E,double nu){ Mat G=Mat::Zero(3,3); if(iso){ double f=E/(1-nu*nu); G<<f,nu*f,0,nu*f,f,0,0,0,E/(2*(1+nu)); return G; } double E1=r.logu(1,1e3),E2=E1*r.uni(0.05,1),n12=r.uni(0,0.4),n21=n12*E2/E1,f=1/(1-n12*n21); G<<E1*f,n21*E1*f,0,n21*E1*f,E2*f,0,0,0,r.uni(0.2,0.6)*E2; if(r.chance(0.25)){ G(0,2)=G(2,0)=0.1*E2*r.uni(-1,1); G(1,2)=G(2,1)=0.1*E2*r.uni(-1,1); } return G; }
static Lam genLam(Rng&r,int d,int np,bool fields,bool iso,double ttot){ Lam L; L.d=d; L.n=r.integer(1,5); L.isoAll=iso; L.E=r.logu(1,1e3); L.nu=r.uni(0,0.45); double sum=0; std::vector<double> w(L.n); for(auto&x:w){ x=r.uni(0.3,1); sum+=x; } (void)np;
  for(int i=0;i<L.n;i++){ Ply p; bool v=fields&&r.chance(0.6); double t=ttot*w[i]/sum; p.t=v?varField(r,t,d,0.1):constField(t,d); double al=r.chance(0.2)?0:r.uni(-3.2,3.2); p.a=v&&al!=0?varField(r,al,d,0.2):constField(al,d); p.rho=fields&&r.chance(0.5)?varField(r,r.logu(0.1,10),d,0.1):constField(r.logu(0.1,10),d); p.Gc=orthoG(r,iso,L.E,L.nu); L.ply.push_back(p); }
  if(L.n>2&&r.chance(0.3)&&!iso) for(int i=0;i<L.n/2;i++) L.ply[L.n-1-i]=L.ply[i]; // symmetric stack
  for(auto&p:L.ply){ L.T.push_back(p.t.f.get()); L.A.push_back(p.a.f.get()); L.R.push_back(p.rho.f.get()); gsVector<real_t> g(9); for(int j=0;j<3;j++)for(int i=0;i<3;i++) g(3*j+i)=p.Gc(i,j); std::shared_ptr<gsFunctionSet<real_t>> f(new gsConstantFunction<real_t>(g,d)); L.keep.push_back(f); L.G.push_back(f.get()); }
  return L; }
static gsMaterialMatrixBase<real_t>* makeLam(const Lam&L,const MP&mp,bool rho){ if(L.d==2) return rho?new gsMaterialMatrixComposite<2,real_t>(mp,L.T,L.G,L.A,L.R):new gsMaterialMatrixComposite<2,real_t>(mp,L.T,L.G,L.A); return rho?new gsMaterialMatrixComposite<3,real_t>(mp,L.T,L.G,L.A,L.R):new gsMaterialMatrixComposite<3,real_t>(mp,L.T,L.G,L.A); }
// reference stiffness moment: contravariant components C^{ijkl} in Voigt (11,22,12 | 11,22,2*12)
static T33 refABD(const Lam&L,const SurfPt&s,const Mat&x,int mom){ ld tt=0; for(auto&p:L.ply) tt+=p.t.at(x); ld top=tt/2; ld Q[2][2][2][2]={}; 
  for(auto&p:L.ply){ ld t=p.t.at(x),z1=top,z0=top-t; top=z0; ld w=mom==0?t:mom==1?(z1*z1-z0*z0)/2:(z1*z1*z1-z0*z0*z0)/3; ld al=p.a.at(x); ld R[2][2]={{cosl(al),sinl(al)},{-sinl(al),cosl(al)}}; // ply axes in local axes
    ld C4[2][2][2][2]; auto V=[](int i,int j){ return i==j?i:2; }; for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int k=0;k<2;k++)for(int l=0;l<2;l++) C4[i][j][k][l]=p.Gc(V(i,j),V(k,l));
    for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int k=0;k<2;k++)for(int l=0;l<2;l++) for(int a=0;a<2;a++)for(int b=0;b<2;b++)for(int c=0;c<2;c++)for(int d=0;d<2;d++) Q[i][j][k][l]+=w*R[a][i]*R[b][j]*R[c][k]*R[d][l]*C4[a][b][c][d]; }
  ld e1[3],e2[3]; ld n1=sqrtl(dot3(s.g1,s.g1)); for(int i=0;i<3;i++) e1[i]=s.g1[i]/n1; cross3(s.n,e1,e2); Frame f=frameAt(s,0); ld T[2][2]; for(int a=0;a<2;a++){ T[a][0]=dot3(f.G[a],e1); T[a][1]=dot3(f.G[a],e2); }
  T33 D; int I[3]={0,1,0},J[3]={0,1,1}; for(int q=0;q<3;q++)for(int v=0;v<3;v++){ ld sum=0; for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int k=0;k<2;k++)for(int l=0;l<2;l++) sum+=T[I[q]][i]*T[J[q]][j]*T[I[v]][k]*T[J[v]][l]*Q[i][j][k][l]; D[q][v]=sum; } return D; }
static Mat m33(const T33&D){ Mat m(3,3); for(int i=0;i<3;i++)for(int j=0;j<3;j++) m(i,j)=(double)D[i][j]; return m; }

VM_PROPERTY(C04,4000,60000){ Rng&r=c.rng; int d=c.index%4==0?2:3; int np=r.chance(0.3)?2:1; int kind=d==2?r.integer(0,1):r.integer(0,G_N-1); MP mp; for(int p=0;p<np;p++) mp.addPatch(genPatch(r,d,kind,r.integer(2,3),2,r.integer(1,2),1,p,p+1)); mp.computeTopology(); MP def=mp; int mode=r.integer(0,3); double amp[]={0,1e-4,0.1,0.3}; if(mode){ Deform D=genDeform(r,d,amp[mode],0.1*amp[mode],r.chance(0.4)); applyDeform(r,D,def); }
  bool iso=r.chance(0.35),fields=r.chance(0.5),rho=r.chance(0.8); Lam L=genLam(r,d,np,fields,iso,r.logu(0.005,0.2)); std::unique_ptr<gsMaterialMatrixBase<real_t>> M(makeLam(L,mp,rho)); std::string nm=std::string(d==2?"2D":"3D")+(iso?" iso":" ortho")+" plies="+std::to_string(L.n);
  c.key=nm+"/"+geoName(kind)+"/m"+std::to_string(mode)+(fields?"/f":"")+"/np"+std::to_string(np); c.tag="composite"; c.desc<<c.key;
  int nu=r.integer(1,4),P=r.integer(0,np-1); Mat u(2,nu); for(int k=0;k<nu;k++){ u(0,k)=r.uni(0,1); u(1,k)=r.uni(0,1); } Mat z=Mat::Zero(1,nu); Mat x=mp.patch(P).eval(u); std::vector<SurfPt> so,sd; for(int k=0;k<nu;k++){ so.push_back(surfPt(mp.patch(P),u.col(k))); sd.push_back(surfPt(def.patch(P),u.col(k))); }
  // thickness, density
  { Mat t,q; M->thickness_into(P,u,t); if(c.is("size",t.rows()==1&&t.cols()==nu,"thickness is "+std::to_string(t.rows())+"x"+std::to_string(t.cols()))) for(int k=0;k<nu;k++){ double w=0; for(auto&p:L.ply) w+=p.t.at(x.col(k)); c.near("total thickness",t(0,k),w,1e-13,w,nm); } if(rho){ M->density_into(P,u,q); for(int k=0;k<nu;k++){ double w=0; for(auto&p:L.ply) w+=p.t.at(x.col(k))*p.rho.at(x.col(k)); c.near("areal mass",q(0,k),w,1e-13,w,nm); } } }
  if(r.chance(0.3)){ Mat A0=M->eval3D_matrix(P,u,z,MO::MatrixA); c.near("stiffness needs no deformed geometry",sq(A0,0),m33(refABD(L,so[0],x.col(0),0)),1e-10,-1,nm); }
  M->setDeformed(&def);
  MO mo[4]={MO::MatrixA,MO::MatrixB,MO::MatrixC,MO::MatrixD}; int mm[4]={0,1,1,2}; std::vector<T33> ref[3]; for(int q=0;q<3;q++) for(int k=0;k<nu;k++) ref[q].push_back(refABD(L,so[k],x.col(k),q)); std::vector<double> sA(nu); double tt=0; for(auto&p:L.ply) tt+=p.t.at(x.col(0));
  auto ev=[&](const gsFunctionSet<real_t>&f){ Mat o; static_cast<const gsFunction<real_t>&>(f.piece(P)).eval_into(u,o); return o; }; Mat res[4]; gsMaterialMatrixBase<real_t>*mp_=M.get(); bool viaInt=r.chance(0.7);
  if(viaInt){ gsMaterialMatrixIntegrate<real_t,MO::MatrixA> a(mp_,&def); gsMaterialMatrixIntegrate<real_t,MO::MatrixB> b(mp_,&def); gsMaterialMatrixIntegrate<real_t,MO::MatrixC> cc(mp_,&def); gsMaterialMatrixIntegrate<real_t,MO::MatrixD> dd(mp_,&def); res[0]=ev(a);res[1]=ev(b);res[2]=ev(cc);res[3]=ev(dd); } else for(int q=0;q<4;q++) res[q]=M->eval3D_matrix(P,u,z,mo[q]);
  static const char*nn[]={"membrane stiffness","coupling stiffness B","coupling stiffness C","bending stiffness"};
  for(int q=0;q<4;q++){ if(!c.is("size",res[q].rows()==9&&res[q].cols()==nu,nn[q])) return; for(int k=0;k<nu;k++){ Mat A0=m33(ref[0][k]); double sc=A0.cwiseAbs().maxCoeff()*std::pow(tt,mm[q]); c.near(nn[q],sq(res[q],k),m33(ref[mm[q]][k]),1e-10,sc,nm); } }
  if(iso) for(int k=0;k<nu;k++){ double t=0; for(auto&p:L.ply) t+=p.t.at(x.col(k)); LawPar lp; lp.law=SvK;lp.comp=false;lp.E=L.E;lp.nu=L.nu;lp.ratio=1; Mat C(3,3); for(int j=0;j<3;j++){ S3 E={{0,0,0}}; E[j]=j<2?1:0.5L; S3 s=linStressRef(lp,so[k].A,E); for(int i=0;i<3;i++) C(i,j)=(double)s[i]; } c.near("identical isotropic plies: membrane",sq(res[0],k),Mat(C*t),1e-10,-1,nm); c.near("identical isotropic plies: bending",sq(res[3],k),Mat(C*t*t*t/12),1e-10,-1,nm); }
  // resultants
  Mat N,Mm; if(viaInt){ gsMaterialMatrixIntegrate<real_t,MO::VectorN> a(mp_,&def); N=ev(a); if(d==3){ gsMaterialMatrixIntegrate<real_t,MO::VectorM> b(mp_,&def); Mm=ev(b); } } else { N=M->eval3D_vector(P,u,z,MO::VectorN); if(d==3) Mm=M->eval3D_vector(P,u,z,MO::VectorM); }
  for(int k=0;k<nu;k++){ ld E[3],K[3]; for(int i=0;i<3;i++){ E[i]=(sd[k].A[i]-so[k].A[i])/2*(i==2?2:1); K[i]=d==3?(so[k].B[i]-sd[k].B[i])*(i==2?2:1):0; } Mat rn(3,1),rm(3,1); double sn=0,sm=0; for(int i=0;i<3;i++){ ld a=0,b=0,aa=0,bb=0; for(int j=0;j<3;j++){ a+=ref[0][k][i][j]*E[j]+ref[1][k][i][j]*K[j]; b+=ref[1][k][i][j]*E[j]+ref[2][k][i][j]*K[j]; aa+=fabsl(ref[0][k][i][j])*1e-5+fabsl(ref[0][k][i][j]*E[j]); bb+=fabsl(ref[0][k][i][j])*tt*1e-5+fabsl(ref[0][k][i][j]*E[j])*tt+fabsl(ref[2][k][i][j]*K[j]); } rn(i,0)=(double)a; rm(i,0)=(double)b; sn=std::max(sn,(double)aa); sm=std::max(sm,(double)bb); }
    c.near("membrane forces",Mat(N.col(k)),rn,1e-10,sn,nm); if(d==3) c.near("bending moments",Mat(Mm.col(k)),rm,1e-10,sm,nm); }
}
// assembled laminates: residual gradient, equivalence with the homogeneous layer, mass
VM_PROPERTY(C04a,300,4000){ Rng&r=c.rng; Model m; m.d=3; m.bending=true; GeoOpt g={3,r.chance(0.7)?1:2,r.integer(0,G_NURBS),2,r.integer(1,2),1,false,0.03}; genGeo(r,m,g); BcOpt b={true,false,false,false,false,false,false,false}; genBC(r,m,b); m.force=vfield(r,3,3,0,0,true); bool iso=c.index%3==0; Lam L=genLam(r,3,1,r.chance(0.5),iso,r.logu(0.01,0.1)); 
  std::shared_ptr<gsMaterialMatrixBase<real_t>> M(makeLam(L,m.mp,true)); if(g.np==2) m.continuity=0; m.cont=gsMaterialMatrixContainer<real_t>(m.mp.nPatches()); for(size_t p=0;p<m.mp.nPatches();++p) m.cont.set(p,gsMaterialMatrixBase<real_t>::Ptr(M.get(),[M](gsMaterialMatrixBase<real_t>*){})); c.key=std::string("asm ")+(iso?"iso":"ortho")+" "+geoName(g.kind)+" np"+std::to_string(m.mp.nPatches())+" n"+std::to_string(L.n); c.desc<<c.key; c.tag="composite";
  auto A=m.fresh(); A->assemble(); Mat K0=A->matrix().toDense(); int n=K0.rows(); if(n==0){ c.trivial=true; return; } Mat x=randSol(r,n,0.02),w=randSol(r,n,1); double h=1e-6; MP d0; A->constructSolution(x,d0); A->assembleMatrix(d0); Mat K=A->matrix().toDense(); Mat Kw=K*w; Mat rp,rm; MP dp; Mat xx=x+h*w; A->constructSolution(xx,dp); A->assembleVector(dp); rp=A->rhs(); xx=x-h*w; A->constructSolution(xx,dp); A->assembleVector(dp); rm=A->rhs(); Mat fd=-(rp-rm)/(2*h); c.near("tangent of the laminate is the derivative of its residual",Kw,fd,1e-6,std::max(Kw.cwiseAbs().maxCoeff(),1e-9*K.cwiseAbs().maxCoeff()),c.key); c.near("symmetric",Mat(K.transpose()),K,1e-10,K.cwiseAbs().maxCoeff(),c.key); A->assembleMatrix(m.mp); Mat Kr=A->matrix().toDense(); c.near("linear stiffness == tangent at rest",Kr,K0,1e-9,K0.cwiseAbs().maxCoeff(),c.key);
  // reference internal force
  auto refF=[&](const MP&def){ Full F=zeroFull(m); double sc=0; forQP(m,&def,[&](const QP&q){ T33 R[3]; for(int i=0;i<3;i++) R[i]=refABD(L,q.so,q.x,i); ld E[3],Kp[3]; for(int i=0;i<3;i++){ E[i]=(q.sd.A[i]-q.so.A[i])/2*(i==2?2:1); Kp[i]=(q.so.B[i]-q.sd.B[i])*(i==2?2:1); } ld N[3],Mm[3]; for(int i=0;i<3;i++){ N[i]=Mm[i]=0; for(int j=0;j<3;j++){ N[i]+=R[0][i][j]*E[j]+R[1][i][j]*Kp[j]; Mm[i]+=R[1][i][j]*E[j]+R[2][i][j]*Kp[j]; } } ld wm=q.w*q.so.meas; for(size_t i=0;i<q.idx.size();++i)for(int cc=0;cc<3;cc++){ ld dE[3],dK[3]; firstVar(q.sd,q.N[i],cc,dE,dK); ld f=0; for(int k=0;k<3;k++) f+=N[k]*dE[k]+Mm[k]*dK[k]; F[q.p](q.idx[i],cc)+=(double)(f*wm); } }); (void)sc; return F; };
  Mat fr=collapse(A->getMapper(),refF(d0)); A->assembleVector(d0); Mat rr=A->rhs(); c.near("internal forces of the laminate",rr,Mat(-fr),1e-8,std::max(fr.cwiseAbs().maxCoeff(),1e-12*K.cwiseAbs().maxCoeff()),c.key);
  if(A->assembleMass(),true){ Mat MM=A->massMatrix().toDense(); // total mass of a translation needs all dofs: compare entries
    Mat ref=Mat::Zero(n,n); forQP(m,nullptr,[&](const QP&q){ double rt=0; for(auto&p:L.ply) rt+=p.t.at(q.x)*p.rho.at(q.x); double wm=q.w*(double)q.so.meas*rt; for(size_t i=0;i<q.idx.size();++i)for(size_t j=0;j<q.idx.size();++j)for(int cc=0;cc<3;cc++) if(A->getMapper().is_free(q.idx[i],q.p,cc)&&A->getMapper().is_free(q.idx[j],q.p,cc)) ref(A->getMapper().index(q.idx[i],q.p,cc),A->getMapper().index(q.idx[j],q.p,cc))+=wm*(double)(q.N[i][0]*q.N[j][0]); }); c.near("mass of the laminate",MM,ref,1e-10,ref.cwiseAbs().maxCoeff(),c.key); } }
// C10 for laminates: the mass per area is the sum over the plies, whatever their densities
VM_PROPERTY(C10l,300,6000){ Rng&r=c.rng; Model m; m.d=r.chance(0.3)?2:3; m.bending=m.d==3&&r.chance(0.8); GeoOpt g={m.d,r.chance(0.7)?1:2,m.d==2?r.integer(0,1):r.integer(0,G_NURBS),r.integer(2,3),r.integer(1,2),r.integer(1,2),false,0.03}; genGeo(r,m,g); BcOpt b={true,false,false,false,false,false,false,false}; bool bcs=r.chance(0.5); if(bcs) genBC(r,m,b); else { m.bc.clear(); m.bc.setGeoMap(m.mp); } m.force=vfield(r,m.d,m.d,0,0,true); Lam L=genLam(r,m.d,1,r.chance(0.5),r.chance(0.3),r.logu(0.01,0.1));
  std::shared_ptr<gsMaterialMatrixBase<real_t>> M(makeLam(L,m.mp,true)); if(g.np==2) m.continuity=0; m.cont=gsMaterialMatrixContainer<real_t>(m.mp.nPatches()); for(size_t p=0;p<m.mp.nPatches();++p) m.cont.set(p,gsMaterialMatrixBase<real_t>::Ptr(M.get(),[M](gsMaterialMatrixBase<real_t>*){})); c.key=std::string("laminate mass ")+geoName(g.kind)+" d"+std::to_string(m.d)+" np"+std::to_string(m.mp.nPatches())+" n"+std::to_string(L.n)+(bcs?" bc":" free"); c.desc<<c.key; c.tag="composite";
  auto A=m.fresh(); index_t n=A->numDofs(); if(n==0){ c.trivial=true; return; } const gsDofMapper map=A->getMapper(); Mat ref=Mat::Zero(n,n),rs=Mat::Zero(n,1); double tot=0;
  forQP(m,nullptr,[&](const QP&q){ double rt=0; for(auto&p:L.ply) rt+=p.t.at(q.x)*p.rho.at(q.x); double wm=q.w*(double)q.so.meas*rt; tot+=wm; for(size_t i=0;i<q.idx.size();++i)for(int cc=0;cc<m.d;cc++){ if(!map.is_free(q.idx[i],q.p,cc)) continue; index_t I=map.index(q.idx[i],q.p,cc); for(size_t j=0;j<q.idx.size();++j) if(map.is_free(q.idx[j],q.p,cc)) ref(I,map.index(q.idx[j],q.p,cc))+=wm*(double)(q.N[i][0]*q.N[j][0]); rs(I,0)+=wm*(double)q.N[i][0]; } });
  if(!c.is("status",A->assembleMass()==ThinShellAssemblerStatus::Success,c.key)) return; Mat MM=A->massMatrix().toDense(); c.near("mass of the laminate",MM,ref,1e-10,ref.cwiseAbs().maxCoeff(),c.key); if(!bcs) c.near("translation carries the total mass",MM.sum(),tot*m.d,1e-9,tot,c.key);
  if(!c.is("status",A->assembleMass(true)==ThinShellAssemblerStatus::Success,c.key)) return; Mat LM=A->massMatrix().toDense(); c.near("lumped mass of the laminate",Mat(LM.diagonal()),rs,1e-10,rs.cwiseAbs().maxCoeff(),c.key);
}
}
