// C20: post-processing fields and global measures against direct evaluation and own integrals.
#include "model.h"
#include "matcase.h"
namespace vm {
typedef MaterialOutput MO; typedef stress_type ST;
// Cartesian components (11,22,12) of a tensor in the local axes e1=a1/|a1|, e2=n x e1 of a surface point
static void axes(const SurfPt&s,ld e[2][3]){ ld n1=sqrtl(dot3(s.g1,s.g1)); for(int i=0;i<3;i++) e[0][i]=s.g1[i]/n1; cross3(s.n,e[0],e[1]); }
static Mat cart(const SurfPt&s,const S3&q,bool contra){ Frame f=frameAt(s,0); Mat Q=tensor(q,contra?f.g:f.G); ld e[2][3]; axes(s,e); Mat v(3,1); auto g=[&](int k,int l){ ld x=0; for(int i=0;i<3;i++)for(int j=0;j<3;j++) x+=e[k][i]*Q(i,j)*e[l][j]; return (double)x; }; v<<g(0,0),g(1,1),g(0,1); return v; }
static double mises(const Mat&S){ return std::sqrt(S(0,0)*S(0,0)+S(1,0)*S(1,0)-S(0,0)*S(1,0)+3*S(2,0)*S(2,0)); }
struct TD { ST::type t; const char*n; int rows; };
static const TD types[]={ {ST::displacement,"displacement",3},{ST::von_mises,"von_mises",2},{ST::von_mises_membrane,"von_mises_membrane",1},{ST::von_mises_flexural,"von_mises_flexural",1},{ST::membrane,"membrane",3},{ST::membrane_force,"membrane_force",3},{ST::membrane_PK2,"membrane_PK2",3},{ST::membrane_force_PK2,"membrane_force_PK2",3},{ST::flexural,"flexural",3},{ST::flexural_PK2,"flexural_PK2",3},{ST::flexural_moment,"flexural_moment",3},{ST::flexural_moment_PK2,"flexural_moment_PK2",3},{ST::membrane_strain,"membrane_strain",3},{ST::flexural_strain,"flexural_strain",3},{ST::principal_membrane_strain,"principal_membrane_strain",3},{ST::principal_flexural_strain,"principal_flexural_strain",3},{ST::principal_stretch,"principal_stretch",3},{ST::principal_stress,"principal_stress",2},{ST::principal_stress_membrane,"principal_stress_membrane",2},{ST::principal_stress_flexural,"principal_stress_flexural",2},{ST::principal_stretch_dir1,"principal_stretch_dir1",3},{ST::principal_stretch_dir2,"principal_stretch_dir2",3},{ST::principal_stretch_dir3,"principal_stretch_dir3",3},{ST::principal_stress_dir1,"principal_stress_dir1",3},{ST::principal_stress_dir2,"principal_stress_dir2",3},{ST::principal_stress_dir3,"principal_stress_dir3",3} };
static void prepare(Case&c,Model&m,MP&def,bool reorient,bool&bad){ Rng&r=c.rng; int np; m.d=r.chance(0.15)?2:3; m.bending=m.d==3&&r.chance(0.8); np=r.chance(0.4)?1:r.chance(0.5)?2:4; GeoOpt g={m.d,np,m.d==2?r.integer(0,1):r.integer(0,G_N-1),r.integer(2,3),r.integer(1,2),r.integer(1,2),reorient&&r.chance(0.5),0.03}; genGeo(r,m,g);
  genMats(r,m,r.chance(0.3),r.chance(0.5),r.chance(0.6)); def=m.mp; double amps[]={0,1e-3,0.05,0.2}; int mode=r.integer(0,3); if(mode){ Deform D=genDeform(r,m.d,amps[mode],0.1*amps[mode],r.chance(0.4)); applyDeform(r,D,def); } bad=!defAdmissible(m,def); m.bc.clear(); m.bc.setGeoMap(m.mp); m.force=vfield(r,m.d,m.d,0,0,true);
  c.key=std::string(m.d==2?"2D":m.bending?"KL":"memb")+"/"+geoName(m.kind)+"/np"+std::to_string(m.mp.nPatches())+"/m"+std::to_string(mode)+(m.piecewise?"/pw":"")+"/"+m.specs[0].name(); c.tag=m.specs[0].name(); c.desc<<c.key<<m.desc; }
VM_PROPERTY(C20,1500,20000){ Rng&r=c.rng; Model m; MP def; bool bad; prepare(c,m,def,true,bad); if(bad){ c.trivial=true; return; }
  auto A=m.fresh(); int nt=sizeof(types)/sizeof(types[0]); int P=r.integer(0,m.mp.nPatches()-1); int nu=r.integer(1,3); Mat u(2,nu); for(int k=0;k<nu;k++){ u(0,k)=r.uni(0.01,0.99); u(1,k)=r.uni(0.01,0.99); } Mat z=Mat::Zero(1,nu);
  MP one; auto fresh=m.specs[P].make(m.mp); fresh->setDeformed(&def); gsMaterialMatrixBase<real_t>*M=fresh.get(); std::vector<SurfPt> so,sd; for(int k=0;k<nu;k++){ so.push_back(surfPt(m.mp.patch(P),u.col(k))); sd.push_back(surfPt(def.patch(P),u.col(k))); } Mat x=m.mp.patch(P).eval(u);
  double E=m.specs[P].par[0].at(x.col(0)),t=m.specs[P].t.at(x.col(0));
  for(int q=0;q<4;q++){ TD T=types[(c.index*4+q)%nt]; if(T.t==ST::displacement) T.rows=m.d; if(m.d==2&&(std::string(T.n).find("flex")!=std::string::npos||T.t==ST::von_mises)) continue;
    gsPiecewiseFunction<real_t> f; bool two=r.chance(0.3); if(two){ if(m.d==2) static_cast<gsThinShellAssembler<2,real_t,false>&>(*A).constructStress(m.mp,def,f,T.t); else if(m.bending) static_cast<gsThinShellAssembler<3,real_t,true>&>(*A).constructStress(m.mp,def,f,T.t); else static_cast<gsThinShellAssembler<3,real_t,false>&>(*A).constructStress(m.mp,def,f,T.t); } else A->constructStress(def,f,T.t);
    Mat got; if(!c.is("pieces",(size_t)f.nPieces()==m.mp.nPatches(),T.n)) continue; f.piece(P).eval_into(u,got); if(!c.is("field size",got.rows()==T.rows&&got.cols()==nu&&f.piece(P).targetDim()==T.rows,T.n)) continue; c.note(T.n);
    Mat want(T.rows,nu); double sc=1; bool ok=true;
    auto strN=[&](int k){ return cart(so[k],col3(M->eval3D_stress(P,u,z,MO::StressN),k),true); }; auto strM=[&](int k){ return cart(so[k],col3(M->eval3D_stress(P,u,z,MO::StressM),k),true); };
    for(int k=0;k<nu;k++){ ld e; (void)e; Mat w; switch(T.t){
      case ST::displacement: w=def.patch(P).eval(u.col(k))-m.mp.patch(P).eval(u.col(k)); sc=1; break;
      case ST::membrane_PK2: w=strN(k); sc=E*1e-3; break; case ST::flexural_PK2: w=strM(k); sc=E*1e-3; break;
      case ST::membrane: w=cart(sd[k],col3(M->eval3D_CauchyStress(P,u,z,MO::CauchyStressN),k),true); sc=E*1e-3; break; case ST::flexural: w=cart(sd[k],col3(M->eval3D_CauchyStress(P,u,z,MO::CauchyStressM),k),true); sc=E*1e-3; break;
      case ST::membrane_force_PK2: case ST::flexural_moment_PK2: { S3 N,Q; bool o; resultants(m.specs[P],so[k],sd[k],x.col(k),m.d==3,N,Q,o); ok=ok&&o; w=cart(so[k],T.t==ST::membrane_force_PK2?N:Q,true); sc=T.t==ST::membrane_force_PK2?E*t*1e-3:E*t*t*1e-3; } break;
      case ST::membrane_force: { gsMaterialMatrixIntegrate<real_t,MO::CauchyVectorN> I(M,&m.mp,&def); Mat o; static_cast<const gsFunction<real_t>&>(I.piece(P)).eval_into(u,o); w=cart(sd[k],col3(o,k),true); sc=E*t*1e-3; } break;
      case ST::flexural_moment: { gsMaterialMatrixIntegrate<real_t,MO::CauchyVectorM> I(M,&m.mp,&def); Mat o; static_cast<const gsFunction<real_t>&>(I.piece(P)).eval_into(u,o); w=cart(sd[k],col3(o,k),true); sc=E*t*t*1e-3; } break;
      case ST::von_mises_membrane: w=Mat(1,1); w(0,0)=mises(strN(k)); sc=E*1e-3; break; case ST::von_mises_flexural: w=Mat(1,1); w(0,0)=mises(strM(k)); sc=E*1e-3; break; case ST::von_mises: { Mat a=strN(k),b=strM(k); w=Mat(2,1); w<<mises(a+b),mises(a-b); sc=E*1e-3; } break;
      case ST::membrane_strain: { S3 q; for(int i=0;i<3;i++) q[i]=(sd[k].A[i]-so[k].A[i])/2; w=cart(so[k],q,false); sc=1e-2; } break; case ST::flexural_strain: { S3 q; for(int i=0;i<3;i++) q[i]=so[k].B[i]-sd[k].B[i]; w=cart(so[k],q,false); sc=1e-1; } break;
      case ST::principal_membrane_strain: case ST::principal_flexural_strain: w=M->eval3D_pstrain(P,u,z).col(k); sc=1e-2; break;
      case ST::principal_stretch: w=M->eval3D_pstretch(P,u,z).col(k); break;
      case ST::principal_stress: w=M->eval3D_pstress(P,u,z,MO::PStress).col(k); sc=E*1e-3; break;
      case ST::principal_stress_membrane: w=M->eval3D_CauchyPStress(P,u,z,MO::PCauchyStressN).col(k); sc=E*1e-3; break; case ST::principal_stress_flexural: w=M->eval3D_CauchyPStress(P,u,z,MO::PCauchyStressM).col(k); sc=E*1e-3; break;
      case ST::principal_stretch_dir1: case ST::principal_stretch_dir2: case ST::principal_stretch_dir3: w=sq(M->eval3D_pstretchDir(P,u,z),k).col((int)T.t-81); break;
      case ST::principal_stress_dir1: case ST::principal_stress_dir2: case ST::principal_stress_dir3: w=sq(M->eval3D_pstressDir(P,u,z,MO::PStressDir),k).col((int)T.t-91); break;
      default: w=Mat::Zero(T.rows,1); } want.col(k)=w; }
    if(!ok) { c.skip(T.n); continue; } c.near(std::string("field ")+T.n,got,want,(T.t==ST::membrane_force_PK2||T.t==ST::flexural_moment_PK2)&&m.specs[P].law!=SvK?1e-6:1e-8,std::max(sc,want.cwiseAbs().maxCoeff()),T.n); }
  // pointwise principal values through the assembler (first patch)
  if(r.chance(0.4)){ auto f0=m.specs[0].make(m.mp); f0->setDeformed(&def); double zz=r.chance(0.5)?0:r.uni(-0.5,0.5); Mat zc=Mat::Constant(1,nu,zz); Mat a=zz==0?A->computePrincipalStretches(u,def):A->computePrincipalStretches(u,def,zz),b=A->computePrincipalStresses(u,def,zz); c.near("principal stretches at points",a,f0->eval3D_pstretch(0,u,zc),1e-9,1,c.tag); Mat w=f0->eval3D_pstress(0,u,zc,MO::PStress); c.near("principal stresses at points",b,w,1e-9,std::max(m.specs[0].par[0].at(x.col(0))*1e-3,w.cwiseAbs().maxCoeff()),c.tag); }
}
// global measures
VM_PROPERTY(C20g,1200,15000){ Rng&r=c.rng; Model m; MP def; bool bad; prepare(c,m,def,true,bad); if(bad){ c.trivial=true; return; } if(r.chance(0.5)){ m.continuity=0; }
  if(r.chance(0.5)){ BcOpt b={true,false,false,false,false,false,false,false}; genBC(r,m,b); }
  auto A=m.fresh(); std::vector<int> order={0,1,2,3,4}; for(int i=4;i>0;--i) std::swap(order[i],order[r.integer(0,i)]);
  for(int w:order) switch(w){
   case 0: { double a=0,ad=0; forQP(m,&def,[&](const QP&q){ a+=q.w*(double)q.so.meas; ad+=q.w*(double)q.sd.meas; }); c.near("area",A->getArea(m.mp),a,1e-11,a); c.near("area",A->getArea(def),ad,1e-11,ad); } break;
   case 1: { double a=0,n=0; forQP(m,&def,[&](const QP&q){ Mat v=def.patch(q.p).eval(q.u)-q.x; a+=q.w*(double)q.so.meas; n+=q.w*(double)q.so.meas*v.squaredNorm(); }); c.near("root mean square displacement",A->getDisplacementNorm(def),std::sqrt(n/a),1e-10,std::sqrt(n/a)+1e-12); } break;
   case 2: if(m.linearMat){ double W=0,sc=0; bool ok=true; forQP(m,&def,[&](const QP&q){ S3 N,M; bool o; resultants(m.specs[q.p],q.so,q.sd,q.x,m.d==3,N,M,o); ok=ok&&o; ld e=0; for(int i=0;i<3;i++){ e+=(i==2?2:1)*N[i]*(q.sd.A[i]-q.so.A[i])/2; if(m.bending&&m.d==3) e+=(i==2?2:1)*M[i]*(q.so.B[i]-q.sd.B[i]); } W+=q.w*(double)(q.so.meas*e)/2; sc+=q.w*(double)q.so.meas*m.specs[q.p].par[0].at(q.x)*m.specs[q.p].t.at(q.x)*1e-10; }); c.near("elastic energy",A->getElasticEnergy(def),W,1e-9,std::max(W,sc)); } break;
   case 3: { bool ok; double sc; Full F=refInternal(m,def,ok,&sc); double fl=0; for(auto&s:m.specs) fl=std::max(fl,s.par[0].c0*s.t.c0); fl*=1e-4; if(!ok){ c.skip("boundary force"); break; } std::vector<patchSide> all(m.mp.topology().bBegin(),m.mp.topology().bEnd()),ps; int n=r.integer(1,3); for(int i=0;i<n;i++) ps.push_back(all[r.next()%all.size()]); // repeated sides count once
      gsBoundaryConditions<real_t> nobc; gsExprAssembler<real_t> ea; ea.setIntegrationElements(m.basis); auto sp=ea.getSpace(m.basis,m.d,0); nobc.setGeoMap(m.mp); sp.setup(nobc,dirichlet::l2Projection,m.continuity); const gsDofMapper&map=sp.mapper(); Mat G=collapse(map,F); std::set<index_t> idx[3]; for(auto&s:ps){ gsMatrix<index_t> b=m.basis.basis(s.patch).boundary(s.side()); for(index_t k=0;k<b.rows();++k)for(int cc=0;cc<m.d;cc++) idx[cc].insert(map.index(b(k,0),s.patch,cc)); } Mat want=Mat::Zero(m.d,1); for(int cc=0;cc<m.d;cc++) for(index_t i:idx[cc]) want(cc,0)-=G(i,0);
      Mat got=ps.size()==1?A->boundaryForce(def,ps[0]):A->boundaryForce(def,ps); if(c.is("boundary force size",got.rows()==m.d&&got.cols()==1,"size")) c.near("boundary force",got,want,m.linearMat?1e-7:1e-6,(sc+fl)*std::sqrt((double)idx[0].size()),c.tag); } break;
   case 4: if(m.mp.nInterfaces()>0){ MP jmp=def; bool tear=r.chance(0.6); if(tear) for(size_t p=0;p<jmp.nPatches();++p){ Mat&co=jmp.patch(p).coefs(); for(index_t i=0;i<co.rows();++i) for(index_t k=0;k<co.cols();++k) co(i,k)+=0.05*r.uni(-1,1); }
      ld c0=0,g1=0,nm=0,kg=0,km=0; ld sk=1e-3L,sh=1e-3L; for(auto&I:m.mp.interfaces()){ gsAffineFunction<real_t> mapI(I.dirMap(),I.dirOrientation(),m.mp.patch(I.first().patch).support(),m.mp.patch(I.second().patch).support()); const gsBasis<real_t>&b=m.basis.basis(I.first().patch); (void)b;
        forSide(m,I.first(),[&](const QP&q){ int t=1-I.first().direction(); const ld*g=t==0?q.so.g1:q.so.g2; ld w=q.w/sqrtl(dot3(g,g)); Mat u2=mapI.eval(q.u); const gsGeometry<real_t>&L=jmp.patch(I.first().patch),&R=jmp.patch(I.second().patch); Mat a=L.eval(q.u),bb=R.eval(u2); c0+=w*(a-bb).squaredNorm(); if(m.d!=3) return; SurfPt s1=surfPt(L,q.u),s2=surfPt(R,u2); ld dn=0; for(int i=0;i<3;i++) dn+=(s1.n[i]-s2.n[i])*(s1.n[i]-s2.n[i]); g1+=w*dn; nm=std::max(nm,sqrtl(dn));
          auto K=[](const SurfPt&s){ return (s.B[0]*s.B[1]-s.B[2]*s.B[2])/(s.A[0]*s.A[1]-s.A[2]*s.A[2]); }; auto H=[](const SurfPt&s){ return (s.A[1]*s.B[0]+s.A[0]*s.B[1]-2*s.A[2]*s.B[2])/(s.A[0]*s.A[1]-s.A[2]*s.A[2]); }; kg=std::max(kg,fabsl(K(s1)-K(s2))); km=std::max(km,fabsl(H(s1)-H(s2))); sk=std::max(sk,fabsl(K(s1))+fabsl(K(s2))); sh=std::max(sh,fabsl(H(s1))+fabsl(H(s2))); }); }
      bool all=r.chance(0.5); auto ifs=m.mp.interfaces(); std::vector<int> o2={0,1,2,3,4}; for(int i=4;i>0;--i) std::swap(o2[i],o2[r.integer(0,i)]); for(int q:o2){ if(q>0&&m.d!=3) continue; switch(q){
        case 0: c.near("C0 gap",all?A->interfaceErrorC0(jmp):A->interfaceErrorC0(jmp,ifs),(double)sqrtl(c0),1e-9,(double)sqrtl(c0)+1e-5); break; case 1: c.near("G1 gap",all?A->interfaceErrorG1(jmp):A->interfaceErrorG1(jmp,ifs),(double)sqrtl(g1),1e-8,(double)sqrtl(g1)+1e-3); break; case 2: c.near("normal gap",all?A->interfaceErrorNormal(jmp):A->interfaceErrorNormal(jmp,ifs),(double)nm,1e-8,(double)nm+1e-3); break;
        case 3: c.near("Gauss curvature gap",all?A->interfaceErrorGaussCurvature(jmp):A->interfaceErrorGaussCurvature(jmp,ifs),(double)kg,1e-5,(double)(kg+sk)); break; case 4: c.near("mean curvature gap",all?A->interfaceErrorMeanCurvature(jmp):A->interfaceErrorMeanCurvature(jmp,ifs),(double)km,1e-5,(double)(km+sh)); break; } } } break; }
}
// reactions of an equilibrated state balance the external loads carried by the free degrees of freedom
VM_PROPERTY(C20e,80,1500){ Rng&r=c.rng; Model m; m.d=r.chance(0.3)?2:3; m.bending=m.d==3; int np=r.chance(0.6)?1:2; GeoOpt g={m.d,np,m.d==2?r.integer(0,1):r.integer(0,G_N-1),r.integer(2,3),r.integer(1,2),r.integer(1,2),false,0.03}; genGeo(r,m,g); if(m.mp.nPatches()>1) m.continuity=0; genMats(r,m,r.chance(0.5),r.chance(0.3),r.chance(0.3),0.02,0.08);
  std::vector<patchSide> all(m.mp.topology().bBegin(),m.mp.topology().bEnd()); patchSide s0=all[r.next()%all.size()]; m.bc.clear(); m.bc.addCondition(s0.patch,s0.side(),condition_type::dirichlet,0,0,false,-1); if(m.bending) m.bc.addCondition(s0.patch,s0.side(),condition_type::clamped,0,0,false,-1); patchSide s1=s0; bool second=r.chance(0.5); if(second){ s1=all[r.next()%all.size()]; m.bc.addCondition(s1.patch,s1.side(),condition_type::dirichlet,0,0,false,-1); } m.bc.setGeoMap(m.mp);
  double E=m.specs[0].par[0].c0,t=m.specs[0].t.c0; LoadOpt lo={r.chance(0.5),r.chance(0.4),false,r.chance(0.6)}; genLoads(r,m,lo,m.d==2?E*t*0.02:E*t*t*t*0.05); c.key=std::string(m.d==2?"2D":"KL")+"/"+geoName(m.kind)+"/np"+std::to_string(m.mp.nPatches())+(second?"/2s":"/1s"); c.tag="equilibrium"; c.desc<<c.key<<m.desc;
  auto A=m.fresh(); A->assemble(); if(A->numDofs()==0){ c.trivial=true; return; } Mat x=Mat::Zero(A->matrix().rows(),1); double r0=A->rhs().norm(); if(x.rows()==0||r0==0){ c.trivial=true; return; } bool conv=false; MP def; for(int it=0;it<25;it++){ A->constructSolution(x,def); if(A->assembleVector(def)!=ThinShellAssemblerStatus::Success||A->assembleMatrix(def)!=ThinShellAssemblerStatus::Success) break; A->assemble(def,true); Mat R=A->rhs(); if(!(R.norm()<1e6*r0)) break; if(R.norm()<1e-11*r0||(it>8&&R.norm()<1e-8*r0)){ conv=true; break; } gsSparseSolver<real_t>::LU lu(A->matrix()); x+=lu.solve(R); }
  if(!conv||!defAdmissible(m,def)){ c.skip("reaction balances the loads"); c.trivial=true; return; }
  Full F=zeroFull(m); addFull(F,refForce(m)); addFull(F,refPressure(m,def)); addFull(F,refPoint(m)); const gsDofMapper map=A->getMapper(); Mat G=collapse(map,F); double sc=0; Mat want=Mat::Zero(m.d,1); std::vector<int> comp(map.freeSize(),-1); for(size_t p=0;p<F.size();++p)for(index_t k=0;k<F[p].rows();++k)for(int cc=0;cc<m.d;cc++) if(map.is_free(k,p,cc)) comp[map.index(k,p,cc)]=cc; for(size_t i=0;i<comp.size();++i) if(comp[i]>=0){ want(comp[i],0)+=G(i,0); sc+=std::fabs(G(i,0)); }
  c.note("equilibrium reached"); double ptol=1; for(auto&L:m.loads) if(!L.parametric) ptol=100;
  // clamped rows are tied to the fixed side and do not enter the free set
  std::vector<patchSide> ps={s0}; if(second) ps.push_back(s1); Mat got=A->boundaryForce(def,ps);
  if(!m.bending) c.near("reaction balances the loads",got,want,5e-7*ptol,sc+1e7*A->rhs().norm(),c.key); else { // the clamped (second) control row belongs to the support: add its internal forces
    bool ok; Full I=refInternal(m,def,ok); gsMatrix<index_t> b2=m.basis.basis(s0.patch).boundaryOffset(s0.side(),1); gsMatrix<index_t> b1=m.basis.basis(s1.patch).boundary(s1.side()); (void)b1; Mat add=Mat::Zero(m.d,1); if(!ok){ c.skip("reaction balances the loads"); return; }
    gsBoundaryConditions<real_t> nobc; nobc.setGeoMap(m.mp); gsExprAssembler<real_t> ea; ea.setIntegrationElements(m.basis); auto sp=ea.getSpace(m.basis,m.d,0); sp.setup(nobc,dirichlet::l2Projection,m.continuity); const gsDofMapper&fm=sp.mapper(); Mat GI=collapse(fm,I); std::set<index_t> sup[3],rest[3]; for(auto&s:ps){ gsMatrix<index_t> b=m.basis.basis(s.patch).boundary(s.side()); for(index_t k=0;k<b.rows();++k)for(int cc=0;cc<m.d;cc++) sup[cc].insert(fm.index(b(k,0),s.patch,cc)); } for(index_t k=0;k<b2.rows();++k)for(int cc=0;cc<m.d;cc++){ index_t i=fm.index(b2(k,0),s0.patch,cc); if(!sup[cc].count(i)) rest[cc].insert(i); } for(int cc=0;cc<m.d;cc++) for(index_t i:rest[cc]) add(cc,0)-=GI(i,0);
    double si=GI.cwiseAbs().maxCoeff(); c.near("reaction balances the loads",Mat(got+add),want,5e-6*ptol,std::max(sc,1e-2*si)+1e6*A->rhs().norm(),c.key); }

}
}
