// C23: spaces of mapped (smooth, unstructured) functions.  The space is given by a matrix B from its functions to the
// patches' own basis functions; everything assembled for it must be the restriction of what the unconstrained patches give.
#include "model.h"
namespace vm {
typedef ThinShellAssemblerStatus St;
VM_PROPERTY(C23,1200,12000){
  Rng&r=c.rng; Model m; int v=c.index%3; m.d=v==0?2:3; m.bending=v==2; int np=r.chance(0.3)?1:r.chance(0.7)?2:4; GeoOpt g; g.d=m.d; g.np=np; g.kind=m.d==2?r.integer(0,1):r.integer(0,np==1?G_NURBS:G_WILD); g.p=r.integer(2,3); g.n1=r.integer(1,2); g.n2=r.integer(1,2); g.reorient=np>1&&r.chance(0.5); g.noise=0.02; genGeo(r,m,g); size_t P=m.mp.nPatches(); c.tag=m.d==2?"2d":m.bending?"shell":"membrane"; m.desc=c.tag+" "+geoName(g.kind)+" np"+std::to_string(P);
  genMats(r,m,r.chance(0.5),r.chance(0.4),r.chance(0.3),0.01,0.06); double E=m.specs[0].par[0].c0*m.specs[0].t.c0; LoadOpt lo={r.chance(0.7),r.chance(0.4),r.chance(0.4),r.chance(0.6)}; genLoads(r,m,lo,E*0.05);
  gsBoundaryConditions<real_t> free; BcOpt nob={false,false,false,false,false,m.linearMat&&r.chance(0.2),false,r.chance(0.4)}; genBC(r,m,nob);
  std::unique_ptr<ShellA> L=m.fresh(); gsDofMapper ml=L->getMapper(); std::vector<index_t> off(P+1,0); for(size_t p=0;p<P;++p) off[p+1]=off[p]+m.basis.basis(p).size(); index_t nl=off[P];
  // the map B: gluing of the patches, with or without mixing of functions
  int kind=r.integer(0,3); std::vector<index_t> glue(nl); index_t ng=nl; { gsDofMapper gm(m.basis,1); if(kind>=1) for(auto it=m.mp.topology().iBegin();it!=m.mp.topology().iEnd();++it) m.basis.matchInterface(*it,gm); gm.finalize(); ng=gm.freeSize(); for(size_t p=0;p<P;++p) for(index_t k=0;k<m.basis.basis(p).size();++k) glue[off[p]+k]=gm.index(k,p,0); }
  std::vector<index_t> per(ng); for(index_t i=0;i<ng;i++) per[i]=i; if(r.chance(0.5)) for(index_t i=ng;i>1;--i) std::swap(per[i-1],per[r.next()%i]);
  Mat B=Mat::Zero(nl,ng); for(index_t i=0;i<nl;i++) B(i,per[glue[i]])=1; std::string kn=kind==0?"separate":kind==1?"glued":kind==2?"mixed":"scaled";
  if(kind==2){ int mix=r.integer(1,ng); for(int q=0;q<mix;q++){ index_t a=r.integer(0,ng-1),b=r.integer(0,ng-1); if(a!=b) B.col(a)+=r.uni(0.1,0.6)*B.col(b); } int drop=r.integer(0,std::max<index_t>(0,ng/4)); Mat Bn(nl,ng-drop); Bn=B.leftCols(ng-drop); B=Bn; ng-=drop; } // fewer functions than local ones
  if(kind==3) for(index_t j=0;j<ng;j++) B.col(j)*=r.uni(0.4,2.5);
  for(index_t j=0;j<ng;j++) if(B.col(j).cwiseAbs().maxCoeff()==0){ c.trivial=true; return; }
  gsSparseMatrix<real_t> Bs=B.sparseView(); Bs.makeCompressed(); gsMappedBasis<2,real_t> mb(m.basis,Bs);
  // homogeneous strong conditions on the mapped space: functions that do not vanish on the side
  gsBoundaryConditions<real_t> bc=m.bc; std::vector<std::vector<bool>> fix(m.d,std::vector<bool>(ng,false)); std::string bs; bool strong=kind!=2&&r.chance(0.6);
  if(strong){ std::vector<patchSide> sides(m.mp.topology().bBegin(),m.mp.topology().bEnd()); int n=r.integer(1,2); for(int i=0;i<n;i++){ patchSide s=sides[r.next()%sides.size()]; int comp=r.chance(0.5)?-1:r.integer(0,m.d-1); bool neu=false; for(auto&q:m.neu) if(q.ps==s) neu=true; (void)neu; bc.addCondition(s.patch,s.side(),condition_type::dirichlet,0,0,false,comp); bs+=" D"; gsMatrix<index_t> bnd=m.basis.basis(s.patch).boundary(s.side()); for(index_t q=0;q<bnd.rows();++q) for(index_t j=0;j<ng;j++) if(B(off[s.patch]+bnd(q,0),j)!=0) for(int k=0;k<m.d;k++) if(comp==-1||comp==k) fix[k][j]=true; } }
  m.desc+=" map="+kn+bs;
  // two assemblers: on the patches' own functions without strong conditions (reference), on the mapped space
  gsPointLoads<real_t> pm; if(r.chance(0.4)){ gsVector<real_t> pt(2),val(1); int n=r.integer(1,2); for(int i=0;i<n;i++){ pt<<r.uni(0.1,0.9),r.uni(0.1,0.9); val<<r.logu(0.1,10); int p=r.integer(0,P-1); if(r.chance(0.6)) pm.addLoad(pt,val,p,true); else { gsVector<real_t> x=m.mp.patch(p).eval(pt).col(0); pm.addLoad(x,val,p,false); } } m.desc+=" pointmass"; L->setPointMass(pm); }
  bool ifc=P>1&&m.linearMat&&r.chance(0.3); if(ifc){ L->addWeakC0(m.mp.topology().interfaces()); if(m.d==3) L->addWeakC1(m.mp.topology().interfaces()); m.desc+=" weakifc"; }
  gsBoundaryConditions<real_t> keepbc=m.bc; m.bc=bc; std::unique_ptr<ShellA> A=m.fresh(); m.bc=keepbc; A->setSpaceBasis(mb); if(r.chance(0.3)){ A->setSpaceBasis(m.basis); A->setSpaceBasis(mb); } A->setPointMass(pm); if(ifc){ A->addWeakC0(m.mp.topology().interfaces()); if(m.d==3) A->addWeakC1(m.mp.topology().interfaces()); }
  gsDofMapper mm=A->getMapper(); index_t nf=0; bool okm=true; for(int k=0;k<m.d;k++) for(index_t j=0;j<ng;j++){ if(mm.is_free(j,0,k)==fix[k][j]) okm=false; if(!fix[k][j]) nf++; } if(!c.is("eliminated functions",okm&&A->numDofs()==nf,m.desc)) return;
  Mat R=Mat::Zero(ml.freeSize(),nf); for(int k=0;k<m.d;k++) for(index_t j=0;j<ng;j++) if(!fix[k][j]){ index_t J=mm.index(j,0,k); for(size_t p=0;p<P;++p) for(index_t i=0;i<m.basis.basis(p).size();++i) R(ml.index(i,p,k),J)+=B(off[p]+i,j); }
  auto eq=[&](const std::string&mon,const Mat&x,const Mat&y,double sc0){ if(x.rows()!=y.rows()||x.cols()!=y.cols()){ c.fail(mon,m.desc+": sizes differ"); return; } c.near(mon,x,y,1e-10,std::max(sc0,1e-300),m.desc); };
  double bm=std::max(1.0,R.cwiseAbs().maxCoeff()); bm*=bm;
  // linear system
  if(c.is("status",A->assemble()==St::Success&&L->assemble()==St::Success,m.desc)){ Mat K=L->matrix().toDense(),f=L->rhs(); eq("stiffness matrix of the mapped space",A->matrix().toDense(),R.transpose()*K*R,K.cwiseAbs().maxCoeff()*bm); eq("right-hand side of the mapped space",A->rhs(),R.transpose()*f,f.cwiseAbs().maxCoeff()*bm); }
  { A->assembleMass(); L->assembleMass(); Mat M=L->massMatrix().toDense(); eq("mass matrix of the mapped space",A->massMatrix().toDense(),R.transpose()*M*R,M.cwiseAbs().maxCoeff()*bm); }
  // a deformed state
  Mat u=randSol(r,nf,0.008); MP disp=A->constructDisplacement(u),def=A->constructSolution(u); Mat ul=R*u; MP dl=L->constructDisplacement(ul),defl=L->constructSolution(ul);
  for(size_t p=0;p<P;++p){ c.near("displacement of the mapped space",disp.patch(p).coefs(),dl.patch(p).coefs(),1e-12,1.0,m.desc); c.near("deformed geometry of the mapped space",def.patch(p).coefs(),defl.patch(p).coefs(),1e-12,1.0,m.desc); }
  if(defAdmissible(m,defl,1.6)){ bool byu=r.chance(0.5);
    if(c.is("status",(byu?A->assembleMatrix(u):A->assembleMatrix(def))==St::Success&&L->assembleMatrix(defl)==St::Success,m.desc)){ Mat K=L->matrix().toDense(); eq("tangent of the mapped space",A->matrix().toDense(),R.transpose()*K*R,K.cwiseAbs().maxCoeff()*bm); }
    if(c.is("status",(byu?A->assembleVector(u):A->assembleVector(def))==St::Success&&L->assembleVector(defl)==St::Success,m.desc)){ Mat f=L->rhs(); eq("residual of the mapped space",A->rhs(),R.transpose()*f,f.cwiseAbs().maxCoeff()*bm); } } else c.skip("residual of the mapped space");
  { A->assembleMass(true); Mat got=A->massMatrix().toDense(),want=Mat::Zero(nf,nf); L->setPointMass(gsPointLoads<real_t>()); L->assembleMass(); Mat M=L->massMatrix().toDense(); for(int k=0;k<m.d;k++){ Mat one=Mat::Zero(ml.freeSize(),1); for(size_t p=0;p<P;++p) for(index_t i=0;i<m.basis.basis(p).size();++i) for(index_t j=0;j<ng;j++) one(ml.index(i,p,k),0)+=B(off[p]+i,j); Mat q=R.transpose()*M*one; for(index_t j=0;j<ng;j++) if(!fix[k][j]){ index_t J=mm.index(j,0,k); want(J,J)=q(J,0); } }
    if(pm.numLoads()==0&&kind<2) eq("lumped mass of the mapped space",got,want,M.cwiseAbs().maxCoeff()*bm*10); }
  c.desc<<m.desc; c.key=m.desc.substr(0,m.desc.find(" mat"))+" "+kn+bs+(pm.numLoads()?" pm":"")+(m.loads.empty()?"":" pl")+(ifc?" ifc":"");
}
}
