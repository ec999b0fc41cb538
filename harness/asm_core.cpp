// C07, C08, C09: assembled residual/tangent against the weak-form reference and against differences.
#include "model.h"
namespace vm {
static void buildCommon(Case&c,Model&m,int np,bool onlyLinear){ Rng&r=c.rng;
  int v=c.index%3; m.d=v==0?2:3; m.bending=v!=1; if(m.d==2) m.bending=false; // cycles planar / membrane / shell
  GeoOpt g; g.d=m.d; g.np=np; g.kind=m.d==2?r.integer(0,1):(np==1?r.integer(0,G_N-1):r.integer(0,G_WILD)); g.p=r.chance(0.7)?2:3; g.n1=r.integer(1,2); g.n2=np>1?1:r.integer(1,2); g.reorient=np>1&&r.chance(0.7); g.noise=r.chance(0.6)?0.03:0; genGeo(r,m,g);
  m.desc=std::string(m.d==2?"planar":m.bending?"shell":"membrane")+" "+geoName(g.kind)+" np"+std::to_string(m.mp.nPatches())+" p"+std::to_string(g.p)+(g.reorient?" reoriented":""); (void)onlyLinear; }

// C08: internal forces
VM_PROPERTY(C08,1080,20000){
  Rng&r=c.rng; Model m; int np=r.chance(0.35)?2:1; buildCommon(c,m,np,false);
  int combo=(c.index/3)%(int)combos().size(); genMats(r,m,false,r.chance(0.5),r.chance(0.5),0.005,0.08,combo);
  BcOpt b={r.chance(0.6),r.chance(0.5),r.chance(0.3),false,false,false,false,false}; genBC(r,m,b); LoadOpt lo={false,false,false,false}; genLoads(r,m,lo,1); m.continuity=m.mp.nPatches()>1&&r.chance(0.7)?0:-1;
  m.A=m.fresh(); Mat u=randSol(r,m.A->numDofs(),r.chance(0.2)?1e-4:0.04); MP def; m.A->constructSolution(u,def);
  double rig=r.chance(0.3); if(rig){ Deform D=genDeform(r,m.d,0,0,true); applyDeform(r,D,def); }
  c.key=m.desc.substr(0,m.desc.find(" mat"))+" "+m.specs[0].name()+(rig?" +rigid":""); c.tag=m.specs[0].name()+(m.d==2?"/2d":m.bending?"/shell":"/membrane"); c.desc<<m.desc<<" dofs="<<u.rows()<<" cont="<<m.continuity<<(rig?" rigid":"");
  if(!defAdmissible(m,def)){ c.trivial=true; c.skip("internal force"); return; }
  bool ok; double sc; Full F=refInternal(m,def,ok,&sc); if(!ok){ c.trivial=true; c.skip("internal force"); return; }
  if(!c.is("status",m.A->assembleVector(def)==ThinShellAssemblerStatus::Success,"assembleVector failed")) return;
  Mat R=collapse(m.A->getMapper(),F); c.near("internal force=-virtual work",m.A->rhs(),Mat(-R),4e-6,sc,m.desc);
  // net internal force is zero (free-free): sum over all functions of the reference and of boundaryForce over everything is covered by C20
  // linear stiffness = tangent of the reference at rest, one random direction and one dof
  if(!c.is("status",m.A->assemble()==ThinShellAssemblerStatus::Success,"assemble failed")) return;
  Mat K=m.A->matrix().toDense(); if(!c.is("matrix size",K.rows()==m.A->numDofs()&&K.cols()==m.A->numDofs(),"size")) return;
  Mat w=randSol(r,K.rows(),1); Full W=expandDir(m,m.A->getMapper(),w); Mat Kw=collapse(m.A->getMapper(),refTangentDir(m,m.mp,W)); c.near("linear stiffness=energy Hessian",Mat(K*w),Kw,1e-5,Kw.cwiseAbs().maxCoeff(),m.desc); c.near("stiffness symmetric",K,Mat(K.transpose()),1e-9,K.cwiseAbs().maxCoeff(),"");
  if(m.bending||m.d==2||!m.linearMat||true){ // deformed tangent against the reference form
    if(!c.is("status",m.A->assembleMatrix(def)==ThinShellAssemblerStatus::Success,"assembleMatrix failed")) return; Mat Kd=m.A->matrix().toDense(); Full Fd=refTangentDir(m,def,W); Mat Kdw=collapse(m.A->getMapper(),Fd); c.near("tangent form at deformed state",Mat(Kd*w),Kdw,2e-5,Kdw.cwiseAbs().maxCoeff(),m.desc);
    if(m.bending&&m.d==3&&(c.index/3)%2==0){ // mixed integration points: state, previous iterate and the update between them
      Mat v=randSol(r,u.rows(),0.02),up=r.chance(0.2)?Mat(Mat::Zero(u.rows(),1)):v,pv=u-up; MP pd=m.A->constructSolution(pv); bool free=r.chance(0.5); if(rig||free) up=r.chance(0.3)?Mat(Mat::Zero(u.rows(),1)):randSol(r,u.rows(),0.02);
      if(!defAdmissible(m,pd)) c.skip("mixed-point tangent form"); else { bool byvec=!rig&&!free; gsMatrix<real_t> upd=up; ThinShellAssemblerStatus st=byvec?m.A->assembleMatrix(u,pv):m.A->assembleMatrix(def,pd,upd);
        if(c.is("status",st==ThinShellAssemblerStatus::Success,"mixed-point assembleMatrix failed")){ Full U=expandDir(m,m.A->getMapper(),up); Mat want=collapse(m.A->getMapper(),refTangentDir(m,def,W,&pd,&U)); c.near("mixed-point tangent form",Mat(m.A->matrix()*w),want,2e-5,std::max(want.cwiseAbs().maxCoeff(),Kdw.cwiseAbs().maxCoeff()),m.desc);
          gsMatrix<real_t> zero=Mat::Zero(u.rows(),1); m.A->assembleMatrix(def,def,zero); c.near("mixed-point tangent at the same state",Mat(m.A->matrix().toDense()),Kd,1e-9,Kd.cwiseAbs().maxCoeff(),m.desc); } } } }
}

// C09: external loads
VM_PROPERTY(C09,3000,60000){
  Rng&r=c.rng; Model m; int np=r.chance(0.4)?2:1; buildCommon(c,m,np,true); genMats(r,m,r.chance(0.7),false,false);
  LoadOpt lo={r.chance(0.6),r.chance(0.6),r.chance(0.6),r.chance(0.6)}; BcOpt b={r.chance(0.6),r.chance(0.5),r.chance(0.3),r.chance(0.2),false,false,false,r.chance(0.6)}; genBC(r,m,b); genLoads(r,m,lo,r.logu(0.01,100)); m.continuity=m.mp.nPatches()>1&&r.chance(0.7)?0:-1;
  m.A=m.fresh(); Mat u=randSol(r,m.A->numDofs(),0.03); MP def; m.A->constructSolution(u,def);
  c.key=m.desc.substr(0,m.desc.find(" mat"))+(lo.force?"F":"")+(m.hasPress?"P":"")+(m.hasFound?"K":"")+(lo.point?"L":"")+(m.neu.empty()?"":"N"); c.tag=m.d==2?"2d":m.bending?"shell":"membrane"; c.desc<<m.desc;
  bool ok; double sc; Full Fi=refInternal(m,def,ok,&sc); if(!ok||!defAdmissible(m,def)){ c.trivial=true; return; }
  Full F=zeroFull(m); Full f1=refForce(m),f2=refPressure(m,def),f3=refFoundation(m,def),f4=refNeumann(m),f5=refPoint(m); addFull(F,f1);addFull(F,f2);addFull(F,f3);addFull(F,f4);addFull(F,f5);
  double ls=std::max(maxFull(f1),std::max(maxFull(f2),std::max(maxFull(f3),std::max(maxFull(f4),maxFull(f5))))); if(ls==0) c.trivial=true;
  gsDofMapper map=m.A->getMapper(); Full T=F; addFull(T,Fi,-1); double tol=1e-6,tolL=1e-8; for(auto&L:m.loads) if(!L.parametric) tol=tolL=2e-5; // physical locations are inverted iteratively
  if(!c.is("status",m.A->assembleVector(def)==ThinShellAssemblerStatus::Success,"assembleVector failed")) return;
  c.near("residual=external-internal",m.A->rhs(),collapse(map,T),tol,sc+ls,m.desc);
  // linear: at rest the loads alone
  { Full L=zeroFull(m); addFull(L,f1); addFull(L,refPressure(m,m.mp)); addFull(L,f4); addFull(L,f5);
    if(!c.is("status",m.A->assembleVector(m.mp)==ThinShellAssemblerStatus::Success,"")) return; c.near("loads at rest",m.A->rhs(),collapse(map,L),tolL,ls+1e-12,m.desc); 
    // the linear right-hand side additionally carries the prescribed displacements: compare with homogeneous conditions only
    bool inh=m.desc.find("inh")!=std::string::npos; if(!inh){ if(!c.is("status",m.A->assemble()==ThinShellAssemblerStatus::Success,"")) return; c.near("linear load vector",m.A->rhs(),collapse(map,L),tolL,ls+1e-12,m.desc); } }
  // changing the point loads takes effect at the next assembly
  if(!m.loads.empty()){ gsPointLoads<real_t> none; m.A->setPointLoads(none); m.A->assembleVector(def); Full T2=T; addFull(T2,f5,-1); c.near("removed point loads",m.A->rhs(),collapse(map,T2),tol,sc+ls,m.desc); m.A->setPointLoads(m.pl); m.A->assembleVector(def); c.near("restored point loads",m.A->rhs(),collapse(map,T),tol,sc+ls,m.desc); }
  if(m.hasPress){ VField p2=vfield(r,m.d,1,1,0.2); VField old=m.press; m.A->setPressure(*p2.f); m.A->assembleVector(def); m.press=p2; Full g=refPressure(m,def); m.press=old; Full T2=T; addFull(T2,f2,-1); addFull(T2,g); c.near("replaced pressure",m.A->rhs(),collapse(map,T2),tol,sc+ls+maxFull(g),m.desc); m.A->setPressure(*m.press.f); }
  if(m.hasFound&&r.chance(0.5)){ LoadOpt lf={false,false,true,false}; Model q; q.d=3; genLoads(r,q,lf,1); m.A->setFoundation(*q.found.f); m.A->assembleVector(def); Full g=refFoundation(m,def,&q.found),T2=T; addFull(T2,f3,-1); addFull(T2,g); c.near("replaced foundation",m.A->rhs(),collapse(map,T2),tol,sc+ls+maxFull(g),m.desc); m.A->setFoundation(*m.found.f); }
  // the one-call forms and the switch for the prescribed values give the same residual
  { bool byu=r.chance(0.5),mat=r.chance(0.5),hom=r.chance(0.5); if(c.is("status",(byu?m.A->assemble(u,mat,hom):m.A->assemble(def,mat,hom))==ThinShellAssemblerStatus::Success,"assemble of a state")){ c.near("residual by the combined call",m.A->rhs(),collapse(map,T),tol,sc+ls,m.desc); }
    if(c.is("status",(byu?m.A->assembleVector(u,hom):m.A->assembleVector(def,hom))==ThinShellAssemblerStatus::Success,"assembleVector")) c.near("residual by vector or geometry",m.A->rhs(),collapse(map,T),tol,sc+ls,m.desc); }
  // loads added to an assembled system: pressure and foundation on top of what is there
  if(m.d==3&&map.freeSize()>0){ gsThinShellAssembler<3,real_t,true>*s3=dynamic_cast<gsThinShellAssembler<3,real_t,true>*>(m.A.get()); gsThinShellAssembler<3,real_t,false>*m3=dynamic_cast<gsThinShellAssembler<3,real_t,false>*>(m.A.get()); typedef ThinShellAssemblerStatus St;
    bool cst=r.chance(0.5); VField p2=vfield(r,3,1,1,0.4,cst); if(!c.is("status",m.A->assembleVector(def)==St::Success,"")) return; Full S=T; double big=sc+ls; int n=r.integer(1,3); std::string log;
    for(int q=0;q<n;q++){ Full g; St st=St::Success; switch(r.integer(0,4)){
      case 0: st=cst?m.A->assemblePressureVector(p2.a(0,0)):m.A->assemblePressureVector(*p2.f); g=refPressure(m,m.mp,&p2); log+=" pressure"; break;
      case 1: st=cst?m.A->assemblePressureVector(p2.a(0,0),def):m.A->assemblePressureVector(*p2.f,def); g=refPressure(m,def,&p2); log+=" pressure(def)"; break;
      case 2: if(m.hasPress){ st=s3?s3->assemblePressureVector(def):m3->assemblePressureVector(def); } g=refPressure(m,def); log+=" own pressure"; break;
      case 3: if(m.hasFound){ st=s3?s3->assembleFoundationVector(def):m3->assembleFoundationVector(def); } g=refFoundation(m,def); log+=" own foundation"; break;
      default: { VField k2=vfield(r,3,3,5,1,r.chance(0.4)); st=s3?s3->assembleFoundationVector(*k2.f,def):m3->assembleFoundationVector(*k2.f,def); g=refFoundation(m,def,&k2); log+=" foundation"; } }
      if(!c.is("status",st==St::Success,"added load:"+log)) return; addFull(S,g); big+=maxFull(g); c.near("load added to the assembled vector",m.A->rhs(),collapse(map,S),tol,big,m.desc+log); }
    if(r.chance(0.5)&&c.is("status",m.A->assembleMatrix(def)==St::Success,"")){ Mat K=m.A->matrix().toDense(); Mat w=randSol(r,K.rows(),1); Full W=expandDir(m,map,w); if(r.chance(0.3)){ cst?m.A->assemblePressureMatrix(p2.a(0,0)):m.A->assemblePressureMatrix(*p2.f); c.near("dead pressure has no stiffness",Mat(m.A->matrix().toDense()),K,1e-12,K.cwiseAbs().maxCoeff(),m.desc); }
      if(c.is("status",(cst?m.A->assemblePressureMatrix(p2.a(0,0),def):m.A->assemblePressureMatrix(*p2.f,def))==St::Success,"pressure matrix")){ Mat D=(m.A->matrix().toDense()-K)*w,want=collapse(map,refPressureTangentDir(m,p2,def,W)); c.near("pressure matrix",D,want,1e-6,std::max(want.cwiseAbs().maxCoeff(),1e-8*K.cwiseAbs().maxCoeff()),m.desc); } }
    if(m.hasFound&&c.is("status",m.A->assembleFoundation()==St::Success,"foundation matrix")){ Mat w=randSol(r,map.freeSize(),1); Full W=expandDir(m,map,w); Mat want=collapse(map,refFoundationTangentDir(m,m.found,W)); c.near("foundation matrix",Mat(m.A->matrix()*w),want,1e-8,want.cwiseAbs().maxCoeff(),m.desc); } }
}

// C07: tangent = - d residual / d u (central differences of the assembled residual)
VM_PROPERTY(C07,3000,60000){
  Rng&r=c.rng; Model m; bool weak=r.chance(0.5); int np=r.chance(weak?0.6:0.35)?2:1; buildCommon(c,m,np,weak);
  bool onlyLin=weak||m.d==3; genMats(r,m,onlyLin,r.chance(0.4),!weak&&r.chance(0.4),0.02,0.1,(c.index/3)%(int)combos().size());
  BcOpt b={r.chance(0.6),r.chance(0.6),r.chance(0.3),r.chance(0.2),r.chance(0.3),weak&&r.chance(0.6),weak&&m.d==3&&m.bending&&r.chance(0.6),r.chance(0.4)}; LoadOpt lo={r.chance(0.5),r.chance(0.5),r.chance(0.4),r.chance(0.4)}; double E=m.specs[0].par[0].c0*m.specs[0].t.c0;
  genBC(r,m,b); genLoads(r,m,lo,E*r.logu(1e-3,0.3)); bool ifc=weak&&m.mp.nPatches()>1&&r.chance(0.7); m.continuity=m.mp.nPatches()>1&&!ifc&&r.chance(0.7)?0:-1;
  m.A=m.fresh(); if(weak){ gsOptionList o=m.A->options(); o.setReal("WeakDirichlet",r.logu(0.5,50)); o.setReal("WeakClamped",r.logu(0.5,50)); o.setReal("IfcPenalty",r.logu(0.5,50)); m.A->setOptions(o); }
  int im=0; if(ifc){ im=m.d==2?1:r.integer(1,3); gsBoxTopology::ifContainer all=m.mp.topology().interfaces(); if(im&1) m.A->addWeakC0(all); if(im&2) m.A->addWeakC1(all); m.desc+=" ifc"+std::to_string(im); }
  bool wD=m.desc.find("wD")!=std::string::npos,wC=m.desc.find("wC")!=std::string::npos;
  c.key=m.desc.substr(0,m.desc.find(" mat"))+" "+m.specs[0].name()+(wD?" wD":"")+(wC?" wC":"")+(im?" ifc"+std::to_string(im):"")+(m.hasPress?" P":"")+(m.hasFound?" K":""); c.tag=std::string(m.d==2?"2d":m.bending?"shell":"membrane")+(wD?" wD":"")+(wC?" wC":"")+(im?" ifc"+std::to_string(im):"")+(m.hasFound?" K":"")+(m.hasPress?" P":""); 
  Mat u=randSol(r,m.A->numDofs(),0.03); c.desc<<m.desc<<" dofs="<<u.rows(); if(u.rows()==0){ c.trivial=true; return; }
  MP def; m.A->constructSolution(u,def); if(!defAdmissible(m,def,1.6)){ c.trivial=true; return; }
  if(!c.is("status",m.A->assembleMatrix(u)==ThinShellAssemblerStatus::Success,"assembleMatrix")) return; Mat K=m.A->matrix().toDense();
  auto res=[&](const Mat&x){ if(m.A->assembleVector(x)!=ThinShellAssemblerStatus::Success) c.fail("status","assembleVector"); return Mat(m.A->rhs()); };
  for(int t=0;t<2;t++){ Mat w; if(t==0) w=randSol(r,u.rows(),1); else { w=Mat::Zero(u.rows(),1); w(r.integer(0,u.rows()-1),0)=1; }
    double h=2e-4; Mat dr=(8*(res(u+h*w)-res(u-h*w))-(res(u+2*h*w)-res(u-2*h*w)))/(12*h); Mat Kw=K*w; double sc=std::max(Kw.cwiseAbs().maxCoeff(),dr.cwiseAbs().maxCoeff()); c.near("tangent=-dresidual/du",Kw,Mat(-dr),2e-6,sc,m.desc); }
  if(!m.hasPress) c.near("tangent symmetric",K,Mat(K.transpose()),1e-8,K.cwiseAbs().maxCoeff(),m.desc);
  // linear and nonlinear assembly agree at rest (prescribed displacements zero)
  bool inh=m.desc.find("inh")!=std::string::npos||m.desc.find("Corner")!=std::string::npos;
  if(!inh){ m.A->assemble(); Mat K0=m.A->matrix().toDense(),r0=m.A->rhs(); m.A->assembleMatrix(m.mp); Mat K1=m.A->matrix().toDense(); m.A->assembleVector(m.mp); Mat r1=m.A->rhs(); if(!m.hasPress) c.near("linear matrix=tangent at rest",K0,K1,1e-9,K1.cwiseAbs().maxCoeff(),m.desc); c.near("linear rhs=residual at rest",r0,r1,1e-9,std::max(r1.cwiseAbs().maxCoeff(),1e-12),m.desc); }
}
}
