// C16, C17, C18: goal functionals, dual-weighted residual estimates and eigenvalue estimates.
#include "model.h"
#include "matcase.h"
#include <gsKLShell/src/gsThinShellDWRHelper.h>
namespace vm {
typedef MaterialOutput MO; typedef gsThinShellAssemblerDWRBase<real_t> Dwr; typedef gsMultiBasis<real_t> MB;
struct DwrCase { Model m; MB L,H; MP mpH; int enrich; std::unique_ptr<Dwr> D; };
static void genDwr(Case&c,DwrCase&x,int variant,int npMax,bool onlyLinear,int combo){ Rng&r=c.rng; Model&m=x.m; m.d=variant==0?2:3; m.bending=variant==2; int np=npMax>1&&r.chance(0.35)?2:1;
  GeoOpt g={m.d,np,m.d==2?r.integer(0,1):(np==1?r.integer(0,G_N-1):r.integer(0,G_WILD)),2,r.integer(1,2),r.integer(1,2),np>1&&r.chance(0.6),r.chance(0.6)?0.03:0}; if(g.kind==G_FLAT) g.noise=0; genGeo(r,m,g);
  m.desc=std::string(m.d==2?"planar":m.bending?"shell":"membrane")+" "+geoName(g.kind)+" np"+std::to_string(m.mp.nPatches()); genMats(r,m,onlyLinear,r.chance(0.5),false,0.01,0.08,combo); m.continuity=m.mp.nPatches()>1&&r.chance(0.75)?0:-1; x.L=m.basis; x.H=m.basis; x.mpH=m.mp; x.enrich=r.integer(0,1); if(x.enrich==0){ x.H.degreeElevate(1); x.mpH.degreeElevate(1); } else { x.H.uniformRefine(); x.mpH.uniformRefine(); } m.desc+=x.enrich?" Href":" Hdeg"; m.desc+=m.continuity<0?" c-1":" c0"; }
// how: 0 constructed with the final data; 1 with the bases exchanged, set afterwards; 2 with another undeformed geometry, set afterwards
static void makeDwr(DwrCase&x,bool loads=true,int how=0){ Model&m=x.m; gsMaterialMatrixBase<real_t>*mat=m.mats[0].get(); Dwr*d; if(how){ MB fl=how==1?x.H:x.L,fh=how==1?x.L:x.H; MP first=m.mp; if(how==2) for(size_t p=0;p<first.nPatches();++p) first.patch(p).coefs()*=1.25; if(m.d==2) d=new gsThinShellAssemblerDWR<2,real_t,false>(first,fl,fh,m.bc,*m.force.f,mat); else if(m.bending) d=new gsThinShellAssemblerDWR<3,real_t,true>(first,fl,fh,m.bc,*m.force.f,mat); else d=new gsThinShellAssemblerDWR<3,real_t,false>(first,fl,fh,m.bc,*m.force.f,mat); if(how==1){ d->setBasisL(x.L); d->setBasisH(x.H); } else d->setUndeformed(m.mp); } else if(m.d==2) d=new gsThinShellAssemblerDWR<2,real_t,false>(m.mp,x.L,x.H,m.bc,*m.force.f,mat); else if(m.bending) d=new gsThinShellAssemblerDWR<3,real_t,true>(m.mp,x.L,x.H,m.bc,*m.force.f,mat); else d=new gsThinShellAssemblerDWR<3,real_t,false>(m.mp,x.L,x.H,m.bc,*m.force.f,mat); x.D.reset(d);
  if(m.continuity>=0){ gsOptionList o=d->optionsL(); o.setInt("Continuity",m.continuity); d->setOptions(o); } if(loads&&!m.loads.empty()) d->setPointLoads(m.pl); }
// geometry in the basis of a level plus a displacement field of that level
static MP deformedBy(const MP&base,const MP&disp){ MP r=base; for(size_t p=0;p<r.nPatches();++p) r.patch(p).coefs()+=disp.patch(p).coefs(); return r; }
struct GoalD { GoalFunction g; const char*n; };
static const GoalD goals[]={ {GoalFunction::Displacement,"Displacement"},{GoalFunction::Stretch,"Stretch"},{GoalFunction::PStrain,"PStrain"},{GoalFunction::PStress,"PStress"},{GoalFunction::MembraneStrain,"MembraneStrain"},{GoalFunction::MembraneStress,"MembraneStress"},{GoalFunction::MembraneForce,"MembraneForce"},{GoalFunction::FlexuralStrain,"FlexuralStrain"},{GoalFunction::FlexuralStress,"FlexuralStress"},{GoalFunction::FlexuralMoment,"FlexuralMoment"} };
// the quantity of a goal at a point (three components)
static Mat quantity(const Model&m,int gi,int P,const Mat&u,const SurfPt&so,const SurfPt&sd,const Mat&xo,const Mat&xd,gsMaterialMatrixBase<real_t>&M,bool&ok){ Mat q=Mat::Zero(3,1); const MatSpec&ms=m.specs[P]; Mat z=Mat::Zero(1,1);
  switch(gi){ case 0: for(int i=0;i<m.d;i++) q(i,0)=xd(i,0)-xo(i,0); break;
   case 1: case 2: { Mat s=M.eval3D_pstretch(P,u,z); for(int i=0;i<2;i++){ double l2=s(i,0)*s(i,0); q(i,0)=gi==1?l2:(l2-1)/2; } } break;
   case 3: { Mat s=M.eval3D_pstress(P,u,z,MO::PStress); q(0,0)=s(0,0); q(1,0)=s(1,0); } break;
   case 4: for(int i=0;i<3;i++) q(i,0)=(double)((sd.A[i]-so.A[i])/2*(i==2?2:1)); break;
   case 5: { S3 s; LawPar lp=ms.at(xo); if(ms.law==SvK){ S3 E; for(int i=0;i<3;i++) E[i]=(sd.A[i]-so.A[i])/2; s=linStressRef(lp,so.A,E); } else { bool o; s=stressCon(lp,so.A,sd.A,nullptr,&o); ok=ok&&o; } for(int i=0;i<3;i++) q(i,0)=(double)s[i]; } break;
   case 7: for(int i=0;i<3;i++) q(i,0)=(double)((so.B[i]-sd.B[i])*(i==2?2:1)); break;
   case 8: { S3 K; for(int i=0;i<3;i++) K[i]=so.B[i]-sd.B[i]; S3 s=linStressRef(ms.at(xo),so.A,K); for(int i=0;i<3;i++) q(i,0)=(double)s[i]; } break;
   case 6: case 9: { S3 N,Q; bool o; resultants(ms,so,sd,xo,m.d==3,N,Q,o); ok=ok&&o; for(int i=0;i<3;i++) q(i,0)=(double)(gi==6?N[i]:Q[i]); } break; }
  return q; }
VM_PROPERTY(C16,8000,120000){ Rng&r=c.rng; DwrCase x; Model&m=x.m; int gi=c.index%10; int variant=1+(c.index/10)%2; if(gi>=7) variant=2; int cm=(c.index/20)%(int)combos().size(); genDwr(c,x,variant,2,gi==8,gi==8?0:cm);
  BcOpt b={r.chance(0.7),r.chance(0.4),r.chance(0.2),false,false,false,false,r.chance(0.3)}; genBC(r,m,b); LoadOpt lo={r.chance(0.5),false,false,false}; genLoads(r,m,lo,1); makeDwr(x); Dwr&D=*x.D;
  int comps[4]={0,1,2,9}; int comp=comps[r.integer(0,3)]; if(comp==2&&(gi>=1&&gi<=3)) comp=r.integer(0,1); D.setGoal(goals[gi].g,comp); int where=r.integer(0,2); bool high=r.chance(0.5);
  static const char*wn[]={"domain","boundary","points"}; std::string what=std::string(goals[gi].n)+" comp "+std::to_string(comp)+" on "+wn[where]; c.tag=std::string(goals[gi].n)+"/"+(comp==9?"norm":"comp")+"/"+wn[where]+"/"+m.specs[0].name(); c.key=m.desc.substr(0,m.desc.find(" mat"))+"/"+c.tag+(high?"/H":"/L"); c.desc<<m.desc<<" "<<what<<(high?" H":" L");
  std::vector<patchSide> all(m.mp.topology().bBegin(),m.mp.topology().bEnd()); Dwr::bContainer bn; Mat pts; if(where==1){ int n=r.integer(1,2); for(int i=0;i<n;i++){ patchSide s=all[r.next()%all.size()]; bool dup=false; for(auto&q:bn) dup=dup||q==s; if(!dup) bn.push_back(s); } } if(where==2){ int n=r.integer(1,3); pts=Mat(2,n); for(int k=0;k<n;k++){ pts(0,k)=r.uni(0.03,0.97); pts(1,k)=r.uni(0.03,0.97); } }
  index_t nd=high?D.numDofsH():D.numDofsL(); Mat u=randSol(r,nd,r.chance(0.2)?1e-3:0.03); auto disp=[&](const Mat&v){ MP s; if(high) D.constructMultiPatchH(v,s); else D.constructMultiPatchL(v,s); return s; }; const MP&base=high?x.mpH:m.mp; MP prim=disp(u),def=deformedBy(base,prim);
  if(!defAdmissible(m,def,1.6)){ c.trivial=true; return; }
  auto goal=[&](const MP&d){ return where==0?D.computeGoal(d):where==1?D.computeGoal(bn,d):D.computeGoal(pts,d); };
  // own goal functional at the quadrature points of a level; boundary integrals in arc length, points weighted with the area element
  bool ok=true; ld mineig=1e9; double sc=0; auto own=[&](const MP&d,const MB&level){ double want=0; sc=0; auto M=m.specs[0].make(m.mp); M->setDeformed(&d);
    auto add=[&](int P,const Mat&uu,double w){ SurfPt so=surfPt(m.mp.patch(P),uu),sd=surfPt(d.patch(P),uu); Mat q=quantity(m,gi,P,uu,so,sd,m.mp.patch(P).eval(uu),d.patch(P).eval(uu),*M,ok); double f=comp==9?q.squaredNorm():q(comp,0); want+=w*f; sc+=w*std::fabs(comp==9?q.squaredNorm():q.cwiseAbs().maxCoeff()); if(gi>=1&&gi<=3) { double gap=std::fabs(q(0,0)-q(1,0)); mineig=std::min(mineig,(ld)gap/(ld)(1e-300+(gi==1?std::fabs(q(0,0)-1)+std::fabs(q(1,0)-1):q.cwiseAbs().maxCoeff()))); mineig=std::min(mineig,(ld)(gap/(gi==3?m.specs[P].at(m.mp.patch(P).eval(uu)).E:1)*25)); }; };
    MB keep=m.basis; m.basis=level; if(where==0) forQP(m,&d,[&](const QP&q){ add(q.p,q.u,q.w*(double)q.so.meas); }); else if(where==1) for(auto&s:bn) forSide(m,s,[&](const QP&q){ add(q.p,q.u,q.w); }); else for(int k=0;k<pts.cols();k++) add(0,pts.col(k),(double)surfPt(m.mp.patch(0),pts.col(k)).meas); m.basis=keep; return want; };
  double got=goal(def); double want=own(def,x.H);
  double E=m.specs[0].par[0].c0,t=m.specs[0].t.c0; double fl[10]={1e-3,1,1e-2,E*1e-2,1e-2,E*1e-2,E*t*1e-2,1e-2,E*1e-2,E*t*t*t*1e-2}; double floor=comp==9?fl[gi]*fl[gi]*1e-2:fl[gi]*1e-2; c.note(wn[where]);
  if(!ok){ c.skip("goal value"); return; } bool svk=m.specs[0].law==SvK; c.near("goal value",got,want,svk?1e-9:1e-6,std::max(sc,floor),what);
  // derivative
  ThinShellAssemblerStatus st=high?(where==0?D.assembleDualH(prim,def):where==1?D.assembleDualH(bn,prim,def):D.assembleDualH(pts,prim,def)):(where==0?D.assembleDualL(prim,def):where==1?D.assembleDualL(bn,prim,def):D.assembleDualL(pts,prim,def)); if(!c.is("status",st==ThinShellAssemblerStatus::Success,what)) return; Mat dual=high?D.dualH():D.dualL(); if(!c.is("dual size",dual.rows()==nd&&dual.cols()==1,what)) return;
  if(nd==0){ c.trivial=true; return; } if(gi>=1&&gi<=3&&comp!=9&&mineig<5e-2){ c.skip("dual=derivative of the goal"); return; } // principal values are not differentiable where they coincide
  Mat w=randSol(r,nd,1); double h=gi>=1&&gi<=3?1e-5:1e-4; Mat dw=dual.transpose()*w; 
  if(!svk&&m.d==3&&(gi==6||gi==9)){ c.skip("dual=derivative of the goal"); } else { auto at=[&](double s){ return own(deformedBy(base,disp(u+s*w)),high?x.H:x.L); }; auto fdAt=[&](double h){ return (8*(at(h)-at(-h))-(at(2*h)-at(-2*h)))/(12*h); }; double fd=fdAt(h); double ds=0; for(index_t i=0;i<nd;i++) ds+=std::fabs(dual(i,0)*w(i,0)); double dt=gi>=1&&gi<=3?1e-4:svk?2e-6:2e-5,dsc=std::max(std::max(std::fabs(fd),0.1*ds),floor*10); bool conv=std::fabs(dw(0,0)-fd)<=dt*dsc; // refine the difference quotient until it settles
    for(int it=0;it<3&&!conv;it++){ h/=3; double f2=fdAt(h); conv=std::fabs(f2-fd)<=0.3*dt*dsc; fd=f2; } if(conv) c.near("dual=derivative of the goal",dw(0,0),fd,dt,dsc,what); else c.skip("dual=derivative of the goal"); }
}

// ---- a displacement-like field at a point: per component (value, 1, 2, 11, 22, 12)
typedef std::array<std::array<ld,6>,3> FieldPt;
static FieldPt fieldAt(const MP&f,int p,const Mat&u){ FieldPt o; for(auto&a:o) a.fill(0); Mat v=f.patch(p).eval(u),d1=f.patch(p).deriv(u),d2=f.patch(p).deriv2(u); for(index_t c=0;c<v.rows();c++){ o[c][0]=v(c,0); o[c][1]=d1(2*c,0); o[c][2]=d1(2*c+1,0); for(int k=0;k<3;k++) o[c][3+k]=d2(3*c+k,0); } return o; }
static FieldPt diffField(const FieldPt&a,const FieldPt&b){ FieldPt o; for(int c=0;c<3;c++) for(int k=0;k<6;k++) o[c][k]=a[c][k]-b[c][k]; return o; }
static void varAlong(const SurfPt&s,const FieldPt&f,int d,ld E[3],ld K[3]){ for(int k=0;k<3;k++) E[k]=K[k]=0; for(int c=0;c<d;c++){ ld e[3],q[3]; firstVar(s,f[c],c,e,q); for(int k=0;k<3;k++){ E[k]+=e[k]; K[k]+=q[k]; } } }
static SurfPt movedPt(SurfPt s,const FieldPt&f,ld h){ for(int c=0;c<3;c++){ s.g1[c]+=h*f[c][1]; s.g2[c]+=h*f[c][2]; s.g11[c]+=h*f[c][3]; s.g22[c]+=h*f[c][4]; s.g12[c]+=h*f[c][5]; } finishSurf(s); return s; }
struct El { int p; gsVector<real_t> lo,up; bool has(int q,const Mat&u) const { return p==q&&u(0,0)>=lo(0)&&u(0,0)<=up(0)&&u(1,0)>=lo(1)&&u(1,0)<=up(1); } };
static std::vector<El> elements(const MB&b){ std::vector<El> r; for(size_t p=0;p<b.nBases();++p){ auto dom=b.basis(p).domain(); auto ie=dom->endAll(); for(auto it=dom->beginAll();it!=ie;++it){ El e; e.p=p; e.lo=it.lowerCorner(); e.up=it.upperCorner(); r.push_back(e); } } return r; }
static int elementOf(const std::vector<El>&els,int p,const Mat&u){ for(size_t i=0;i<els.size();++i) if(els[i].has(p,u)) return (int)i; return -1; }
static void checkEls(Case&c,const char*mon,const std::vector<real_t>&got,const std::vector<double>&want,double tol,double scale,const std::string&what){ if(!c.is(mon,got.size()==want.size(),what+" number of elements "+std::to_string(got.size())+" expected "+std::to_string(want.size()))) return; for(size_t i=0;i<want.size();++i) c.near(mon,got[i],want[i],tol,scale,what+" element "+std::to_string(i)); }
// C17: the estimate is the residual of the deformed state tested with the difference of the dual solutions
VM_PROPERTY(C17,3000,60000){ Rng&r=c.rng; DwrCase x; Model&m=x.m; int variant=c.index%3; int cm=(c.index/3)%(int)combos().size(); genDwr(c,x,variant,2,false,cm); bool rest=r.chance(0.25),withLoads=r.chance(0.7);
  BcOpt b={r.chance(0.7),r.chance(0.4),r.chance(0.2),false,false,false,false,withLoads&&r.chance(0.6)}; genBC(r,m,b); LoadOpt lo={r.chance(0.8),false,false,r.chance(0.5)}; genLoads(r,m,lo,1); if(lo.force&&m.force.m!=m.d) m.force=vfield(r,m.d,m.d,1,0.5,false);
  if(!m.loads.empty()&&r.chance(0.5)){ m.pl.clear(); for(auto&L:m.loads){ if(L.parametric) for(int k=0;k<2;k++) if(r.chance(0.6)){ gsTensorBSplineBasis<2,real_t>*tb=dynamic_cast<gsTensorBSplineBasis<2,real_t>*>(&x.H.basis(L.patch).source()); if(tb){ auto un=tb->knots(k).unique(); L.par(k,0)=un[r.integer(0,(int)un.size()-1)]; c.note("point load on an element edge"); } } gsVector<real_t> pt=L.par.col(0),v=L.val.col(0); if(!L.parametric) pt=m.mp.patch(L.patch).eval(L.par).col(0); m.pl.addLoad(pt,v,L.patch,L.parametric); } }
  makeDwr(x); Dwr&D=*x.D; D.setGoal(GoalFunction::Displacement); c.tag=std::string(variant==0?"planar":variant==1?"membrane":"shell")+(rest?"/rest":"/deformed")+"/"+m.specs[0].name(); c.key=m.desc; c.desc<<m.desc<<(rest?" rest":" deformed")<<(withLoads?" loads":"");
  MP zL,zH; D.constructMultiPatchL(randSol(r,D.numDofsL(),1),zL); D.constructMultiPatchH(randSol(r,D.numDofsH(),1),zH); bool onH=r.chance(0.3); MP def; if(rest) def=m.mp; else { MP u; double a=r.chance(0.2)?1e-3:0.03; if(onH){ D.constructMultiPatchH(randSol(r,D.numDofsH(),a),u); def=deformedBy(x.mpH,u); } else { D.constructMultiPatchL(randSol(r,D.numDofsL(),a),u); def=deformedBy(m.mp,u); } }
  if(!rest&&!defAdmissible(m,def,1.6)){ c.trivial=true; return; }
  auto els=elements(x.H); std::vector<double> e1(els.size(),0),e2(els.size(),0); double dom=0,dom2=0,sc=0,sc2=0; bool ok=true; MB keep=m.basis; m.basis=x.H; std::vector<Model::Neu>&neu=m.neu;
  forQP(m,&def,[&](const QP&q){ FieldPt z=diffField(fieldAt(zH,q.p,q.u),fieldAt(zL,q.p,q.u)); Mat F=m.force.at(q.x); ld f=0,a=0; for(int k=0;k<m.d;k++){ f+=z[k][0]*F(k,0); a+=fabsl(z[k][0]*F(k,0)); }
    if(!rest){ S3 N,M; bool o; resultants(m.specs[q.p],q.so,q.sd,q.x,m.d==3,N,M,o); ok=ok&&o; ld E[3],K[3]; varAlong(q.sd,z,m.d,E,K); for(int k=0;k<3;k++){ f-=N[k]*E[k]; a+=fabsl(N[k]*E[k]); if(m.bending){ f-=M[k]*K[k]; a+=fabsl(M[k]*K[k]); } } }
    double w=(double)(q.w*q.so.meas); int e=elementOf(els,q.p,q.u); e1[e]+=w*(double)f; e2[e]+=w*(double)(f*f); dom+=w*(double)f; dom2+=w*(double)(f*f); sc+=w*(double)a; sc2+=w*(double)(a*a); });
  double bd=0; for(auto&n:neu) forSide(m,n.ps,[&](const QP&q){ FieldPt z=diffField(fieldAt(zH,q.p,q.u),fieldAt(zL,q.p,q.u)); Mat f=n.f.at(q.x); for(int k=0;k<m.d;k++){ double v=(double)z[k][0]*f(k,0)*q.w; bd+=v; sc+=std::fabs(v); } }); m.basis=keep;
  double pl=0; bool phys=false; std::vector<double> e1l=e1; if(withLoads) for(auto&L:m.loads){ phys=phys||!L.parametric; Mat d=zH.patch(L.patch).eval(L.par)-zL.patch(L.patch).eval(L.par); double v=(d.transpose()*L.val)(0,0); pl+=v; sc+=(d.norm()+1e-3*(zH.patch(L.patch).coefs().cwiseAbs().maxCoeff()+zL.patch(L.patch).coefs().cwiseAbs().maxCoeff()))*L.val.norm(); }
  if(!ok){ c.skip("estimate"); return; } bool svk=m.specs[0].law==SvK; double tol=svk?1e-9:1e-6; if(phys&&withLoads) tol=std::max(tol,2e-5); sc=std::max(sc,1e-12); std::string what=c.tag;
  real_t got=rest?D.computeError(zL,zH,withLoads):D.computeError(zL,zH,def,withLoads); c.near("estimate",got,dom+bd+pl,tol,sc,what); c.near("stored estimate",D.error(),got,1e-14,std::max(std::fabs((double)got),1e-300),what); if(!neu.empty()) c.note("traction"); if(withLoads&&!m.loads.empty()) c.note("point loads");
  std::vector<real_t> ge=rest?D.computeErrorElements(zL,zH,withLoads):D.computeErrorElements(zL,zH,def,withLoads);
  if(!withLoads||m.loads.empty()) checkEls(c,"element estimates",ge,e1,tol,sc,what); else { // a point load acts on elements of its patch containing the point
    if(c.is("element estimates",ge.size()==e1.size(),what+" number of elements")){ double s=0; for(size_t i=0;i<e1.size();++i){ s+=ge[i]; bool loaded=false; for(auto&L:m.loads) for(int k=0;k<4;k++){ Mat u=L.par; u(0,0)+=(k&1?1:-1)*1e-6; u(1,0)+=(k&2?1:-1)*1e-6; loaded=loaded||els[i].has(L.patch,u); } if(!loaded) c.near("element estimates",ge[i],e1[i],tol,sc,what+" unloaded element "+std::to_string(i)); } c.near("element estimates with point loads",s,dom+pl,tol,sc,what); } }
  c.near("stored estimate after the element-wise one",D.error(),dom+(withLoads?pl:0),tol,sc,what);
  std::vector<real_t> st=D.errors(),ab=D.absErrors(); bool same=st.size()==ge.size()&&ab.size()==ge.size(); for(size_t i=0;same&&i<ge.size();++i) same=st[i]==ge[i]&&ab[i]==std::fabs(ge[i]); c.is("stored element estimates",same,what);
  if((m.loads.empty()||!withLoads)&&neu.empty()){ double s2=std::max(sc2,1e-20); real_t g2=rest?D.computeSquaredError(zL,zH,withLoads):D.computeSquaredError(zL,zH,def,withLoads); c.near("squared estimate",g2,dom2,tol,s2,what); checkEls(c,"squared element estimates",rest?D.computeSquaredErrorElements(zL,zH,withLoads):D.computeSquaredErrorElements(zL,zH,def,withLoads),e2,tol,s2,what); }
}
static double sparseDiff(const gsSparseMatrix<real_t>&a,const gsSparseMatrix<real_t>&b,double&sc){ if(a.rows()!=b.rows()||a.cols()!=b.cols()) return 1e300; Mat A=a.toDense(),B=b.toDense(); sc=B.size()?B.cwiseAbs().maxCoeff():0; return A.size()?(A-B).cwiseAbs().maxCoeff():0; }
// C17l: both levels solve the problem of the plain assembler on their basis; the estimate is exact for linear problems
VM_PROPERTY(C17l,1000,20000){ Rng&r=c.rng; DwrCase x; Model&m=x.m; int variant=c.index%3; genDwr(c,x,variant,2,variant==2||r.chance(0.5),-1); bool linear=variant==2;
  if(linear){ int kind=r.chance(0.5)?G_FLAT:G_CURVED; GeoOpt g={3,1,kind,2,r.integer(1,2),r.integer(1,2),false,0}; m.desc="shell "; m.mp=MP(); m.q.clear(); genGeo(r,m,g); m.continuity=-1; genMats(r,m,true,kind!=G_FLAT,false,0.02,0.1,0); x.L=x.H=m.basis; x.mpH=m.mp; if(x.enrich==0){ x.H.degreeElevate(1); x.mpH.degreeElevate(1); } else { x.H.uniformRefine(); x.mpH.uniformRefine(); } m.desc+=geoName(kind); }
  BcOpt b={true,!linear&&r.chance(0.4),r.chance(0.2),false,false,false,false,r.chance(0.4)}; if(linear){ b.strong=false; b.clamped=false; } genBC(r,m,b); if(linear){ for(int sd=1;sd<=4;sd++){ bool used=false; for(auto&n:m.neu) used=used||n.ps.side()==boxSide(sd); if(!used) m.bc.addCondition(0,boxSide(sd),condition_type::dirichlet,0,0,false,-1); } m.bc.setGeoMap(m.mp); }
  LoadOpt lo={r.chance(0.8),!linear&&m.d==3&&r.chance(0.4),!linear&&r.chance(0.4),r.chance(0.5)}; genLoads(r,m,lo,1); if(m.force.m!=m.d) m.force=vfield(r,m.d,m.d,1,0.5,m.d==2);
  int how=r.chance(0.3)?r.integer(1,2):0; makeDwr(x,true,how); if(how) c.note(how==1?"bases set later":"geometry set later"); Dwr&D=*x.D; if(m.hasPress) D.setPressure(*m.press.f); if(m.hasFound) D.setFoundation(*m.found.f); c.tag=std::string(variant==0?"planar":variant==1?"membrane":"shell"); c.key=m.desc; c.desc<<m.desc; const std::string what=c.tag;
  for(int lev=0;lev<2;lev++){ MB keep=m.basis; m.basis=lev?x.H:x.L; auto P=m.fresh(); m.basis=keep; const char*ln=lev?" H":" L"; index_t nd=P->numDofs(); if(!c.is("level size",nd==(lev?D.numDofsH():D.numDofsL()),what+ln)) return; double sc=0,e;
    P->assemble(); if(lev){ D.assembleMatrixH(); D.assemblePrimalH(); } else { D.assembleMatrixL(); D.assemblePrimalL(); } Mat f=lev?D.primalH():D.primalL(); e=sparseDiff(lev?D.matrixH():D.matrixL(),P->matrix(),sc); c.near("level stiffness",e,0,1e-11,std::max(sc,1e-300),what+ln);
    Mat fr=P->rhs(); double s=fr.size()?std::max(fr.cwiseAbs().maxCoeff(),(real_t)1e-12):1; if(!b.inhom&&c.is("level load",f.rows()==fr.rows(),what+ln)) c.near("level load",f.size()?(f-fr).cwiseAbs().maxCoeff():0,0,1e-11,s,what+ln);
    { if(lev) D.assembleH(); else D.assembleL(); P->assemble(); e=sparseDiff(lev?D.matrixH():D.matrixL(),P->matrix(),sc); c.near("level system at once",e,0,1e-11,std::max(sc,1e-300),what+ln+" matrix"); Mat g=lev?D.primalH():D.primalL(),gr=P->rhs(); if(c.is("level system at once",g.rows()==gr.rows()&&g.cols()==gr.cols(),what+ln+" size")) c.near("level system at once",g.size()?(g-gr).cwiseAbs().maxCoeff():0,0,1e-11,s,what+ln+" load"); }
    if(nd>0){ Mat sv=randSol(r,nd,0.1); const MP&base=lev?x.mpH:m.mp; auto cmp=[&](const char*nm,std::function<MP()> g,std::function<MP()> w){ MP a,bb; bool ta=false,tb=false; try{ a=g(); }catch(std::exception&){ ta=true; } try{ bb=w(); }catch(std::exception&){ tb=true; } if(!c.is("level fields",ta==tb&&a.nPatches()==bb.nPatches(),what+ln+std::string(" ")+nm)||ta) return; double df=0; for(size_t p=0;p<a.nPatches();++p){ if(a.patch(p).coefs().rows()!=bb.patch(p).coefs().rows()) df=1e300; else df=std::max(df,(double)(a.patch(p).coefs()-bb.patch(p).coefs()).cwiseAbs().maxCoeff()); } c.near("level fields",df,0,1e-12,1,what+ln+std::string(" ")+nm); };
      cmp("field",[&]{ MP q; if(lev) D.constructMultiPatchH(sv,q); else D.constructMultiPatchL(sv,q); return q; },[&]{ return P->constructMultiPatch(sv); }); cmp("update",[&]{ MP q=base; if(lev) D.updateMultiPatchH(sv,q); else D.updateMultiPatchL(sv,q); return q; },[&]{ MP q=base; P->updateMultiPatch(sv,q); return q; });
      cmp("displacement",[&]{ return lev?D.constructDisplacementH(sv):D.constructDisplacementL(sv); },[&]{ return P->constructDisplacement(sv); }); cmp("solution",[&]{ if(r.chance(0.5)){ MP q; if(lev) D.constructSolutionH(sv,q); else D.constructSolutionL(sv,q); return q; } return lev?D.constructSolutionH(sv):D.constructSolutionL(sv); },[&]{ return P->constructSolution(sv); });
      Mat va,vb; bool ta=false,tb=false; MP q=deformedBy(base,P->constructMultiPatch(sv)); try{ va=lev?D.constructSolutionVectorH(q):D.constructSolutionVectorL(q); }catch(std::exception&){ ta=true; } try{ vb=P->constructSolutionVector(q); }catch(std::exception&){ tb=true; } if(c.is("level fields",ta==tb&&va.rows()==vb.rows(),what+ln+" solution vector")&&!ta) c.near("level fields",(va-vb).cwiseAbs().maxCoeff(),0,1e-12,1,what+ln+" solution vector"); }
    bool lump=r.chance(0.3); P->assembleMass(lump); if(lev) D.assembleMassH(lump); else D.assembleMassL(lump); gsSparseMatrix<real_t> mr=P->massMatrix(); e=sparseDiff(lev?D.massH():D.massL(),mr,sc); c.near("level mass",e,0,1e-11,std::max(sc,1e-300),what+ln);
    if(!lev){ MP u; D.constructMultiPatchL(randSol(r,nd,0.02),u); MP def=deformedBy(m.mp,u); if(defAdmissible(m,def,1.6)){ P->assembleMatrix(def); D.assembleMatrixL(def); e=sparseDiff(D.matrixL(),P->matrix(),sc); c.near("level tangent",e,0,1e-10,std::max(sc,1e-300),what); P->assembleVector(def); D.assemblePrimalL(def); Mat g=D.primalL(),gr=P->rhs(); if(c.is("level residual",g.rows()==gr.rows(),what)) c.near("level residual",g.size()?(g-gr).cwiseAbs().maxCoeff():0,0,1e-10,gr.size()?std::max(gr.cwiseAbs().maxCoeff(),(real_t)1e-12):1,what); } } }
  if(!linear||D.numDofsL()==0) return;
  // exactness: goal of the enriched solution is the load tested with the enriched dual solution (same bilinear form)
  gsSparseSolver<real_t>::LU lu; int comps[4]={0,1,2,2}; int comp=comps[r.integer(0,3)]; int gi=r.integer(0,2); GoalFunction gf=gi==0?GoalFunction::Displacement:gi==1?GoalFunction::MembraneStrain:GoalFunction::FlexuralStrain; D.setGoal(gf,comp); int where=r.integer(0,2); MP z0L,z0H; D.constructMultiPatchL(Mat::Zero(D.numDofsL(),1),z0L); D.constructMultiPatchH(Mat::Zero(D.numDofsH(),1),z0H); Dwr::bContainer bn; Mat pts; if(where==1) bn.push_back(patchSide(0,boxSide(r.integer(1,4)))); if(where==2){ pts=Mat(2,1); pts<<r.uni(0.05,0.95),r.uni(0.05,0.95); }
  D.assembleMatrixH(); D.assemblePrimalH(); Mat KH=D.matrixH().toDense(),FH=D.primalH(); if(where==0) D.assembleDualH(z0L,m.mp); else if(where==1) D.assembleDualH(bn,z0L,m.mp); else D.assembleDualH(pts,z0L,m.mp); Mat dH=D.dualH(); Mat uH=KH.fullPivLu().solve(FH),zHv=KH.fullPivLu().solve(dH); MP zH; D.constructMultiPatchH(zHv,zH);
  double JH=(dH.transpose()*uH)(0,0),sc=std::max({dH.norm()*uH.norm(),FH.norm()*zHv.norm(),(real_t)1e-300}); bool phys=false; for(auto&L:m.loads) phys=phys||!L.parametric; double cond=1; c.near("linear goal from the dual solution",D.computeError(z0L,zH,true),JH,phys?2e-4:1e-7*cond,sc,what); c.note("exactness");
  if(m.kind!=G_FLAT) return; // the remaining identity needs exact quadrature on both levels
  D.assembleMatrixL(); D.assemblePrimalL(); Mat uL=D.matrixL().toDense().fullPivLu().solve(D.primalL()); double amp=uL.cwiseAbs().maxCoeff(); if(!(amp>0)) return; double s=1e-8/amp; if(where==0) D.assembleDualL(z0L,m.mp); else if(where==1) D.assembleDualL(bn,z0L,m.mp); else D.assembleDualL(pts,z0L,m.mp); double JL=(D.dualL().transpose()*uL)(0,0);
  // scaled problem through the helper
  DwrCase y; Model&n=y.m; n.d=3; n.bending=true; n.mp=m.mp; n.basis=m.basis; n.specs=m.specs; n.makeMats(); n.force=m.force; n.force.a*=s; n.force.B*=s; { std::vector<std::string> ex; for(int i=0;i<3;i++){ std::ostringstream q; q.precision(17); q<<"("<<n.force.a(i,0)<<")+("<<n.force.B(i,0)<<")*x+("<<n.force.B(i,1)<<")*y+("<<n.force.B(i,2)<<")*z"; ex.push_back(q.str()); } n.force.f.reset(new gsFunctionExpr<real_t>(ex,3)); }
  n.keep.reserve(8); for(auto&q:m.neu){ VField f=q.f; f.a*=s; f.B*=s; std::vector<std::string> ex; for(int i=0;i<3;i++){ std::ostringstream o; o.precision(17); o<<"("<<f.a(i,0)<<")+("<<f.B(i,0)<<")*x+("<<f.B(i,1)<<")*y+("<<f.B(i,2)<<")*z"; ex.push_back(o.str()); } f.f.reset(new gsFunctionExpr<real_t>(ex,3)); n.keep.push_back(f); n.bc.addCondition(0,q.ps.side(),condition_type::neumann,n.keep.back().f.get(),0,false,-1); } for(int sd=1;sd<=4;sd++){ bool used=false; for(auto&q:m.neu) used=used||q.ps.side()==boxSide(sd); if(!used) n.bc.addCondition(0,boxSide(sd),condition_type::dirichlet,0,0,false,-1); } n.bc.setGeoMap(n.mp);
  n.loads=m.loads; for(auto&L:n.loads){ L.val*=s; gsVector<real_t> pt,v=L.val.col(0); if(L.parametric) pt=L.par.col(0); else pt=n.mp.patch(0).eval(L.par).col(0); n.pl.addLoad(pt,v,0,L.parametric); }
  y.L=x.L; y.H=x.H; makeDwr(y); y.D->setGoal(gf,comp); gsThinShellDWRHelper<real_t> help(y.D.get()); MP pr,df; y.D->constructMultiPatchL(s*uL,pr); df=deformedBy(n.mp,pr); help.computeError(df,pr,bn,pts,where==0,true); double want=s*(JH-JL); double scl=std::max(s*sc,1e-10); c.near("estimate of the helper",help.error(),want,phys?1e-3:1e-4,scl,what); std::vector<real_t> he=help.errors(); c.is("helper element estimates",he.size()==elements(x.H).size(),what); if(n.neu.empty()&&m.neu.empty()){ double t=0; for(auto v:he) t+=v; c.near("helper element sum",t,help.error(),1e-9,scl,what); } std::vector<real_t> ha=help.absErrors(),hn=help.absErrors(true),hs=help.errors(true),hq=help.sqErrors(),hqn=help.sqErrors(true); bool okk=ha.size()==he.size()&&hn.size()==he.size()&&hs.size()==he.size()&&hq.size()==he.size()&&hqn.size()==he.size(); double er=std::fabs(help.error()); for(size_t i=0;okk&&er>0&&i<he.size();++i) okk=ha[i]==std::fabs(he[i])&&std::fabs(hn[i]*er-ha[i])<=1e-12*ha[i]&&std::fabs(hs[i]*er-ha[i])<=1e-12*ha[i]&&std::fabs(hqn[i]*er*er-std::fabs(hq[i]))<=1e-12*std::fabs(hq[i]); c.is("helper element views",okk,what); c.note("helper");
  if(where==0&&r.chance(0.5)){ gsVector<real_t> uv=s*uL.col(0); double e0=help.error(); gsThinShellDWRHelper<real_t> h2(y.D.get()); h2.computeError(uv); if(m.loads.empty()&&m.neu.empty()) c.near("helper from a solution vector",h2.error(),e0,1e-6,scl,what); }
}
// C18: eigenvalue estimates are the documented combination of the bilinear forms
VM_PROPERTY(C18,3000,60000){ Rng&r=c.rng; DwrCase x; Model&m=x.m; genDwr(c,x,2,2,true,0); bool buck=c.index%2; BcOpt b={r.chance(0.8),false,r.chance(0.2),false,false,false,false,false}; genBC(r,m,b); LoadOpt lo={false,false,false,false}; genLoads(r,m,lo,1); makeDwr(x); Dwr&D=*x.D; D.setGoal(buck?GoalFunction::Buckling:GoalFunction::Modal);
  c.tag=buck?"buckling":"modal"; c.key=m.desc+c.tag; c.desc<<m.desc<<" "<<c.tag; const std::string what=c.tag; MP zL,zH,u,def=m.mp; D.constructMultiPatchL(randSol(r,D.numDofsL(),0.3),zL); D.constructMultiPatchH(randSol(r,D.numDofsH(),0.3),zH); bool primH=r.chance(0.3)&&buck; if(primH) D.constructMultiPatchH(randSol(r,D.numDofsH(),0.3),u); else D.constructMultiPatchL(randSol(r,D.numDofsL(),0.3),u);
  if(buck){ MP v; D.constructMultiPatchL(randSol(r,D.numDofsL(),0.03),v); def=deformedBy(m.mp,v); if(!defAdmissible(m,def,1.6)){ c.trivial=true; return; } }
  double eP=r.uni(-2,2),eL=r.uni(-2,2),eH=r.uni(-2,2),dl=eH-eL; auto els=elements(x.H); std::vector<double> ew(els.size(),0); double tot=0,sc=0,norm=0,nsc=0; MB keep=m.basis; m.basis=x.H;
  forQP(m,&def,[&](const QP&q){ FieldPt fu=fieldAt(u,q.p,q.u),fL=fieldAt(zL,q.p,q.u),fH=fieldAt(zH,q.p,q.u),fd=diffField(fH,fL); double w=(double)(q.w*q.so.meas); T33 A,B,Dm; stiffnesses(m.specs[q.p],q.so,q.so,q.x,true,A,B,Dm); S3 N,M; bool o; resultants(m.specs[q.p],q.so,q.sd,q.x,true,N,M,o);
    auto lin=[&](const SurfPt&s,const FieldPt&a,const FieldPt&bb,ld&ab){ ld Ea[3],Ka[3],Eb[3],Kb[3]; varAlong(s,a,3,Ea,Ka); varAlong(s,bb,3,Eb,Kb); ld v=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ ld t=Ea[i]*A[i][j]*Eb[j],k=Ka[i]*Dm[i][j]*Kb[j]; v+=t+k; ab+=fabsl(t)+fabsl(k); } return v; };
    auto geo=[&](const FieldPt&a,const FieldPt&bb,ld&ab){ ld h=1e-4L; SurfPt sp=movedPt(q.sd,bb,h),sm=movedPt(q.sd,bb,-h),s2=movedPt(q.sd,bb,2*h),s3=movedPt(q.sd,bb,-2*h); ld E1[3],K1[3],E2[3],K2[3],E3[3],K3[3],E4[3],K4[3]; varAlong(sp,a,3,E1,K1); varAlong(sm,a,3,E2,K2); varAlong(s2,a,3,E3,K3); varAlong(s3,a,3,E4,K4); ld v=0; for(int k=0;k<3;k++){ ld t=N[k]*(8*(E1[k]-E2[k])-(E3[k]-E4[k]))/(12*h),y=M[k]*(8*(K1[k]-K2[k])-(K3[k]-K4[k]))/(12*h); v+=t+y; ab+=fabsl(t)+fabsl(y); } return v; };
    ld f=0,ab=0,nn=0,nab=0; if(buck){ ld KL=lin(q.so,fu,fu,ab),KdL=lin(q.so,fu,fd,ab),KN=lin(q.sd,fu,fu,ab)+geo(fu,fu,ab),KdN=lin(q.sd,fu,fd,ab)+geo(fu,fd,ab); f=KdL-eP*(KdN-KdL)+dl*(KN-KL); nn=lin(q.sd,fu,fH,nab)+geo(fu,fH,nab)-lin(q.so,fu,fH,nab); }
    else { ld rho=m.specs[q.p].rho.at(q.x)*m.specs[q.p].t.at(q.x); ld bd=0,bp=0,bz=0; for(int k=0;k<3;k++){ bd+=fu[k][0]*fd[k][0]; bp+=fu[k][0]*fu[k][0]; bz+=fu[k][0]*fH[k][0]; nab+=rho*fabsl(fu[k][0]*fH[k][0]); } f=lin(q.so,fu,fd,ab)-eP*rho*bd+dl*rho*bp; ab+=rho*(fabsl(bd)+bp); nn=rho*bz; }
    int e=elementOf(els,q.p,q.u); ew[e]+=w*(double)f; tot+=w*(double)f; sc+=w*(double)ab; norm+=w*(double)nn; nsc+=w*(double)nab; }); m.basis=keep;
  double tol=buck?1e-7:1e-10; sc=std::max(sc,1e-12); nsc=std::max(nsc,1e-12); real_t got=buck?D.computeErrorEig(eP,eL,eH,zL,zH,u,def):D.computeErrorEig(eP,eL,eH,zL,zH,u); c.near("eigenvalue estimate",got,tot-dl,tol,sc+std::fabs(dl),what);
  checkEls(c,"element eigenvalue estimates",buck?D.computeErrorEigElements(eP,eL,eH,zL,zH,u,def):D.computeErrorEigElements(eP,eL,eH,zL,zH,u),ew,tol,sc,what); c.near("operator norm",buck?D.matrixNorm(u,zH,def):D.matrixNorm(u,zH),norm,tol,nsc,what); c.near("stored estimate",D.error(),got,1e-9,sc+std::fabs(dl),what); c.note(what);
}
}
