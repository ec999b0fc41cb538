// C22: a failing assembly is reported and leaves nothing behind.  Every function the user supplies (thickness,
// parameters, density, loads, boundary data) is wrapped so that one chosen evaluation during one chosen call throws;
// the monitors observe the reported status and compare all later results with those of a fresh assembler.
#include "model.h"
namespace vm {
typedef ThinShellAssemblerStatus St;
struct Trip { long count,at; bool fired; std::string site; Trip():count(0),at(-1),fired(false){} void arm(long k){ count=0; at=k; fired=false; } };
struct FaultFun : public gsFunction<real_t> { // forwards to the wrapped function, throws at the chosen evaluation
  std::shared_ptr<const gsFunctionSet<real_t>> in; Trip*t; std::string name; index_t pc;
  FaultFun(std::shared_ptr<const gsFunctionSet<real_t>> f,Trip*tt,const std::string&n,index_t p=0):in(f),t(tt),name(n),pc(p){}
  GISMO_CLONE_FUNCTION(FaultFun)
  short_t domainDim() const { return in->domainDim(); }
  short_t targetDim() const { return in->targetDim(); }
  const gsFunction<real_t>& piece(const index_t) const { return *this; }
  const gsFunction<real_t>& fn() const { return static_cast<const gsFunction<real_t>&>(in->nPieces()>1?in->piece(pc):in->piece(0)); }
  void eval_into(const gsMatrix<real_t>&u,gsMatrix<real_t>&r) const { if(t->count++==t->at){ t->fired=true; t->site=name; throw std::runtime_error("injected failure"); } fn().eval_into(u,r); }
};
VM_PROPERTY(C22,3000,30000){
  typedef std::shared_ptr<gsFunction<real_t>> FP;
  Rng&r=c.rng; Model m; Trip T; int v=c.index%3; m.d=v==0?2:3; m.bending=v==2; int np=r.chance(0.4)?2:1; GeoOpt g; g.d=m.d; g.np=np; g.kind=m.d==2?r.integer(0,1):r.integer(0,G_WILD); g.p=2; g.n1=1; g.n2=r.integer(1,2); g.reorient=np>1&&r.chance(0.5); g.noise=0.02; genGeo(r,m,g); c.tag=m.d==2?"2d":m.bending?"shell":"membrane"; m.desc=c.tag+" "+geoName(g.kind)+" np"+std::to_string(m.mp.nPatches());
  genMats(r,m,r.chance(0.4),r.chance(0.5),false,0.01,0.06); double E=m.specs[0].par[0].c0*m.specs[0].t.c0;
  BcOpt b={r.chance(0.8),r.chance(0.6),r.chance(0.3),r.chance(0.2),r.chance(0.3),m.linearMat&&r.chance(0.4),m.linearMat&&m.bending&&m.d==3&&r.chance(0.3),r.chance(0.5)}; m.wrap=[&](FP f,const char*n){ if(std::string(n)=="Dirichlet") return f; return FP(new FaultFun(f,&T,n)); }; genBC(r,m,b); LoadOpt lo={r.chance(0.7),r.chance(0.6),r.chance(0.6),r.chance(0.4)}; genLoads(r,m,lo,E*0.05);
  // wrap what the user supplies
  auto wrap=[&](FP f,const char*n){ return FP(new FaultFun(f,&T,n)); };
  m.force.f=wrap(m.force.f,"force"); if(m.hasPress) m.press.f=wrap(m.press.f,"pressure"); if(m.hasFound) m.found.f=wrap(m.found.f,"foundation");
  for(auto&x:m.mats){ auto w=[&](const gsMaterialMatrixBase<real_t>::function_ptr&f,const char*n){ return gsMaterialMatrixBase<real_t>::function_ptr(new FaultFun(f,&T,n)); }; x->setThickness(w(x->getThickness(),"thickness")); for(size_t i=0;i<m.specs[0].par.size();++i) x->setParameter(i,w(x->getParameter(i),"parameter")); if(x->getDensity()) x->setDensity(w(x->getDensity(),"density")); }
  std::unique_ptr<ShellA> A; try { A=m.fresh(); } catch(...) { c.fail("construction",m.desc); return; }
  std::string log; struct Res { St s; bool thrown; Mat a,b; };
  auto run=[&](ShellA&a,int op,const MP&def,const Mat&u,bool flag){ Res R; R.thrown=false; R.s=St::Success; try { switch(op){
      case 0: R.s=a.assemble(); if(R.s==St::Success){ R.a=a.matrix().toDense(); R.b=a.rhs(); } break;
      case 1: R.s=flag?a.assembleMatrix(u):a.assembleMatrix(def); if(R.s==St::Success) R.a=a.matrix().toDense(); break;
      case 2: R.s=flag?a.assembleVector(u):a.assembleVector(def); if(R.s==St::Success) R.b=a.rhs(); break;
      case 3: R.s=a.assembleMass(flag); if(R.s==St::Success) R.a=a.massMatrix().toDense(); break;
      case 4: R.s=flag?a.assemble(u):a.assemble(def); if(R.s==St::Success){ R.a=a.matrix().toDense(); R.b=a.rhs(); } break;
      case 5: R.b=a.boundaryForce(def,*m.mp.topology().bBegin()); break;
      case 6: { R.s=a.assembleVector(def); if(R.s!=St::Success) break; gsThinShellAssembler<3,real_t,true>*s3=dynamic_cast<gsThinShellAssembler<3,real_t,true>*>(&a); gsThinShellAssembler<3,real_t,false>*m3=dynamic_cast<gsThinShellAssembler<3,real_t,false>*>(&a); St q=St::Success; if(m.hasPress){ q=flag?(s3?s3->assemblePressureVector(def):m3?m3->assemblePressureVector(def):St::Success):(m.d==3?a.assemblePressureVector(*m.press.f,def):St::Success); } R.s=q; if(q==St::Success) R.b=a.rhs(); } break;
      case 7: { R.s=a.assembleVector(def); if(R.s!=St::Success) break; gsThinShellAssembler<3,real_t,true>*s3=dynamic_cast<gsThinShellAssembler<3,real_t,true>*>(&a); gsThinShellAssembler<3,real_t,false>*m3=dynamic_cast<gsThinShellAssembler<3,real_t,false>*>(&a); St q=St::Success; if(m.hasFound){ q=flag?(s3?s3->assembleFoundationVector(def):m3->assembleFoundationVector(def)):(s3?s3->assembleFoundationVector(*m.found.f,def):m3->assembleFoundationVector(*m.found.f,def)); } R.s=q; if(q==St::Success) R.b=a.rhs(); } break;
      case 8: { R.s=a.assembleMatrix(def); if(R.s!=St::Success) break; if(m.d==3&&m.hasPress) R.s=flag?a.assemblePressureMatrix(*m.press.f,def):a.assemblePressureMatrix(*m.press.f); if(R.s==St::Success) R.a=a.matrix().toDense(); } break;
      case 9: R.s=a.assembleVector(def,false); if(R.s==St::Success) R.b=a.rhs(); break;
      case 10: { R.b=Mat(1,1); R.b(0,0)=a.getElasticEnergy(def); } break;
      case 11: { a.updateBCs(m.bc); R.s=a.assemble(); if(R.s==St::Success){ R.a=a.matrix().toDense(); R.b=a.rhs(); } } break;
    } } catch(...) { R.thrown=true; } return R; };
  static const char*nm[]={"assemble","matrix","vector","mass","both","bforce","pressureVector","foundationVector","pressureMatrix","vectorInhom","energy","updateBCs+assemble"};
  auto cmp=[&](const std::string&mon,const Res&x,const Res&y){ auto eq=[&](const Mat&p,const Mat&q){ if(p.rows()!=q.rows()||p.cols()!=q.cols()){ c.fail(mon,m.desc+log+": sizes differ"); return; } if(q.size()) c.near(mon,p,q,1e-11,std::max(q.cwiseAbs().maxCoeff(),1e-300),m.desc+log); }; eq(x.a,y.a); eq(x.b,y.b); };
  int rounds=c.thorough?r.integer(3,10):r.integer(2,6),fired=0; std::set<std::string> kinds;
  for(int st=0;st<rounds&&c.violations==0;++st){
    std::unique_ptr<ShellA> f=m.fresh(); Mat u=randSol(r,f->numDofs(),0.01); MP def=f->constructSolution(u); if(!defAdmissible(m,def,1.6)){ c.skip("failure is reported"); continue; }
    int op=r.integer(0,11); bool flag=r.chance(0.5); if(op==10&&m.d==2) op=5;
    T.arm(-1); Res ref=run(*f,op,def,u,flag); long N=T.count; if(!c.is("a valid request succeeds",!ref.thrown&&ref.s==St::Success,m.desc+log+" "+nm[op])) return; if(N==0){ log+=std::string(" ")+nm[op]+"(0)"; continue; }
    // the long-lived assembler fails at a random evaluation
    std::string l0=log; log+=std::string(" fail:")+nm[op]; T.arm(r.chance(0.2)?N-1:(long)(r.next()%N)); Res R=run(*A,op,def,u,flag); bool hit=T.fired; T.arm(-1);
    if(!hit){ log=l0+" "+nm[op]+"(nohit)"; if(c.is("a valid request succeeds",!R.thrown&&R.s==St::Success,m.desc+log)) cmp("result",R,ref); continue; }
    fired++; c.note("failure in "+std::string(nm[op])); c.note("failing "+T.site); kinds.insert(std::string(nm[op])+"/"+T.site); log+="@"+T.site;
    if(!c.is("failure is reported",R.thrown||R.s!=St::Success,m.desc+log+": returned Success although an evaluation threw")) break;
    if(!R.thrown&&op!=5&&op!=10) c.is("status() agrees with the returned status",A->status()==R.s,m.desc+log);
    // copies made after the failure, then a valid request on the same assembler
    if(r.chance(0.2)){ if(m.d==2) A.reset(new gsThinShellAssembler<2,real_t,false>(dynamic_cast<gsThinShellAssembler<2,real_t,false>&>(*A))); else if(m.bending) A.reset(new gsThinShellAssembler<3,real_t,true>(dynamic_cast<gsThinShellAssembler<3,real_t,true>&>(*A))); else A.reset(new gsThinShellAssembler<3,real_t,false>(dynamic_cast<gsThinShellAssembler<3,real_t,false>&>(*A))); log+=" copy"; }
    int op2=r.chance(0.4)?op:r.integer(0,9); std::unique_ptr<ShellA> f2=m.fresh(); u=randSol(r,f2->numDofs(),0.01); def=f2->constructSolution(u); if(!defAdmissible(m,def,1.6)) continue; flag=r.chance(0.5);
    log+=std::string(" then ")+nm[op2]; Res w=run(*f2,op2,def,u,flag),q=run(*A,op2,def,u,flag); if(!c.is("a valid request after a failure succeeds",q.thrown==w.thrown&&q.s==w.s,m.desc+log)) break; cmp("result after a failure",q,w);
    c.is("number of unknowns after a failure",A->numDofs()==f2->numDofs(),m.desc+log); MP s1=A->constructSolution(u),s2=f2->constructSolution(u); for(size_t p=0;p<s1.nPatches();++p) c.near("reconstruction after a failure",s1.patch(p).coefs(),s2.patch(p).coefs(),1e-12,1.0,m.desc+log);
  }
  // a thickness stretch that cannot be found (compressible laws, deformed geometry not a number)
  bool compr=false; for(auto&s:m.specs) if(s.law!=SvK&&s.comp) compr=true;
  if(compr&&c.violations==0){ std::unique_ptr<ShellA> f=m.fresh(); Mat u=randSol(r,f->numDofs(),0.0); MP def=f->constructSolution(u); for(size_t p=0;p<def.nPatches();++p) def.patch(p).coefs()(r.integer(0,def.patch(p).coefs().rows()-1),0)=std::numeric_limits<double>::quiet_NaN(); int op=r.integer(1,2); log+=std::string(" nan:")+nm[op]; T.arm(-1); Res R=run(*A,op,def,u,false); c.note("plane-stress iteration without solution"); c.is("failure is reported",R.thrown||R.s!=St::Success,m.desc+log+": Success for a state without plane-stress solution"); fired++;
    u=randSol(r,f->numDofs(),0.01); def=f->constructSolution(u); if(defAdmissible(m,def,1.6)){ Res w=run(*f,op,def,u,false),q=run(*A,op,def,u,false); cmp("result after a failure",q,w); } }
  c.desc<<m.desc<<log; std::string sk; for(auto&k:kinds) sk+=k+","; c.key=m.desc.substr(0,m.desc.find(" mat"))+" "+sk; if(!fired) c.trivial=true;
}
}
