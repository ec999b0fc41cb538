// C19: materials from files, from the factory, from every constructor and from setters behave like the directly constructed one.
#include "matcase.h"
#include <fstream>
#include <unistd.h>
namespace vm {
typedef MaterialOutput MO; typedef gsMaterialMatrixBase<real_t> MB; typedef MB::uPtr MU;
struct Scratch { std::string d; std::vector<std::string> f; Scratch(){ char b[]="/tmp/shellmonXXXXXX"; d=mkdtemp(b); } std::string file(const std::string&n){ std::string s=d+"/"+n; f.push_back(s); return s; } ~Scratch(){ for(auto&s:f) unlink(s.c_str()); rmdir(d.c_str()); } };
// everything a user can ask from a material, with labels
typedef std::vector<std::pair<std::string,Mat>> Finger;
static Finger finger(MB&M,const MP&mp,const MP&def,int P,const Mat&u,const Mat&z,bool tft,bool rho){
  M.setUndeformed(&mp); M.setDeformed(&def); if(tft) { M.material()->setUndeformed(&mp); M.material()->setDeformed(&def); }
  Finger f; Mat a; M.thickness_into(P,u,a); f.push_back({"thickness",a}); if(rho){ M.density_into(P,u,a); f.push_back({"density",a}); }
  if(!tft){ M.parameters_into(P,u,a); f.push_back({"parameters",a}); }
  f.push_back({"stress",M.eval3D_vector(P,u,z,tft?MO::VectorN:MO::Generic)}); f.push_back({"tangent",M.eval3D_matrix(P,u,z,tft?MO::MatrixA:MO::Generic)}); f.push_back({"strain",M.eval3D_strain(P,u,z)}); f.push_back({"principal stress",M.eval3D_pstress(P,u,z,MO::Generic)});
  gsMaterialMatrixIntegrate<real_t,MO::VectorN> N(&M,&def); gsMaterialMatrixIntegrate<real_t,MO::VectorM> Mm(&M,&def); gsMaterialMatrixIntegrate<real_t,MO::MatrixA> A(&M,&def); gsMaterialMatrixIntegrate<real_t,MO::MatrixD> D(&M,&def);
  f.push_back({"membrane force",N.piece(P).eval(u)}); f.push_back({"bending moment",Mm.piece(P).eval(u)}); f.push_back({"membrane stiffness",A.piece(P).eval(u)}); f.push_back({"bending stiffness",D.piece(P).eval(u)}); return f; }
static void same(Case&c,const std::string&what,const Finger&g,const Finger&w,const std::string&nm,double E){
  for(size_t i=0;i<w.size();i++){ const Mat&a=g[i].second,&b=w[i].second; bool nan=false; for(index_t k=0;k<b.size();k++) if(!std::isfinite(b.data()[k])) nan=true; if(nan){ c.skip(what+": "+w[i].first); continue; }
    bool st=w[i].first=="stress"||w[i].first=="membrane force"||w[i].first=="bending moment"||w[i].first=="principal stress"; double t=w[0].second.maxCoeff();
    double sc=std::max(1e-300,b.cwiseAbs().maxCoeff()); if(st) sc=std::max(sc,1e-9*E*(w[i].first=="membrane force"?t:w[i].first=="bending moment"?t*t*t:1)); c.near(what+": "+w[i].first,a,b,1e-12,sc,nm); } }
template<short_t d,short_t id,bool comp> static MU nl(int how,const MatSpec&s,const MP&mp,bool rho,Rng&r){
  typedef gsMaterialMatrixNonlinear<d,real_t,id,comp> T; auto p=s.pars(); const gsFunctionSet<real_t>&t=*s.t.f,&R=*s.rho.f;
  switch(how){ case 0: return rho?MU(new T(mp,t,p,R)):MU(new T(mp,t,p)); case 1: return rho?MU(new T(t,p,R)):MU(new T(t,p));
   case 2: { T*m=new T(mp,t); m->setParameters(p); if(rho) m->setDensity(R); return MU(m); }
   default: { T*m=new T(); m->setUndeformed(&mp); m->setThickness(t); bool sh=r.chance(0.5); for(size_t i=0;i<p.size();i++){ size_t k=r.chance(0.5)?i:p.size()-1-i; (void)k; if(how==4&&s.law==OG&&i>=2){ if(i%2==0) m->setMu((i-2)/2,*p[i]); else m->setAlpha((i-2)/2,*p[i]); } else if(how==4&&s.law==MR&&i==2) m->setRatio(*p[i]); else if(how==4&&i==0) m->setYoungsModulus(*p[0]); else if(how==4&&i==1) m->setPoissonsRatio(*p[1]); else if(sh) m->setParameter(i,MB::function_ptr(p[i]->clone().release())); else m->setParameter(i,*p[i]); } if(rho) m->setDensity(R); return MU(m); } } }
template<short_t d> static MU lin(int how,const MatSpec&s,const MP&mp,bool rho,Rng&r){
  typedef gsMaterialMatrixLinear<d,real_t> T; auto p=s.pars(); const gsFunctionSet<real_t>&t=*s.t.f,&R=*s.rho.f;
  switch(how){ case 0: return rho?MU(new T(mp,t,p,R)):MU(new T(mp,t,p)); case 1: return rho?MU(new T(t,p,R)):MU(new T(t,p)); case 2: return rho?MU(new T(mp,t,*p[0],*p[1],R)):MU(new T(mp,t,*p[0],*p[1]));
   case 3: { T*m=new T(mp,t); m->setParameters(p); if(rho) m->setDensity(R); return MU(m); }
   default: { T*m=new T(); m->setUndeformed(&mp); m->setThickness(t); if(r.chance(0.5)){ m->setPoissonsRatio(*p[1]); m->setYoungsModulus(*p[0]); } else { m->setParameter(0,*p[0]); m->setParameter(1,*p[1]); } if(rho) m->setDensity(R); return MU(m); } } }
template<short_t d> static MU direct(int how,const MatSpec&s,const MP&mp,bool rho,Rng&r){
  if(s.law==SvK) return lin<d>(how,s,mp,rho,r);
  int id=10*s.impl+(int)s.law;
#define C2(I) case I: return s.comp?nl<d,I,true>(how,s,mp,rho,r):nl<d,I,false>(how,s,mp,rho,r);
#define C1(I) case I: return nl<d,I,true>(how,s,mp,rho,r);
  switch(id){ C2(11) C2(21) C2(31) C1(12) C1(22) C1(32) C2(13) C2(23) C2(33) C2(34) }
  return MU(); }
// an own writer of the documented file format
static std::string fieldXml(const Field&F,int idx,bool asConst){ std::ostringstream os; os.precision(17); if(asConst) os<<"<Function type=\"ConstantFunction\" dim=\""<<F.d<<"\" index=\""<<idx<<"\">"<<F.c0<<"</Function>"; else { os<<"<Function type=\"FunctionExpr\" dim=\""<<F.d<<"\" index=\""<<idx<<"\">"; if(F.constant) os<<F.c0; else { os<<F.c0<<"*(1+("<<F.ax<<")*x+("<<F.ay<<")*y"; if(F.d>2) os<<"+("<<F.az<<")*z"; os<<")"; } os<<"</Function>"; } return os.str(); }
static std::string typeName(const MatSpec&s){ static const char*n[]={"Linear","NH","NHe","MR","OG"}; std::string t=s.law==SvK?"":s.comp?"Compressible":"Incompressible"; return t+n[s.law]+std::to_string(s.d); }
static std::string matXml(Rng&r,const MatSpec&s,bool rho,int tft,const std::string&extra){
  std::ostringstream os; os<<"<MaterialMatrix type=\""<<typeName(s)<<"\" "<<extra; static const char*on[]={"1","true","True"},*off[]={"0","false","False"}; if(tft==1) os<<" TFT=\""<<on[r.integer(0,2)]<<"\""; else if(r.chance(0.5)) os<<" TFT=\""<<off[r.integer(0,2)]<<"\""; os<<">\n";
  auto fx=[&](const Field&F,int i){ return fieldXml(F,i,F.constant&&r.chance(0.5)); };
  std::vector<std::string> parts; parts.push_back("<Thickness>"+fx(s.t,0)+"</Thickness>\n"); if(rho) parts.push_back("<Density>"+fx(s.rho,0)+"</Density>\n");
  std::vector<std::string> ps; for(size_t i=0;i<s.par.size();i++) ps.push_back(fx(s.par[i],i)); if(r.chance(0.5)) std::reverse(ps.begin(),ps.end()); std::string P="<Parameters>\n"; for(auto&x:ps) P+="  "+x+"\n"; parts.push_back(P+"</Parameters>\n"); if(r.chance(0.5)) std::reverse(parts.begin(),parts.end());
  for(auto&x:parts) os<<x; os<<"</MaterialMatrix>\n"; return os.str(); }
static bool xmlable(const Combo&c){ return c.law==SvK||c.impl==(c.law==OG?3:1); }
static MU wrapTFT(int d,bool ln,MU b){ MB::Ptr p(b.release()); if(d==2) return ln?MU(new gsMaterialMatrixTFT<2,real_t,true>(p)):MU(new gsMaterialMatrixTFT<2,real_t,false>(p)); return ln?MU(new gsMaterialMatrixTFT<3,real_t,true>(p)):MU(new gsMaterialMatrixTFT<3,real_t,false>(p)); }
static void xmlSpec(MatSpec&s){ auto six=[](Field&F){ if(F.constant){ double v=std::floor(F.c0*64+0.5)/64; if(v==0) v=1./64; F=constField(v,F.d); } }; six(s.t); six(s.rho); for(auto&p:s.par) six(p); }

VM_PROPERTY(C19,6000,60000){
  Rng&r=c.rng; MP mp,def; int d=r.chance(0.4)?2:3; int np=r.integer(1,3); int kind=d==2?r.integer(0,1):r.integer(0,G_N-1);
  for(int p=0;p<np;p++){ auto g=genPatch(r,d,kind,r.integer(2,3),2,r.integer(1,2),1,p,p+1); mp.addPatch(give(g)); } mp.computeTopology(); def=mp; Deform D=genDeform(r,d,0.15,0.02,r.chance(0.5)); applyDeform(r,D,def);
  int nu=r.integer(1,3); Mat u(2,nu),z(1,nu); for(int k=0;k<nu;k++){ u(0,k)=r.uni(0.05,0.95);u(1,k)=r.uni(0.05,0.95); z(0,k)=r.uni(-0.5,0.5); }
  int P=r.integer(0,np-1); bool rho=r.chance(0.7);
  auto ok=[&](const MatSpec&s,int p){ Mat pts=mp.patch(p).eval(u); for(int k=0;k<nu;k++){ SurfPt a=surfPt(mp.patch(p),u.col(k)),b=surfPt(def.patch(p),u.col(k)); for(int q=-1;q<=1;q++){ ld zz=d==3?q*0.5*s.t.at(pts.col(k)):0; if(!admissible(metricAt(a,zz),metricAt(b,zz),2.0)) return false; } } return true; };
  const auto&all=combos(); int mode=c.index%5;
  if(mode<=1){ // file
    std::vector<Combo> xs; for(auto&q:all) if(xmlable(q)) xs.push_back(q); Combo co=xs[(c.index/5)%xs.size()]; MatSpec s=genMat(r,d,co,0.02,0.15,r.chance(0.6)); xmlSpec(s); bool tft=r.chance(0.35),ln=s.law==SvK; std::string nm=typeName(s)+(tft?"/TFT":""); c.key=nm+(mode?"/own file":"/written")+(rho?"/rho":""); c.tag=typeName(s); c.desc<<c.key<<" patch "<<P; if(ln&&tft) z.setZero();
    if(!ok(s,P)){ c.trivial=true; return; }
    MU ref=d==2?direct<2>(0,s,mp,rho,r):direct<3>(0,s,mp,rho,r); if(tft) ref=wrapTFT(d,ln,std::move(ref)); Finger want=finger(*ref,mp,def,P,u,z,tft,rho);
    Scratch sd; std::string fn=sd.file("m.xml"); int id=r.integer(1,99);
    if(mode==0){ { gsFileData<real_t> fd; if(r.chance(0.3)) fd<<mp; if(r.chance(0.5)) fd.add(*ref,id); else { fd<<*ref; id=-1; } fd.save(fn); } }
    else { std::ofstream o(fn); o<<"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n"; if(r.chance(0.3)) o<<"<!-- a comment -->\n"; o<<matXml(r,s,rho,tft,"id=\""+std::to_string(id)+"\"")<<"</xml>\n"; }
    MU got; { gsFileData<real_t> fd(fn); if(!c.is("file: one material in the file",fd.count<MB>()==1,nm)) return; got=(id>=0&&r.chance(0.5))?fd.getId<MB>(id):fd.getFirst<MB>(); } // the file data is gone before the material is used
    if(!c.is("file: material read",got!=nullptr,nm)) return; c.is("file: density present iff stored",(tft?got->material():got.get())->hasDensity()==rho,nm);
    c.is("file: number of parameters",got->material()->numParameters()==(index_t)s.par.size(),nm);
    if(tft){ c.is("file: tension field kept",got->material()!=got.get(),nm); Mat tf=ref->eval3D_tensionfield(P,u,z,MO::TensionField); got->setUndeformed(&mp); got->setDeformed(&def); got->material()->setUndeformed(&mp); got->material()->setDeformed(&def); c.near("file: tension field",got->eval3D_tensionfield(P,u,z,MO::TensionField),tf,0,1,nm); }
    same(c,mode?"own file":"written file",finger(*got,mp,def,P,u,z,tft,rho),want,nm,s.par[0].c0*2);
    // a copy of what was read, after the original is gone
    MU cp=got->clone(); got.reset(); same(c,"copy of read material",finger(*cp,mp,def,P,u,z,tft,rho),want,nm,s.par[0].c0*2); return; }
  if(mode==2){ // container file
    std::vector<Combo> xs; for(auto&q:all) if(xmlable(q)) xs.push_back(q); int nm_=r.integer(1,np+1); std::vector<MatSpec> sp; std::vector<int> idx; int step=r.integer(1,3),off=r.integer(0,2); std::vector<MU> ref; for(int i=0;i<nm_;i++){ MatSpec s=genMat(r,d,xs[r.integer(0,(int)xs.size()-1)],0.02,0.15,r.chance(0.5)); xmlSpec(s); sp.push_back(s); idx.push_back(off+step*i); }
    std::vector<int> of(np); for(int p=0;p<np;p++) of[p]=r.integer(0,nm_-1); c.key="container file/np"+std::to_string(np)+"/mats"+std::to_string(nm_)+(off+step>1?"/sparse":""); c.tag="container"; c.desc<<c.key; for(int p=0;p<np;p++) if(!ok(sp[of[p]],p)){ c.trivial=true; return; }
    Scratch sd; std::string fn=sd.file("c.xml"); { std::ofstream o(fn); o<<"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xml>\n<MaterialMatrixContainer id=\"7\" size=\""<<np<<"\">\n"; for(int i=0;i<nm_;i++) o<<matXml(r,sp[i],rho,0,"index=\""+std::to_string(idx[i])+"\""); for(int i=0;i<nm_;i++){ std::ostringstream g; bool any=false; for(int p=0;p<np;p++) if(of[p]==i){ g<<" "<<p; any=true; } if(any) o<<"<group material=\""<<idx[i]<<"\">"<<g.str()<<" </group>\n"; } o<<"</MaterialMatrixContainer>\n</xml>\n"; }
    gsMaterialMatrixContainer<real_t> k; { gsFileData<real_t> fd(fn); if(r.chance(0.5)) fd.getId(7,k); else fd.getFirst(k); } if(!c.is("container file: size",k.size()==np,"")) return;
    for(int p=0;p<np;p++){ MB*m=k.piece(p); if(!c.is("container file: material present",m!=nullptr,"patch")) continue; const MatSpec&s=sp[of[p]]; MU w=d==2?direct<2>(0,s,mp,rho,r):direct<3>(0,s,mp,rho,r); same(c,"container file",finger(*m,mp,def,p,u,z,false,rho),finger(*w,mp,def,p,u,z,false,rho),s.name(),s.par[0].c0*2); } return; }
  if(mode==3){ // factory, constructors, setters
    Combo co=all[(c.index/5)%all.size()]; MatSpec s=genMat(r,d,co,0.01,0.15,r.chance(0.6)); std::string nm=s.name(); c.key="construct/"+nm+(rho?"/rho":""); c.tag=nm; c.desc<<c.key; if(!ok(s,P)){ c.trivial=true; return; }
    MU ref=d==2?direct<2>(0,s,mp,rho,r):direct<3>(0,s,mp,rho,r); Finger want=finger(*ref,mp,def,P,u,z,false,rho); double E=s.par[0].c0*2;
    gsOptionList opt=s.opts(); if(co.law==SvK&&r.chance(0.5)) opt=gsOptionList(); // SvK is the default
    MU f=d==2?(rho?getMaterialMatrix<2,real_t>(mp,*s.t.f,s.pars(),*s.rho.f,opt):getMaterialMatrix<2,real_t>(mp,*s.t.f,s.pars(),opt)):(rho?getMaterialMatrix<3,real_t>(mp,*s.t.f,s.pars(),*s.rho.f,opt):getMaterialMatrix<3,real_t>(mp,*s.t.f,s.pars(),opt));
    if(c.is("factory: material built",f!=nullptr,nm)){ c.is("factory: density present iff given",f->hasDensity()==rho,nm); same(c,"factory",finger(*f,mp,def,P,u,z,false,rho),want,nm,E); MB&R=*ref,&F=*f; c.is("factory: selected implementation",typeid(R)==typeid(F),nm); }
    for(int how=1;how<5;how++){ MU m=d==2?direct<2>(how,s,mp,rho,r):direct<3>(how,s,mp,rho,r); same(c,"constructor or setters",finger(*m,mp,def,P,u,z,false,rho),want,nm+" path "+std::to_string(how),E);
      c.is("constructor or setters: getters",m->numParameters()==(index_t)s.par.size()&&m->hasThickness()&&m->hasDensity()==rho,nm); Mat x=mp.patch(P).eval(u); c.near("getters: Young's modulus",m->getYoungsModulus()->piece(P).eval(x),s.par[0].f->piece(P).eval(x),1e-14,-1,nm); c.near("getters: Poisson's ratio",m->getPoissonsRatio()->piece(P).eval(x),s.par[1].f->piece(P).eval(x),1e-14,1,nm); if(s.law==MR) c.near("getters: ratio",m->getRatio()->piece(P).eval(x),s.par[2].f->piece(P).eval(x),1e-14,-1,nm); if(s.law==OG) for(size_t i=2;i+1<s.par.size();i+=2){ c.near("getters: Ogden",m->getMu((i-2)/2)->piece(P).eval(x),s.par[i].f->piece(P).eval(x),1e-14,-1,nm); c.near("getters: Ogden",m->getAlpha((i-2)/2)->piece(P).eval(x),s.par[i+1].f->piece(P).eval(x),1e-14,-1,nm); } }
    return; }
  // factory rejects what does not exist; containers hold what they were given
  int mat=r.integer(0,5),impl=r.integer(0,5); bool comp=r.chance(0.5); bool exists=false; for(auto&q:all) if((int)q.law==mat&&(q.law==SvK?impl>=1:(q.impl==impl&&q.comp==comp))) exists=true;
  Combo co=all[r.integer(0,(int)all.size()-1)]; MatSpec s=genMat(r,d,mat==4?Combo{OG,comp,3}:mat==3?Combo{MR,comp,1}:Combo{NH,true,1},0.01,0.1,false); c.key=std::string("reject/")+std::to_string(mat)+"/"+std::to_string(impl)+(comp?"/c":"/i"); c.tag="reject"; c.desc<<c.key;
  if(!exists){ gsOptionList o; o.addInt("Material","",mat); o.addSwitch("Compressibility","",comp); o.addInt("Implementation","",impl); bool none=false; try { MU f=d==2?(rho?getMaterialMatrix<2,real_t>(mp,*s.t.f,s.pars(),*s.rho.f,o):getMaterialMatrix<2,real_t>(mp,*s.t.f,s.pars(),o)):(rho?getMaterialMatrix<3,real_t>(mp,*s.t.f,s.pars(),*s.rho.f,o):getMaterialMatrix<3,real_t>(mp,*s.t.f,s.pars(),o)); none=!f; } catch(std::exception&e){ none=true; } c.is("factory: unavailable material refused",none,c.key); }
  { MatSpec a=genMat(r,d,co,0.01,0.1,r.chance(0.5)),b=genMat(r,d,all[r.integer(0,(int)all.size()-1)],0.01,0.1,r.chance(0.5)); if(!ok(a,P)||!ok(b,P)) { c.trivial=true; return; }
    MU A=d==2?direct<2>(0,a,mp,true,r):direct<3>(0,a,mp,true,r),B=d==2?direct<2>(0,b,mp,true,r):direct<3>(0,b,mp,true,r); Finger fa=finger(*A,mp,def,P,u,z,false,true),fb=finger(*B,mp,def,P,u,z,false,true); double E=std::max(a.par[0].c0,b.par[0].c0)*2;
    gsMaterialMatrixContainer<real_t> k(r.chance(0.5)?0:2); if(k.size()==0){ k.add(*A); k.add(B.get()); } else { if(r.chance(0.5)) k.set(0,*A); else k.set(0,MB::Ptr(A->clone().release())); k.set(1,B.get()); } c.is("container: size",k.size()==2,""); c.is("container: pointer is shared, reference is copied",k.piece(1)==B.get()&&k.piece(0)!=A.get(),"");
    Field t2=constField(a.t.c0*2,d); A->setThickness(*t2.f); A.reset(); same(c,"container: copied material",finger(*k.piece(0),mp,def,P,u,z,false,true),fa,a.name(),E); same(c,"container: shared material",finger(*k.piece(1),mp,def,P,u,z,false,true),fb,b.name(),E); gsMaterialMatrixContainer<real_t> k2(k); k.clear(); c.is("container: cleared",k.size()==0&&k2.size()==2,""); same(c,"container: copy of the container",finger(*k2.piece(0),mp,def,P,u,z,false,true),fa,a.name(),E); }
}
}
