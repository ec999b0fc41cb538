// Driver: runs the cases of one property (a shard of them), prints one JSON event per line.
#include "common.h"
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <csignal>
namespace vm {
std::map<std::string,Prop>& registry(){ static std::map<std::string,Prop> r; return r; }
std::string jstr(const std::string&s){ std::string o="\""; for(unsigned char ch:s){ if(ch=='"'||ch=='\\'){o+='\\';o+=ch;} else if(ch<32) { char b[8]; snprintf(b,8,"\\u%04x",ch); o+=b; } else if(ch>126) o+='?'; else o+=ch;} return o+"\""; }
void Case::fail(const std::string&m,const std::string&d){
  violations++;
  if(violations<=5){ fprintf(out,"{\"ev\":\"violation\",\"prop\":%s,\"case\":%ld,\"monitor\":%s,\"tag\":%s,\"desc\":%s,\"detail\":%s}\n",jstr(prop).c_str(),index,jstr(m).c_str(),jstr(tag).c_str(),jstr(desc.str()).c_str(),jstr(d).c_str()); fflush(out);} }
bool Case::near(const std::string&m,double got,double want,double tol,double scale,const std::string&what){
  Stat&s=(*stats)[m]; s.n++;
  double e=std::fabs(got-want)/(tol*scale+1e-300);
  if(!(e<=1.0)){ std::ostringstream os; os.precision(12); os<<what<<" got="<<got<<" want="<<want<<" tol="<<tol<<" scale="<<scale; fail(m,os.str()); return false; }
  if(e>s.worst){ s.worst=e; s.wcase=index; } return true; }
bool Case::near(const std::string&m,const Mat&got,const Mat&want,double tol,double scale,const std::string&what){
  Stat&s=(*stats)[m]; s.n++;
  if(got.rows()!=want.rows()||got.cols()!=want.cols()){ std::ostringstream os; os<<what<<" size "<<got.rows()<<"x"<<got.cols()<<" want "<<want.rows()<<"x"<<want.cols(); fail(m,os.str()); return false; }
  if(got.size()==0) return true;
  if(scale<0) scale=want.cwiseAbs().maxCoeff();
  double e=0; bool bad=false; for(index_t i=0;i<got.rows();++i) for(index_t j=0;j<got.cols();++j){ double v=std::fabs(got(i,j)-want(i,j)); if(!(v<=tol*scale+1e-300)) bad=true; if(v>e) e=v; }
  if(bad){ std::ostringstream os; os.precision(9); os<<what<<" maxdev="<<e<<" tol="<<tol<<" scale="<<scale<<" got="<<mstr(got)<<" want="<<mstr(want); fail(m,os.str()); return false; }
  e/=(tol*scale+1e-300); if(e>s.worst){ s.worst=e; s.wcase=index; } return true; }
bool Case::is(const std::string&m,bool cond,const std::string&what){ (*stats)[m].n++; if(!cond) fail(m,what); return cond; }
}
using namespace vm;
static FILE* g_out=stdout; static long g_case=-1;
int main(int argc,char**argv){
  if(argc<2){ for(auto&p:registry()) printf("%s %ld %ld\n",p.first.c_str(),p.second.quick,p.second.thorough); return 0; }
  std::string prop=argv[1]; uint64_t seed=1; long shard=0,nsh=1,only=-1,maxn=-1,from=0; bool th=false; const char*outp=nullptr;
  for(int i=2;i<argc;i++){ std::string a=argv[i];
    if(a=="--seed") seed=strtoull(argv[++i],0,10); else if(a=="--shard"){ shard=atol(argv[++i]); nsh=atol(argv[++i]); }
    else if(a=="--case") only=atol(argv[++i]); else if(a=="--thorough") th=true; else if(a=="--out") outp=argv[++i]; else if(a=="--n") maxn=atol(argv[++i]); else if(a=="--from") from=atol(argv[++i]); }
  if(outp){ g_out=fopen(outp,"w"); if(!g_out){ perror("out"); return 3; } }
  if(!registry().count(prop)){ fprintf(stderr,"unknown %s\n",prop.c_str()); return 3; }
  Prop p=registry()[prop]; long N=maxn>=0?maxn:(th?p.thorough:p.quick);
  std::map<std::string,Stat> stats; int total=0;
  for(long k=from;k<N||k==only;k++){
    if(only>=0){ if(k!=only) { if(k<only) k=only-1; else break; continue; } } else if(k%nsh!=shard) continue;
    g_case=k;
    fprintf(g_out,"{\"ev\":\"begin\",\"case\":%ld}\n",k); fflush(g_out);
    Case c(prop,k,seed,th,g_out,&stats);
    try { p.fn(c); }
    catch(const std::exception&e){ c.fail("exception",std::string("unexpected exception: ")+e.what()); }
    catch(...){ c.fail("exception","unexpected exception"); }
    total+=c.violations;
    fprintf(g_out,"{\"ev\":\"end\",\"case\":%ld,\"key\":%s,\"trivial\":%s,\"tag\":%s,\"desc\":%s,\"viol\":%d}\n",k,jstr(c.key).c_str(),c.trivial?"true":"false",jstr(c.tag).c_str(),jstr(c.desc.str()).c_str(),c.violations); fflush(g_out);
    if(only>=0) break;
  }
  for(auto&s:stats) fprintf(g_out,"{\"ev\":\"stat\",\"monitor\":%s,\"n\":%ld,\"worst\":%.3g,\"skipped\":%ld,\"wcase\":%ld}\n",jstr(s.first).c_str(),s.second.n,s.second.worst,s.second.skipped,s.second.wcase);
  fprintf(g_out,"{\"ev\":\"done\",\"violations\":%d}\n",total); fflush(g_out);
  return 0;
}
