// Shared infrastructure of the gsKLShell runtime monitors: seeded case generation, event/violation
// reporting and comparison monitors.
#pragma once
#include <gismo.h>
#include <gsKLShell/gsKLShell.h>
#include <cstdio>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <functional>
#include <array>
#include <algorithm>

namespace vm {
using namespace gismo;
typedef gsMatrix<real_t> Mat;
typedef gsVector<real_t> Vec;
typedef long double ld;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(seed){ for(int i=0;i<4;i++) next(); }
  uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  double u01(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double uni(double a,double b){ return a+(b-a)*u01(); }
  double logu(double a,double b){ return std::exp(uni(std::log(a),std::log(b))); }
  int    integer(int a,int b){ return a+(int)(next()%(uint64_t)(b-a+1)); } // inclusive
  bool   chance(double p){ return u01()<p; }
  template<class V> typename V::value_type pick(const V&v){ return v[next()%v.size()]; }
};
inline uint64_t mix(uint64_t a,uint64_t b){ Rng r(a*0x9E3779B97F4A7C15ull ^ (b+0x1234567ull)*0xD1B54A32D192ED03ull); return r.next(); }

std::string jstr(const std::string&s);
template<class M> std::string mstr(const M & m){ std::ostringstream os; os.precision(9); os<<"["; for(index_t j=0;j<m.cols();++j){ if(j)os<<"; "; for(index_t i=0;i<m.rows();++i){ if(i)os<<" "; os<<m(i,j);} if(os.tellp()>400){os<<"...";break;} } os<<"]"; return os.str(); }

struct Stat { long n; double worst; long skipped; long wcase; Stat():n(0),worst(0),skipped(0),wcase(-1){} };

// One generated case of one property: random source, monitors and verdict.
struct Case {
  std::string prop; long index; uint64_t seed; bool thorough; int tier;
  Rng rng; FILE* out; std::map<std::string,Stat>* stats;
  std::string key;        // coverage class of the case (distinct, non-trivial)
  std::ostringstream desc; // human readable description of the case
  std::string tag;        // stable tag of the configuration, used by known findings
  int violations; bool trivial;
  Case(const std::string&p,long i,uint64_t sd,bool th,FILE*o,std::map<std::string,Stat>*st)
   :prop(p),index(i),seed(sd),thorough(th),tier(th),rng(mix(sd,(uint64_t)i+1000003ull*(uint64_t)std::hash<std::string>()(p))),out(o),stats(st),violations(0),trivial(false){}
  void fail(const std::string&monitor,const std::string&detail);
  // generic relative comparison: |got-want| <= tol*scale
  bool near(const std::string&monitor,double got,double want,double tol,double scale,const std::string&what="");
  bool near(const std::string&monitor,const Mat&got,const Mat&want,double tol,double scale=-1,const std::string&what="");
  bool is(const std::string&monitor,bool cond,const std::string&what="");
  void skip(const std::string&monitor){ (*stats)[monitor].skipped++; }
  void note(const std::string&k){ (*stats)["event:"+k].n++; }
};
typedef void (*CaseFn)(Case&);
struct Prop { CaseFn fn; long quick, thorough; };
std::map<std::string,Prop>& registry();
struct Reg { Reg(const char*n,CaseFn f,long q,long t){ Prop p; p.fn=f;p.quick=q;p.thorough=t; registry()[n]=p; } };
#define VM_PROPERTY(name,quickN,thoroughN) static void vm_##name(vm::Case&); static vm::Reg vm_reg_##name(#name,vm_##name,quickN,thoroughN); static void vm_##name(vm::Case& c)
} // namespace
