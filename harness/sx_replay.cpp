// Native replay runtime: executes a harness entry on the real code with the solver's witness.
// exit 0: no violation; 3: an assertion of the harness is violated; 4: an assumption does not hold.
#include "sx.h"
#include <dlfcn.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
static std::map<std::string,double> W; static std::map<std::string,int> cnt; static int bad=0; static bool verbose=false;
static double rd(const char* n0){ std::string n=n0; int k=cnt[n]++; if(k) n+="#"+std::to_string(k); auto it=W.find(n); double v= it==W.end()?0.0:it->second; return v; }
extern "C" {
double sx_real(const char* n){ return rd(n); }
double sx_real_in(const char* n,double lo,double hi){ double v=rd(n); if(v<lo) v=lo; if(v>hi) v=hi; return v; }
int sx_int(const char* n,int lo,int hi){ int v=(int)rd(n); if(v<lo) v=lo; if(v>hi) v=hi; return v; }
int sx_choose(const char* n,int lo,int hi){ return sx_int(n,lo,hi); }
bool sx_bool(const char* n){ return rd(n)!=0; }
void sx_assume(bool c){ if(!c){ if(bad) { fflush(stdout); _Exit(3);} printf("assumption not met\n"); fflush(stdout); _Exit(4);} }
void sx_assert(bool c,const char* l){ if(!c){ printf("ASSERT VIOLATED: %s\n",l); fflush(stdout); bad=1; } }
void sx_eq_tol(double a,double b,double tol,const char* l){ bool ok= a==b || std::fabs(a-b)<=tol*(1+std::fabs(a)+std::fabs(b)); if(!ok){ printf("EQ VIOLATED: %s: %.17g vs %.17g\n",l,a,b); fflush(stdout); bad=1; } }
void sx_eq(double a,double b,const char* l){ sx_eq_tol(a,b,1e-6,l); }
void sx_reach(const char*){} void sx_option(const char*,double){} void sx_print(const char* l,double v){ printf("%s = %.17g\n",l,v); }
void sx_sqrt_hint(double){}
bool sx_branch(bool c){ return c; }
int sx_symbolic_mode(){ return 0; }
}
int main(int argc,char** argv){
  std::ifstream f(argv[2]); std::string line; while(std::getline(f,line)){ auto p=line.rfind('\t'); if(p==std::string::npos) continue; W[line.substr(0,p)]=strtod(line.substr(p+1).c_str(),nullptr); }
  void(*e)()=(void(*)())dlsym(RTLD_DEFAULT,argv[1]); if(!e){ printf("no entry\n"); return 5; }
  try { e(); } catch(std::exception& ex){ printf("UNCAUGHT EXCEPTION: %s\n",ex.what()); return 3; } catch(...){ printf("UNCAUGHT EXCEPTION\n"); return 3; }
  fflush(stdout); _Exit(bad?3:0);
}
