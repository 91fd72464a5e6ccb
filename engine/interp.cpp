// irsym: symbolic executor for LLVM bitcode (see DESIGN.md).
#include "smt.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/file.h>
#include <fcntl.h>
#include <setjmp.h>
#include <atomic>
#include <set>
#include <sstream>
#include <iostream>
using namespace llvm;
typedef uint64_t u64;

// ------------------------------------------------------------------ shared state
struct AssertSlot { char label[160]; std::atomic<uint32_t> used, proved, proved_tol, violated, unknown, reach_sat, reach_try; };
struct Shared {
  std::atomic<int> slots; std::atomic<u64> paths_done, paths_aborted, paths_infeasible, forks, instrs, queries, qsat, qunsat, qunk, qcached, qtriv, solver_us, unk_branches, nviol, div0_excl, tolq;
  AssertSlot as[600]; std::atomic<int> nas; std::atomic<int> lock;
  char aborts[60][200]; std::atomic<uint32_t> abortn[60]; std::atomic<int> nab;
  char funcs[400000];
  std::atomic<int> stop;
};
static Shared* SH;
struct SLock { SLock(){ int z=0; while(!SH->lock.compare_exchange_weak(z,1)){ z=0; usleep(50);} } ~SLock(){ SH->lock=0; } };
static AssertSlot* aslot(const std::string& l0){
  std::string l=l0.substr(0,159);
  int n=SH->nas; for(int i=0;i<n;i++) if(l==SH->as[i].label) return &SH->as[i];
  SLock k; n=SH->nas; for(int i=0;i<n;i++) if(l==SH->as[i].label) return &SH->as[i];
  if(n>=600) return &SH->as[599]; strncpy(SH->as[n].label,l.c_str(),159); SH->nas=n+1; return &SH->as[n]; }
static std::string gOut="."; static std::string gEntry;
static double gTBranch=3, gTAssert=20; static int gMaxViol=6; static u64 gMaxInstr=400000000ull;
static bool gForkSelect=false, gVerbose=false, gDiv0Excl=false; static double gInputBound=0;
static pid_t rootPid; 

// ------------------------------------------------------------------ memory
static const u64 ABASE=0x100000000000ull, ASIZE=48ull<<30, SBASE=0x200000000000ull; // arena + byte shadow
static const u64 STACK_OFF=40ull<<30;
static u64 heapTop=ABASE+4096, stackTop=ABASE+STACK_OFF;
enum { VALID=1, INIT=2, SYM=4 };
static inline bool inArena(u64 a){ return a-ABASE<ASIZE; }
static inline uint8_t* sh(u64 a){ return (uint8_t*)(SBASE+(a-ABASE)); }
struct SymEnt { Expr* e; int size; };
static std::unordered_map<u64,SymEnt> symMem; // start addr -> expr covering size bytes
static std::unordered_map<u64,u64> heapBlocks;
static bool gTrackUninit=true; static u64 gMaxAlloc=16ull<<20;

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); }
void operator delete(void* p) noexcept { if(inArena((u64)p)) return; free(p); }
void operator delete[](void* p) noexcept { if(inArena((u64)p)) return; free(p); }
void operator delete(void* p,size_t) noexcept { if(inArena((u64)p)) return; free(p); }
void operator delete[](void* p,size_t) noexcept { if(inArena((u64)p)) return; free(p); }

struct PathEnd { std::string why; };
[[noreturn]] static void pathAbort(const std::string& why);
[[noreturn]] static void reportConcrete(const std::string& label);

static u64 heapAlloc(u64 n,u64 align=16,bool zero=false){
  if(n>gMaxAlloc) reportConcrete("memory: runaway allocation");
  u64 a=(heapTop+16+align-1)&~(align-1); heapTop=a+n+(n<64?16:n>1024?1024:(n+15)&~15ull); /* red zone about the size of the block: an index one past the end lands in it */ if(heapTop>ABASE+STACK_OFF) throw PathEnd{"arena exhausted"};
  memset(sh(a),zero?(VALID|INIT):VALID,n); heapBlocks[a]=n; if(zero) memset((void*)a,0,n); else memset((void*)a,0xCD,n); return a; }
static void clearSymRange(u64 a,u64 n){ for(u64 i=0;i<n;i++) if(*sh(a+i)&SYM){ // find covering entry
      for(u64 s=a+i;;s--){ auto it=symMem.find(s); if(it!=symMem.end()){ u64 e=s+it->second.size; for(u64 b=s;b<e;b++) *sh(b)&=~SYM; if(s<a||e>a+n){ /* partial overwrite: lose remaining */ } symMem.erase(it); break; } if(a+i-s>8) break; } *sh(a+i)&=~SYM; } }
static void heapFree(u64 a){
  if(!a) return; if(!inArena(a)){ free((void*)a); return; }
  auto it=heapBlocks.find(a); if(it==heapBlocks.end()) reportConcrete("memory: invalid or double free");
  clearSymRange(a,it->second); memset(sh(a),0,it->second); heapBlocks.erase(it); }

// ------------------------------------------------------------------ values
struct Val { u64 u=0; Expr* e=nullptr; std::vector<Val>* agg=nullptr; };
static inline double asD(u64 u){ double d; memcpy(&d,&u,8); return d; }
static inline u64 fromD(double d){ u64 u; memcpy(&u,&d,8); return u; }
static inline float asF(u64 u){ float d; uint32_t x=(uint32_t)u; memcpy(&d,&x,4); return d; }
static inline u64 fromF(float d){ uint32_t u; memcpy(&u,&d,4); return u; }

// ------------------------------------------------------------------ path condition
static std::vector<Expr*> PC; static std::unordered_set<uint32_t> PCset;
static std::unordered_map<uint32_t,double> pmodel; static bool pmodelOk=true;
static std::unordered_map<uint32_t,mpq_class> pmodelQ; static std::unordered_map<uint32_t,u64> pmodelV;
struct InputRec { std::string name; Expr* e; char kind; };
static std::vector<InputRec> inputs; static std::unordered_map<std::string,int> nameCount;

static std::vector<Expr*> slice(const std::vector<Expr*>& seed){
  std::vector<Expr*> r(seed); std::unordered_set<uint32_t> vs; for(auto*e:seed) for(auto v:leafVars(e)) vs.insert(v);
  std::vector<char> in(PC.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<PC.size();i++) if(!in[i]){ bool hit=false; for(auto v:leafVars(PC[i])) if(vs.count(v)){ hit=true; break; } if(hit){ in[i]=1; ch=true; r.push_back(PC[i]); for(auto v:leafVars(PC[i])) vs.insert(v); } } }
  return r; }
static void updateModel(const Model& m){ for(auto& x:m.r){ pmodel[x.first]=x.second.get_d(); pmodelQ[x.first]=x.second; } for(auto& x:m.v){ pmodel[x.first]=(double)x.second; pmodelV[x.first]=x.second; } }
static void flushStats(){ SH->queries+=SS.queries; SH->qsat+=SS.sat; SH->qunsat+=SS.unsat; SH->qunk+=SS.unk; SH->qcached+=SS.cached; SH->qtriv+=SS.trivial; SH->solver_us+=(u64)(SS.secs*1e6); SS=SmtStats(); }
static Res feasible(Expr* c,Model* m,double t){ return smtCheck(slice({c}),m,t); }
static bool hasConstraint(Expr* c){ return PCset.count(c->id); }
// comparisons already on the path, keyed by the normal form of (left - right) up to a positive factor
enum { FLT=1, FLE=2, FEQ=4, FNE=8 }; static std::unordered_map<std::string,int> facts;
static bool factKey(Expr* c,std::string& pos,std::string& neg,int& kind){
  Expr* d=c; bool no=false; if(d->op==Op::BNot){ d=d->a[0]; no=true; } if(d->op!=Op::RLt&&d->op!=Op::RLe&&d->op!=Op::REq) return false; if(no&&d->op!=Op::REq) return false;
  auto r=ratOf(rsub(d->a[0],d->a[1])); if(!r->ok||r->num.empty()||r->num.size()>400) return false;
  mpq_class k=abs(r->num.rbegin()->second); std::string den; for(auto& f:r->den) den+="/"+std::to_string(f.first)+"^"+std::to_string(f.second);
  for(auto& t:r->num){ std::string m; for(auto& v:t.first){ m.append((const char*)&v.first,4); m.append((const char*)&v.second,2);} mpq_class q=t.second/k; pos+=m+":"+q.get_str()+";"; q=-q; neg+=m+":"+q.get_str()+";"; }
  pos+=den; neg+=den; kind= d->op==Op::RLt?FLT:d->op==Op::RLe?FLE:no?FNE:FEQ; return true; }
// sign of a normal form from the signs of its atoms: 2 positive, 1 nonnegative, -1 nonpositive, -2 negative, 0 unknown
static std::unordered_map<uint32_t,int> atomSign;
// quadratic polynomials: exact decision of (strict) positivity over all reals by rational LDL' of the Gram matrix
static int quadPSD(const Poly& p){
  std::map<uint32_t,int> ix; for(auto& t:p){ int d=0; for(auto& v:t.first){ d+=v.second; ix.emplace(v.first,0); } if(d>2) return 0; } if(ix.size()>40) return 0;
  int n=0; for(auto& x:ix) x.second=n++; std::vector<std::vector<mpq_class>> M(n+1,std::vector<mpq_class>(n+1));
  for(auto& t:p){ if(t.first.empty()) M[n][n]+=t.second; else if(t.first.size()==1&&t.first[0].second==2){ int i=ix[t.first[0].first]; M[i][i]+=t.second; } else { int i=ix[t.first[0].first], j=t.first.size()==1?n:ix[t.first[1].first]; mpq_class h=t.second/2; M[i][j]+=h; M[j][i]+=h; } }
  for(int k=0;k<=n;k++){ if(M[k][k]<0) return 0; if(M[k][k]==0){ for(int j=k+1;j<=n;j++) if(M[k][j]!=0) return 0; continue; }
    for(int i=k+1;i<=n;i++) if(M[k][i]!=0){ mpq_class f=M[k][i]/M[k][k]; for(int j=k+1;j<=n;j++) if(M[k][j]!=0) M[i][j]-=f*M[k][j]; } }
  return M[n][n]>0?2:1; }
static int polySign(const Poly& p,bool useFacts=true){
  int s=0; bool strict=false, bad=p.empty();
  for(auto& t:p){ int m= t.second>0?1:-1; bool st=true; for(auto& v:t.first){ Expr* a=ET.all[v.first]; auto i=atomSign.find(v.first); int as=i==atomSign.end()?0:i->second; if(v.second%2==0){ if(as!=2&&as!=-2) st=false; } else if(as){ if(as<0) m=-m; if(as==1||as==-1) st=false; } else if(a->op==Op::RSqrt) st=false; else { bad=true; break; } }
    if(bad) break; if(s&&s!=m){ bad=true; break; } s=m; strict|=st; }
  if(!bad) return s*(strict?2:1);
  if(!p.empty()){ bool lin=true; for(auto& t:p) if(t.first.size()>1||(t.first.size()==1&&t.first[0].second>1)) lin=false; if(!lin){ if(int q=quadPSD(p)) return q; Poly n; for(auto& t:p) n.emplace(t.first,-t.second); if(int q=quadPSD(n)) return -q; } }
  if(useFacts&&!p.empty()&&p.size()<=400){ std::string k1,k2; mpq_class k=abs(p.rbegin()->second); for(auto& t:p){ std::string m; for(auto& v:t.first){ m.append((const char*)&v.first,4); m.append((const char*)&v.second,2);} mpq_class q=t.second/k; k1+=m+":"+q.get_str()+";"; q=-q; k2+=m+":"+q.get_str()+";"; }
    auto i=facts.find(k1), j=facts.find(k2); int P=i==facts.end()?0:i->second, N=j==facts.end()?0:j->second; if(P&FLT) return -2; if(N&FLT) return 2; if(P&FLE) return -1; if(N&FLE) return 1; }
  return 0; }
static int ratSign(const Rat& r){ if(!r.ok) return 0; int s=polySign(r.num,r.den.empty()?false:true); if(!s) return 0; for(auto& f:r.den) if(f.second%2){ int d=polySign(PT.factors[f.first]); if(d==2||d==1) continue; if(d==-2||d==-1){ s=-s; continue; } return 0; } return s; }
static bool factDecide(Expr* c,bool& val){
  { Expr* d=c; bool no=false; if(d->op==Op::BNot){ d=d->a[0]; no=true; } if(d->op==Op::RLt||d->op==Op::RLe||d->op==Op::REq){ auto r=ratOf(rsub(d->a[0],d->a[1])); int g=ratSign(*r); bool v=false,known=false;
      if(d->op==Op::RLt){ if(g==-2){ v=true; known=true; } else if(g>0){ v=false; known=true; } } else if(d->op==Op::RLe){ if(g<0){ v=true; known=true; } else if(g==2){ v=false; known=true; } } else if(g==2||g==-2){ v=false; known=true; }
      if(known){ val=no?!v:v; return true; } } }
  std::string p,n; int k; if(!factKey(c,p,n,k)) return false; auto i=facts.find(p), j=facts.find(n); int P=i==facts.end()?0:i->second, N=j==facts.end()?0:j->second; if(!P&&!N) return false;
  bool lt=P&FLT, le=(P&(FLT|FLE|FEQ))||(N&FEQ), gt=N&FLT, ge=(N&(FLT|FLE|FEQ))||(P&FEQ), ne=lt||gt||((P|N)&FNE), eq=le&&ge; if(le&&ne) lt=true; if(ge&&ne) gt=true;
  if(k==FLT){ if(lt){ val=true; return true; } if(ge){ val=false; return true; } } else if(k==FLE){ if(le){ val=true; return true; } if(gt){ val=false; return true; } }
  else { bool want=k==FEQ; if(eq){ val=want; return true; } if(ne){ val=!want; return true; } }
  return false; }
static void addPC(Expr* c){ if(isTrue(c)) return; if(c->op==Op::BAnd){ addPC(c->a[0]); addPC(c->a[1]); return; } if(PCset.insert(c->id).second){ PC.push_back(c); std::string p,n; int k; if(factKey(c,p,n,k)) facts[p]|=k;
    if(c->op==Op::RLt||c->op==Op::RLe){ auto r=ratOf(rsub(c->a[0],c->a[1])); if(r->ok&&r->den.empty()&&r->num.size()==1){ auto& t=*r->num.begin(); if(t.first.size()==1&&t.first[0].second==1){ int sg=(t.second>0?-1:1)*(c->op==Op::RLt?2:1); int& o=atomSign[t.first[0].first]; if(std::abs(sg)>std::abs(o)) o=sg; } } } } }
static bool gNoQuery=false; static bool ownSlot=true;
static u64 gInstr=0,gInstrFlushed=0;
// processes that are done do not wait for the ones they forked: the root process reaps every descendant
static void reapAll(){ int st; for(;;){ pid_t p=wait(&st); if(p<0&&errno!=EINTR) break; } }
static void noteAbort(const std::string& why){ SH->paths_aborted++; SLock k; int n=SH->nab; for(int i=0;i<n;i++) if(why.substr(0,199)==SH->aborts[i]){ SH->abortn[i]++; return; } if(n<60){ strncpy(SH->aborts[n],why.c_str(),199); SH->abortn[n]=1; SH->nab=n+1; } }
static std::string curLoc();
static void pathAbort(const std::string& why){ noteAbort(why); if(gVerbose) fprintf(stderr,"[abort] %s @ %s\n",why.c_str(),curLoc().c_str()); throw PathEnd{"__abort"}; }
static void hardTimeout(){ if(SH){ const char* w="solver hard timeout"; SH->paths_aborted++; int n=SH->nab; bool f=false; for(int i=0;i<n;i++) if(!strcmp(SH->aborts[i],w)){ SH->abortn[i]++; f=true; } if(!f&&n<60){ strcpy(SH->aborts[n],w); SH->abortn[n]=1; SH->nab=n+1; } if(ownSlot) SH->slots++; } 
  if(getpid()!=rootPid) _exit(3); reapAll(); 
  extern void dumpResults(); dumpResults(); _exit(0); }

// witness writing
static std::string jesc(const std::string& s){ std::string r; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static void writeWitness(const std::string& label,const Model& m,const std::string& kind){
  int n=SH->nviol++; std::string fn=gOut+"/viol_"+gEntry+"_"+std::to_string(n)+".json"; FILE*f=fopen(fn.c_str(),"w"); if(!f) return;
  fprintf(f,"{\"entry\":\"%s\",\"label\":\"%s\",\"kind\":\"%s\",\"loc\":\"%s\",\"inputs\":[",gEntry.c_str(),jesc(label).c_str(),kind.c_str(),jesc(curLoc()).c_str());
  bool first=true; for(auto& in:inputs){ std::string v; if(in.e->sk==Sk::Real){ mpq_class q=0; auto it=m.r.find(in.e->id); if(it!=m.r.end()) q=it->second; else { auto i2=pmodelQ.find(in.e->id); if(i2!=pmodelQ.end()) q=i2->second; } char b[64]; snprintf(b,64,"%.17g",q.get_d()); v=b; }
    else { u64 q=0; auto it=m.v.find(in.e->id); if(it!=m.v.end()) q=it->second; else { auto i2=pmodelV.find(in.e->id); if(i2!=pmodelV.end()) q=i2->second; } if(in.e->sk==Sk::BV) v=std::to_string(sx64(q,in.e->w)); else v=std::to_string(q); }
    fprintf(f,"%s[\"%s\",%s]",first?"":",",jesc(in.name).c_str(),v.c_str()); first=false; }
  fprintf(f,"]}\n"); fclose(f); if(gVerbose) fprintf(stderr,"[viol] %s -> %s\n",label.c_str(),fn.c_str());
  if(n+1>=gMaxViol*4) SH->stop=1;
}
static Expr* niceBound(double b){ Expr* r=bconst(true); for(auto& in:inputs) if(in.e->sk==Sk::Real){ r=band(r,rle(in.e,rconstd(b))); r=band(r,rle(rconstd(-b),in.e)); } return r; }
// produce model for PC + cs, all inputs; prefers small inputs
static bool fullModel(std::vector<Expr*> cs,Model& m){
  auto s=slice(cs); Model m1; 
  std::unordered_set<uint32_t> vs; for(auto*e:s) for(auto v:leafVars(e)) vs.insert(v);
  std::vector<Expr*> s2=s; for(auto& in:inputs) if(in.e->sk==Sk::Real&&vs.count(in.e->id)){ s2.push_back(rle(in.e,rconstd(100))); s2.push_back(rle(rconstd(-100),in.e)); }
  Res r=smtCheck(s2,&m1,gTAssert/2); if(r!=Res::Sat) r=smtCheck(s,&m1,gTAssert/2); if(r!=Res::Sat) return false;
  m=m1;
  // other slices: solve rest
  std::vector<Expr*> rest; std::unordered_set<uint32_t> ss; for(auto*e:s) ss.insert(e->id); for(auto*e:PC) if(!ss.count(e->id)) rest.push_back(e);
  while(!rest.empty()){ auto q=slice({rest[0]}); Model m2; Res rq=smtCheck(q,&m2,gTBranch); if(rq==Res::Unsat) return false; if(rq==Res::Sat){ for(auto&x:m2.r) m.r.insert(x); for(auto&x:m2.v) m.v.insert(x); } std::unordered_set<uint32_t> qs; for(auto*e:q) qs.insert(e->id); std::vector<Expr*> nr; for(auto*e:rest) if(!qs.count(e->id)) nr.push_back(e); if(nr.size()==rest.size()) break; rest=nr; }
  return true; }
static void reportConcrete(const std::string& label){ // violation independent of further symbolic condition: PC itself
  AssertSlot* s=aslot(label); s->used++; Model m; std::vector<Expr*> cs=PC; Res r=PC.empty()?Res::Sat:smtCheck(cs,&m,gTAssert);
  if(r==Res::Unsat) throw PathEnd{"__infeasible"};
  if(r==Res::Sat){ s->violated++; if(s->violated<=(uint32_t)gMaxViol) writeWitness(label,m,"concrete"); } else { s->unknown++; }
  throw PathEnd{"__viol"}; }

// ------------------------------------------------------------------ forking
static long memAvailMB(){ FILE* f=fopen("/proc/meminfo","r"); if(!f) return 1<<20; char b[256]; long kb=-1; while(fgets(b,256,f)) if(sscanf(b,"MemAvailable: %ld",&kb)==1) break; fclose(f); return kb<0?1<<20:kb/1024; }
static void checkDeadline(){ if(memAvailMB()<3000) pathAbort("memory is low"); if(SH->stop) throw PathEnd{"__stopped"}; if(nowS()>gDeadline) pathAbort("time budget exhausted"); }
static bool tryDecide(Expr* c,bool& val){ if(c->op==Op::BConst){ val=c->u; return true; } if(hasConstraint(c)){ val=true; return true; } if(hasConstraint(bnot(c))){ val=false; return true; } return factDecide(c,val); }
static bool branch(Expr* c){
  bool v; if(tryDecide(c,v)) return v;
  checkDeadline();
  Expr* nc=bnot(c);
  if(gNoQuery){ // both outcomes explored without asking the solver (over-approximates the feasible paths)
    SH->forks++; fflush(stdout); fflush(stderr); int s=SH->slots; bool got=false; while(s>0){ if(SH->slots.compare_exchange_weak(s,s-1)){ got=true; break; } }
    pid_t p=fork(); if(p<0) pathAbort("fork failed");
    if(p==0){ SS=SmtStats(); gInstrFlushed=gInstr; ownSlot=got; addPC(nc); pmodelOk=false; return false; }
    if(!got){ int st; waitpid(p,&st,0); }
    addPC(c); pmodelOk=false; return true; }
  // use current model to know one feasible side
  int known=-1; if(!c->hasUf){ std::unordered_map<uint32_t,double> cache; double k=evalD(c,pmodel,cache); if(!std::isnan(k)&&pmodelOk) known=k!=0; }
  Model mt,mf; Res rt=Res::Sat, rf=Res::Sat;
  if(known!=1) rt=feasible(c,&mt,gTBranch);
  if(rt==Res::Unsat){ addPC(nc); if(known==-1){ /* refresh model */ Model m; if(smtCheck(slice({nc}),&m,gTBranch)==Res::Sat) updateModel(m); else pmodelOk=false; } return false; }
  if(known!=0) rf=feasible(nc,&mf,gTBranch);
  if(rf==Res::Unsat){ addPC(c); if(known!=1) { if(rt==Res::Sat) updateModel(mt); else pmodelOk=false; } return true; }
  if(rt==Res::Unk||rf==Res::Unk) { SH->unk_branches++; if(gVerbose) fprintf(stderr,"[unk] %s @ %s\n",estr(c,8).c_str(),curLoc().c_str()); }
  SH->forks++; if(gVerbose) fprintf(stderr,"[fork] %s\n",curLoc().c_str());
  fflush(stdout); fflush(stderr);
  int s=SH->slots; bool got=false; while(s>0){ if(SH->slots.compare_exchange_weak(s,s-1)){ got=true; break; } }
  pid_t p=fork(); if(p<0) pathAbort("fork failed");
  if(p==0){ SS=SmtStats(); gInstrFlushed=gInstr; ownSlot=true; 
    if(!got){ /* inherits parent's slot while parent waits: mark release-neutral */ ownSlot=false; }
    addPC(nc); if(known!=0){ if(rf==Res::Sat) updateModel(mf); else pmodelOk=false; } return false; }
  if(!got){ int st; waitpid(p,&st,0); }
  addPC(c); if(known!=1){ if(rt==Res::Sat) updateModel(mt); else pmodelOk=false; }
  return true; }
static void assumeExpr(Expr* c){ bool v; if(tryDecide(c,v)){ if(!v){ SH->paths_infeasible++; throw PathEnd{"__infeasible"}; } return; }
  Model m; std::unordered_map<uint32_t,double> cache; if(pmodelOk&&!c->hasUf){ double k=evalD(c,pmodel,cache); if(k==1){ addPC(c); return; } }
  Res r=feasible(c,&m,gTBranch); if(r==Res::Unsat){ SH->paths_infeasible++; throw PathEnd{"__infeasible"}; } addPC(c); if(r==Res::Sat) updateModel(m); else pmodelOk=false; }
static bool mustBe(Expr* c){ bool v; if(tryDecide(c,v)) return v; return feasible(bnot(c),nullptr,gTBranch)==Res::Unsat; }
static u64 concretizeInt(Expr* e){ // fork over feasible values
  if(isVC(e)) return e->u;
  for(int k=0;k<4096;k++){
    Model m; Expr* probe=vcmp(Op::VEq,e,e); (void)probe; 
    // obtain a value: introduce fresh equality via model of slice containing e's variables
    std::vector<Expr*> seed; static int fresh=0; Expr* t=ET.mk(Op::VVar,Sk::BV,e->w,{},900000000+fresh++,nullptr,"cz"); Expr* eq=vcmp(Op::VEq,t,e); Res r=smtCheck(slice({eq}),&m,gTBranch*3);
    if(r!=Res::Sat) pathAbort("cannot concretize integer"); u64 v=m.v[t->id]&maskw(e->w);
    Expr* c=vcmp(Op::VEq,e,vconst(v,e->w)); if(branch(c)) return v; }
  pathAbort("too many values in concretization"); }
static int64_t concretizeTrunc(Expr* x){ // C truncation of real to integer, forking
  if(isRC(x)){ mpz_class z; mpz_tdiv_q(z.get_mpz_t(),x->q.get_num_mpz_t(),x->q.get_den_mpz_t()); return z.get_si(); }
  for(int k=0;k<200;k++){
    static int fresh=0; Expr* t=ET.mk(Op::RVar,Sk::Real,0,{},800000000+fresh++,nullptr,"ct"); Model m; Res r=smtCheck(slice({req(t,x)}),&m,gTBranch*3); if(r!=Res::Sat) pathAbort("cannot concretize real");
    mpq_class q=m.r[t->id]; mpz_class z; mpz_tdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); mpq_class zq(z);
    Expr* c; if(z==0) c=band(rlt(rconst(-1),x),rlt(x,rconst(1))); else if(z>0) c=band(rle(rconst(zq),x),rlt(x,rconst(zq+1))); else c=band(rlt(rconst(zq-1),x),rle(x,rconst(zq)));
    if(branch(c)) return z.get_si(); }
  pathAbort("too many values in fptosi"); }

// canonical rebuild of a Real expr from its normal form
static Expr* polyExpr(const Poly& p){ Expr* s=rconst(0); for(auto& t:p){ Expr* m=rconst(t.second); for(auto& v:t.first) for(int i=0;i<v.second;i++) m=rmul(m,ET.all[v.first]); s=radd(s,m);} return s; }
static Expr* canon(Expr* e){ auto r=ratOf(e); if(!r->ok||r->num.size()>200) return e; Expr* n=polyExpr(r->num); if(r->den.empty()) return n; Expr* d=rconst(1); for(auto& f:r->den) for(int i=0;i<f.second;i++) d=rmul(d,polyExpr(PT.factors[f.first])); return rdiv(n,d); }

// ------------------------------------------------------------------ compiled IR
struct FuncInfo;
struct Opnd { int slot=-1; Val c; };
struct GepTerm { Opnd o; int64_t scale; uint8_t w; };
struct Blk;
struct II { unsigned op; uint8_t w=0; uint8_t tk=0; // tk: 0 int 1 double 2 ptr 3 float 4 agg/vector 5 void
  int dst=-1; unsigned pred=0; std::vector<Opnd> o; std::vector<GepTerm> g; int64_t off=0; Blk* t[2]={nullptr,nullptr}; const Instruction* I=nullptr; FuncInfo* callee=nullptr; int bi=0; unsigned iid=0; Type* ty=nullptr; std::vector<std::pair<u64,Blk*>> cases; std::vector<unsigned> idx; };
struct PhiC { int dst; std::map<Blk*,Opnd> in; };
struct Blk { std::vector<PhiC> phis; std::vector<II> ins; BasicBlock* bb; };
struct FuncInfo { Function* F; std::string name; bool compiled=false, counted=false; int nslots=0; std::vector<int> argSlots; std::vector<std::unique_ptr<Blk>> blks; int bi=-1; void* native=nullptr; bool nativeChecked=false; std::set<std::string> subs; std::vector<int64_t> byval; };
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*,FuncInfo*> finfo; static std::unordered_map<u64,FuncInfo*> faddr; static std::unordered_map<const GlobalValue*,u64> gaddr;
static std::vector<const II*> istack;
static std::set<std::string> funcsSeen;
static std::string curLoc(){ for(int i=(int)istack.size()-1;i>=0&&i>(int)istack.size()-12;i--){ if(!istack[i]) continue; const DebugLoc& d=istack[i]->I->getDebugLoc(); if(d){ std::string s; DILocation* l=d.get(); // prefer a frame under repo
      for(DILocation* q=l;q;q=q->getInlinedAt()){ std::string fn=(q->getDirectory()+"/"+q->getFilename()).str(); if(q->getFilename().startswith("/")) fn=q->getFilename().str(); if(fn.find("/repo/")!=std::string::npos||fn.find("/verif/")!=std::string::npos) return fn+":"+std::to_string(q->getLine()); } } } return "?"; }

static int typeKind(Type* t){ if(t->isIntegerTy()) return 0; if(t->isDoubleTy()) return 1; if(t->isPointerTy()) return 2; if(t->isFloatTy()) return 3; if(t->isVoidTy()) return 5; return 4; }
static Val zeroVal(Type* t);
static u64 globalAddr(const GlobalValue* g);
static FuncInfo* getFI(Function* F);
static Val constVal(Constant* c){
  Val v; Type* t=c->getType();
  if(auto* ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()<=64) v.u=ci->getZExtValue(); else v.u=ci->getValue().trunc(64).getZExtValue(); return v; }
  if(auto* cf=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()) v.u=fromD(cf->getValueAPF().convertToDouble()); else if(t->isFloatTy()) v.u=fromF(cf->getValueAPF().convertToFloat()); else pathAbort("fp constant type"); return v; }
  if(isa<ConstantPointerNull>(c)) return v;
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return zeroVal(t);
  if(auto* gv=dyn_cast<GlobalValue>(c)){ v.u=globalAddr(gv); return v; }
  if(auto* ca=dyn_cast<ConstantAggregate>(c)){ v.agg=new std::vector<Val>(); for(unsigned i=0;i<ca->getNumOperands();i++) v.agg->push_back(constVal(ca->getOperand(i))); return v; }
  if(auto* cd=dyn_cast<ConstantDataSequential>(c)){ v.agg=new std::vector<Val>(); for(unsigned i=0;i<cd->getNumElements();i++) v.agg->push_back(constVal(cd->getElementAsConstant(i))); return v; }
  if(auto* ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); auto* g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)) pathAbort("gep const"); v.u=constVal(ce->getOperand(0)).u+off.getSExtValue(); return v; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: v=constVal(ce->getOperand(0)); if(t->isIntegerTy()) v.u&=maskw(t->getIntegerBitWidth()); return v;
      case Instruction::Trunc: v=constVal(ce->getOperand(0)); v.u&=maskw(t->getIntegerBitWidth()); return v;
      case Instruction::Sub: v.u=(constVal(ce->getOperand(0)).u-constVal(ce->getOperand(1)).u)&maskw(t->getIntegerBitWidth()); return v;
      case Instruction::Add: v.u=(constVal(ce->getOperand(0)).u+constVal(ce->getOperand(1)).u)&maskw(t->getIntegerBitWidth()); return v;
      default: break; }
    std::string s; raw_string_ostream os(s); ce->print(os); pathAbort("constexpr "+s.substr(0,100)); }
  if(isa<DSOLocalEquivalent>(c)) return constVal(cast<DSOLocalEquivalent>(c)->getGlobalValue());
  pathAbort("constant kind"); }
static Val zeroVal(Type* t){ Val v; if(auto* st=dyn_cast<StructType>(t)){ v.agg=new std::vector<Val>(); for(auto* e:st->elements()) v.agg->push_back(zeroVal(e)); } else if(auto* at=dyn_cast<ArrayType>(t)){ v.agg=new std::vector<Val>(at->getNumElements(),zeroVal(at->getElementType())); } else if(auto* vt=dyn_cast<FixedVectorType>(t)){ v.agg=new std::vector<Val>(vt->getNumElements(),zeroVal(vt->getElementType())); } return v; }
static void storeRaw(u64 a,Type* t,const Val& v){ // concrete initialisation of globals
  if(t->isStructTy()){ auto* sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) storeRaw(a+sl->getElementOffset(i),t->getStructElementType(i),(*v.agg)[i]); return; }
  if(auto* at=dyn_cast<ArrayType>(t)){ u64 s=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) storeRaw(a+i*s,at->getElementType(),(*v.agg)[i]); return; }
  if(auto* vt=dyn_cast<FixedVectorType>(t)){ u64 s=DL->getTypeAllocSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) storeRaw(a+i*s,vt->getElementType(),(*v.agg)[i]); return; }
  u64 n=DL->getTypeStoreSize(t); memcpy((void*)a,&v.u,std::min<u64>(n,8)); if(n>8) memset((char*)a+8,0,n-8); }
static u64 stubTop=0;
static u64 globalAddr(const GlobalValue* g){
  auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto* ga=dyn_cast<GlobalAlias>(g)){ u64 a=constVal(const_cast<Constant*>(ga->getAliasee())).u; gaddr[g]=a; return a; }
  if(auto* f=dyn_cast<Function>(g)){
    u64 a=0; bool ext=f->isDeclaration();
    if(ext){ void* p=dlsym(RTLD_DEFAULT,f->getName().str().c_str()); if(p) a=(u64)p; }
    if(!a){ a=heapAlloc(16); }
    gaddr[g]=a; FuncInfo* fi=getFI(const_cast<Function*>(f)); faddr[a]=fi; return a; }
  auto* gv=cast<GlobalVariable>(g); std::string n=gv->getName().str();
  bool preferNative = gv->isDeclaration() || n.rfind("_ZTIN10__cxxabiv",0)==0 || ((n.rfind("_ZTI",0)==0||n.rfind("_ZTS",0)==0) && !gv->hasLocalLinkage() && dlsym(RTLD_DEFAULT,n.c_str()));
  if(gv->hasAvailableExternallyLinkage()) preferNative=true;
  if(preferNative){ void* p=dlsym(RTLD_DEFAULT,n.c_str()); if(p){ gaddr[g]=(u64)p; return (u64)p; } if(gv->isDeclaration()){ if(gv->hasExternalWeakLinkage()||n=="__dso_handle"){ u64 a= n=="__dso_handle"?heapAlloc(16,16,true):0; gaddr[g]=a; return a; } 
      // missing external global
      u64 a=heapAlloc(64,16,true); gaddr[g]=a; fprintf(stderr,"warning: unresolved global %s\n",n.c_str()); return a; } }
  u64 sz=DL->getTypeAllocSize(gv->getValueType()); u64 al=std::max<u64>(16,gv->getAlign().valueOrOne().value()); u64 a=heapAlloc(std::max<u64>(sz,1),al,true); gaddr[g]=a;
  if(gv->hasInitializer()) storeRaw(a,gv->getValueType(),constVal(const_cast<Constant*>(gv->getInitializer())));
  return a; }
static Function* wrapped(Function* F){ // like ld --wrap: f -> __wrap_f when the harness defines it; __real_f -> f
  std::string n=F->getName().str(); if(n.rfind("__real_",0)==0&&F->isDeclaration()){ if(Function* g=M->getFunction(n.substr(7))) return g; return F; }
  if(Function* g=M->getFunction("__wrap_"+n)) if(!g->isDeclaration()) return g; return F; }
static FuncInfo* getFI(Function* F){ auto it=finfo.find(F); if(it!=finfo.end()) return it->second; Function* W=wrapped(F); if(W!=F&&!F->getName().starts_with("__real_")){ auto* w=getFI(W); finfo[F]=w; return w; } if(W!=F){ auto i2=finfo.find(W); if(i2!=finfo.end()&&i2->second->F==W) return i2->second; auto* fi=new FuncInfo; fi->F=W; fi->name=W->getName().str(); finfo[F]=fi; return fi; } auto* fi=new FuncInfo; fi->F=F; fi->name=F->getName().str(); finfo[F]=fi; return fi; }

static std::unordered_map<std::string,int> builtinIds; static std::vector<std::function<Val(FuncInfo*,std::vector<Val>&,const II&)>> builtins;
static void compile(FuncInfo* fi){
  Function* F=fi->F; fi->compiled=true; std::unordered_map<const Value*,int> slot; int n=0;
  for(auto& a:F->args()){ slot[&a]=n; fi->argSlots.push_back(n++); fi->byval.push_back(a.hasByValAttr()?(int64_t)DL->getTypeAllocSize(a.getParamByValType()):-1); }
  for(auto& b:*F) for(auto& i:b) if(!i.getType()->isVoidTy()) slot[&i]=n++;
  fi->nslots=n; std::unordered_map<const BasicBlock*,Blk*> bm; for(auto& b:*F){ fi->blks.emplace_back(new Blk); fi->blks.back()->bb=&b; bm[&b]=fi->blks.back().get(); }
  auto opnd=[&](Value* v){ Opnd o; auto it=slot.find(v); if(it!=slot.end()) o.slot=it->second; else if(auto* c=dyn_cast<Constant>(v)) o.c=constVal(c); else if(isa<MetadataAsValue>(v)){} else if(isa<BasicBlock>(v)){} else if(isa<InlineAsm>(v)){} else pathAbort("operand"); return o; };
  for(auto& b:*F){ Blk* B=bm[&b];
    for(auto& i:b){
      if(DILocation* l=i.getDebugLoc().get()){ for(DILocation* q=l;q;q=q->getInlinedAt()){ auto* sp=q->getScope()->getSubprogram(); if(!sp) continue; std::string fn=sp->getFilename().str(); if(fn.empty()||fn[0]!='/') fn=(sp->getDirectory()+"/"+sp->getFilename()).str(); auto p=fn.find("/repo/"); if(p!=std::string::npos||fn.find("/scratchrepo/")!=std::string::npos){ std::string nm=sp->getLinkageName().empty()?sp->getName().str():llvm::demangle(sp->getLinkageName().str()); auto par=nm.find('('); if(par!=std::string::npos&&par>0&&nm.find("operator()")==std::string::npos) nm=nm.substr(0,par); fi->subs.insert(nm); } } }
      if(auto* ph=dyn_cast<PHINode>(&i)){ PhiC p; p.dst=slot[ph]; for(unsigned k=0;k<ph->getNumIncomingValues();k++) p.in[bm[ph->getIncomingBlock(k)]]=opnd(ph->getIncomingValue(k)); B->phis.push_back(std::move(p)); continue; }
      if(isa<DbgInfoIntrinsic>(&i)) continue;
      II x; x.I=&i; x.op=i.getOpcode(); x.ty=i.getType(); x.tk=typeKind(x.ty); if(x.tk==0) x.w=std::min<unsigned>(255,x.ty->getIntegerBitWidth()); if(!x.ty->isVoidTy()) x.dst=slot[&i];
      if(auto* cb=dyn_cast<CallBase>(&i)){
        if(auto* ii=dyn_cast<IntrinsicInst>(&i)){ x.iid=ii->getIntrinsicID(); if(x.iid==Intrinsic::lifetime_start||x.iid==Intrinsic::lifetime_end||x.iid==Intrinsic::assume||x.iid==Intrinsic::experimental_noalias_scope_decl||x.iid==Intrinsic::donothing||x.iid==Intrinsic::prefetch||x.iid==Intrinsic::invariant_start) continue; }
        for(auto& a:cb->args()) x.o.push_back(opnd(a)); Value* cv=cb->getCalledOperand()->stripPointerCasts(); if(auto* ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject(); if(auto* cf=dyn_cast<Function>(cv)) x.callee=getFI(cf); else x.o.push_back(opnd(cb->getCalledOperand()));
        if(auto* iv=dyn_cast<InvokeInst>(&i)){ x.t[0]=bm[iv->getNormalDest()]; x.t[1]=bm[iv->getUnwindDest()]; }
      } else if(auto* g=dyn_cast<GetElementPtrInst>(&i)){
        if(g->getType()->isVectorTy()) { x.op=~0u; }
        x.o.push_back(opnd(g->getPointerOperand())); for(auto gt=gep_type_begin(g),e=gep_type_end(g);gt!=e;++gt){ Value* ix=gt.getOperand(); if(auto* st=gt.getStructTypeOrNull()){ x.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t s=DL->getTypeAllocSize(gt.getIndexedType()); if(auto* ci=dyn_cast<ConstantInt>(ix)) x.off+=s*ci->getSExtValue(); else { GepTerm t; t.o=opnd(ix); t.scale=s; t.w=ix->getType()->getIntegerBitWidth(); x.g.push_back(t);} } }
      } else if(auto* br=dyn_cast<BranchInst>(&i)){ if(br->isConditional()){ x.o.push_back(opnd(br->getCondition())); x.t[0]=bm[br->getSuccessor(0)]; x.t[1]=bm[br->getSuccessor(1)]; } else x.t[0]=bm[br->getSuccessor(0)]; }
      else if(auto* sw=dyn_cast<SwitchInst>(&i)){ x.o.push_back(opnd(sw->getCondition())); x.w=sw->getCondition()->getType()->getIntegerBitWidth(); x.t[0]=bm[sw->getDefaultDest()]; for(auto& c:sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(),bm[c.getCaseSuccessor()]}); }
      else { for(auto& o:i.operands()) x.o.push_back(opnd(o)); }
      if(auto* c=dyn_cast<CmpInst>(&i)){ x.pred=c->getPredicate(); Type* t=c->getOperand(0)->getType(); x.tk=typeKind(t); if(x.tk==0) x.w=t->getIntegerBitWidth(); else if(x.tk==2) x.w=64; }
      else if(isa<StoreInst>(&i)){ Type* t=i.getOperand(0)->getType(); x.ty=t; x.tk=typeKind(t); if(x.tk==0) x.w=std::min<unsigned>(255,t->getIntegerBitWidth()); }
      else if(isa<CastInst>(&i)){ Type* t=i.getOperand(0)->getType(); x.pred=t->isIntegerTy()?t->getIntegerBitWidth():(t->isDoubleTy()?64:t->isFloatTy()?32:64); x.bi=typeKind(t); }
      else if(auto* ev=dyn_cast<ExtractValueInst>(&i)) x.idx.assign(ev->idx_begin(),ev->idx_end());
      else if(auto* iv=dyn_cast<InsertValueInst>(&i)) x.idx.assign(iv->idx_begin(),iv->idx_end());
      else if(auto* sv=dyn_cast<ShuffleVectorInst>(&i)){ for(int k:sv->getShuffleMask()) x.idx.push_back((unsigned)k); }
      else if(auto* al=dyn_cast<AllocaInst>(&i)){ x.off=DL->getTypeAllocSize(al->getAllocatedType()); x.pred=al->getAlign().value(); }
      B->ins.push_back(std::move(x));
    } }
}

// ------------------------------------------------------------------ load/store
static void memViol(const char* what,u64 a){ reportConcrete(std::string("memory: ")+what); }
static u64 uninitCtr=0;
static Expr* freshReal(const std::string& n){ static u64 c=0; return ET.mk(Op::RVar,Sk::Real,0,{},700000000+c++,nullptr,n); }
static Val lift(Val v,int tk,int w){ return v; }
static Expr* toReal(const Val& v){ if(v.e) return v.e; return rconstd(asD(v.u)); }
static Expr* toBV(const Val& v,int w){ if(v.e){ if(v.e->sk==Sk::Bool) return boolToBV(v.e,w); return v.e; } return vconst(v.u,w); }
static Expr* toBool(const Val& v){ if(v.e){ if(v.e->sk==Sk::Bool) return v.e; return bvToBool(v.e); } return bconst(v.u&1); }
static Val mkE(Expr* e){ Val v; if(e->op==Op::VConst||e->op==Op::BConst){ v.u=e->u; return v; } if(e->op==Op::RConst){ double d=e->q.get_d(); if(mpq_class(d)==e->q){ v.u=fromD(d); return v; } } v.e=e; return v; }
static Val loadMem(u64 a,int tk,int w,Type* ty){
  Val v; u64 n= tk==4? DL->getTypeStoreSize(ty) : tk==0? (w+7)/8 : tk==3?4:8;
  if(tk==4){ v.agg=new std::vector<Val>(); if(ty->isStructTy()){ auto* sl=DL->getStructLayout(cast<StructType>(ty)); for(unsigned i=0;i<ty->getStructNumElements();i++){ Type* t=ty->getStructElementType(i); v.agg->push_back(loadMem(a+sl->getElementOffset(i),typeKind(t),t->isIntegerTy()?t->getIntegerBitWidth():0,t)); } return v; }
    Type* et= ty->isArrayTy()?ty->getArrayElementType(): ty->isVectorTy()?cast<FixedVectorType>(ty)->getElementType():nullptr; if(!et) pathAbort("load type"); u64 cnt=ty->isArrayTy()?ty->getArrayNumElements():cast<FixedVectorType>(ty)->getNumElements(); u64 s=DL->getTypeAllocSize(et); if(ty->isVectorTy()&&et->isIntegerTy(1)) pathAbort("load i1 vec");
    for(u64 i=0;i<cnt;i++) v.agg->push_back(loadMem(a+i*s,typeKind(et),et->isIntegerTy()?et->getIntegerBitWidth():0,et)); return v; }
  if(inArena(a)){
    uint8_t* s=sh(a); bool fast;
    if(n==8) { u64 x; memcpy(&x,s,8); fast= x==0x0303030303030303ull; } else { fast=true; for(u64 i=0;i<n;i++) if(s[i]!=3) fast=false; }
    if(!fast){
      bool sym=false,un=false; for(u64 i=0;i<n;i++){ if(!(s[i]&VALID)) memViol("out-of-bounds or freed read",a); if(s[i]&SYM) sym=true; if(!(s[i]&INIT)) un=true; }
      if(sym){
        auto it=symMem.find(a);
        if(it!=symMem.end()&&(u64)it->second.size==n){ Expr* e=it->second.e;
          if(tk==1){ if(e->sk==Sk::Real) v.e=e; else if(e->sk==Sk::BV&&e->op==Op::VDbits) v.e=e->a[0]; else if(e->sk==Sk::BV&&e->op==Op::VIte){ std::function<Expr*(Expr*)> cv=[&](Expr* x)->Expr*{ if(x->op==Op::VDbits) return x->a[0]; if(isVC(x)) return rconstd(asD(x->u)); if(x->op==Op::VIte) return rite(x->a[0],cv(x->a[1]),cv(x->a[2])); pathAbort("bv as double"); }; v.e=cv(e);} else pathAbort("load double from bv"); return v; }
          if(tk==3){ v.e=e; return v; }
          if(e->sk==Sk::Real){ if(tk==0&&w==64){ return mkE(vdbits(e)); } pathAbort("load int from real"); }
          if(tk==2){ v.u=concretizeInt(e); return v; }
          if(e->w>w) e=vtrunc(e,w); if(w==1){ v.e=bvToBool(e); return v; } return mkE(e); }
        // byte assembly
        Expr* r=nullptr; for(int64_t i=n-1;i>=0;i--){ Expr* by=nullptr; u64 ba=a+i; if(*sh(ba)&SYM){ for(u64 st=ba;st+8>ba;st--){ auto j=symMem.find(st); if(j!=symMem.end()){ if(st+j->second.size<=ba) pathAbort("symcell"); Expr* e=j->second.e; if(e->sk==Sk::Real) e=vdbits(e); if(e->op==Op::VDbits) pathAbort("partial read of symbolic double"); by=vtrunc(vbin(Op::VLshr,e,vconst((ba-st)*8,e->w)),8); break; } } if(!by) pathAbort("symcell2"); } else by=vconst(*(uint8_t*)ba,8);
          r= r? ET.mk(Op::VConcat,Sk::BV,r->w+8,{r,by}) : by; }
        if(tk==1||tk==3) pathAbort("double from symbolic bytes"); if(tk==2){ v.u=concretizeInt(r); return v; } if(r->w>w) r=vtrunc(r,w); if(w==1){ v.e=bvToBool(r); return v;} return mkE(r);
      }
      if(un&&gTrackUninit){ if(tk==1){ bool all=true; for(u64 i=0;i<n;i++) if(s[i]&INIT) all=false; if(all){ v.e=freshReal("uninit"); // remember so that re-reads agree
            symMem[a]={v.e,8}; for(u64 i=0;i<8;i++) s[i]|=SYM|INIT; return v; } } }
    }
  } else if(a<4096) memViol("null dereference",a);
  if(tk==3){ uint32_t x; memcpy(&x,(void*)a,4); v.u=x; return v; }
  if(n<=8) memcpy(&v.u,(void*)a,n); else { memcpy(&v.u,(void*)a,8); u64 hi; memcpy(&hi,(void*)(a+8),8); if(hi) pathAbort("wide int load"); }
  if(tk==0&&w<64) v.u&=maskw(w);
  return v; }
static void storeMem(u64 a,const Val& v,int tk,int w,Type* ty){
  u64 n= tk==4? DL->getTypeStoreSize(ty) : tk==0? (w+7)/8 : tk==3?4:8;
  if(tk==4){ if(ty->isStructTy()){ auto* sl=DL->getStructLayout(cast<StructType>(ty)); for(unsigned i=0;i<ty->getStructNumElements();i++){ Type* t=ty->getStructElementType(i); storeMem(a+sl->getElementOffset(i),(*v.agg)[i],typeKind(t),t->isIntegerTy()?t->getIntegerBitWidth():0,t);} return; }
    Type* et= ty->isArrayTy()?ty->getArrayElementType(): ty->isVectorTy()?cast<FixedVectorType>(ty)->getElementType():nullptr; if(!et) pathAbort("store type"); u64 s=DL->getTypeAllocSize(et); u64 cnt=v.agg->size(); if(ty->isVectorTy()&&et->isIntegerTy(1)) pathAbort("store i1 vec"); for(u64 i=0;i<cnt;i++) storeMem(a+i*s,(*v.agg)[i],typeKind(et),et->isIntegerTy()?et->getIntegerBitWidth():0,et); return; }
  if(inArena(a)){
    uint8_t* s=sh(a); for(u64 i=0;i<n;i++){ if(!(s[i]&VALID)) memViol("out-of-bounds or freed write",a); }
    bool sym=false; for(u64 i=0;i<n;i++) if(s[i]&SYM) sym=true; if(sym){ auto it=symMem.find(a); if(it!=symMem.end()&&(u64)it->second.size==n){ symMem.erase(it); for(u64 i=0;i<n;i++) s[i]&=~SYM; } else {
        // preserve neighbours of partially overwritten integer cells
        for(u64 i=0;i<n;i++) if(s[i]&SYM){ for(u64 st=a+i;st+8>a+i;st--){ auto j=symMem.find(st); if(j!=symMem.end()){ SymEnt en=j->second; symMem.erase(j); for(int b=0;b<en.size;b++) *sh(st+b)&=~SYM; if(en.e->sk!=Sk::Real&&en.e->op!=Op::VDbits){ for(int b=0;b<en.size;b++) if(st+b<a||st+b>=a+n){ Expr* by=vtrunc(vbin(Op::VLshr,en.e,vconst(b*8,en.e->w)),8); if(isVC(by)) *(uint8_t*)(st+b)=by->u; else { symMem[st+b]={by,1}; *sh(st+b)|=SYM; } } } else for(int b=0;b<en.size;b++) if(st+b<a||st+b>=a+n) *sh(st+b)&=~INIT; break; } } } } }
    if(v.e){ Expr* e=v.e; if(e->sk==Sk::Bool) e=boolToBV(e,n*8); if(e->sk==Sk::BV&&e->w<n*8) e=vzext(e,n*8); 
      if(e->sk==Sk::BV&&isVC(e)){ memcpy((void*)a,&e->u,n); for(u64 i=0;i<n;i++) s[i]|=INIT; return; }
      symMem[a]={e,(int)n}; for(u64 i=0;i<n;i++) s[i]|=SYM|INIT; return; }
    for(u64 i=0;i<n;i++) s[i]|=INIT;
  } else { if(a<4096) memViol("null dereference",a); if(v.e) pathAbort("symbolic store to native memory"); }
  memcpy((void*)a,&v.u,std::min<u64>(n,8)); if(n>8) memset((char*)a+8,0,n-8); }
static void checkRange(u64 a,u64 n,const char* w){ if(!inArena(a)){ if(n&&a<4096) memViol("null dereference",a); return; } for(u64 i=0;i<n;i++) if(!(*sh(a+i)&VALID)) memViol(w,a+i); }
static void memMove(u64 d,u64 s,u64 n){
  if(!n||d==s) return; checkRange(s,n,"out-of-bounds or freed read"); checkRange(d,n,"out-of-bounds or freed write");
  std::vector<std::pair<u64,SymEnt>> ents; std::vector<uint8_t> sb(n,3);
  if(inArena(s)) for(u64 i=0;i<n;i++){ sb[i]=*sh(s+i)&~SYM; if(*sh(s+i)&SYM){ auto it=symMem.find(s+i); if(it!=symMem.end()){ if(i+it->second.size<=n) ents.push_back({i,it->second}); else { Expr* e=it->second.e; if(e->sk==Sk::Real||e->op==Op::VDbits) pathAbort("memcpy splits symbolic cell"); for(u64 b=0;i+b<n;b++) ents.push_back({i+b,{vtrunc(vbin(Op::VLshr,e,vconst(b*8,e->w)),8),1}}); } }
      else if(i==0){ for(u64 st=s;st+8>s;st--){ auto j=symMem.find(st); if(j!=symMem.end()){ Expr* e=j->second.e; if(e->sk==Sk::Real||e->op==Op::VDbits) pathAbort("memcpy splits symbolic cell"); for(u64 b=s-st;b<(u64)j->second.size&&b-(s-st)<n;b++) ents.push_back({b-(s-st),{vtrunc(vbin(Op::VLshr,e,vconst(b*8,e->w)),8),1}}); break; } } } } }
  memmove((void*)d,(void*)s,n);
  if(inArena(d)){ clearSymRange(d,n); for(u64 i=0;i<n;i++){ uint8_t* p=sh(d+i); *p=(*p&~(INIT|SYM))|(sb[i]&INIT)|VALID; }
    for(auto& x:ents){ if(x.second.e->op==Op::VConst){ memcpy((void*)(d+x.first),&x.second.e->u,x.second.size); continue; } symMem[d+x.first]=x.second; for(int b=0;b<x.second.size;b++) *sh(d+x.first+b)|=SYM|INIT; } }
  else if(!ents.empty()) pathAbort("symbolic memcpy to native memory"); }
static void memSet(u64 d,uint8_t c,u64 n){ checkRange(d,n,"out-of-bounds or freed write"); if(inArena(d)){ clearSymRange(d,n); memset((void*)d,c,n); for(u64 i=0;i<n;i++) *sh(d+i)|=INIT; } else memset((void*)d,c,n); }
static bool rangeHasSym(u64 a,u64 n){ if(!inArena(a)) return false; for(u64 i=0;i<n;i++) if(*sh(a+i)&SYM) return true; return false; }

// ------------------------------------------------------------------ floating point ops
static Val mkD(double d){ Val v; v.u=fromD(d); return v; }
static bool specialD(const Val& v){ return !v.e && !std::isfinite(asD(v.u)); }
static int signOf(Expr* e){ if(branch(rlt(rconst(0),e))) return 1; if(branch(rlt(e,rconst(0)))) return -1; return 0; }
static Val fArith0(unsigned op,const Val& a,const Val& b);
static double gLinRound=0;
static mpq_class roundQ(const mpq_class& q){ if(q==0||mpz_sizeinbase(q.get_num_mpz_t(),2)+mpz_sizeinbase(q.get_den_mpz_t(),2)<400) return q; mpf_class f(q,160); mpq_class r(f); return r; }
static Val fArith(unsigned op,const Val& a,const Val& b){ Val v=fArith0(op,a,b); if(gLinRound!=0&&v.e&&v.e->sk==Sk::Real){ auto r=ratOf(v.e); bool lin=r->ok&&r->den.empty(); if(lin) for(auto& t:r->num) if(t.first.size()>1||(t.first.size()==1&&t.first[0].second>1)){ lin=false; break; }
    if(lin){ Poly p; for(auto& t:r->num) p[t.first]=roundQ(t.second); return mkE(polyExpr(p)); } } return v; }
static Val fArith0(unsigned op,const Val& a,const Val& b){
  if(!a.e&&!b.e){ double x=asD(a.u),y=asD(b.u); switch(op){case Instruction::FAdd:return mkD(x+y);case Instruction::FSub:return mkD(x-y);case Instruction::FMul:return mkD(x*y);case Instruction::FDiv:return mkD(x/y);case Instruction::FRem:return mkD(fmod(x,y));default:pathAbort("farith");} }
  if(specialD(a)||specialD(b)){
    const Val& s=specialD(a)?a:b; double d=asD(s.u); Expr* o=specialD(a)?b.e:a.e; if(std::isnan(d)) return mkD(d);
    switch(op){ case Instruction::FAdd: return mkD(d); case Instruction::FSub: return mkD(specialD(a)?d:-d);
      case Instruction::FMul: { int g=signOf(o); return mkD(g==0?NAN:g>0?d:-d); }
      case Instruction::FDiv: if(specialD(a)){ int g=signOf(o); return mkD(g>=0?d:-d); } return mkD(0.0); default: pathAbort("special"); } }
  Expr* x=toReal(a),*y=toReal(b);
  switch(op){ case Instruction::FAdd: return mkE(radd(x,y)); case Instruction::FSub: return mkE(rsub(x,y)); case Instruction::FMul: return mkE(rmul(x,y));
    case Instruction::FDiv: {
      if(isRC(y)){ if(y->q==0){ if(!b.e&&std::signbit(asD(b.u))){ int g=signOf(x); return mkD(g==0?NAN:g>0?-INFINITY:INFINITY);} int g=signOf(x); return mkD(g==0?NAN:g>0?INFINITY:-INFINITY); } return mkE(rdiv(x,y)); }
      Expr* z=req(y,rconst(0)); bool dv; if(!(tryDecide(z,dv)&&!dv)){
        if(gDiv0Excl){ if(!isFalse(z)){ if(feasible(z,nullptr,gTBranch)!=Res::Unsat) SH->div0_excl++; assumeExpr(bnot(z)); } }
        else if(branch(z)){ if(isRC(x)){ return mkD(x->q==0?NAN:x->q>0?INFINITY:-INFINITY);} int g=signOf(x); return mkD(g==0?NAN:g>0?INFINITY:-INFINITY); } }
      return mkE(rdiv(x,y)); }
    default: pathAbort("symbolic frem"); } }
static Expr* fcmpE(unsigned p,Expr* x,Expr* y){
  switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return req(x,y); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return bnot(req(x,y));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return rlt(x,y); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return rle(x,y);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return rlt(y,x); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return rle(y,x);
    case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return bconst(true); default: return bconst(false); } }
static bool fcmpD(unsigned p,double x,double y){ bool un=std::isnan(x)||std::isnan(y);
  switch(p){ case CmpInst::FCMP_FALSE:return false; case CmpInst::FCMP_TRUE:return true; case CmpInst::FCMP_ORD:return !un; case CmpInst::FCMP_UNO:return un;
    case CmpInst::FCMP_OEQ:return x==y; case CmpInst::FCMP_UEQ:return un||x==y; case CmpInst::FCMP_ONE:return !un&&x!=y; case CmpInst::FCMP_UNE:return un||x!=y;
    case CmpInst::FCMP_OLT:return x<y; case CmpInst::FCMP_ULT:return un||x<y; case CmpInst::FCMP_OLE:return x<=y; case CmpInst::FCMP_ULE:return un||x<=y;
    case CmpInst::FCMP_OGT:return x>y; case CmpInst::FCMP_UGT:return un||x>y; case CmpInst::FCMP_OGE:return x>=y; case CmpInst::FCMP_UGE:return un||x>=y; } return false; }
static double gGuard=0;
static void assumeLazy(Expr* c){ bool v; if(tryDecide(c,v)){ if(!v){ SH->paths_infeasible++; throw PathEnd{"__infeasible"}; } return; } std::unordered_map<uint32_t,double> cache; if(pmodelOk&&(c->hasUf||evalD(c,pmodel,cache)!=1)) pmodelOk=false; addPC(c); }
static Val fCmp(unsigned p,const Val& a,const Val& b){ Val r; if(!a.e&&!b.e){ r.u=fcmpD(p,asD(a.u),asD(b.u)); return r; }
  if(specialD(a)||specialD(b)){ double x=specialD(a)?asD(a.u):0.0,y=specialD(b)?asD(b.u):0.0; r.u=fcmpD(p,x,y); return r; }
  // documented option: comparisons with the named guard constant are taken as "guard not triggered"
  if(gGuard!=0&&a.e&&!b.e&&asD(b.u)==gGuard&&(p==CmpInst::FCMP_OLT||p==CmpInst::FCMP_ULT||p==CmpInst::FCMP_OLE||p==CmpInst::FCMP_ULE)){ assumeLazy(rle(toReal(b),canon(a.e))); r.u=0; return r; }
  if(gGuard!=0&&a.e&&!b.e&&asD(b.u)==gGuard&&(p==CmpInst::FCMP_OGT||p==CmpInst::FCMP_UGT||p==CmpInst::FCMP_OGE||p==CmpInst::FCMP_UGE)){ assumeLazy(rle(toReal(b),canon(a.e))); r.u=1; return r; }
  if(gGuard!=0&&b.e&&!a.e&&asD(a.u)==gGuard){ std::vector<Val> t; return fCmp(p==CmpInst::FCMP_OGT?CmpInst::FCMP_OLT:p==CmpInst::FCMP_UGT?CmpInst::FCMP_ULT:p==CmpInst::FCMP_OGE?CmpInst::FCMP_OLE:p==CmpInst::FCMP_UGE?CmpInst::FCMP_ULE:p==CmpInst::FCMP_OLT?CmpInst::FCMP_OGT:p==CmpInst::FCMP_ULT?CmpInst::FCMP_UGT:p==CmpInst::FCMP_OLE?CmpInst::FCMP_OGE:p==CmpInst::FCMP_ULE?CmpInst::FCMP_UGE:p,b,a); }
  return mkE(fcmpE(p,toReal(a),toReal(b))); }
static std::vector<Expr*> sqrtHints;
static Expr* halfAngleSafe(Expr* e){ return canon(e); }
static Val mathFn(const std::string& n,std::vector<Val>& a){
  bool sym=false; for(auto&v:a) sym|=v.e!=nullptr;
  auto D=[&](int i){ return asD(a[i].u); };
  if(!sym){ double r; if(n=="sqrt") r=sqrt(D(0)); else if(n=="sin") r=sin(D(0)); else if(n=="cos") r=cos(D(0)); else if(n=="tan") r=tan(D(0)); else if(n=="acos") r=acos(D(0)); else if(n=="asin") r=asin(D(0)); else if(n=="atan") r=atan(D(0)); else if(n=="exp") r=exp(D(0)); else if(n=="log") r=log(D(0)); else if(n=="log10") r=log10(D(0)); else if(n=="floor") r=floor(D(0)); else if(n=="ceil") r=ceil(D(0)); else if(n=="round") r=round(D(0)); else if(n=="trunc") r=trunc(D(0)); else if(n=="rint"||n=="nearbyint") r=rint(D(0)); else if(n=="fabs") r=fabs(D(0)); else if(n=="pow") r=pow(D(0),D(1)); else if(n=="atan2") r=atan2(D(0),D(1)); else if(n=="fmin") r=fmin(D(0),D(1)); else if(n=="fmax") r=fmax(D(0),D(1)); else if(n=="fmod") r=fmod(D(0),D(1)); else if(n=="hypot") r=hypot(D(0),D(1)); else if(n=="copysign") r=copysign(D(0),D(1)); else if(n=="fma") r=fma(D(0),D(1),D(2)); else pathAbort("math "+n); return mkD(r); }
  if(n=="fabs"){ Expr* x=a[0].e; Expr* c=rlt(x,rconst(0)); if(gForkSelect){ return branch(c)?mkE(rneg(x)):mkE(x); } return mkE(rite(c,rneg(x),x)); }
  if(n=="sqrt"){ Expr* x=canon(a[0].e); if(isRC(x)) { if(x->q<0) return mkD(NAN); mpz_class nn,dd; if(mpz_perfect_square_p(x->q.get_num_mpz_t())&&mpz_perfect_square_p(x->q.get_den_mpz_t())){ nn=sqrt(x->q.get_num()); dd=sqrt(x->q.get_den()); return mkE(rconst(mpq_class(nn,dd))); } return mkD(sqrt(x->q.get_d())); } 
    for(Expr* h:sqrtHints){ auto q=ratOf(rsub(x,rmul(h,h))); if(q->ok&&q->num.empty()) return branch(rlt(h,rconst(0)))?mkE(rneg(h)):mkE(h); }
    Expr* neg=rlt(x,rconst(0)); bool isNeg; 
    // sums of squares are non-negative by construction: skip query
    auto rr=ratOf(x); bool sos=rr->ok&&rr->den.empty(); if(sos) for(auto& t:rr->num){ if(t.second<0) sos=false; for(auto& v:t.first) if(v.second&1) sos=false; }
    if(!sos&&rr->ok&&ratSign(*rr)>0) sos=true;
    if(!sos && branch(neg)) return mkD(NAN); (void)isNeg;
    // perfect squares of single monomials
    if(rr->ok&&rr->den.empty()&&rr->num.size()==1){ auto& t=*rr->num.begin(); bool ev=true; for(auto&v:t.first) if(v.second&1) ev=false; if(ev&&mpz_perfect_square_p(t.second.get_num_mpz_t())&&mpz_perfect_square_p(t.second.get_den_mpz_t())){ Expr* m=rconst(mpq_class(sqrt(t.second.get_num()),sqrt(t.second.get_den()))); for(auto&v:t.first) for(int i=0;i<v.second/2;i++) m=rmul(m,ET.all[v.first]); return branch(rlt(m,rconst(0)))?mkE(rneg(m)):mkE(m); } }
    return mkE(rsqrt(x)); }
  if(n=="pow"){ if(!a[1].e){ double p=asD(a[1].u); if(p==std::floor(p)&&std::fabs(p)<=64){ Expr* r=rconst(1); for(int i=0;i<std::fabs(p);i++) r=rmul(r,a[0].e); if(p<0){ Val o=mkD(1.0),rv=mkE(r); return fArith(Instruction::FDiv,o,rv);} return mkE(r);} if(p==0.5){ std::vector<Val> q{a[0]}; return mathFn("sqrt",q);} } return mkE(ruf("pow",{toReal(a[0]),toReal(a[1])})); }
  if(n=="fmin"||n=="fmax"){ if(specialD(a[0])) return std::isnan(D(0))?a[1]:((D(0)>0)==(n=="fmax")?a[0]:a[1]); if(specialD(a[1])) return std::isnan(D(1))?a[0]:((D(1)>0)==(n=="fmax")?a[1]:a[0]); Expr*x=toReal(a[0]),*y=toReal(a[1]); Expr* c=rlt(x,y); if(gForkSelect){ bool k=branch(c); return (n=="fmin")==k?a[0]:a[1]; } return mkE(n=="fmin"?rite(c,x,y):rite(c,y,x)); }
  for(auto&v:a) if(specialD(v)){ if(n=="copysign") break; return mkD(NAN); }
  if(n=="copysign"){ Expr* x=toReal(a[0]); Expr* ax=rite(rlt(x,rconst(0)),rneg(x),x); if(!a[1].e) return mkE(std::signbit(asD(a[1].u))?rneg(ax):ax); return mkE(rite(rlt(a[1].e,rconst(0)),rneg(ax),ax)); }
  if(n=="sin"||n=="cos"){ Expr* x=canon(a[0].e); bool neg=false; if(isRC(x)) { return mkD(n=="sin"?sin(x->q.get_d()):cos(x->q.get_d())); }
    if(x->op==Op::RUf&&x->name=="acos"){ Expr* w=x->a[0]; if(n=="cos") return mkE(w); std::vector<Val> q{mkE(rsub(rconst(1),rmul(w,w)))}; return mathFn("sqrt",q); }
    // normalise sign: leading coefficient positive
    auto r=ratOf(x); if(r->ok&&!r->num.empty()&&r->num.begin()->second<0){ x=canon(rneg(x)); neg=true; }
    Expr* u=ruf(n,{x}); return mkE(neg&&n=="sin"?rneg(u):u); }
  if(n=="acos"){ Expr* x=canon(a[0].e); if(branch(bor(rlt(rconst(1),x),rlt(x,rconst(-1))))) return mkD(NAN);
    if(x->op==Op::RUf&&x->name=="cos"){ Expr* t=x->a[0]; if(mustBe(band(rle(rconst(0),t),rle(t,rconst(mpq_class("314159/100000")))))) return mkE(t); if(mustBe(band(rle(t,rconst(0)),rle(rconst(mpq_class("-314159/100000")),t)))) return mkE(rneg(t)); }
    return mkE(ruf("acos",{x})); }
  if(n=="fma"){ return mkE(radd(rmul(toReal(a[0]),toReal(a[1])),toReal(a[2]))); }
  if(n=="hypot"){ std::vector<Val> q{mkE(radd(rmul(toReal(a[0]),toReal(a[0])),rmul(toReal(a[1]),toReal(a[1]))))}; return mathFn("sqrt",q); }
  if(n=="trunc") return mkD((double)concretizeTrunc(a[0].e));
  if(n=="floor"||n=="ceil"||n=="round"||n=="rint"||n=="nearbyint"){ Expr* x=a[0].e; int64_t t=concretizeTrunc(x); Expr* f=rsub(x,rconst(mpq_class((long)t)));
    if(n=="floor") return mkD(branch(rlt(f,rconst(0)))?t-1:t); if(n=="ceil") return mkD(branch(rlt(rconst(0),f))?t+1:t);
    if(branch(rle(rconst(mpq_class(1,2)),f))) return mkD(t+1); if(branch(rle(f,rconst(mpq_class(-1,2))))) return mkD(t-1); return mkD(t); }
  std::vector<Expr*> ar; for(auto&v:a) ar.push_back(canon(toReal(v))); return mkE(ruf(n,ar)); }

// ------------------------------------------------------------------ exceptions
struct Unwind {}; // interpreted exception in flight
static u64 exObj=0,exType=0; static std::vector<std::pair<u64,u64>> caught; 
static bool derivesFrom(const std::type_info* t,const std::type_info* target,u64& adj){
  if(t==target||*t==*target) return true;
  if(auto* si=dynamic_cast<const abi::__si_class_type_info*>(t)) return derivesFrom(si->__base_type,target,adj);
  if(auto* vi=dynamic_cast<const abi::__vmi_class_type_info*>(t)){ for(unsigned i=0;i<vi->__base_count;i++){ auto& b=vi->__base_info[i]; u64 a2=adj; if(!(b.__offset_flags&1)) a2+=b.__offset_flags>>8; else continue; if(derivesFrom(b.__base_type,target,a2)){ adj=a2; return true; } } }
  return false; }
static std::unordered_map<u64,int> typeIds; static int typeId(u64 t){ auto it=typeIds.find(t); if(it!=typeIds.end()) return it->second; int n=typeIds.size()+1; typeIds[t]=n; return n; }

// ------------------------------------------------------------------ native calls
static bool nativeCall(void* f,std::vector<Val>& a,const II& x,FuncInfo* fi,Val& out){
  u64 g[8]={0}; double d[8]={0}; int ng=0,nd=0; const CallBase* cb=cast<CallBase>(x.I);
  std::vector<u64> stack;
  for(size_t i=0;i<a.size();i++){ Type* t=cb->getArgOperand(i)->getType(); if(a[i].agg) pathAbort("aggregate to native "+(fi?fi->name:"?")); 
    if(a[i].e){ if(t->isIntegerTy()&&a[i].e->sk==Sk::BV) a[i]=Val{concretizeInt(a[i].e)}; else if(t->isIntegerTy(1)) a[i]=Val{(u64)branch(toBool(a[i]))}; else pathAbort("symbolic double to native "+(fi?fi->name:"?")); }
    if(cb->isByValArgument(i)) pathAbort("byval to native");
    if(t->isDoubleTy()){ if(nd>=8) pathAbort("native args"); d[nd++]=asD(a[i].u); } else if(t->isFloatTy()){ double z=0; u64 w=a[i].u; memcpy(&z,&w,8); d[nd++]=z; }
    else { if(ng>=8) pathAbort("native args"); u64 v=a[i].u; if(t->isIntegerTy()&&t->getIntegerBitWidth()<64){ if(cb->paramHasAttr(i,Attribute::SExt)) v=(u64)sx64(v,t->getIntegerBitWidth()); } g[ng++]=v; } }
  // ng up to 6 in regs
  if(ng>6) pathAbort("native >6 int args");
  Type* rt=x.I->getType(); 
  try {
    if(rt->isVoidTy()) ((void(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double))f)(g[0],g[1],g[2],g[3],g[4],g[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]);
    else if(rt->isDoubleTy()) out=mkD(((double(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double))f)(g[0],g[1],g[2],g[3],g[4],g[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]));
    else if(rt->isFloatTy()) { float q=((float(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double))f)(g[0],g[1],g[2],g[3],g[4],g[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]); out.u=fromF(q); }
    else if(rt->isStructTy()){ struct P{u64 a,b;}; auto* st=cast<StructType>(rt); if(st->getNumElements()!=2||st->getElementType(0)->isDoubleTy()) pathAbort("native struct ret"); P p=((P(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double))f)(g[0],g[1],g[2],g[3],g[4],g[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]); out.agg=new std::vector<Val>(2); (*out.agg)[0].u=p.a; (*out.agg)[1].u=p.b; for(int k=0;k<2;k++) if(st->getElementType(k)->isIntegerTy()) (*out.agg)[k].u&=maskw(st->getElementType(k)->getIntegerBitWidth()); }
    else { u64 r=((u64(*)(u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double))f)(g[0],g[1],g[2],g[3],g[4],g[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7]); if(rt->isIntegerTy()) r&=maskw(rt->getIntegerBitWidth()); out.u=r; }
  } catch(PathEnd&){ throw; } catch(Unwind&){ throw; } catch(...) {
    auto* ti=abi::__cxa_current_exception_type(); std::exception_ptr p=std::current_exception(); u64 obj; memcpy(&obj,&p,8); static std::vector<std::exception_ptr> keep; keep.push_back(p); exObj=obj; exType=(u64)ti; throw Unwind{}; }
  // native code may have written into arena memory passed by pointer: mark INIT for pointed regions conservatively
  for(size_t i=0;i<a.size();i++) if(cb->getArgOperand(i)->getType()->isPointerTy()&&inArena(a[i].u)){ u64 p=a[i].u; for(u64 k=0;k<4096&&inArena(p+k)&&(*sh(p+k)&VALID);k++) *sh(p+k)|=INIT; }
  return true; }

// ------------------------------------------------------------------ interpreter
static std::string readStr(u64 a){ if(!a) return ""; return std::string((const char*)a); }
static Val callFn(FuncInfo* fi,std::vector<Val>& args,const II* site);
static Val callBuiltinOrNative(FuncInfo* fi,std::vector<Val>& args,const II& x);
static Val intBin(unsigned op,const Val& a,const Val& b,int w){
  Val r; if(!a.e&&!b.e){ u64 m=maskw(w),x=a.u,y=b.u; switch(op){
    case Instruction::Add: r.u=(x+y)&m; return r; case Instruction::Sub: r.u=(x-y)&m; return r; case Instruction::Mul: r.u=(x*y)&m; return r;
    case Instruction::And: r.u=x&y; return r; case Instruction::Or: r.u=x|y; return r; case Instruction::Xor: r.u=x^y; return r;
    case Instruction::Shl: r.u=y>=(u64)w?0:(x<<y)&m; return r; case Instruction::LShr: r.u=y>=(u64)w?0:x>>y; return r; case Instruction::AShr: r.u=(u64)(sx64(x,w)>>std::min<u64>(y,63))&m; return r;
    case Instruction::UDiv: if(!y) reportConcrete("integer division by zero"); r.u=x/y; return r; case Instruction::URem: if(!y) reportConcrete("integer division by zero"); r.u=x%y; return r;
    case Instruction::SDiv: if(!y) reportConcrete("integer division by zero"); r.u= sx64(y,w)==-1?(0-x)&m:(u64)(sx64(x,w)/sx64(y,w))&m; return r; case Instruction::SRem: if(!y) reportConcrete("integer division by zero"); r.u= sx64(y,w)==-1?0:(u64)(sx64(x,w)%sx64(y,w))&m; return r; } pathAbort("intbin"); }
  if(w==1){ Expr*p=toBool(a),*q=toBool(b); switch(op){ case Instruction::And: return mkE(band(p,q)); case Instruction::Or: return mkE(bor(p,q)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: if(isTrue(q)) return mkE(bnot(p)); if(isTrue(p)) return mkE(bnot(q)); return mkE(bor(band(p,bnot(q)),band(bnot(p),q))); default: pathAbort("i1 op"); } }
  Op o; switch(op){ case Instruction::Add:o=Op::VAdd;break;case Instruction::Sub:o=Op::VSub;break;case Instruction::Mul:o=Op::VMul;break;case Instruction::And:o=Op::VAnd;break;case Instruction::Or:o=Op::VOr;break;case Instruction::Xor:o=Op::VXor;break;case Instruction::Shl:o=Op::VShl;break;case Instruction::LShr:o=Op::VLshr;break;case Instruction::AShr:o=Op::VAshr;break;case Instruction::UDiv:o=Op::VUdiv;break;case Instruction::SDiv:o=Op::VSdiv;break;case Instruction::URem:o=Op::VUrem;break;case Instruction::SRem:o=Op::VSrem;break;default:pathAbort("intbin sym"); }
  if(w>64) pathAbort("wide symbolic int");
  Expr* y=toBV(b,w); if(op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem) if(!isVC(y)&&branch(vcmp(Op::VEq,y,vconst(0,w)))) reportConcrete("integer division by zero");
  return mkE(vbin(o,toBV(a,w),y)); }
static Val intCmp(unsigned p,const Val& a,const Val& b,int w){
  Val r; if(!a.e&&!b.e){ u64 x=a.u,y=b.u; int64_t sx=sx64(x,w),sy=sx64(y,w); bool v=false; switch(p){case CmpInst::ICMP_EQ:v=x==y;break;case CmpInst::ICMP_NE:v=x!=y;break;case CmpInst::ICMP_UGT:v=x>y;break;case CmpInst::ICMP_UGE:v=x>=y;break;case CmpInst::ICMP_ULT:v=x<y;break;case CmpInst::ICMP_ULE:v=x<=y;break;case CmpInst::ICMP_SGT:v=sx>sy;break;case CmpInst::ICMP_SGE:v=sx>=sy;break;case CmpInst::ICMP_SLT:v=sx<sy;break;case CmpInst::ICMP_SLE:v=sx<=sy;break;} r.u=v; return r; }
  if(w==1){ Expr*x=toBool(a),*y=toBool(b); Expr* eq=bor(band(x,y),band(bnot(x),bnot(y))); if(p==CmpInst::ICMP_EQ) return mkE(eq); if(p==CmpInst::ICMP_NE) return mkE(bnot(eq)); if(p==CmpInst::ICMP_ULT||p==CmpInst::ICMP_SGT) return mkE(band(bnot(x),y)); if(p==CmpInst::ICMP_UGT||p==CmpInst::ICMP_SLT) return mkE(band(x,bnot(y))); if(p==CmpInst::ICMP_ULE||p==CmpInst::ICMP_SGE) return mkE(bor(bnot(x),y)); return mkE(bor(x,bnot(y))); }
  Expr*x=toBV(a,w),*y=toBV(b,w);
  switch(p){case CmpInst::ICMP_EQ:return mkE(vcmp(Op::VEq,x,y));case CmpInst::ICMP_NE:return mkE(bnot(vcmp(Op::VEq,x,y)));case CmpInst::ICMP_UGT:return mkE(vcmp(Op::VUlt,y,x));case CmpInst::ICMP_UGE:return mkE(vcmp(Op::VUle,y,x));case CmpInst::ICMP_ULT:return mkE(vcmp(Op::VUlt,x,y));case CmpInst::ICMP_ULE:return mkE(vcmp(Op::VUle,x,y));case CmpInst::ICMP_SGT:return mkE(vcmp(Op::VSlt,y,x));case CmpInst::ICMP_SGE:return mkE(vcmp(Op::VSle,y,x));case CmpInst::ICMP_SLT:return mkE(vcmp(Op::VSlt,x,y));default:return mkE(vcmp(Op::VSle,x,y));} }
static Val selectVal(const Val& c,const Val& a,const Val& b,int tk,int w){
  if(!c.e) return (c.u&1)?a:b; Expr* k=toBool(c); bool v; if(tryDecide(k,v)) return v?a:b;
  if(tk==1){ if(specialD(a)||specialD(b)||gForkSelect) return branch(k)?a:b; return mkE(rite(k,toReal(a),toReal(b))); }
  if(tk==0&&w<=64){ if(w==1) return mkE(bor(band(k,toBool(a)),band(bnot(k),toBool(b)))); return mkE(vite(k,toBV(a,w),toBV(b,w))); }
  return branch(k)?a:b; }
static Val castVal(const II& x,const Val& a,int sw,int stk,Type* dt,int tk,int w){
  Val r; switch(x.op){
    case Instruction::Trunc: if(a.e){ if(w==1) return mkE(bnot(vcmp(Op::VEq,vtrunc(toBV(a,sw),1),vconst(0,1)))); return mkE(vtrunc(toBV(a,sw),w)); } r.u=a.u&maskw(w); return r;
    case Instruction::ZExt: if(a.e){ if(sw==1) return mkE(boolToBV(toBool(a),w)); return mkE(vzext(a.e,w)); } r.u=a.u; return r;
    case Instruction::SExt: if(a.e){ if(sw==1) return mkE(vite(toBool(a),vconst(~0ull,w),vconst(0,w))); return mkE(vsext(a.e,w)); } r.u=(u64)sx64(a.u,sw)&maskw(w); return r;
    case Instruction::PtrToInt: r=a; if(w<64) r.u&=maskw(w); return r; case Instruction::IntToPtr: if(a.e){ r.u=concretizeInt(toBV(a,sw)); return r; } return a;
    case Instruction::BitCast: { if(stk==tk) return a; if(a.e){ if(stk==1&&tk==0) return mkE(vdbits(a.e)); if(stk==0&&tk==1){ if(a.e->op==Op::VDbits) return mkE(a.e->a[0]); if(a.e->op==Op::VIte){ std::function<Val(Expr*)> cv=[&](Expr* q)->Val{ if(q->op==Op::VDbits) return mkE(q->a[0]); if(isVC(q)){ Val z; z.u=q->u; return z; } if(q->op==Op::VIte) return selectVal(mkE(q->a[0]),cv(q->a[1]),cv(q->a[2]),1,64); pathAbort("bitcast bv to double"); }; return cv(a.e);} } pathAbort("bitcast"); }
      if(a.agg||tk==4){ if(a.agg&&tk==0){ // small vector to int
          pathAbort("vector bitcast"); } pathAbort("vector bitcast"); } return a; }
    case Instruction::SIToFP: { int64_t v= a.e? sx64(concretizeInt(toBV(a,sw)),sw):sx64(a.u,sw); if(tk==3){ r.u=fromF((float)v); return r; } return mkD((double)v); }
    case Instruction::UIToFP: { if(a.e&&sw==1){ return mkE(rite(toBool(a),rconst(1),rconst(0))); } u64 v= a.e? concretizeInt(toBV(a,sw)):a.u; if(tk==3){ r.u=fromF((float)v); return r; } return mkD((double)v); }
    case Instruction::FPToSI: case Instruction::FPToUI: { if(a.e){ r.u=(u64)concretizeTrunc(a.e)&maskw(w); return r; } double d= stk==3?asF(a.u):asD(a.u); if(!(std::fabs(d)<9.3e18)) { if(std::isfinite(d)&&d>0&&x.op==Instruction::FPToUI&&d<1.8e19){ r.u=(u64)d; return r; } r.u=0x8000000000000000ull&maskw(w); if(w==32) r.u=0x80000000u; return r; } r.u=(u64)(int64_t)d&maskw(w); return r; }
    case Instruction::FPExt: if(a.e) return a; return mkD((double)asF(a.u)); case Instruction::FPTrunc: if(a.e) return a; r.u=fromF((float)asD(a.u)); return r;
    default: pathAbort("cast"); } }
static Val fltArith(unsigned op,const Val&a,const Val&b){ if(a.e||b.e){ Val x=a,y=b; if(!x.e) x=mkD(asF(x.u)); if(!y.e) y=mkD(asF(y.u)); return fArith(op,x,y);} float x=asF(a.u),y=asF(b.u),r=0; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;} Val v; v.u=fromF(r); return v; }

static Val intrinsic(const II& x,std::vector<Val>& a){
  auto lane=[&](const std::string& n){ if(x.ty->isVectorTy()){ Val r; r.agg=new std::vector<Val>(); size_t k=a[0].agg->size(); for(size_t i=0;i<k;i++){ std::vector<Val> q; for(auto&v:a) q.push_back((*v.agg)[i]); r.agg->push_back(mathFn(n,q)); } return r; } if(x.ty->isFloatTy()){ std::vector<Val> q; for(auto&v:a) q.push_back(v.e?v:mkD(asF(v.u))); Val r=mathFn(n,q); if(!r.e) r.u=fromF((float)asD(r.u)); return r; } return mathFn(n,a); };
  Val r; switch(x.iid){
    case Intrinsic::memcpy: case Intrinsic::memmove: memMove(a[0].u,a[1].u,a[2].e?concretizeInt(a[2].e):a[2].u); return r;
    case Intrinsic::memset: if(a[1].e){ pathAbort("symbolic memset"); } memSet(a[0].u,a[1].u,a[2].e?concretizeInt(a[2].e):a[2].u); return r;
    case Intrinsic::fabs: return lane("fabs"); case Intrinsic::sqrt: return lane("sqrt"); case Intrinsic::floor: return lane("floor"); case Intrinsic::ceil: return lane("ceil"); case Intrinsic::round: return lane("round"); case Intrinsic::trunc: return lane("trunc"); case Intrinsic::rint: return lane("rint"); case Intrinsic::nearbyint: return lane("rint");
    case Intrinsic::sin: return lane("sin"); case Intrinsic::cos: return lane("cos"); case Intrinsic::exp: return lane("exp"); case Intrinsic::log: return lane("log"); case Intrinsic::pow: return lane("pow"); case Intrinsic::copysign: return lane("copysign"); case Intrinsic::minnum: return lane("fmin"); case Intrinsic::maxnum: return lane("fmax"); case Intrinsic::fma: case Intrinsic::fmuladd: return lane("fma");
    case Intrinsic::powi: { std::vector<Val> q{a[0],mkD((double)sx64(a[1].u,32))}; return mathFn("pow",q); }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { unsigned p= x.iid==Intrinsic::smax?CmpInst::ICMP_SGT: x.iid==Intrinsic::smin?CmpInst::ICMP_SLT: x.iid==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; if(x.tk!=0) pathAbort("vec minmax"); return selectVal(intCmp(p,a[0],a[1],x.w),a[0],a[1],0,x.w); }
    case Intrinsic::abs: { Val z; Val c=intCmp(CmpInst::ICMP_SLT,a[0],z,x.w); return selectVal(c,intBin(Instruction::Sub,z,a[0],x.w),a[0],0,x.w); }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
      if(a[0].e) a[0]=Val{concretizeInt(a[0].e)}; if(a[1].e) a[1]=Val{concretizeInt(a[1].e)}; int w=cast<StructType>(x.ty)->getElementType(0)->getIntegerBitWidth(); Val v,o; __int128 p,q; bool sg= x.iid==Intrinsic::sadd_with_overflow||x.iid==Intrinsic::smul_with_overflow||x.iid==Intrinsic::ssub_with_overflow; if(sg){p=sx64(a[0].u,w);q=sx64(a[1].u,w);} else {p=a[0].u;q=a[1].u;} __int128 z= (x.iid==Intrinsic::umul_with_overflow||x.iid==Intrinsic::smul_with_overflow)?p*q:(x.iid==Intrinsic::uadd_with_overflow||x.iid==Intrinsic::sadd_with_overflow)?p+q:p-q; v.u=(u64)z&maskw(w); if(sg) o.u= z!=(__int128)sx64(v.u,w); else o.u= z<0|| z!=(__int128)v.u; r.agg=new std::vector<Val>{v,o}; return r; }
    case Intrinsic::ctpop: r.u=__builtin_popcountll(a[0].e?concretizeInt(a[0].e):a[0].u); return r; case Intrinsic::ctlz: { u64 v=a[0].e?concretizeInt(a[0].e):a[0].u; r.u= v?__builtin_clzll(v)-(64-x.w):x.w; return r; } case Intrinsic::cttz: { u64 v=a[0].e?concretizeInt(a[0].e):a[0].u; r.u= v?__builtin_ctzll(v):x.w; return r; }
    case Intrinsic::bswap: r.u= x.w==64?__builtin_bswap64(a[0].u): x.w==32?__builtin_bswap32(a[0].u):__builtin_bswap16(a[0].u); return r;
    case Intrinsic::expect: return a[0]; case Intrinsic::eh_typeid_for: r.u=typeId(a[0].u); return r;
    case Intrinsic::trap: reportConcrete("abort: trap reached"); 
    case Intrinsic::stacksave: r.u=stackTop; return r; case Intrinsic::stackrestore: return r; case Intrinsic::objectsize: r.u=~0ull; return r; case Intrinsic::is_constant: r.u=0; return r;
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::is_fpclass: { unsigned mask=a[1].u; if(a[0].e){ // finite real
        Expr* e=a[0].e; Expr* pos=rlt(rconst(0),e),*neg=rlt(e,rconst(0)),*z=req(e,rconst(0)); Expr* c=bconst(false); if(mask&fcPosNormal) c=bor(c,pos); if(mask&fcNegNormal) c=bor(c,neg); if(mask&fcPosZero) c=bor(c,z); return mkE(c); }
      double d=asD(a[0].u); unsigned k; if(std::isnan(d)) k=fcQNan; else if(std::isinf(d)) k=d>0?fcPosInf:fcNegInf; else if(d==0) k=std::signbit(d)?fcNegZero:fcPosZero; else if(std::fpclassify(d)==FP_SUBNORMAL) k=d>0?fcPosSubnormal:fcNegSubnormal; else k=d>0?fcPosNormal:fcNegNormal; r.u=(k&mask)!=0; return r; }
    case Intrinsic::vector_reduce_fadd: { Val s=a[0]; for(auto&v:*a[1].agg) s=fArith(Instruction::FAdd,s,v); return s; }
    case Intrinsic::vector_reduce_add: { Val s; for(auto&v:*a[0].agg) s=intBin(Instruction::Add,s,v,x.w); return s; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 p=a[0].u,q=a[1].u,s=a[2].u%x.w; if(x.iid==Intrinsic::fshl) r.u= s?((p<<s)|(q>>(x.w-s)))&maskw(x.w):p; else r.u= s?((p<<(x.w-s))|(q>>s))&maskw(x.w):q; return r; }
    default: pathAbort(std::string("intrinsic ")+Intrinsic::getBaseName(x.iid).str()); } }
static sigjmp_buf segvJmp; static volatile bool segvArmed=false;
static void* volatile segvAddr=nullptr;
static void onSegv(int,siginfo_t* si,void*){ segvAddr=si?si->si_addr:nullptr; if(segvArmed) siglongjmp(segvJmp,1); _exit(139); }
static int gDepth=0;
static Val callFn(FuncInfo* fi,std::vector<Val>& args,const II* site){
  if(!fi->compiled) compile(fi);
  if(!fi->counted){ fi->counted=true; for(auto& s:fi->subs) funcsSeen.insert(s); }
  if(++gDepth>3000) pathAbort("call depth");
  struct DG{ ~DG(){ gDepth--; } } dg;
  std::vector<Val> fr(fi->nslots); u64 st0=stackTop;
  for(size_t i=0;i<fi->argSlots.size()&&i<args.size();i++){ fr[fi->argSlots[i]]=args[i]; if(fi->byval[i]>=0){ u64 n=fi->byval[i]; u64 a=(stackTop+15)&~15ull; stackTop=a+n+16; memset(sh(a),VALID,n); memMove(a,args[i].u,n); fr[fi->argSlots[i]].u=a; } }
  size_t isz=istack.size(); istack.push_back(nullptr);
  struct SG{ u64 s; size_t n; ~SG(){ if(stackTop>s){ clearSymRange(s,stackTop-s); memset(sh(s),0,stackTop-s); } stackTop=s; istack.resize(n); } } sg{st0,isz};
  Blk* cur=fi->blks[0].get(); Blk* prev=nullptr;
  auto G=[&](const Opnd& o)->const Val&{ return o.slot>=0?fr[o.slot]:o.c; };
  for(;;){
    if(!cur->phis.empty()){ if(cur->phis.size()==1) fr[cur->phis[0].dst]=Val(G(cur->phis[0].in[prev])); else { std::vector<Val> t; t.reserve(cur->phis.size()); for(auto& p:cur->phis) t.push_back(G(p.in[prev])); for(size_t k=0;k<t.size();k++) fr[cur->phis[k].dst]=t[k]; } }
    Blk* next=nullptr;
    for(auto& x:cur->ins){
      istack.back()=&x; if((++gInstr&0xffff)==0){ checkDeadline(); if(gInstr>gMaxInstr) reportConcrete("hang: instruction budget exceeded"); }
      switch(x.op){
        case Instruction::Ret: { if(x.o.empty()) return Val(); return G(x.o[0]); }
        case Instruction::Br: if(x.o.empty()) next=x.t[0]; else { const Val& c=G(x.o[0]); bool k= c.e?branch(toBool(c)):(c.u&1); next=x.t[k?0:1]; } break;
        case Instruction::Switch: { Val c=G(x.o[0]); next=x.t[0]; if(c.e){ Expr* e=toBV(c,x.w); for(auto& k:x.cases) if(branch(vcmp(Op::VEq,e,vconst(k.first,x.w)))){ next=k.second; break; } } else for(auto& k:x.cases) if(k.first==c.u){ next=k.second; break; } break; }
        case Instruction::Unreachable: reportConcrete("abort: unreachable executed");
        case Instruction::Alloca: { u64 n=x.off; const Val& c=G(x.o[0]); n*= c.e?concretizeInt(toBV(c,64)):c.u; u64 al=std::max<u64>(16,x.pred); u64 a=(stackTop+16+al-1)&~(al-1); stackTop=a+n+16; memset(sh(a),VALID,n); memset((void*)a,0xCD,n); fr[x.dst]=Val{a}; break; }
        case Instruction::Load: { const Val& p=G(x.o[0]); fr[x.dst]=loadMem(p.u,x.tk,x.w,x.ty); break; }
        case Instruction::Store: { const Val& p=G(x.o[1]); storeMem(p.u,G(x.o[0]),x.tk,x.w,x.ty); break; }
        case Instruction::GetElementPtr: { u64 a=G(x.o[0]).u+x.off; for(auto& t:x.g){ const Val& v=G(t.o); u64 iv= v.e?concretizeInt(toBV(v,t.w)):v.u; a+=(u64)(sx64(iv,t.w)*t.scale); } fr[x.dst]=Val{a}; break; }
        case Instruction::FNeg: { const Val& a=G(x.o[0]); if(x.tk==4){ Val r; r.agg=new std::vector<Val>(); for(auto&v:*a.agg) r.agg->push_back(v.e?mkE(rneg(v.e)):mkD(-asD(v.u))); fr[x.dst]=r; } else if(a.e) fr[x.dst]=mkE(rneg(a.e)); else if(x.tk==3){ fr[x.dst].e=nullptr; fr[x.dst].u=fromF(-asF(a.u)); } else fr[x.dst]=mkD(-asD(a.u)); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { const Val&a=G(x.o[0]),&b=G(x.o[1]); if(x.tk==1) fr[x.dst]=fArith(x.op,a,b); else if(x.tk==3) fr[x.dst]=fltArith(x.op,a,b); else { Val r; r.agg=new std::vector<Val>(); for(size_t i=0;i<a.agg->size();i++) r.agg->push_back(fArith(x.op,(*a.agg)[i],(*b.agg)[i])); fr[x.dst]=r; } break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
          const Val&a=G(x.o[0]),&b=G(x.o[1]); if(x.tk==0){ if(x.w>64) pathAbort("wide int"); fr[x.dst]=intBin(x.op,a,b,x.w);} else { int w=cast<VectorType>(x.ty)->getElementType()->getIntegerBitWidth(); Val r; r.agg=new std::vector<Val>(); for(size_t i=0;i<a.agg->size();i++) r.agg->push_back(intBin(x.op,(*a.agg)[i],(*b.agg)[i],w)); fr[x.dst]=r; } break; }
        case Instruction::ICmp: { const Val&a=G(x.o[0]),&b=G(x.o[1]); if(x.tk==4){ Type* et=cast<VectorType>(x.I->getOperand(0)->getType())->getElementType(); int w=et->isPointerTy()?64:et->getIntegerBitWidth(); Val r; r.agg=new std::vector<Val>(); for(size_t i=0;i<a.agg->size();i++) r.agg->push_back(intCmp(x.pred,(*a.agg)[i],(*b.agg)[i],w)); fr[x.dst]=r; } else fr[x.dst]=intCmp(x.pred,a,b,x.w); break; }
        case Instruction::FCmp: { const Val&a=G(x.o[0]),&b=G(x.o[1]); if(x.tk==4){ Val r; r.agg=new std::vector<Val>(); for(size_t i=0;i<a.agg->size();i++) r.agg->push_back(fCmp(x.pred,(*a.agg)[i],(*b.agg)[i])); fr[x.dst]=r; } else if(x.tk==3) { Val p=a,q=b; if(!p.e) p=mkD(asF(p.u)); if(!q.e) q=mkD(asF(q.u)); fr[x.dst]=fCmp(x.pred,p,q); } else fr[x.dst]=fCmp(x.pred,a,b); break; }
        case Instruction::Select: { const Val& c=G(x.o[0]); if(c.agg){ Val r; r.agg=new std::vector<Val>(); Type* et=cast<VectorType>(x.ty)->getElementType(); for(size_t i=0;i<c.agg->size();i++) r.agg->push_back(selectVal((*c.agg)[i],(*G(x.o[1]).agg)[i],(*G(x.o[2]).agg)[i],typeKind(et),et->isIntegerTy()?et->getIntegerBitWidth():64)); fr[x.dst]=r; } else fr[x.dst]=selectVal(c,G(x.o[1]),G(x.o[2]),x.tk,x.w); break; }
        case Instruction::Freeze: fr[x.dst]=G(x.o[0]); break;
        case Instruction::ExtractValue: { const Val* v=&G(x.o[0]); for(unsigned i:x.idx) v=&(*v->agg)[i]; fr[x.dst]=Val(*v); break; }
        case Instruction::InsertValue: { Val v=G(x.o[0]); Val top; std::function<Val(const Val&,size_t)> rec=[&](const Val& b,size_t k)->Val{ if(k==x.idx.size()) return G(x.o[1]); Val n; n.agg=new std::vector<Val>(*b.agg); (*n.agg)[x.idx[k]]=rec((*b.agg)[x.idx[k]],k+1); return n; }; fr[x.dst]=rec(v,0); break; }
        case Instruction::ExtractElement: { const Val& ix=G(x.o[1]); fr[x.dst]=Val((*G(x.o[0]).agg)[ix.u]); break; }
        case Instruction::InsertElement: { Val n; n.agg=new std::vector<Val>(*G(x.o[0]).agg); (*n.agg)[G(x.o[2]).u]=G(x.o[1]); fr[x.dst]=n; break; }
        case Instruction::ShuffleVector: { const Val&a=G(x.o[0]),&b=G(x.o[1]); Val n; n.agg=new std::vector<Val>(); size_t k=a.agg->size(); for(unsigned i:x.idx){ if((int)i<0) n.agg->push_back(Val()); else if(i<k) n.agg->push_back((*a.agg)[i]); else n.agg->push_back((*b.agg)[i-k]); } fr[x.dst]=n; break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
          const Val& a=G(x.o[0]); if(x.tk==4&&x.op!=Instruction::BitCast){ Type*st=cast<VectorType>(x.I->getOperand(0)->getType())->getElementType(),*dt=cast<VectorType>(x.ty)->getElementType(); Val r; r.agg=new std::vector<Val>(); for(auto&v:*a.agg) r.agg->push_back(castVal(x,v,st->isIntegerTy()?st->getIntegerBitWidth():64,typeKind(st),dt,typeKind(dt),dt->isIntegerTy()?dt->getIntegerBitWidth():64)); fr[x.dst]=r; } else fr[x.dst]=castVal(x,a,x.pred,x.bi,x.ty,x.tk,x.w); break; }
        case Instruction::LandingPad: { auto* lp=cast<LandingPadInst>(x.I); Val r; r.agg=new std::vector<Val>(2); (*r.agg)[0].u=exObj; int sel=0; for(unsigned k=0;k<lp->getNumClauses();k++) if(lp->isCatch(k)){ u64 t=G(x.o[k]).u; u64 adj=exObj; if(!t||derivesFrom((const std::type_info*)exType,(const std::type_info*)t,adj)){ sel=typeId(t); break; } } (*r.agg)[1].u=(u64)(uint32_t)sel; fr[x.dst]=r; break; }
        case Instruction::Resume: throw Unwind{};
        case Instruction::AtomicRMW: { auto* rm=cast<AtomicRMWInst>(x.I); u64 p=G(x.o[0]).u; Val old=loadMem(p,x.tk,x.w,x.ty); const Val& v=G(x.o[1]); Val nv; switch(rm->getOperation()){ case AtomicRMWInst::Add: nv=intBin(Instruction::Add,old,v,x.w); break; case AtomicRMWInst::Sub: nv=intBin(Instruction::Sub,old,v,x.w); break; case AtomicRMWInst::Xchg: nv=v; break; default: pathAbort("rmw"); } storeMem(p,nv,x.tk,x.w,x.ty); fr[x.dst]=old; break; }
        case Instruction::AtomicCmpXchg: { Type* et=x.I->getOperand(1)->getType(); int tk=typeKind(et),w=et->isIntegerTy()?et->getIntegerBitWidth():64; u64 p=G(x.o[0]).u; Val old=loadMem(p,tk,w,et); Val c=intCmp(CmpInst::ICMP_EQ,old,G(x.o[1]),w); bool eq= c.e?branch(toBool(c)):c.u; if(eq) storeMem(p,G(x.o[2]),tk,w,et); Val r; r.agg=new std::vector<Val>(2); (*r.agg)[0]=old; (*r.agg)[1].u=eq; fr[x.dst]=r; break; }
        case Instruction::Fence: break;
        case Instruction::Call: case Instruction::Invoke: {
          std::vector<Val> av; const CallBase* cb=cast<CallBase>(x.I); size_t na=cb->arg_size(); av.reserve(na); for(size_t i=0;i<na;i++) av.push_back(G(x.o[i]));
          Val r; 
          try {
            if(x.iid) r=intrinsic(x,av);
            else { FuncInfo* c=x.callee; if(!c){ if(cb->isInlineAsm()){ if(x.dst>=0) fr[x.dst]=Val(); break; } u64 p=G(x.o[na]).u; auto it=faddr.find(p); if(it!=faddr.end()) c=it->second; else { if(p<4096) reportConcrete("memory: call through null function pointer"); // native pointer
                    nativeCall((void*)p,av,x,nullptr,r); goto done; } }
              if(c->bi==-1){ auto it=builtinIds.find(c->name); c->bi= it==builtinIds.end()?-2:it->second; }
              if(c->bi>=0) r=builtins[c->bi](c,av,x); else if(!c->F->isDeclaration()) r=callFn(c,av,&x); else r=callBuiltinOrNative(c,av,x); }
            done:;
          } catch(Unwind&){ if(x.op==Instruction::Invoke){ istack.resize(isz+1); istack.back()=&x; next=x.t[1]; break; } throw; }
          if(x.dst>=0) fr[x.dst]=r; if(x.op==Instruction::Invoke) next=x.t[0]; break; }
        default: pathAbort(std::string("opcode ")+x.I->getOpcodeName());
      }
      if(next) break;
    }
    if(!next) pathAbort("fell through block");
    prev=cur; cur=next;
  } }
static bool contains(const std::string& s,const char* t){ return s.find(t)!=std::string::npos; }
static Val callBuiltinOrNative(FuncInfo* fi,std::vector<Val>& a,const II& x){
  const std::string& n=fi->name; Val r;
  bool outp= contains(n,"ostream")&&!contains(n,"stringstream")&&!contains(n,"ofstream") || n.rfind("_ZNSo",0)==0 || n=="printf"||n=="puts"||n=="putchar"||n=="fprintf"||n=="fflush"||n=="fwrite"||n=="fputs"||n=="fputc"||n=="vprintf";
  if(outp){ bool sym=false; for(auto&v:a) sym|=v.e!=nullptr; bool con= !a.empty()&&(a[0].u==(u64)&std::cout||a[0].u==(u64)&std::cerr||a[0].u==(u64)&std::clog); if(sym||con||n[0]!='_'){ if(!a.empty()) r.u=a[0].u; return r; } }
  if(!fi->nativeChecked){ fi->nativeChecked=true; fi->native=dlsym(RTLD_DEFAULT,n.c_str()); }
  if(!fi->native) pathAbort("no native symbol "+llvm::demangle(n).substr(0,120));
  nativeCall(fi->native,a,x,fi,r); return r; }

// ------------------------------------------------------------------ asserts
static std::vector<Expr*> pcAnd(Expr* c){ return slice({c}); }
static Expr* strengthen(Expr* c,const mpq_class& eps){ switch(c->op){ case Op::RLt: case Op::RLe: return rlt(radd(c->a[0],rconst(eps)),c->a[1]); case Op::BAnd: return band(strengthen(c->a[0],eps),strengthen(c->a[1],eps)); case Op::BOr: return bor(strengthen(c->a[0],eps),strengthen(c->a[1],eps)); case Op::BNot: if(c->a[0]->op==Op::REq){ Expr*x=c->a[0]->a[0],*y=c->a[0]->a[1]; return bor(rlt(radd(x,rconst(eps)),y),rlt(radd(y,rconst(eps)),x)); } return c; default: return c; } }
static void reachWitness(AssertSlot* s){ if(s->reach_sat||s->reach_try>=5) return; s->reach_try++; if(PC.empty()){ s->reach_sat++; return; } Model m; // full PC satisfiable?
  std::vector<Expr*> rest=PC; bool ok=true; while(!rest.empty()){ auto q=slice({rest[0]}); if(smtCheck(q,&m,gTBranch)!=Res::Sat){ ok=false; break; } std::unordered_set<uint32_t> qs; for(auto*e:q) qs.insert(e->id); std::vector<Expr*> nr; for(auto*e:rest) if(!qs.count(e->id)) nr.push_back(e); rest=nr; } if(ok) s->reach_sat++; }
static void doAssert(const Val& c,const std::string& label){
  AssertSlot* s=aslot(label); s->used++; reachWitness(s);
  if(!c.e){ if(c.u&1){ s->proved++; return; } Model m; if(PC.empty()||fullModel(gNoQuery?PC:std::vector<Expr*>{bconst(true)},m)){ s->violated++; if(s->violated<=(uint32_t)gMaxViol) writeWitness(label,m,"assert"); } else s->unknown++; throw PathEnd{"__viol"}; }
  Expr* e=toBool(c); Expr* ne=bnot(e); bool v; if(tryDecide(e,v)){ if(v){ s->proved++; return; } }
  Model m; Res r=smtCheck(pcAnd(ne),&m,gTAssert);
  if(r==Res::Unsat){ s->proved++; addPC(e); return; }
  if(r==Res::Unk){ s->unknown++; if(gVerbose) fprintf(stderr,"[assert?] %s: %s\n",label.c_str(),estr(e,6).c_str()); return; }
  s->violated++; if(s->violated<=(uint32_t)gMaxViol){ Model w; if(!fullModel({strengthen(ne,mpq_class(1,1000))},w)&&!fullModel({strengthen(ne,mpq_class(1,1000000))},w)&&!fullModel({ne},w)) w=m; writeWitness(label,w,"assert"); }
  Res r2=feasible(e,&m,gTBranch); if(r2==Res::Unsat) throw PathEnd{"__viol"}; addPC(e); if(r2==Res::Sat) updateModel(m); else pmodelOk=false; }
static void doEq(const Val& a,const Val& b,const std::string& label,double tol){
  AssertSlot* s=aslot(label); s->used++; reachWitness(s);
  if((!a.e&&!b.e)||specialD(a)||specialD(b)){ double x=a.e?0:asD(a.u),y=b.e?0:asD(b.u); bool ok; if(!a.e&&!b.e) ok=(x==y)||std::fabs(x-y)<=tol*(1+std::fabs(x)+std::fabs(y)); else ok=false; if(ok){ s->proved++; return; } Model m; if(PC.empty()||fullModel(gNoQuery?PC:std::vector<Expr*>{bconst(true)},m)){ s->violated++; if(s->violated<=(uint32_t)gMaxViol) writeWitness(label,m,"eq"); } else s->unknown++; throw PathEnd{"__viol"}; }
  Expr*x=toReal(a),*y=toReal(b); Expr* e=req(x,y); Expr* ne=bnot(e); bool v; if(tryDecide(e,v)&&v){ s->proved++; return; }
  auto rr=ratOf(rsub(x,y)); Model m; Res r=Res::Unk; bool tolOnly=false;
  if(tol>0&&rr->ok){ // all coefficients negligible relative to the operands: rounding of folded constants
    auto ra=ratOf(x),rb=ratOf(y); mpq_class mx=0,md=0; auto mxf=[&](const Poly& p,mpq_class& q){ for(auto&t:p){ mpq_class z=abs(t.second); if(z>q) q=z; } }; if(ra->ok) mxf(ra->num,mx); if(rb->ok) mxf(rb->num,mx); mxf(rr->num,md); if(ra->ok&&rb->ok&&ra->den==rb->den&&ra->den==rr->den&&md<=mx*mpq_class(tol>=1e-5?1e-5:1e-12)) tolOnly=true; }
  if(!tolOnly){ r=smtCheck(pcAnd(ne),&m,gTAssert); if(r==Res::Unsat){ s->proved++; addPC(e); return; } }
  Expr* bd=niceBound(1000); mpq_class q(tol); Expr* d=bor(rlt(radd(x,rconst(q)),y),rlt(radd(y,rconst(q)),x));
  // restrict bounding to variables in the slice
  std::unordered_set<uint32_t> vs; for(auto*c:pcAnd(d)) for(auto z:leafVars(c)) vs.insert(z); bd=bconst(true); for(auto& in:inputs) if(in.e->sk==Sk::Real&&vs.count(in.e->id)) bd=band(bd,band(rle(in.e,rconst(1000)),rle(rconst(-1000),in.e)));
  { // weaker premises first: only the simple linear facts about the inputs involved
    auto simple=[&](Expr* c){ if(c->op!=Op::RLt&&c->op!=Op::RLe) return false; auto r=ratOf(rsub(c->a[0],c->a[1])); if(!r->ok||!r->den.empty()||r->num.size()>4) return false; for(auto& t:r->num){ if(t.first.size()>1) return false; for(auto& v:t.first) if(v.second>1||ET.all[v.first]->op!=Op::RVar) return false; } return true; };
    bool lin=rr->ok&&rr->den.empty(); if(lin) for(auto& t:rr->num){ if(t.first.size()>1) lin=false; for(auto& v:t.first) if(v.second>1||ET.all[v.first]->op!=Op::RVar) lin=false; }
    if(lin){ std::vector<Expr*> ls{d}; for(auto* c:PC) if(simple(c)) ls.push_back(c); for(auto& in:inputs) if(in.e->sk==Sk::Real){ auto& lv=leafVars(d); if(std::binary_search(lv.begin(),lv.end(),in.e->id)){ ls.push_back(rle(in.e,rconstd(1000))); ls.push_back(rle(rconstd(-1000),in.e)); } } SH->tolq++; if(smtCheck(ls,nullptr,gTBranch)==Res::Unsat){ s->proved_tol++; return; } } }
  SH->tolq++; std::vector<Expr*> cs=pcAnd(d); cs.push_back(bd); Model m2; Res r2=smtCheck(cs,&m2,gTAssert);
  if(r2==Res::Unsat){ s->proved_tol++; return; }
  if(r2==Res::Sat){ s->violated++; if(s->violated<=(uint32_t)gMaxViol){ Model w; mpq_class q2(1,100); Expr* d2=bor(rlt(radd(x,rconst(q2)),y),rlt(radd(y,rconst(q2)),x)); if(!fullModel({d2},w)&&!fullModel({d},w)) w=m2; writeWitness(label,w,"eq"); } 
    Res r3=feasible(e,&m,gTBranch); if(r3==Res::Unsat) throw PathEnd{"__viol"}; addPC(e); if(r3==Res::Sat) updateModel(m); else pmodelOk=false; return; }
  s->unknown++; if(gVerbose) fprintf(stderr,"[eq?] %s: %s  ==  %s\n",label.c_str(),estr(x,5).c_str(),estr(y,5).c_str()); }

static Expr* newInput(const std::string& n0,Sk sk,int w){ std::string n=n0; int k=nameCount[n0]++; if(k) n+="#"+std::to_string(k); static u64 c=1; Op o= sk==Sk::Real?Op::RVar:sk==Sk::BV?Op::VVar:Op::BVar; Expr* e=ET.mk(o,sk,w,{},c++,nullptr,n); inputs.push_back({n,e,'x'}); return e; }
static void B(const char* n,std::function<Val(FuncInfo*,std::vector<Val>&,const II&)> f){ builtinIds[n]=builtins.size(); builtins.push_back(f); }
static u64 cInt(Val& v,int w=64){ return v.e?concretizeInt(toBV(v,w)):v.u; }
static void setupBuiltins(){
  typedef std::vector<Val> A;
  auto mal=[](FuncInfo*,A& a,const II&){ Val r; r.u=heapAlloc(cInt(a[0])); return r; };
  for(auto n:{"malloc","_Znwm","_Znam"}) B(n,mal);
  auto mal2=[](FuncInfo*,A& a,const II&){ Val r; r.u=heapAlloc(cInt(a[0]),std::max<u64>(16,a[1].u)); return r; };
  B("_ZnwmSt11align_val_t",mal2); B("_ZnwmRKSt9nothrow_t",mal); B("_ZnamRKSt9nothrow_t",mal);
  B("aligned_alloc",[](FuncInfo*,A& a,const II&){ Val r; r.u=heapAlloc(cInt(a[1]),std::max<u64>(16,a[0].u)); return r; });
  B("_ZN5Eigen8internal15queryCacheSizesERiS1_S1_",[](FuncInfo*,A& a,const II&){ u64 v[3]={32768,262144,2097152}; for(int i=0;i<3;i++) storeMem(a[i].u,Val{v[i]},0,32,nullptr); return Val(); });   // cpuid in Eigen
  B("posix_memalign",[](FuncInfo*,A& a,const II&){ u64 p=heapAlloc(cInt(a[2]),std::max<u64>(16,a[1].u)); storeMem(a[0].u,Val{p},2,64,nullptr); return Val(); });
  B("calloc",[](FuncInfo*,A& a,const II&){ Val r; r.u=heapAlloc(cInt(a[0])*cInt(a[1]),16,true); return r; });
  B("realloc",[](FuncInfo*,A& a,const II&){ Val r; u64 n=cInt(a[1]); r.u=heapAlloc(n); if(a[0].u){ if(!inArena(a[0].u)) pathAbort("realloc native"); auto it=heapBlocks.find(a[0].u); if(it==heapBlocks.end()) reportConcrete("memory: invalid realloc"); memMove(r.u,a[0].u,std::min(n,it->second)); heapFree(a[0].u);} return r; });
  auto fr=[](FuncInfo*,A& a,const II&){ heapFree(a[0].u); return Val(); };
  for(auto n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) B(n,fr);
  B("memcpy",[](FuncInfo*,A& a,const II&){ memMove(a[0].u,a[1].u,cInt(a[2])); return a[0]; }); B("memmove",[](FuncInfo*,A& a,const II&){ memMove(a[0].u,a[1].u,cInt(a[2])); return a[0]; });
  B("memset",[](FuncInfo*,A& a,const II&){ memSet(a[0].u,cInt(a[1],32),cInt(a[2])); return a[0]; });
  auto cmpf=[](FuncInfo*,A& a,const II&){ Val r; u64 n=cInt(a[2]); if(rangeHasSym(a[0].u,n)||rangeHasSym(a[1].u,n)){ for(u64 i=0;i<n;i++){ Val p=loadMem(a[0].u+i,0,8,nullptr),q=loadMem(a[1].u+i,0,8,nullptr); Val c=intCmp(CmpInst::ICMP_EQ,p,q,8); bool eq=c.e?branch(toBool(c)):c.u; if(!eq){ r.u=1; return r; } } return r; } r.u=(u64)(uint32_t)memcmp((void*)a[0].u,(void*)a[1].u,n); return r; };
  B("memcmp",cmpf); B("bcmp",cmpf);
  for(auto n:{"sqrt","sin","cos","tan","acos","asin","atan","exp","log","log10","floor","ceil","round","trunc","rint","nearbyint","fabs","pow","atan2","fmin","fmax","fmod","hypot","copysign","fma"}){ std::string s=n; B(n,[s](FuncInfo*,A& a,const II&){ return mathFn(s,a); }); }
  B("sincos",[](FuncInfo*,A& a,const II&){ std::vector<Val> q{a[0]}; Val s=mathFn("sin",q); std::vector<Val> q2{a[0]}; Val c=mathFn("cos",q2); storeMem(a[1].u,s,1,64,nullptr); storeMem(a[2].u,c,1,64,nullptr); return Val(); });
  B("ldexp",[](FuncInfo*,A& a,const II&){ int e=(int)sx64(cInt(a[1],32),32); Val s=mkD(std::ldexp(1.0,e)); return fArith(Instruction::FMul,a[0],s); });
  B("__cxa_atexit",[](FuncInfo*,A&,const II&){ return Val(); }); B("atexit",[](FuncInfo*,A&,const II&){ return Val(); });
  B("__cxa_guard_acquire",[](FuncInfo*,A& a,const II&){ Val r; r.u= *(uint8_t*)a[0].u?0:1; return r; }); B("__cxa_guard_release",[](FuncInfo*,A& a,const II&){ *(uint8_t*)a[0].u=1; return Val(); }); B("__cxa_guard_abort",[](FuncInfo*,A&,const II&){ return Val(); });
  B("__cxa_allocate_exception",[](FuncInfo*,A& a,const II&){ Val r; r.u=heapAlloc(a[0].u+64,16,true); return r; }); B("__cxa_free_exception",[](FuncInfo*,A&,const II&){ return Val(); });
  B("__cxa_throw",[](FuncInfo*,A& a,const II&)->Val{ exObj=a[0].u; exType=a[1].u; throw Unwind{}; });
  B("__cxa_begin_catch",[](FuncInfo*,A& a,const II&){ caught.push_back({exObj,exType}); return a[0]; }); B("__cxa_get_exception_ptr",[](FuncInfo*,A& a,const II&){ return a[0]; });
  B("__cxa_end_catch",[](FuncInfo*,A&,const II&){ if(!caught.empty()) caught.pop_back(); return Val(); });
  B("__cxa_rethrow",[](FuncInfo*,A&,const II&)->Val{ if(!caught.empty()){ exObj=caught.back().first; exType=caught.back().second; } throw Unwind{}; });
  B("_Unwind_Resume",[](FuncInfo*,A&,const II&)->Val{ throw Unwind{}; });
  for(auto n:{"abort","_ZSt9terminatev","__cxa_pure_virtual","__assert_fail","__stack_chk_fail"}){ std::string s=n; B(n,[s](FuncInfo*,A&,const II&)->Val{ reportConcrete("abort: "+s); }); }
  B("exit",[](FuncInfo*,A&,const II&)->Val{ reportConcrete("abort: exit() called"); });
  B("__gxx_personality_v0",[](FuncInfo*,A&,const II&){ return Val(); }); B("_ZNSt8ios_base4InitC1Ev",[](FuncInfo*,A&,const II&){ return Val(); }); B("_ZNSt8ios_base4InitD1Ev",[](FuncInfo*,A&,const II&){ return Val(); });
  B("__errno_location",[](FuncInfo*,A&,const II&){ static u64 p=heapAlloc(16,16,true); return Val{p}; });
  B("__clang_call_terminate",[](FuncInfo*,A&,const II&)->Val{ reportConcrete("abort: terminate"); });
  // ---- harness API
  B("sx_real",[](FuncInfo*,A& a,const II&){ Expr* e=newInput(readStr(a[0].u),Sk::Real,0); return mkE(e); });
  B("sx_real_in",[](FuncInfo*,A& a,const II&){ Expr* e=newInput(readStr(a[0].u),Sk::Real,0); Val v=mkE(e); assumeExpr(rle(rconstd(asD(a[1].u)),e)); assumeExpr(rle(e,rconstd(asD(a[2].u)))); return v; });
  B("sx_int",[](FuncInfo*,A& a,const II&){ Expr* e=newInput(readStr(a[0].u),Sk::BV,32); assumeExpr(vcmp(Op::VSle,vconst(a[1].u,32),e)); assumeExpr(vcmp(Op::VSle,e,vconst(a[2].u,32))); return mkE(e); });
  B("sx_choose",[](FuncInfo*,A& a,const II&){ Expr* e=newInput(readStr(a[0].u),Sk::BV,32); assumeExpr(vcmp(Op::VSle,vconst(a[1].u,32),e)); assumeExpr(vcmp(Op::VSle,e,vconst(a[2].u,32))); Val r; r.u=concretizeInt(e); return r; });
  B("sx_bool",[](FuncInfo*,A& a,const II&){ Expr* e=newInput(readStr(a[0].u),Sk::Bool,0); return mkE(e); });
  B("sx_assume",[](FuncInfo*,A& a,const II&){ if(!a[0].e){ if(!(a[0].u&1)){ SH->paths_infeasible++; throw PathEnd{"__infeasible"}; } return Val(); } assumeExpr(toBool(a[0])); return Val(); });
  B("sx_assert",[](FuncInfo*,A& a,const II&){ doAssert(a[0],readStr(a[1].u)); return Val(); });
  B("sx_eq",[](FuncInfo*,A& a,const II&){ doEq(a[0],a[1],readStr(a[2].u),1e-6); return Val(); });
  B("sx_eq_tol",[](FuncInfo*,A& a,const II&){ doEq(a[0],a[1],readStr(a[3].u),asD(a[2].u)); return Val(); });
  B("sx_reach",[](FuncInfo*,A& a,const II&){ AssertSlot* s=aslot("reach:"+readStr(a[0].u)); s->used++; reachWitness(s); return Val(); });
  B("sx_symbolic_mode",[](FuncInfo*,A&,const II&){ Val r; r.u=1; return r; });
  B("sx_option",[](FuncInfo*,A& a,const II&){ std::string k=readStr(a[0].u); double v=asD(a[1].u); if(k=="fork_select") gForkSelect=v!=0; else if(k=="div0_exclude") gDiv0Excl=v!=0; else if(k=="t_branch") gTBranch=v; else if(k=="t_assert") gTAssert=v; else if(k=="poly_cap") POLY_CAP=(size_t)v; else if(k=="guard_const") gGuard=v; else if(k=="no_branch_query") gNoQuery=v!=0; else if(k=="lin_round") gLinRound=v; else if(k=="uninit") gTrackUninit=v!=0; return Val(); });
  B("sx_print",[](FuncInfo*,A& a,const II&){ if(gVerbose) fprintf(stderr,"[print] %s = %s\n",readStr(a[0].u).c_str(),a[1].e?estr(a[1].e,8).c_str():std::to_string(asD(a[1].u)).c_str()); return Val(); });
  B("sx_branch",[](FuncInfo*,A& a,const II&){ Val r; r.u= a[0].e?branch(toBool(a[0])):(a[0].u&1); return r; });
  B("sx_sqrt_hint",[](FuncInfo*,A& a,const II&){ if(a[0].e) sqrtHints.push_back(canon(a[0].e)); return Val(); });
  B("sx_is_symbolic",[](FuncInfo*,A& a,const II&){ Val r; r.u=a[0].e!=nullptr; return r; });
}
void dumpResults(){
  FILE* f=fopen((gOut+"/result_"+gEntry+".json").c_str(),"w"); if(!f) return;
  fprintf(f,"{\"entry\":\"%s\",\"paths_done\":%lu,\"paths_aborted\":%lu,\"paths_infeasible\":%lu,\"forks\":%lu,\"instrs\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cached\":%lu,\"trivial\":%lu,\"solver_s\":%.3f,\"unk_branches\":%lu,\"violations\":%lu,\"div0_excluded\":%lu,\"asserts\":[",gEntry.c_str(),SH->paths_done.load(),SH->paths_aborted.load(),SH->paths_infeasible.load(),SH->forks.load(),SH->instrs.load(),SH->queries.load(),SH->qsat.load(),SH->qunsat.load(),SH->qunk.load(),SH->qcached.load(),SH->qtriv.load(),SH->solver_us.load()/1e6,SH->unk_branches.load(),SH->nviol.load(),SH->div0_excl.load());
  for(int i=0;i<SH->nas;i++){ auto& s=SH->as[i]; fprintf(f,"%s{\"label\":\"%s\",\"reached\":%u,\"proved\":%u,\"proved_tol\":%u,\"violated\":%u,\"unknown\":%u,\"reach_sat\":%u}",i?",":"",jesc(s.label).c_str(),s.used.load(),s.proved.load(),s.proved_tol.load(),s.violated.load(),s.unknown.load(),s.reach_sat.load()); }
  fprintf(f,"],\"aborts\":["); for(int i=0;i<SH->nab;i++) fprintf(f,"%s[\"%s\",%u]",i?",":"",jesc(SH->aborts[i]).c_str(),SH->abortn[i].load());
  fprintf(f,"],\"functions\":["); std::set<std::string> fs; { std::stringstream ss(SH->funcs); std::string l; while(std::getline(ss,l)) if(!l.empty()) fs.insert(l); } bool first=true; for(auto& s:fs){ fprintf(f,"%s\"%s\"",first?"":",",jesc(s).c_str()); first=false; }
  fprintf(f,"]}\n"); fclose(f); }
static void mergeFuncs(){ SLock k; std::string cur=SH->funcs; std::set<std::string> have; { std::stringstream ss(cur); std::string l; while(std::getline(ss,l)) have.insert(l); } for(auto& s:funcsSeen) if(!have.count(s)&&cur.size()+s.size()+2<sizeof(SH->funcs)){ cur+=s; cur+='\n'; } strcpy(SH->funcs,cur.c_str()); }
int main(int argc,char** argv){
  struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(2ul<<30)&&!getenv("SX_STK")){ rl.rlim_cur= rl.rlim_max==RLIM_INFINITY?(4ul<<30):rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); setenv("SX_STK","1",1); execv("/proc/self/exe",argv); }
  std::string bc; int procs=8; double budget=600; std::vector<std::string> libs;
  for(int i=1;i<argc;i++){ std::string s=argv[i]; if(s=="-e") gEntry=argv[++i]; else if(s=="-o") gOut=argv[++i]; else if(s=="-j") procs=atoi(argv[++i]); else if(s=="-t") budget=atof(argv[++i]); else if(s=="-tb") gTBranch=atof(argv[++i]); else if(s=="-ta") gTAssert=atof(argv[++i]); else if(s=="-v") gVerbose=true; else if(s=="-l") libs.push_back(argv[++i]); else if(s=="--slow"){ gSlow=atof(argv[++i]); gDumpDir=gOut; } else if(s=="--maxviol") gMaxViol=atoi(argv[++i]); else bc=s; }
  for(auto& l:libs) if(!dlopen(l.c_str(),RTLD_NOW|RTLD_GLOBAL)) fprintf(stderr,"dlopen %s: %s\n",l.c_str(),dlerror());
  SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)SH,0,sizeof(Shared)); SH->slots=procs-1; rootPid=getpid(); gDeadline=nowS()+budget; gHardTimeout=hardTimeout;
  prctl(PR_SET_CHILD_SUBREAPER,1,0,0,0);
  if(mmap((void*)ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED||mmap((void*)SBASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED){ perror("mmap"); return 2; }
  SMDiagnostic err; M=parseIRFile(bc,err,LC); if(!M){ err.print("irsym",errs()); return 2; } DL=&M->getDataLayout(); setupBuiltins();
  static char alt[1<<16]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onSegv; sa.sa_flags=SA_ONSTACK|SA_NODEFER|SA_SIGINFO; sigaction(SIGSEGV,&sa,nullptr); sigaction(SIGBUS,&sa,nullptr);
  Function* E=M->getFunction(gEntry); if(!E||E->isDeclaration()){ fprintf(stderr,"entry %s not found\n",gEntry.c_str()); return 2; }
  std::string end="ok";
  try {
    try {
      segvArmed=true; if(sigsetjmp(segvJmp,1)){ if(gVerbose) fprintf(stderr,"SIGSEGV at %s addr %p\n",curLoc().c_str(),(void*)segvAddr); if(gVerbose){ for(int i=(int)istack.size()-1;i>=0&&i>(int)istack.size()-4;i--) if(istack[i]){ std::string o; raw_string_ostream os(o); istack[i]->I->print(os); fprintf(stderr,"   %s in %s\n",o.c_str(),istack[i]->I->getFunction()->getName().str().c_str()); } } reportConcrete("memory: wild access (SIGSEGV)"); }
      if(auto* gc=M->getGlobalVariable("llvm.global_ctors")) if(auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64,Function*>> cs; for(auto& o:ca->operands()){ auto* s=cast<ConstantStruct>(o); if(auto* f=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),f}); } std::stable_sort(cs.begin(),cs.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto& c:cs){ std::vector<Val> a; callFn(getFI(c.second),a,nullptr); } }
      std::vector<Val> a; callFn(getFI(E),a,nullptr);
    } catch(Unwind&){ std::string t= exType?((const std::type_info*)exType)->name():"?"; reportConcrete("uncaught exception "+t); }
  } catch(PathEnd& p){ end=p.why; if(end.rfind("__",0)!=0){ noteAbort(end); end="__abort"; } }
  catch(std::bad_alloc&){ noteAbort("engine out of memory"); end="__abort"; }
  if(end=="ok") SH->paths_done++;
  mergeFuncs();
  SH->instrs+=gInstr-gInstrFlushed; flushStats();
  if(ownSlot) SH->slots++;
  if(getpid()!=rootPid) _exit(0);
  reapAll();
  dumpResults(); _exit(0);
}
