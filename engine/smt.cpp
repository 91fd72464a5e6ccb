#include "smt.h"
SmtStats SS; double gDeadline=1e18; void (*gHardTimeout)()=nullptr; std::string gDumpDir; double gSlow=1e9;
double nowS(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static z3::context* C=nullptr;
static volatile int alarmCount=0;
static void onAlarm(int){ alarmCount=alarmCount+1; if(C) Z3_interrupt(*C); if(alarmCount>40 && gHardTimeout) gHardTimeout(); }
static void arm(double s){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onAlarm; sa.sa_flags=SA_RESTART; sigaction(SIGALRM,&sa,nullptr); alarmCount=0;
  itimerval it; it.it_value.tv_sec=(long)s; it.it_value.tv_usec=(long)((s-(long)s)*1e6); if(s<0.001) it.it_value.tv_usec=1000; it.it_interval.tv_sec=0; it.it_interval.tv_usec=500000; setitimer(ITIMER_REAL,&it,nullptr); }
static void disarm(){ itimerval it; memset(&it,0,sizeof it); setitimer(ITIMER_REAL,&it,nullptr); }

struct Low {
  z3::context& c; std::unordered_map<uint32_t,z3::expr> cz; std::vector<z3::expr> side; std::unordered_set<uint32_t> defd;
  bool nonlin=false, hasBV=false; std::vector<Expr*> vars;
  Low(z3::context& c,bool abs=false):c(c),abs(abs){}
  bool abs; std::map<Mono,z3::expr> monos; // abs: nonlinear monomials and definitions left opaque
  z3::expr num(const mpq_class& q){ return c.real_val(q.get_str().c_str()); }
  z3::expr opaque(const Mono& m){ auto it=monos.find(m); if(it!=monos.end()) return it->second; z3::expr v=c.real_const(("m!"+std::to_string(monos.size())).c_str()); bool ev=true; for(auto& x:m) if(x.second&1) ev=false; if(ev) side.push_back(v>=0); monos.emplace(m,v); return v; }
  z3::expr polyZ(const Poly& p){
    z3::expr_vector ts(c);
    if(abs){ for(auto& t:p){ int d=0; for(auto& v:t.first) d+=v.second; z3::expr m=num(t.second); if(d==1) m=m*atom(ET.all[t.first[0].first]); else if(d>1) m=m*opaque(t.first); ts.push_back(m); } if(ts.size()==0) return c.real_val(0); if(ts.size()==1) return ts[0]; return z3::sum(ts); }
    for(auto& t:p){ z3::expr_vector fs(c); int d=0; for(auto& v:t.first) for(int i=0;i<v.second;i++){ fs.push_back(atom(ET.all[v.first])); d++; }
      if(d>1) nonlin=true;
      z3::expr m=num(t.second);
      if(d>0){ z3::expr pr = fs[0]; if(d>1){ std::vector<Z3_ast> as; for(unsigned i=0;i<fs.size();i++) as.push_back(fs[i]); pr=z3::expr(c,Z3_mk_mul(c,as.size(),as.data())); }
        m = (t.second==1)? pr : m*pr; }
      ts.push_back(m); }
    if(ts.size()==0) return c.real_val(0); if(ts.size()==1) return ts[0];
    return z3::sum(ts);
  }
  z3::expr denPoly(const Rat& r,bool oddOnly){ z3::expr d=c.real_val(1); bool first=true; for(auto& f:r.den){ int e=oddOnly?(f.second&1):f.second; for(int i=0;i<e;i++){ z3::expr p=polyZ(PT.factors[f.first]); if(first){ d=p; first=false; } else { d=d*p; nonlin=true; } } } return d; }
  z3::expr atom(Expr* e){
    auto it=cz.find(e->id); if(it!=cz.end()) return it->second;
    std::string nm; switch(e->op){ case Op::RVar: nm=e->name+"!"+std::to_string(e->id); break; case Op::RSqrt: nm="sq!"+std::to_string(e->id); break; case Op::RUf: nm=e->name+"!"+std::to_string(e->id); break; default: nm="t!"+std::to_string(e->id); }
    z3::expr v=c.real_const(nm.c_str()); cz.emplace(e->id,v);
    if(e->op==Op::RVar) vars.push_back(e);
    else if(abs&&(e->op==Op::RSqrt||e->op==Op::RUf)){ if(e->op==Op::RSqrt||e->name=="acos") side.push_back(v>=0); }
    else if(e->op==Op::RSqrt){ nonlin=true; auto r=ratOf(e->a[0]); side.push_back(v>=0);
      if(r->ok){ z3::expr n=polyZ(r->num); if(r->den.empty()) side.push_back(v*v==n); else side.push_back(v*v*denPoly(*r,false)==n); }
      else side.push_back(v*v==dag(e->a[0])); }
    else if(e->op==Op::RIte){ z3::expr k=b(e->a[0]); defIte(e,v,k); }
    else if(e->op==Op::RUf){ 
      if(e->name=="sin"||e->name=="cos"){ Expr* s=ruf("sin",e->a),*k=ruf("cos",e->a); if(defd.insert(s->id).second){ nonlin=true; z3::expr zs=atom(s),zk=atom(k); side.push_back(zs*zs+zk*zk==1); side.push_back(zs<=1&&zs>=-1&&zk<=1&&zk>=-1);
          // elementary sound bounds
          Expr* x=e->a[0]; z3::expr zx=dag(x); side.push_back(z3::implies(zx>=0, zs<=zx)); side.push_back(z3::implies(zx<=0, zs>=zx));
          side.push_back(z3::implies(zx>0 && zx<=num(mpq_class("31415/10000")), zs>0)); side.push_back(z3::implies(zx<0 && zx>=num(mpq_class("-31415/10000")), zs<0));
          side.push_back(z3::implies(zx>=num(mpq_class("-15707/10000")) && zx<=num(mpq_class("15707/10000")), zk>0));
          side.push_back(z3::implies(zx==0, zs==0&&zk==1));
          side.push_back(2*(1-zk)<=zx*zx);
        } }
      else if(e->name=="acos"){ side.push_back(v>=0 && v<=num(mpq_class("31416/10000"))); z3::expr w=dag(e->a[0]); side.push_back(z3::implies(w==1, v==0)); side.push_back(z3::implies(w<1, v>0)); side.push_back(z3::implies(w>=0, v<=num(mpq_class("15708/10000")))); }
      else if(e->name=="exp"){ side.push_back(v>0); }
    }
    else if(e->op==Op::RDiv||e->op==Op::RAdd||e->op==Op::RMul||e->op==Op::RNeg) { side.push_back(v==dag(e)); }
    return v;
  }
  void defIte(Expr* e,z3::expr v,z3::expr k){
    auto one=[&](Expr* x,bool pos){ auto r=ratOf(x); z3::expr eq(c); if(r->ok){ z3::expr n=polyZ(r->num); if(r->den.empty()) eq=(v==n); else if(abs) return; else { eq=(v*denPoly(*r,false)==n); nonlin=true; } } else eq=(v==dag(x)); side.push_back(z3::implies(pos?k:!k,eq)); };
    one(e->a[1],true); one(e->a[2],false);
  }
  std::unordered_map<uint32_t,z3::expr> dz;
  z3::expr dag(Expr* e){
    auto it=dz.find(e->id); if(it!=dz.end()) return it->second;
    z3::expr r(c);
    switch(e->op){
      case Op::RConst: r=num(e->q); break;
      case Op::RAdd: r=dag(e->a[0])+dag(e->a[1]); break;
      case Op::RNeg: r=-dag(e->a[0]); break;
      case Op::RMul: if(abs&&!isRC(e->a[0])){ r=c.real_const(("mu!"+std::to_string(e->id)).c_str()); break; } if(!isRC(e->a[0])) nonlin=true; r=dag(e->a[0])*dag(e->a[1]); break;
      case Op::RDiv: if(abs){ r=c.real_const(("dv!"+std::to_string(e->id)).c_str()); break; } { nonlin=true; r=c.real_const(("dv!"+std::to_string(e->id)).c_str()); dz.emplace(e->id,r); side.push_back(r*dag(e->a[1])==dag(e->a[0])); return r; }
      default: r=atom(e);
    }
    dz.emplace(e->id,r); return r;
  }
  z3::expr cmp(Expr* e){
    Expr* d=rsub(e->a[0],e->a[1]); auto r=ratOf(d);
    z3::expr z(c),zero=c.real_val(0);
    if(r->ok&&abs&&!r->den.empty()&&e->op!=Op::REq){ Poly q=r->num; bool ok=true; for(auto& f:r->den) if(f.second&1){ q=polyMul(q,PT.factors[f.first],ok); if(!ok) break; } if(!ok) return c.bool_const(("cmp!"+std::to_string(e->id)).c_str()); z=polyZ(q); }
    else if(r->ok){ z=polyZ(r->num); if(!r->den.empty()&&e->op!=Op::REq){ z3::expr dp=denPoly(*r,true); bool one=true; for(auto& f:r->den) if(f.second&1) one=false; if(!one){ z=z*dp; nonlin=true; } } }
    else z=dag(e->a[0])-dag(e->a[1]);
    if(e->op==Op::RLt) return z<zero; if(e->op==Op::RLe) return z<=zero; return z==zero;
  }
  std::unordered_map<uint32_t,z3::expr> bz;
  z3::expr b(Expr* e){
    auto it=bz.find(e->id); if(it!=bz.end()) return it->second; z3::expr r(c);
    switch(e->op){
      case Op::BConst: r=c.bool_val((bool)e->u); break;
      case Op::BVar: r=c.bool_const((e->name+"!"+std::to_string(e->id)).c_str()); vars.push_back(e); break;
      case Op::BNot: r=!b(e->a[0]); break; case Op::BAnd: r=b(e->a[0])&&b(e->a[1]); break; case Op::BOr: r=b(e->a[0])||b(e->a[1]); break;
      case Op::RLt: case Op::RLe: case Op::REq: r=cmp(e); break;
      case Op::VEq: r=v(e->a[0])==v(e->a[1]); break; case Op::VUlt: r=z3::ult(v(e->a[0]),v(e->a[1])); break; case Op::VUle: r=z3::ule(v(e->a[0]),v(e->a[1])); break;
      case Op::VSlt: r=z3::slt(v(e->a[0]),v(e->a[1])); break; case Op::VSle: r=z3::sle(v(e->a[0]),v(e->a[1])); break;
      default: throw std::string("lower bool");
    }
    bz.emplace(e->id,r); return r;
  }
  z3::expr v(Expr* e){
    auto it=bz.find(e->id); if(it!=bz.end()) return it->second; z3::expr r(c); hasBV=true; unsigned w=e->w;
    auto A=[&](int i){ return v(e->a[i]); };
    switch(e->op){
      case Op::VConst: r=c.bv_val((uint64_t)e->u,w); break;
      case Op::VVar: r=c.bv_const((e->name+"!"+std::to_string(e->id)).c_str(),w); vars.push_back(e); break;
      case Op::VAdd: r=A(0)+A(1); break; case Op::VSub: r=A(0)-A(1); break; case Op::VMul: r=A(0)*A(1); break; case Op::VAnd: r=A(0)&A(1); break; case Op::VOr: r=A(0)|A(1); break; case Op::VXor: r=A(0)^A(1); break;
      case Op::VShl: r=z3::shl(A(0),A(1)); break; case Op::VLshr: r=z3::lshr(A(0),A(1)); break; case Op::VAshr: r=z3::ashr(A(0),A(1)); break;
      case Op::VUdiv: r=z3::udiv(A(0),A(1)); break; case Op::VSdiv: r=A(0)/A(1); break; case Op::VUrem: r=z3::urem(A(0),A(1)); break; case Op::VSrem: r=z3::srem(A(0),A(1)); break;
      case Op::VIte: r=z3::ite(b(e->a[0]),A(1),A(2)); break; case Op::VZext: r=z3::zext(A(0),w-e->a[0]->w); break; case Op::VSext: r=z3::sext(A(0),w-e->a[0]->w); break; case Op::VTrunc: r=A(0).extract(w-1,0); break;
      case Op::VConcat: r=z3::concat(A(0),A(1)); break;
      case Op::VDbits: r=c.bv_const(("dbits!"+std::to_string(e->id)).c_str(),64); break; // opaque
      default: throw std::string("lower bv");
    }
    bz.emplace(e->id,r); return r;
  }
};
static mpq_class parseNum(const std::string& s0){ // decimal or rational
  std::string s=s0; bool q=false; if(!s.empty()&&s.back()=='?'){ s.pop_back(); q=true; }
  auto dot=s.find('.'); if(dot==std::string::npos) return mpq_class(s);
  std::string d=s.substr(dot+1); std::string n=s.substr(0,dot)+d; bool neg=false; if(n[0]=='-'){ neg=true; n=n.substr(1);} size_t i=0; while(i+1<n.size()&&n[i]=='0') i++; n=n.substr(i);
  mpz_class z(n), p; mpz_ui_pow_ui(p.get_mpz_t(),10,d.size()); mpq_class r(z,p); r.canonicalize(); return neg?-r:r; }
struct CacheEnt { Res r; Model m; };
static std::unordered_map<std::string,CacheEnt> qcache;

Res smtCheck(const std::vector<Expr*>& cs0, Model* m, double tmo){
  std::vector<Expr*> cs;
  for(auto* e:cs0){ if(isFalse(e)){ SS.trivial++; return Res::Unsat; } if(!isTrue(e)) cs.push_back(e); }
  if(cs.empty()){ SS.trivial++; return Res::Sat; }
  std::sort(cs.begin(),cs.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  std::string key; for(auto*e:cs) key.append((const char*)&e->id,4);
  auto it=qcache.find(key); if(it!=qcache.end() && it->second.r!=Res::Unk){ SS.cached++; if(m&&it->second.r==Res::Sat) *m=it->second.m; return it->second.r; }
  double t0=nowS(); if(t0>gDeadline) return Res::Unk; tmo=std::min(tmo,std::max(0.2,gDeadline-t0));
  if(!C) C=new z3::context();
  SS.queries++; Res res=Res::Unk; Model mm;
  try {
    Low L(*C); z3::expr_vector fs(*C);
    for(auto*e:cs) fs.push_back(L.b(e));
    for(size_t i=0;i<L.side.size();i++) fs.push_back(L.side[i]);
    auto tryOne=[&](int kind,double t){
      if(t<=0) return; arm(t);
      try {
        z3::solver s(*C);
        if(kind==1){ s=z3::tactic(*C,"qfnra-nlsat").mk_solver(); }
        else if(kind==2){ s=z3::solver(*C,"QF_LRA"); }
        for(unsigned i=0;i<fs.size();i++) s.add(fs[i]);
        z3::check_result r=s.check(); disarm();
        if(r==z3::unsat) res=Res::Unsat;
        else if(r==z3::sat){ z3::model md=s.get_model(); 
          for(auto*x:L.vars){ if(x->sk==Sk::Real){ z3::expr v=md.eval(L.atom(x),true); std::string st; if(v.is_algebraic()) st=v.get_decimal_string(30); else { st=Z3_get_numeral_string(*C,v); } mpq_class q=parseNum(st); q.canonicalize(); mm.r[x->id]=q; }
            else if(x->sk==Sk::BV){ z3::expr v=md.eval(L.v(x),true); uint64_t u=0; if(Z3_get_numeral_uint64(*C,v,&u)) mm.v[x->id]=u; }
            else { z3::expr v=md.eval(L.b(x),true); mm.v[x->id]=v.is_true(); } }
          res=Res::Sat; }
      } catch(z3::exception& ex){ disarm(); if(getenv("SX_VERB")) fprintf(stderr,"z3: %s\n",ex.msg()); }
      disarm();
    };
    if(L.nonlin){ // linear abstraction first: enough whenever the facts on the path match syntactically
      Low A(*C,true); z3::expr_vector as(*C); for(auto*e:cs) as.push_back(A.b(e)); for(size_t i=0;i<A.side.size();i++) as.push_back(A.side[i]);
      arm(std::min(tmo*0.3,2.0)); try { z3::solver s=A.hasBV?z3::solver(*C):z3::solver(*C,"QF_LRA"); for(unsigned i=0;i<as.size();i++) s.add(as[i]); if(s.check()==z3::unsat) res=Res::Unsat; } catch(z3::exception&){} disarm(); }
    if(res==Res::Unsat){}
    else if(L.nonlin && !L.hasBV){ tryOne(1,std::min(tmo*0.5,5.0)); if(res==Res::Unk) tryOne(0,std::min(tmo*0.3,10.0)); if(res==Res::Unk&&tmo>10) tryOne(1,tmo-(nowS()-t0)); }
    else { tryOne(0,tmo); }
    double dt=nowS()-t0; 
    if(dt>gSlow && !gDumpDir.empty()){ static int k=0; std::string fn=gDumpDir+"/q"+std::to_string(getpid())+"_"+std::to_string(k++)+".smt2"; z3::solver s(*C); for(unsigned i=0;i<fs.size();i++) s.add(fs[i]); FILE*f=fopen(fn.c_str(),"w"); if(f){ fprintf(f,"; %g s res %d\n%s\n(check-sat)\n",dt,(int)res,s.to_smt2().c_str()); fclose(f);} }
  } catch(z3::exception& ex){ disarm(); if(getenv("SX_VERB")) fprintf(stderr,"z3 lower: %s\n",ex.msg()); } catch(std::string& s){ disarm(); if(getenv("SX_VERB")) fprintf(stderr,"lower: %s\n",s.c_str()); }
  SS.secs+=nowS()-t0; if(res==Res::Sat) SS.sat++; else if(res==Res::Unsat) SS.unsat++; else SS.unk++;
  qcache[key]={res,mm}; if(m&&res==Res::Sat) *m=mm;
  return res;
}
