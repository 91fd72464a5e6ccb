#include "expr.h"
ExprTab ET; PolyTab PT; size_t POLY_CAP = 4000;

static Expr* mkR(Op op, std::vector<Expr*> a){ return ET.mk(op, Sk::Real, 0, std::move(a)); }
static Expr* mkB(Op op, std::vector<Expr*> a){ return ET.mk(op, Sk::Bool, 0, std::move(a)); }

Expr* rneg(Expr* a){
  if(isRC(a)) return rconst(-a->q);
  if(a->op==Op::RNeg) return a->a[0];
  if(a->op==Op::RMul && isRC(a->a[0])) return rmul(rconst(-a->a[0]->q), a->a[1]);
  return mkR(Op::RNeg,{a});
}
Expr* radd(Expr* a, Expr* b){
  if(isRC(a)&&isRC(b)) return rconst(a->q+b->q);
  if(isRC(a)&&a->q==0) return b;
  if(isRC(b)&&b->q==0) return a;
  if(b->op==Op::RNeg && b->a[0]==a) return rconst(0);
  if(a->op==Op::RNeg && a->a[0]==b) return rconst(0);
  if(a->id>b->id) std::swap(a,b);
  return mkR(Op::RAdd,{a,b});
}
Expr* rmul(Expr* a, Expr* b){
  if(isRC(a)&&isRC(b)) return rconst(a->q*b->q);
  if(isRC(b)) std::swap(a,b);
  if(isRC(a)){ if(a->q==0) return a; if(a->q==1) return b; if(a->q==-1) return rneg(b);
    if(b->op==Op::RNeg) return rmul(rconst(-a->q), b->a[0]);
    if(b->op==Op::RMul && isRC(b->a[0])) return rmul(rconst(a->q*b->a[0]->q), b->a[1]);
    return mkR(Op::RMul,{a,b}); }
  if(a->op==Op::RNeg && b->op==Op::RNeg) return rmul(a->a[0],b->a[0]);
  if(a->op==Op::RNeg) return rneg(rmul(a->a[0],b));
  if(b->op==Op::RNeg) return rneg(rmul(a,b->a[0]));
  if(a==b && a->op==Op::RSqrt) return a->a[0];
  if(a->id>b->id) std::swap(a,b);
  return mkR(Op::RMul,{a,b});
}
Expr* rdiv(Expr* a, Expr* b){
  if(isRC(b)){ if(isRC(a)) return rconst(a->q/b->q); return rmul(rconst(1/b->q), a); }
  if(isRC(a)&&a->q==0) return a;
  if(a==b) return rconst(1);
  if(a->op==Op::RNeg) return rneg(rdiv(a->a[0],b));
  if(b->op==Op::RNeg) return rneg(rdiv(a,b->a[0]));
  return mkR(Op::RDiv,{a,b});
}
Expr* rite(Expr* c, Expr* a, Expr* b){
  if(isTrue(c)) return a; if(isFalse(c)) return b; if(a==b) return a;
  if(c->op==Op::BNot) return rite(c->a[0], b, a);
  return mkR(Op::RIte,{c,a,b});
}
Expr* rsqrt(Expr* a){ return mkR(Op::RSqrt,{a}); }
Expr* ruf(const std::string& n, std::vector<Expr*> a){ return ET.mk(Op::RUf, Sk::Real, 0, std::move(a), 0, nullptr, n); }
Expr* bnot(Expr* a){
  if(a->op==Op::BConst) return bconst(!a->u);
  if(a->op==Op::BNot) return a->a[0];
  if(a->op==Op::RLt) return rle(a->a[1],a->a[0]);
  if(a->op==Op::RLe) return rlt(a->a[1],a->a[0]);
  return mkB(Op::BNot,{a});
}
Expr* band(Expr* a, Expr* b){
  if(isFalse(a)||isFalse(b)) return bconst(false);
  if(isTrue(a)) return b; if(isTrue(b)) return a; if(a==b) return a;
  if(bnot(a)==b) return bconst(false);
  if(a->id>b->id) std::swap(a,b);
  return mkB(Op::BAnd,{a,b});
}
Expr* bor(Expr* a, Expr* b){
  if(isTrue(a)||isTrue(b)) return bconst(true);
  if(isFalse(a)) return b; if(isFalse(b)) return a; if(a==b) return a;
  if(bnot(a)==b) return bconst(true);
  if(a->id>b->id) std::swap(a,b);
  return mkB(Op::BOr,{a,b});
}
// canonical form of (a-b) ? 0 : try to decide constants via normal form
static int cmpConst(Expr* a, Expr* b, mpq_class& d){ // returns 1 if a-b is a constant d
  if(isRC(a)&&isRC(b)){ d=a->q-b->q; return 1; }
  if(a==b){ d=0; return 1; }
  auto ra=ratOf(a), rb=ratOf(b);
  if(!ra->ok||!rb->ok) return 0;
  auto r=ratOf(rsub(a,b));
  if(!r->ok) return 0;
  if(r->num.empty()){ d=0; return 1; }
  if(r->den.empty() && r->num.size()==1 && r->num.begin()->first.empty()){ d=r->num.begin()->second; return 1; }
  return 0;
}
Expr* rlt(Expr* a, Expr* b){ mpq_class d; if(cmpConst(a,b,d)) return bconst(d<0); return mkB(Op::RLt,{a,b}); }
Expr* rle(Expr* a, Expr* b){ mpq_class d; if(cmpConst(a,b,d)) return bconst(d<=0); return mkB(Op::RLe,{a,b}); }
Expr* req(Expr* a, Expr* b){ mpq_class d; if(cmpConst(a,b,d)) return bconst(d==0); if(a->id>b->id) std::swap(a,b); return mkB(Op::REq,{a,b}); }

static uint64_t foldV(Op op,uint64_t x,uint64_t y,int w,bool& ok){
  ok=true; uint64_t m=maskw(w);
  switch(op){
    case Op::VAdd: return (x+y)&m; case Op::VSub: return (x-y)&m; case Op::VMul: return (x*y)&m;
    case Op::VAnd: return x&y; case Op::VOr: return x|y; case Op::VXor: return x^y;
    case Op::VShl: return y>=(uint64_t)w?0:(x<<y)&m; case Op::VLshr: return y>=(uint64_t)w?0:(x>>y);
    case Op::VAshr: { int64_t s=sx64(x,w); return (uint64_t)(s>>(y>=(uint64_t)w?w-1:y))&m; }
    case Op::VUdiv: if(!y){ok=false;return 0;} return x/y; case Op::VUrem: if(!y){ok=false;return 0;} return x%y;
    case Op::VSdiv: if(!y){ok=false;return 0;} if(sx64(y,w)==-1) return (0-x)&m; return (uint64_t)(sx64(x,w)/sx64(y,w))&m;
    case Op::VSrem: if(!y){ok=false;return 0;} if(sx64(y,w)==-1) return 0; return (uint64_t)(sx64(x,w)%sx64(y,w))&m;
    default: ok=false; return 0;
  }
}
static Expr* dbitsSign(Expr* a){ return a; }
Expr* vbin(Op op, Expr* a, Expr* b){
  int w=a->w; bool ok;
  if(isVC(a)&&isVC(b)){ uint64_t r=foldV(op,a->u,b->u,w,ok); if(ok) return vconst(r,w); }
  if(isVC(a) && (op==Op::VAdd||op==Op::VMul||op==Op::VAnd||op==Op::VOr||op==Op::VXor)) std::swap(a,b);
  if(isVC(b)){
    uint64_t c=b->u;
    if(c==0 && (op==Op::VAdd||op==Op::VSub||op==Op::VOr||op==Op::VXor||op==Op::VShl||op==Op::VLshr||op==Op::VAshr)) return a;
    if(c==0 && (op==Op::VMul||op==Op::VAnd)) return b;
    if(c==1 && op==Op::VMul) return a;
    if(c==maskw(w) && op==Op::VAnd) return a;
    if(a->op==Op::VDbits && w==64){
      if(op==Op::VAnd && c==0x7fffffffffffffffull){ Expr* x=a->a[0]; return vdbits(rite(rlt(x,rconst(0)),rneg(x),x)); }
      if(op==Op::VXor && c==0x8000000000000000ull) return vdbits(rneg(a->a[0]));
      if(op==Op::VOr && c==0x8000000000000000ull){ Expr* x=a->a[0]; return vdbits(rite(rlt(x,rconst(0)),x,rneg(x))); }
      if(op==Op::VAnd && c==0x8000000000000000ull) return vite(rlt(a->a[0],rconst(0)), vconst(c,64), vconst(0,64));
      if(op==Op::VLshr && c==63) return vite(rlt(a->a[0],rconst(0)), vconst(1,64), vconst(0,64));
    }
    if(op==Op::VAdd && a->op==Op::VAdd && isVC(a->a[1])) return vbin(Op::VAdd,a->a[0],vconst(a->a[1]->u+c,w));
    if(op==Op::VSub) return vbin(Op::VAdd,a,vconst(0-c,w));
    // push ops with constants through ite of constants
    if(a->op==Op::VIte && isVC(a->a[1]) && isVC(a->a[2])) return vite(a->a[0], vbin(op,a->a[1],b), vbin(op,a->a[2],b));
  }
  if(a==b){ if(op==Op::VSub||op==Op::VXor) return vconst(0,w); if(op==Op::VAnd||op==Op::VOr) return a; }
  if(a->op==Op::VIte&&b->op==Op::VIte&&isVC(a->a[1])&&isVC(a->a[2])&&isVC(b->a[1])&&isVC(b->a[2])
     &&(op==Op::VAnd||op==Op::VOr||op==Op::VXor)&&a->a[1]->u==1&&a->a[2]->u==0&&b->a[1]->u==1&&b->a[2]->u==0){
    Expr* p=a->a[0],*q=b->a[0];
    Expr* r= op==Op::VAnd?band(p,q): op==Op::VOr?bor(p,q): bor(band(p,bnot(q)),band(bnot(p),q));
    return vite(r,vconst(1,w),vconst(0,w));
  }
  return ET.mk(op,Sk::BV,w,{a,b});
}
Expr* vcmp(Op op, Expr* a, Expr* b){
  int w=a->w;
  if(isVC(a)&&isVC(b)){
    switch(op){case Op::VEq:return bconst(a->u==b->u);case Op::VUlt:return bconst(a->u<b->u);case Op::VUle:return bconst(a->u<=b->u);
      case Op::VSlt:return bconst(sx64(a->u,w)<sx64(b->u,w));case Op::VSle:return bconst(sx64(a->u,w)<=sx64(b->u,w));default:break;}
  }
  if(a==b) return bconst(op==Op::VEq||op==Op::VUle||op==Op::VSle);
  if(isVC(b)&&a->op==Op::VIte&&(isVC(a->a[1])||isVC(a->a[2]))){
    Expr* t=vcmp(op,a->a[1],b), *f=vcmp(op,a->a[2],b);
    return bor(band(a->a[0],t),band(bnot(a->a[0]),f));
  }
  if(isVC(a)&&b->op==Op::VIte&&(isVC(b->a[1])||isVC(b->a[2]))){
    Expr* t=vcmp(op,a,b->a[1]), *f=vcmp(op,a,b->a[2]);
    return bor(band(b->a[0],t),band(bnot(b->a[0]),f));
  }
  if(w==64 && a->op==Op::VDbits && isVC(b)){
    Expr* x=a->a[0];
    if(op==Op::VSlt && b->u==0) return rlt(x,rconst(0));
    if(op==Op::VEq && b->u==0) return req(x,rconst(0));
  }
  if(w==64 && b->op==Op::VDbits && isVC(a)){
    Expr* x=b->a[0];
    if(op==Op::VSlt && a->u==~0ull) return rle(rconst(0),x);
    if(op==Op::VEq && a->u==0) return req(x,rconst(0));
  }
  if(op==Op::VEq&&a->op==Op::VDbits&&b->op==Op::VDbits) return req(a->a[0],b->a[0]);
  if((op==Op::VEq)&&(a->op==Op::VZext||a->op==Op::VSext)&&isVC(b)){
    Expr* in=a->a[0]; Expr* t=vconst(b->u,in->w); Expr* back=a->op==Op::VZext?vzext(t,w):vsext(t,w);
    if(back->u!=b->u) return bconst(false); return vcmp(Op::VEq,in,t);
  }
  if(op==Op::VEq&&a->id>b->id) std::swap(a,b);
  return ET.mk(op,Sk::Bool,0,{a,b});
}
Expr* vite(Expr* c, Expr* a, Expr* b){
  if(isTrue(c)) return a; if(isFalse(c)) return b; if(a==b) return a;
  if(c->op==Op::BNot) return vite(c->a[0],b,a);
  if(a->op==Op::VDbits&&b->op==Op::VDbits) return vdbits(rite(c,a->a[0],b->a[0]));
  return ET.mk(Op::VIte,Sk::BV,a->w,{c,a,b});
}
Expr* vzext(Expr* a,int w){ if(a->w==w) return a; if(isVC(a)) return vconst(a->u,w);
  if(a->op==Op::VZext) return vzext(a->a[0],w);
  if(a->op==Op::VIte&&isVC(a->a[1])&&isVC(a->a[2])) return vite(a->a[0],vzext(a->a[1],w),vzext(a->a[2],w));
  return ET.mk(Op::VZext,Sk::BV,w,{a}); }
Expr* vsext(Expr* a,int w){ if(a->w==w) return a; if(isVC(a)) return vconst((uint64_t)sx64(a->u,a->w),w);
  if(a->op==Op::VSext) return vsext(a->a[0],w);
  if(a->op==Op::VIte&&isVC(a->a[1])&&isVC(a->a[2])) return vite(a->a[0],vsext(a->a[1],w),vsext(a->a[2],w));
  return ET.mk(Op::VSext,Sk::BV,w,{a}); }
Expr* vtrunc(Expr* a,int w){ if(a->w==w) return a; if(isVC(a)) return vconst(a->u,w);
  if(a->op==Op::VZext||a->op==Op::VSext){ Expr* in=a->a[0]; if(in->w>=w) return vtrunc(in,w); return a->op==Op::VZext?vzext(in,w):vsext(in,w); }
  if(a->op==Op::VIte) return vite(a->a[0],vtrunc(a->a[1],w),vtrunc(a->a[2],w));
  return ET.mk(Op::VTrunc,Sk::BV,w,{a}); }
Expr* vdbits(Expr* r){ if(isRC(r)){ double d=r->q.get_d(); if(mpq_class(d)==r->q){ uint64_t u; memcpy(&u,&d,8); return vconst(u,64);} }
  return ET.mk(Op::VDbits,Sk::BV,64,{r}); }
Expr* boolToBV(Expr* b,int w){ return vite(b,vconst(1,w),vconst(0,w)); }
Expr* bvToBool(Expr* v){ return bnot(vcmp(Op::VEq,v,vconst(0,v->w))); }

// ---------------------------------------------------------------- polynomials
static bool isUfNamed(Expr* e,const char* n){ return e->op==Op::RUf && e->name==n; }
static Mono monoMul(const Mono& a,const Mono& b){
  Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
  while(i<a.size()||j<b.size()){
    if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]);
    else if(i>=a.size()||b[j].first<a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first,(uint16_t)(a[i].second+b[j].second)}); i++; j++; }
  }
  return r;
}
static void polyAddTo(Poly& r,const Poly& b,const mpq_class& k=1){
  for(auto& t:b){ auto it=r.find(t.first); if(it==r.end()) r.emplace(t.first,t.second*k); else { it->second+=t.second*k; if(it->second==0) r.erase(it);} }
}
Poly polyMul(const Poly& a,const Poly& b,bool& ok){
  Poly r; if(a.size()*b.size()>POLY_CAP*40){ ok=false; return r; }
  for(auto& x:a) for(auto& y:b){ Mono m=monoMul(x.first,y.first); mpq_class c=x.second*y.second;
    auto it=r.find(m); if(it==r.end()) r.emplace(std::move(m),c); else { it->second+=c; if(it->second==0) r.erase(it);} }
  if(r.size()>POLY_CAP) ok=false;
  return r;
}
static Poly polyConst(const mpq_class& c){ Poly p; if(c!=0) p[Mono()]=c; return p; }
static Poly polyAtom(Expr* e){ Poly p; p[Mono{{e->id,1}}]=1; return p; }
// order for division: compare total degree then lex; use leading term = max
static int deg(const Mono& m){ int d=0; for(auto& x:m) d+=x.second; return d; }
static bool monoLess(const Mono&a,const Mono&b){ int da=deg(a),db=deg(b); if(da!=db) return da<db;
  // lex on smallest atom id first: higher exponent of smaller id is larger
  size_t i=0; for(;i<a.size()&&i<b.size();i++){ if(a[i].first!=b[i].first) return a[i].first>b[i].first; if(a[i].second!=b[i].second) return a[i].second<b[i].second; }
  return a.size()<b.size(); }
static Poly::const_iterator lead(const Poly& p){ auto best=p.begin(); for(auto it=p.begin();it!=p.end();++it) if(monoLess(best->first,it->first)) best=it; return best; }
static bool monoDiv(const Mono& a,const Mono& b,Mono& r){ r.clear(); size_t j=0; for(size_t i=0;i<a.size();i++){ 
    if(j<b.size()&&b[j].first<a[i].first) return false;
    if(j<b.size()&&b[j].first==a[i].first){ if(b[j].second>a[i].second) return false; if(a[i].second>b[j].second) r.push_back({a[i].first,(uint16_t)(a[i].second-b[j].second)}); j++; }
    else r.push_back(a[i]); }
  return j==b.size(); }
static bool polyExactDiv(const Poly& a,const Poly& b,Poly& q){
  if(b.empty()) return false; q.clear(); Poly r=a; auto lb=lead(b); Mono m; int steps=0;
  while(!r.empty()){ if(++steps>400) return false; auto lr=lead(r); if(!monoDiv(lr->first,lb->first,m)) return false; mpq_class c=lr->second/lb->second;
    q[m]=c; Poly t; for(auto& x:b) t[monoMul(x.first,m)]=x.second; polyAddTo(r,t,-c); }
  return true; }
static std::string polyKey(const Poly& p){ std::string s; for(auto& t:p){ for(auto& v:t.first){ s.append((const char*)&v.first,4); s.append((const char*)&v.second,2);} s+=':'; s+=t.second.get_str(); s+=';'; } return s; }
// normalise scale: make leading (map-first) coeff 1
static uint32_t factorIndex(const Poly& p0,mpq_class& scale){
  scale=p0.rbegin()->second; Poly p; for(auto& t:p0) p[t.first]=t.second/scale;
  std::string k=polyKey(p); auto it=PT.fidx.find(k); if(it!=PT.fidx.end()) return it->second;
  PT.factors.push_back(p); uint32_t i=PT.factors.size()-1; PT.fidx[k]=i; return i; }

static Rat ratAdd(const Rat& a,const Rat& b); static Rat ratMul(const Rat& a,const Rat& b);
static void cancel(Rat& r){
  if(!r.ok) return; if(r.num.empty()){ r.den.clear(); return; }
  if(r.num.size()>300) return;
  for(auto it=r.den.begin();it!=r.den.end();){ bool erased=false; while(it->second>0){ Poly q; if(!polyExactDiv(r.num,PT.factors[it->first],q)) break; r.num=std::move(q); it->second--; }
    if(it->second==0){ it=r.den.erase(it); erased=true; } if(!erased) ++it; }
}
static bool reducible(const Mono& m){ for(auto& v:m) if(v.second>=2){ Expr* e=ET.all[v.first]; if(e->op==Op::RSqrt||isUfNamed(e,"cos")) return true; } return false; }
static Rat ratPow(const Rat& b,int n){ Rat r; r.num=polyConst(1); for(int i=0;i<n;i++) r=ratMul(r,b); return r; }
static Rat reduceRat(Rat r){
  if(!r.ok) return r;
  bool any=false; for(auto& t:r.num) if(reducible(t.first)){ any=true; break; }
  if(!any) return r;
  Rat acc; Poly keep; bool ok=true;
  std::vector<Rat> parts;
  for(auto& t:r.num){
    if(!reducible(t.first)){ keep[t.first]=t.second; continue; }
    Mono rest; Rat f; f.num=polyConst(t.second);
    for(auto& v:t.first){ Expr* e=ET.all[v.first];
      if(v.second>=2 && e->op==Op::RSqrt){ if(v.second&1) rest.push_back({v.first,1}); auto x=ratOf(e->a[0]); if(!x->ok){ ok=false; break; } f=ratMul(f,ratPow(*x,v.second/2)); }
      else if(v.second>=2 && isUfNamed(e,"cos")){ if(v.second&1) rest.push_back({v.first,1}); Rat om; om.num=polyConst(1); Expr* s=ruf("sin",e->a); Poly ss; ss[Mono{{s->id,2}}]=-1; polyAddTo(om.num,ss); f=ratMul(f,ratPow(om,v.second/2)); }
      else rest.push_back(v);
    }
    if(!ok) break;
    Poly pr; pr[rest]=1; Rat rr; rr.num=pr; f=ratMul(f,rr); if(!f.ok){ ok=false; break; }
    parts.push_back(f);
  }
  if(!ok){ r.ok=false; return r; }
  acc.num=keep; for(auto& p:parts){ acc=ratAdd(acc,p); if(!acc.ok) return acc; }
  for(auto& d:r.den) acc.den[d.first]+=d.second;
  cancel(acc);
  return reduceRat(acc);
}
static Rat ratAdd(const Rat& a,const Rat& b){
  Rat r; if(!a.ok||!b.ok){ r.ok=false; return r; }
  if(a.num.empty()) return b; if(b.num.empty()) return a;
  std::map<uint32_t,int> l=a.den; for(auto& d:b.den){ int& x=l[d.first]; x=std::max(x,d.second); }
  auto lift=[&](const Rat& x){ Poly p=x.num; for(auto& d:l){ auto it=x.den.find(d.first); int e=d.second-(it==x.den.end()?0:it->second); for(int i=0;i<e;i++){ p=polyMul(p,PT.factors[d.first],r.ok); if(!r.ok) return p; } } return p; };
  if(l.empty()){ r.num=a.num; polyAddTo(r.num,b.num); if(r.num.size()>POLY_CAP) r.ok=false; return r; }
  Poly pa=lift(a); if(!r.ok) return r; Poly pb=lift(b); if(!r.ok) return r; polyAddTo(pa,pb); r.num=std::move(pa); r.den=l; cancel(r);
  return reduceRat(r);
}
static Rat ratMul(const Rat& a,const Rat& b){
  Rat r; if(!a.ok||!b.ok){ r.ok=false; return r; }
  r.num=polyMul(a.num,b.num,r.ok); if(!r.ok) return r; r.den=a.den; for(auto& d:b.den) r.den[d.first]+=d.second;
  if(!r.den.empty()) cancel(r);
  return reduceRat(r);
}
static Rat ratInv(const Rat& a){
  Rat r; if(!a.ok||a.num.empty()){ r.ok=false; return r; }
  r.num=polyConst(1); for(auto& d:a.den) for(int i=0;i<d.second;i++){ r.num=polyMul(r.num,PT.factors[d.first],r.ok); if(!r.ok) return r; }
  if(a.num.size()==1){ // monomial: factor into atoms
    auto& t=*a.num.begin(); for(auto& x:r.num) x.second/=t.second;
    for(auto& v:t.first){ Poly p; p[Mono{{v.first,1}}]=1; mpq_class s; uint32_t fi=factorIndex(p,s); r.den[fi]+=v.second; }
  } else { mpq_class s; uint32_t fi=factorIndex(a.num,s); for(auto& x:r.num) x.second/=s; r.den[fi]+=1; }
  cancel(r); return reduceRat(r);
}
std::shared_ptr<Rat> ratOf(Expr* e){
  auto it=PT.cache.find(e->id); if(it!=PT.cache.end()) return it->second;
  auto r=std::make_shared<Rat>();
  switch(e->op){
    case Op::RConst: r->num=polyConst(e->q); break;
    case Op::RAdd: *r=ratAdd(*ratOf(e->a[0]),*ratOf(e->a[1])); break;
    case Op::RNeg: { *r=*ratOf(e->a[0]); for(auto& t:r->num) t.second=-t.second; break; }
    case Op::RMul: *r=ratMul(*ratOf(e->a[0]),*ratOf(e->a[1])); break;
    case Op::RDiv: *r=ratMul(*ratOf(e->a[0]),ratInv(*ratOf(e->a[1]))); break;
    default: r->num=polyAtom(e); break;
  }
  PT.cache[e->id]=r; return r;
}
const std::vector<uint32_t>& leafVars(Expr* e){
  if(e->vars) return *e->vars;
  auto* v=new std::vector<uint32_t>();
  if(e->op==Op::RVar||e->op==Op::BVar||e->op==Op::VVar) v->push_back(e->id);
  for(auto* x:e->a){ auto& y=leafVars(x); std::vector<uint32_t> m; std::set_union(v->begin(),v->end(),y.begin(),y.end(),std::back_inserter(m)); v->swap(m); }
  e->vars=v; return *v;
}
double evalD(Expr* e,const std::unordered_map<uint32_t,double>& m,std::unordered_map<uint32_t,double>& c){
  auto it=c.find(e->id); if(it!=c.end()) return it->second;
  double r=NAN; auto E=[&](int i){ return evalD(e->a[i],m,c); };
  auto U=[&](int i){ return (uint64_t)(int64_t)E(i); };
  switch(e->op){
    case Op::RConst: r=e->q.get_d(); break;
    case Op::RVar: case Op::BVar: { auto f=m.find(e->id); r=f==m.end()?0:f->second; break; }
    case Op::RAdd: r=E(0)+E(1); break; case Op::RMul: r=E(0)*E(1); break; case Op::RNeg: r=-E(0); break; case Op::RDiv: r=E(0)/E(1); break;
    case Op::RIte: case Op::VIte: { double k=E(0); r=std::isnan(k)?NAN:(k!=0?E(1):E(2)); break; }
    case Op::RSqrt: r=std::sqrt(E(0)); break;
    case Op::BConst: r=e->u; break; case Op::BNot: { double k=E(0); r=std::isnan(k)?NAN:!k; break; }
    case Op::BAnd: { double a=E(0),b=E(1); if(a==0||b==0) r=0; else r=(std::isnan(a)||std::isnan(b))?NAN:1; break; }
    case Op::BOr: { double a=E(0),b=E(1); if(a==1||b==1) r=1; else r=(std::isnan(a)||std::isnan(b))?NAN:0; break; }
    case Op::RLt: case Op::RLe: { double a=E(0),b=E(1); double d=b-a; if(std::isnan(d)||std::fabs(d)<1e-7*(1+std::fabs(a)+std::fabs(b))) r=NAN; else r=d>0; break; }
    case Op::REq: { double a=E(0),b=E(1); double d=b-a; if(std::isnan(d)||std::fabs(d)<1e-7*(1+std::fabs(a)+std::fabs(b))) r=NAN; else r=0; break; }
    default: r=NAN; // bit-vectors: not evaluated numerically
  }
  c[e->id]=r; return r;
}
std::string estr(Expr* e,int d){
  static const char* n[]={"c","r","+","*","-","/","ite","sqrt","uf","b","bv","not","and","or","<","<=","=","v=","u<","u<=","s<","s<=","iff","vc","v","v+","v-","v*","v&","v|","v^","shl","lshr","ashr","udiv","sdiv","urem","srem","vite","zext","sext","trunc","concat","dbits"};
  if(e->op==Op::RConst){ return std::to_string(e->q.get_d()); }
  if(e->op==Op::VConst||e->op==Op::BConst) return std::to_string(e->u);
  if(e->op==Op::RVar||e->op==Op::BVar||e->op==Op::VVar) return e->name;
  if(d<=0) return "..";
  std::string s="("; s+=n[(int)e->op]; if(e->op==Op::RUf) s+=":"+e->name; for(auto*x:e->a){ s+=" "; s+=estr(x,d-1);} return s+")";
}
