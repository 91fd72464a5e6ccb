// Hash-consed symbolic expressions + rational-function normal form.
#pragma once
#include <gmpxx.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <functional>

enum class Op : uint8_t {
  // Real
  RConst, RVar, RAdd, RMul, RNeg, RDiv, RIte, RSqrt, RUf,
  // Bool
  BConst, BVar, BNot, BAnd, BOr, RLt, RLe, REq, VEq, VUlt, VUle, VSlt, VSle, BIff,
  // bit-vectors
  VConst, VVar, VAdd, VSub, VMul, VAnd, VOr, VXor, VShl, VLshr, VAshr, VUdiv, VSdiv, VUrem, VSrem,
  VIte, VZext, VSext, VTrunc, VConcat, VDbits
};
enum class Sk : uint8_t { Bool, Real, BV };

struct Expr {
  Op op; Sk sk; uint8_t w = 0;
  uint32_t id = 0;
  std::vector<Expr*> a;
  mpq_class q;          // RConst
  uint64_t u = 0;       // VConst / BConst / var index
  std::string name;     // vars, RUf name
  bool hasUf = false;
  std::vector<uint32_t> *vars = nullptr; // lazily: sorted leaf variable ids (expr ids of leaves)
};

struct KeyHash { size_t operator()(const std::string& s) const { return std::hash<std::string>()(s);} };

struct ExprTab {
  std::unordered_map<std::string, Expr*> tab;
  std::vector<Expr*> all;
  Expr* mk(Op op, Sk sk, int w, std::vector<Expr*> a, uint64_t u = 0, const mpq_class* q = nullptr, const std::string& name = "") {
    std::string k; k.reserve(32 + a.size()*4);
    k.push_back((char)op); k.push_back((char)w); k.push_back((char)sk);
    for (auto* e : a) k.append((const char*)&e->id, 4);
    if (op==Op::VConst||op==Op::BConst||op==Op::RVar||op==Op::BVar||op==Op::VVar) k.append((const char*)&u, 8);
    if (q) k += q->get_str();
    k += '|'; k += name;
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr* e = new Expr; e->op=op; e->sk=sk; e->w=w; e->a=std::move(a); e->u=u; if(q) e->q=*q; e->name=name;
    e->id = all.size(); e->hasUf = (op==Op::RUf);
    for (auto* x : e->a) e->hasUf |= x->hasUf;
    all.push_back(e); tab.emplace(std::move(k), e);
    return e;
  }
};
extern ExprTab ET;

inline Expr* rconst(const mpq_class& q){ return ET.mk(Op::RConst, Sk::Real, 0, {}, 0, &q); }
inline Expr* rconstd(double d){ mpq_class q(d); return rconst(q); }
inline bool isRC(Expr* e){ return e->op==Op::RConst; }
inline Expr* bconst(bool b){ return ET.mk(Op::BConst, Sk::Bool, 0, {}, b); }
inline bool isTrue(Expr* e){ return e->op==Op::BConst && e->u; }
inline bool isFalse(Expr* e){ return e->op==Op::BConst && !e->u; }
inline uint64_t maskw(int w){ return w>=64? ~0ull : ((1ull<<w)-1); }
inline Expr* vconst(uint64_t v,int w){ return ET.mk(Op::VConst, Sk::BV, w, {}, v & maskw(w)); }
inline bool isVC(Expr* e){ return e->op==Op::VConst; }
inline int64_t sx64(uint64_t v,int w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }

Expr* radd(Expr*,Expr*); Expr* rmul(Expr*,Expr*); Expr* rneg(Expr*); Expr* rdiv(Expr*,Expr*);
inline Expr* rsub(Expr* a, Expr* b){ return radd(a, rneg(b)); }
Expr* rite(Expr* c, Expr* a, Expr* b); Expr* rsqrt(Expr*); Expr* ruf(const std::string& n, std::vector<Expr*> a);
Expr* bnot(Expr*); Expr* band(Expr*,Expr*); Expr* bor(Expr*,Expr*);
Expr* rlt(Expr*,Expr*); Expr* rle(Expr*,Expr*); Expr* req(Expr*,Expr*);
Expr* vbin(Op,Expr*,Expr*); Expr* vcmp(Op,Expr*,Expr*); Expr* vite(Expr*,Expr*,Expr*);
Expr* vzext(Expr*,int w); Expr* vsext(Expr*,int w); Expr* vtrunc(Expr*,int w); Expr* vdbits(Expr*);
Expr* boolToBV(Expr* b,int w);
Expr* bvToBool(Expr* v); // nonzero low bit of w==1-like or generic !=0

// ---------- polynomials over atoms (Real-sorted leaf expressions) ----------
typedef std::vector<std::pair<uint32_t,uint16_t>> Mono; // (atom expr id, exponent) sorted
struct MonoCmp { bool operator()(const Mono&a,const Mono&b) const { // lex by atoms, graded for division termination
    return a<b; } };
typedef std::map<Mono,mpq_class> Poly;
struct Rat { Poly num; std::map<uint32_t,int> den; bool ok=true; }; // den: factor index -> exponent
extern size_t POLY_CAP;
struct PolyTab {
  std::vector<Poly> factors; std::map<std::string,uint32_t> fidx;
  std::unordered_map<uint32_t,std::shared_ptr<Rat>> cache;
};
extern PolyTab PT;
std::shared_ptr<Rat> ratOf(Expr* e); // may have ok=false
Poly polyMul(const Poly&,const Poly&,bool& ok);
const std::vector<uint32_t>& leafVars(Expr* e);
double evalD(Expr* e, const std::unordered_map<uint32_t,double>& m, std::unordered_map<uint32_t,double>& cache);
std::string estr(Expr* e,int depth=6);
