"""Symbolic execution of the repository's Python code: the real functions run on object arrays whose elements are
rational functions over real variables and transcendental atoms; truth tests fork (by re-execution), every assertion
is an SMT query over the path condition.  usage: pysx.py HARNESS ENTRY OUT.json BUDGET TA [REPLAY.json]"""
import builtins, json, math, os, random, re, sys, time, types, traceback
from fractions import Fraction as Fr
import numpy as np
import z3

REPO = os.environ.get("SX_REPO", "/repo")
MODE = "sym"


class Abort(BaseException): pass          # path given up
class Infeasible(BaseException): pass
class Done(BaseException): pass           # path ends (violation recorded)


# ------------------------------------------------------------------ polynomials over atoms
ATOMS = []; ATOMKEY = {}


class Atom:
    def __init__(s, kind, name, key):
        s.kind, s.name, s.key, s.sq, s.nonneg, s.lo, s.hi, s.side, s.id = kind, name, key, None, False, None, None, [], len(ATOMS)
        s.z = z3.Real("a%d" % s.id); s.val = None


def atom(kind, name, key):
    k = (kind, key)
    if k in ATOMKEY: return ATOMKEY[k], False
    a = Atom(kind, name, key); ATOMS.append(a); ATOMKEY[k] = a
    return a, True


def fr(x):
    if isinstance(x, Fr): return x
    if isinstance(x, (bool, np.bool_)): return Fr(int(x))
    if isinstance(x, (int, np.integer)): return Fr(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf): raise Abort("non-finite constant")
        return Fr(x)
    raise TypeError("not a number: %r" % (x,))


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + c * v
        if w: r[m] = w
        else: r.pop(m, None)
    return r


def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for i, e in b: d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


LIMIT = 60000


def pmul(p, q):
    if len(p) * len(q) > 40 * LIMIT: raise Abort("polynomial too large")
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = mmul(m, n); x = r.get(k, 0) + v * w
            if x: r[k] = x
            else: r.pop(k, None)
    if len(r) > LIMIT: raise Abort("polynomial too large")
    return pred(r)


def pred(p):   # a^2 -> its definition
    for m in p:
        for i, e in m:
            if e >= 2 and ATOMS[i].sq is not None: break
        else: continue
        break
    else: return p
    r = {}
    for m, v in p.items():
        t = {tuple((i, e) for i, e in m if not (e >= 2 and ATOMS[i].sq is not None)): v}
        for i, e in m:
            if e >= 2 and ATOMS[i].sq is not None:
                for _ in range(e // 2): t = pmul(t, ATOMS[i].sq)
                if e % 2: t = pmul(t, {((i, 1),): Fr(1)})
        r = padd(r, t)
    return pred(r)


def pscale(p, c): return {m: v * c for m, v in p.items()} if c else {}
def pkey(p): return tuple(sorted(p.items()))
def pconst(p): return p.get((), Fr(0)) if all(m == () for m in p) else None


def lead(p): return max(p, key=lambda m: (sum(e for _, e in m), m))


def pdivexact(p, f):
    """p / f if it divides exactly (f with more than one term or a monomial), else None"""
    if len(f) == 1:
        (m, v), = f.items(); d = dict(m); r = {}
        for n, w in p.items():
            k = dict(n)
            for i, e in d.items():
                if k.get(i, 0) < e: return None
                k[i] -= e
            r[tuple(sorted((i, e) for i, e in k.items() if e))] = w / v
        return r
    if len(p) < len(f): return None
    lf = lead(f); lv = f[lf]; q = {}; r = p; n = 0
    while r:
        n += 1
        if n > 400: return None
        lr = lead(r); k = dict(lr)
        for i, e in lf:
            if k.get(i, 0) < e: return None
            k[i] -= e
        m = tuple(sorted((i, e) for i, e in k.items() if e)); c = r[lr] / lv; q[m] = q.get(m, 0) + c
        t = {}
        for mm, v in f.items():
            kk = mmul(m, mm); t[kk] = t.get(kk, 0) + v * c
        r = padd(r, t, -1)
        if len(r) > 4 * len(p) + 50: return None
    return q


def zpoly(p):
    if not p: return z3.RealVal(0)
    ts = []
    for m, v in p.items():
        t = z3.RealVal(str(v)) if v != 1 or not m else None
        for i, e in m:
            for _ in range(e): t = ATOMS[i].z if t is None else t * ATOMS[i].z
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def patoms(p, s=None):
    s = set() if s is None else s
    for m in p:
        for i, _ in m: s.add(i)
    return s


# ------------------------------------------------------------------ values
class S:
    __slots__ = ("n", "d")

    def __init__(s, n, d=None):
        s.n = n; s.d = d or {}

    @staticmethod
    def c(x): x = fr(x); return S({(): x} if x else {})

    def const(s):
        if s.d: return None
        return pconst(s.n)

    def _bin(s, o):
        if isinstance(o, S): return o
        if isinstance(o, (int, float, Fr, np.integer, np.floating, np.bool_)): return S.c(o)
        return None

    def __add__(s, o):
        o = s._bin(o)
        if o is None: return NotImplemented
        if not s.d and not o.d: return S(padd(s.n, o.n))
        d = dict(s.d)
        for f, e in o.d.items(): d[f] = max(d.get(f, 0), e)
        a, b = s.n, o.n
        for f, e in d.items():
            for _ in range(e - s.d.get(f, 0)): a = pmul(a, dict(f))
            for _ in range(e - o.d.get(f, 0)): b = pmul(b, dict(f))
        return mk(padd(a, b), d)
    __radd__ = __add__

    def __neg__(s): return S(pscale(s.n, -1), s.d)
    def __pos__(s): return s

    def __sub__(s, o):
        o = s._bin(o)
        return NotImplemented if o is None else s + (-o)

    def __rsub__(s, o):
        o = s._bin(o)
        return NotImplemented if o is None else o + (-s)

    def __mul__(s, o):
        o = s._bin(o)
        if o is None: return NotImplemented
        if not s.d and not o.d: return S(pmul(s.n, o.n))
        d = dict(s.d)
        for f, e in o.d.items(): d[f] = d.get(f, 0) + e
        return mk(pmul(s.n, o.n), d)
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = s._bin(o)
        if o is None: return NotImplemented
        k = o.const()
        if k is not None:
            if k == 0: violation("division by zero")
            return S(pscale(s.n, 1 / k), s.d)
        if not CUR.implied_nonzero(o):
            if CUR.branch(zeq(o), "div"): violation("division by zero")
        n = s.n
        for f, e in o.d.items():
            for _ in range(e): n = pmul(n, dict(f))
        c = o.n[lead(o.n)]; f = pscale(o.n, 1 / c); d = dict(s.d)
        content = None
        for m in f:
            mm = dict(m); content = mm if content is None else {i: min(e, mm.get(i, 0)) for i, e in content.items() if mm.get(i, 0)}
        for i, e in (content or {}).items(): d[(((( i, 1),), Fr(1)),)] = d.get(((((i, 1),), Fr(1)),), 0) + e
        if content: f = pdivexact(f, {tuple(sorted(content.items())): Fr(1)})
        if pconst(f) is None: d[pkey(f)] = d.get(pkey(f), 0) + 1
        return mk(pscale(n, 1 / c), d)

    def __rtruediv__(s, o):
        o = s._bin(o)
        return NotImplemented if o is None else o / s

    def __pow__(s, o):
        e = o.const() if isinstance(o, S) else fr(o)
        if e is None: raise Abort("symbolic exponent")
        if e == Fr(1, 2): return s.sqrt()
        if e.denominator != 1: raise Abort("fractional power")
        e = int(e)
        if e < 0: return S.c(1) / (s ** -e)
        r = S.c(1)
        for _ in range(e): r = r * s
        return r

    def __rpow__(s, o): return S.c(o) ** s

    def __abs__(s): return s if bool(s >= 0) else -s
    def fabs(s): return abs(s)
    def conjugate(s): return s
    @property
    def real(s): return s

    def cmp(s, o, f, z):
        o = s._bin(o)
        if o is None: return NotImplemented
        d = s - o; k = d.const()
        if k is not None: return bool(f(k))
        if all(e % 2 == 0 for e in d.d.values()) or not d.d:      # sign of the numerator
            lo, hi = interval(d.n)
            if lo is not None and (lo > 0 or hi < 0): return bool(f(lo if lo > 0 else hi))
        return SB(z(d))

    def __lt__(s, o): return s.cmp(o, lambda k: k < 0, zlt)
    def __le__(s, o): return s.cmp(o, lambda k: k <= 0, zle)
    def __gt__(s, o): return s.cmp(o, lambda k: k > 0, lambda d: zlt(-d))
    def __ge__(s, o): return s.cmp(o, lambda k: k >= 0, lambda d: zle(-d))

    def __eq__(s, o):
        r = s.cmp(o, lambda k: k == 0, zeq)
        return False if r is NotImplemented else r

    def __ne__(s, o):
        r = s.cmp(o, lambda k: k != 0, lambda d: z3.Not(zeq(d)))
        return True if r is NotImplemented else r

    def __hash__(s): return hash((pkey(s.n), tuple(sorted(s.d.items()))))

    def __bool__(s): return bool(s != 0)

    def __float__(s):
        k = s.const()
        if k is None: raise Abort("symbolic value converted to a float")
        return float(k)

    def __int__(s):
        k = s.const()
        if k is None: raise Abort("symbolic value converted to an integer")
        return int(k)

    def __index__(s):
        k = s.const()
        if k is None or k.denominator != 1: raise TypeError("not an index")
        return int(k)

    def __trunc__(s): return int(s)
    def __round__(s, n=None): return round(float(s), n) if n else round(s.const())
    def item(s, *a): return s
    def copy(s): return s
    def __repr__(s): return "S(%s)" % show(s)
    def __format__(s, f): return repr(s)

    # numpy calls these for object arrays
    def sqrt(s): return ssqrt(s)
    def sin(s): return strig(s)[0]
    def cos(s): return strig(s)[1]

    def arctan2(s, o): return satan2(s, S.c(o) if not isinstance(o, S) else o)
    def square(s): return s * s


def show(s, n=6):
    def mono(m): return "*".join(ATOMS[i].name + ("^%d" % e if e > 1 else "") for i, e in m)
    t = " + ".join(("%g" % float(v)) + ("*" + mono(m) if m else "") for m, v in list(s.n.items())[:n]) or "0"
    if len(s.n) > n: t += " + ..%d" % len(s.n)
    if s.d: t = "(%s)/(%s)" % (t, " ".join("(%s)^%d" % (show(S(dict(f)), 4), e) for f, e in s.d.items()))
    return t


def mk(n, d):
    """num/den with cancelled factors"""
    if not n: return S({})
    d = dict(d); again = True
    while again:
        again = False
        for f in list(d):
            if len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][1] == 1 and d.get(f, 0) >= 2 and ATOMS[f[0][0][0][0]].sq is not None:
                k = d.pop(f); sq = ATOMS[f[0][0][0][0]].sq; c = pconst(sq)
                if k % 2: d[f] = 1
                if c is not None: n = pscale(n, 1 / c ** (k // 2))
                else:
                    cc = sq[lead(sq)]; g = pkey(pscale(sq, 1 / cc)); d[g] = d.get(g, 0) + k // 2; n = pscale(n, 1 / cc ** (k // 2))
                again = True
    for f in list(d):
        while d.get(f, 0) > 0:
            q = pdivexact(n, dict(f))
            if q is None: break
            n = q; d[f] -= 1
        if not d[f]: del d[f]
    return S(n, d)


def signpoly(x):   # polynomial with the sign of x
    n = x.n
    for f, e in x.d.items():
        if e % 2: n = pmul(n, dict(f))
    return n


def arange(a):
    """range of an atom from its declared bounds"""
    if a.lo is None and a.hi is None:
        if a.kind in ("sin", "cos"): a.lo, a.hi = Fr(-1), Fr(1)
        elif a.kind == "sqrt":
            lo, hi = interval(a.sq); a.lo = Fr(0)
            if hi is not None: a.hi = Fr(math.isqrt(max(0, hi.numerator * 10 ** 24 // hi.denominator)) + 1, 10 ** 12)
        elif a.kind == "atan2": a.lo, a.hi = Fr(0) if a.nonneg else Fr(-4), Fr(4)
    return a.lo, a.hi


def interval(p):
    """bounds of a polynomial from the declared bounds of its atoms, monomial by monomial (None: unbounded)"""
    if len(p) > 4000: return None, None
    lo = hi = Fr(0)
    for m, v in p.items():
        a, b = Fr(1), Fr(1)
        for i, e in m:
            l, h = arange(ATOMS[i])
            if l is None or h is None: return None, None
            if e % 2: l, h = l ** e, h ** e
            else: l, h = (Fr(0) if l <= 0 <= h else min(l ** e, h ** e)), max(l ** e, h ** e)
            c = (a * l, a * h, b * l, b * h); a, b = min(c), max(c)
        if v > 0: lo += v * a; hi += v * b
        else: lo += v * b; hi += v * a
    return lo, hi


def zlt(x): return zpoly(signpoly(x)) < 0
def zle(x):
    r = zpoly(signpoly(x)) <= 0
    return r
def zeq(x): return zpoly(x.n) == 0


class SB:
    def __init__(s, z): s.z = z
    def __bool__(s): return CUR.branch(s.z)
    def __and__(s, o): return SB(z3.And(s.z, zb(o)))
    __rand__ = __and__
    def __or__(s, o): return SB(z3.Or(s.z, zb(o)))
    __ror__ = __or__
    def __invert__(s): return SB(z3.Not(s.z))
    def logical_not(s): return ~s
    def __mul__(s, o): return (S.c(1) if bool(s) else S.c(0)) * o
    __rmul__ = __mul__
    def all(s, *a, **k): return s
    def any(s, *a, **k): return s
    def __float__(s): return float(bool(s))


def zb(o): return o.z if isinstance(o, SB) else z3.BoolVal(bool(o))


def known_sign(x):
    """+1 when clearly nonnegative by construction"""
    for m, v in x.n.items():
        if v < 0: return 0
        for i, e in m:
            if e % 2 and not ATOMS[i].nonneg: return 0
    return 1 if not x.d else 0


def sabs(x):
    if known_sign(x): return x
    return x if bool(x >= 0) else -x


def ssqrt(x, nonneg=False):
    k = x.const()
    if k is not None:
        if k < 0: violation("square root of a negative number")
        a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if a * a == k.numerator and b * b == k.denominator: return S.c(Fr(a, b))
        sc = 10 ** 40; return S.c(Fr(math.isqrt(k.numerator * sc * sc // k.denominator), sc))     # forty digits
    n = x.n; den = S.c(1)
    for f, e in x.d.items():
        if e % 2: n = pmul(n, dict(f))
        den = den * (S(dict(f)) ** ((e + 1) // 2))
    out = S.c(1); content = None
    for m in n:
        mm = dict(m); content = mm if content is None else {i: min(e, mm.get(i, 0)) for i, e in content.items() if mm.get(i, 0)}
    ev = {i: e - e % 2 for i, e in (content or {}).items() if e > 1}
    if ev:
        n = pdivexact(n, {tuple(sorted(ev.items())): Fr(1)})
        for i, e in ev.items(): out = out * (sabs(S({((i, 1),): Fr(1)})) ** (e // 2))
    c = pconst(n)
    if c is not None: r = ssqrt(S.c(c))
    else:
        b = perfect(n)
        if b is not None: r = sabs(S(b))
        else:
            lc = abs(n[lead(n)])      # normalise positive leading factor when it is a square
            p, q = math.isqrt(lc.numerator), math.isqrt(lc.denominator); s0 = Fr(1)
            if p * p == lc.numerator and q * q == lc.denominator: s0 = Fr(p, q); n = pscale(n, 1 / lc)
            a, new = atom("sqrt", "sqrt%d" % len(ATOMS), pkey(n))
            if new: a.sq = n; a.nonneg = True; a.side = [a.z >= 0, a.z * a.z == zpoly(n)]; a.args = [n]
            if not nonneg and not known_sign(S(n)):
                if bool(SB(zpoly(n) < 0)): violation("square root of a negative number")
            r = S({((a.id, 1),): s0})
    r = r * out
    if den.const() is None or den.const() != 1: r = r / sabs(den)
    return r


def perfect(n):
    """square root of a polynomial that is the square of a linear form in the atoms (or None)"""
    l = {}
    for m, v in n.items():
        deg = sum(e for _, e in m)
        if deg > 2 or deg == 1 and () not in n: return None
    for m, v in n.items():
        if m == () or (len(m) == 1 and m[0][1] == 2):
            if v < 0: return None
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a != v.numerator or b * b != v.denominator: return None
            l[m if m == () else ((m[0][0], 1),)] = Fr(a, b)
    if not l: return None
    ks = sorted(l)
    k0 = ks[0]
    for k in ks[1:]:
        cr = n.get(mmul(k0, k), 0)
        if cr < 0: l[k] = -l[k]
    return l if pmul_raw(l, l) == n else None


def pmul_raw(p, q):
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = mmul(m, n); x = r.get(k, 0) + v * w
            if x: r[k] = x
            else: r.pop(k, None)
    return r


def strig(x):
    k = x.const()
    if k is not None:
        if k == 0: return S.c(0), S.c(1)
        return S.c(math.sin(float(k))), S.c(math.cos(float(k)))
    if len(x.n) == 1 and not x.d:      # sin/cos of an atan2 atom
        (m, v), = x.n.items()
        if v == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "atan2":
            y, w, r = ATOMS[m[0][0]].args; return y / r, w / r
    neg = x.n[lead(x.n)] < 0
    if neg: x = -x
    key = (pkey(x.n), tuple(sorted(x.d.items())))
    c, new = atom("cos", "cos%d" % len(ATOMS), key); s, new2 = atom("sin", "sin%d" % len(ATOMS), key)
    if new2:
        s.sq = {(): Fr(1), ((c.id, 2),): Fr(-1)}; s.side = [s.z * s.z + c.z * c.z == 1, s.z <= 1, s.z >= -1, c.z <= 1, c.z >= -1]; s.arg = c.arg = x
        if not x.d:
            z = zpoly(x.n); s.side += [z3.Implies(z3.And(z >= 0, z <= z3.RealVal("3.14159265")), s.z >= 0), z3.Implies(z3.And(z <= 0, z >= z3.RealVal("-3.14159265")), s.z <= 0), z3.Implies(z3.And(z <= z3.RealVal("1.57079632"), z >= z3.RealVal("-1.57079632")), c.z >= 0), c.z >= 1 - z * z / 2, z3.Implies(z3.And(z >= 0, z <= z3.RealVal("1.5707963")), s.z * 1000 >= z * 636), z3.Implies(z3.And(z <= 0, z >= z3.RealVal("-1.5707963")), s.z * 1000 <= z * 636), z3.Implies(z >= 0, s.z <= z), z3.Implies(z <= 0, s.z >= z)]
        c.side = s.side
    v = S({((s.id, 1),): Fr(1)})
    return (-v if neg else v), S({((c.id, 1),): Fr(1)})


def satan2(y, x):
    if y.const() is not None and x.const() is not None: return S.c(math.atan2(float(y), float(x)))
    if y.const() == 0: return S.c(0) if bool(x >= 0) else S.c(math.pi)
    r = ssqrt(y * y + x * x, True)
    a, new = atom("atan2", "atan2_%d" % len(ATOMS), (pkey(y.n), tuple(sorted(y.d.items())), pkey(x.n), tuple(sorted(x.d.items()))))
    if new:
        a.args = (y, x, r); PI = z3.RealVal("3.14159265358979323846"); a.side = [a.z <= PI, a.z >= -PI]
        a.nonneg = bool(known_sign(y)) or not CUR.need(zlt(y))
        if a.nonneg:
            a.side.append(a.z >= 0)
            z = zle(y - S({((a.id, 1),): Fr(1)}) * r); a.side.append(z)      # sin a <= a
            a.side.append(z3.Implies(zle(x), a.z >= z3.RealVal("1.5707963")))
    return S({((a.id, 1),): Fr(1)})


# ------------------------------------------------------------------ path
class Stat(dict): pass


class Run:
    def __init__(s, ta, budget):
        s.ta, s.deadline = ta, time.time() + budget
        s.asserts = {}; s.queries = s.unsat = s.sat = s.unknown = 0; s.solver_s = 0.0; s.paths = s.aborted = s.infeasible = s.forks = 0; s.aborts = {}; s.viols = []; s.work = [[]]; s.funcs = set(); s.steps = 0

    def check(s, cs, to, model=False):
        s.queries += 1; t = time.time(); r = z3.unknown; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        for kind in ("lin", "nl"):      # linear reasoning with a few product lemmas first, then the nonlinear decision procedure
            sol = z3.SimpleSolver() if kind == "lin" else z3.Solver(); sol.set("timeout", int(min(to, 1.0 if kind == "lin" else to) * 1000)); sol.set("random_seed", seed)
            for c in cs: sol.add(c)
            r = sol.check()
            if r != z3.unknown: break
        s.solver_s += time.time() - t
        if r == z3.unsat: s.unsat += 1; return "unsat", None
        if r == z3.sat: s.sat += 1; return "sat", sol.model() if model else None
        s.unknown += 1; return "unknown", None

    def stat(s, label): return s.asserts.setdefault(label, dict(label=label, reached=0, proved=0, proved_tol=0, violated=0, unknown=0, reach_sat=0))


def zvars(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0].eq(e): return cache[k][1]
    r = set(); st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
        st.extend(x.children())
    cache[k] = (e, r); return r


class Path:
    def __init__(s, run, dec):
        s.run, s.dec, s.i, s.pc, s.inputs, s.names, s.keys, s.nz, s.dcache = run, dec, 0, [], [], {}, set(), {}, {}

    def sides(s, zs):
        """definitions of the atoms that occur, transitively"""
        out = []; seen = set(); st = []
        for z in zs: st.extend(zvars(z))
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n); a = ATOMS[int(n[1:])] if n[0] == "a" and n[1:].isdigit() else None
            if a is None: continue
            for c in a.side: out.append(c); st.extend(zvars(c))
        return out

    def deps(s, z):
        """variables of a constraint and of the definitions of the atoms it mentions"""
        k = z.get_id()
        if k not in s.dcache:
            seen = set(); st = list(zvars(z))
            while st:
                n = st.pop()
                if n in seen: continue
                seen.add(n); a = ATOMS[int(n[1:])] if n[0] == "a" and n[1:].isdigit() else None
                for c in (a.side if a is not None else ()): st.extend(zvars(c))
            s.dcache[k] = (z, seen)
        return s.dcache[k][1]

    def slice(s, goal):
        vs = set().union(*[s.deps(g) for g in goal]) if goal else set(); use = []; rest = list(s.pc); ch = True
        while ch:
            ch = False; keep = []
            for c in rest:
                v = s.deps(c)
                if v & vs: vs |= v; use.append(c); ch = True
                else: keep.append(c)
            rest = keep
        cs = use + list(goal); return cs + s.sides(cs)

    def need(s, z):
        """may z hold here?"""
        z = z3.simplify(z)
        if z3.is_false(z): return False
        if z3.is_true(z): return True
        return s.run.check(s.slice([z]), 2)[0] != "unsat"

    def implied_nonzero(s, x):
        k = pkey(x.n)
        if k in s.nz: return True
        lo, hi = interval(x.n)
        if lo is not None and (lo > 0 or hi < 0): s.nz[k] = 1; return True
        if not s.need(zeq(x)): s.nz[k] = 1; return True
        return False

    def decide(s, options):
        """options: list of (value, z3 condition or None)"""
        if s.i < len(s.dec): v = s.dec[s.i]; s.i += 1
        else:
            ok = []
            for v, z in options:
                if z is None or s.run.check(s.slice([z]), 2)[0] != "unsat": ok.append(v)
            if not ok: raise Infeasible()
            v = ok[0]
            for w in ok[1:]: s.run.work.append(s.dec[:s.i] + [w]); s.run.forks += 1
            s.dec = s.dec + [v]; s.i += 1
        for w, z in options:
            if w == v and z is not None: s.add(z)
        return v

    def add(s, z):
        z = z3.simplify(z)
        if z3.is_true(z) or z.get_id() in s.keys: return
        s.keys.add(z.get_id()); s.pc.append(z)

    def branch(s, z, why=""):
        if time.time() > s.run.deadline: raise Abort("budget")
        z = z3.simplify(z)
        if z3.is_true(z): return True
        if z3.is_false(z): return False
        if z.get_id() in s.keys: return True
        nz = z3.simplify(z3.Not(z))
        if nz.get_id() in s.keys: return False
        return s.decide([(True, z), (False, nz)])

    # ---- assertions
    def valid(s, cond_z, label, tol=None, d=None):
        run = s.run; st = run.stat(label); st["reached"] += 1
        if time.time() > run.deadline: st["reached"] -= 1; raise Abort("budget")
        if not st["reach_sat"]:
            cs = s.slice([]) if False else s.pc + s.sides(s.pc)
            r = run.check(cs, 5)[0] if cs else "sat"
            if r == "sat": st["reach_sat"] = 1
        neg = z3.Not(cond_z)
        if d is not None and tol is not None and s.small(d, tol): st["proved_tol"] += 1; return
        r, m = run.check(s.slice([neg]), run.ta, True)
        if r == "unsat": st["proved"] += 1; return
        if d is not None and tol is not None:
            if r == "sat" and not d.d:
                t = z3.RealVal(str(fr(tol))); p = zpoly(d.n); r2, m2 = run.check(s.slice([z3.Or(p > t, p < -t)]), run.ta, True)
                if r2 == "unsat": st["proved_tol"] += 1; return
                if r2 == "sat": m = m2
                neg = z3.Or(p > t, p < -t)
        s.violated(label, neg, st, m if r == "sat" else None)

    def small(s, d, tol):
        """|d| <= tol with every monomial replaced by its range (linear arithmetic)"""
        if len(d.n) > 3000: return False
        tol = fr(tol)
        for f, e in d.d.items():
            lo, hi = interval(dict(f))
            if lo is None or lo <= 0 <= hi: return False
            tol *= min(abs(lo), abs(hi)) ** e
        tot = []
        for m, v in d.n.items():
            b = Fr(1)
            for i, e in m:
                l, h = arange(ATOMS[i])
                if l is None or h is None: return False
                b *= max(abs(l), abs(h)) ** e
            tot.append(abs(v) * b)
        if not tot: return False
        if sum(tot) > tol: return False
        # |monomial| <= its bound: scaled to [-1, 1], coefficients rounded up
        ms = [z3.Real("m%d" % i) for i in range(len(tot))]; cs = [c for m in ms for c in (m <= 1, m >= -1)]; k = 10 ** 7; n = 0
        e = z3.Sum([m * z3.RealVal("%d/%d" % (math.ceil(c / tol * k), k)) for m, c in zip(ms, tot) if c * 10 ** 5 > tol] or [z3.RealVal(0)]); rest = sum(c for c in tot if c * 10 ** 5 <= tol) / tol
        r = z3.RealVal(str(Fr(math.ceil(rest * k), k)))
        return s.run.check(cs + [z3.Or(e + r > 1, e - r < -1)], 5)[0] == "unsat"

    def violated(s, label, neg, st, m):
        run = s.run
        if st["violated"] + st["unknown"] > 6: st["unknown" if st["violated"] == 0 else "violated"] += 1; return
        base = s.pc + [neg]; cs = base + s.sides(base); got = None; rnd = random.Random(1)
        for k in range(9):
            ex = s.pins(k, rnd) if k < 7 else []
            r, mm = run.check(cs + ex, 3 if k < 8 else run.ta, True)
            if r == "sat": got = mm; break
            if r == "unsat" and not ex: break
        if got is None and m is None: st["unknown"] += 1; return
        st["violated"] += 1; mm = got if got is not None else m
        run.viols.append(dict(entry=run.entry, label=label, inputs=s.values(mm), loc=where()))

    def pins(s, k, rnd):
        """equations that give inputs a value, to help the search for a witness: all of them first, then fewer; the parts of a unit quaternion get a rational point of the sphere together"""
        ex = []; byname = {n: a for n, a in s.inputs if not isinstance(a, int)}; done = set()
        for n, a in s.inputs:
            if isinstance(a, int) or n in done: continue
            keep = k < 4 or rnd.random() < (0.7 if k == 5 else 0.4)
            if n + "" and n[-1] == "0" and getattr(byname.get(n[:-1] + "3"), "sq", None) is not None:
                if k in (4, 5) and not keep: continue
                u = [Fr(rnd.randint(-9, 9), rnd.choice([8, 12])) for _ in range(3)]; q = sum(x * x for x in u); v = [2 * x / (1 + q) for x in u] + [(1 - q) / (1 + q)]
                for i in range(4): ex.append(byname[n[:-1] + str(i)].z == z3.RealVal(str(v[i]))); done.add(n[:-1] + str(i))
                continue
            if k == 4: continue      # only the orientations
            if keep:
                lo, hi = (a.lo if a.lo is not None else Fr(-2)), (a.hi if a.hi is not None else Fr(2))
                lo, hi = max(lo, Fr(-3)), min(hi, Fr(3)) if hi > -3 else hi
                if lo > hi: lo, hi = a.lo, a.hi
                ex.append(a.z == z3.RealVal(str(lo + (hi - lo) * Fr(rnd.randint(1, 31), 32))))
        return ex

    def values(s, m):
        out = []
        for n, a in s.inputs:
            if isinstance(a, int): out.append([n, a]); continue
            v = m.eval(a.z, model_completion=True) if m is not None else z3.RealVal(0)
            if z3.is_algebraic_value(v): v = v.approx(20)
            out.append([n, float(Fr(v.numerator_as_long(), v.denominator_as_long()))])
        return out + [["!" + n, v] for n, v in s.names.items() if n.startswith("choose:")]


def where():
    for f in reversed(traceback.extract_stack()):
        if f.filename.startswith(REPO): return "%s:%d" % (f.filename, f.lineno)
    for f in reversed(traceback.extract_stack()):
        if os.path.basename(os.path.dirname(f.filename)) == "pyharness": return "%s:%d" % (f.filename, f.lineno)
    return None


CUR = None


def violation(label):
    st = CUR.run.stat(label); st["reached"] += 1; cs = CUR.pc + CUR.sides(CUR.pc); r, m = CUR.run.check(cs, CUR.run.ta, True)
    rnd = random.Random(1); k = 0
    while r == "unknown" and k < 7 and st["unknown"] < 3:
        r, m = CUR.run.check(cs + CUR.pins(k, rnd), 3, True); k += 1
        if r == "unsat": r = "unknown"
    if r == "unsat": st["proved"] += 1; raise Infeasible()
    if r == "sat": st["violated"] += 1; st["reach_sat"] = 1; CUR.run.viols.append(dict(entry=CUR.run.entry, label=label, inputs=CUR.values(m), loc=where()))
    else: st["unknown"] += 1
    raise Done()


# ------------------------------------------------------------------ harness interface
class Mismatch(Exception): pass
REPLAY = None; FAILED = []


def real(name, lo=-100, hi=100):
    if MODE == "replay":
        return float(REPLAY.get(name, 0.5 * (lo + hi)))
    if name in CUR.names: raise RuntimeError("variable used twice: " + name)
    CUR.names[name] = 1
    a, new = atom("var", name, (name, lo, hi)); a.lo, a.hi = fr(lo), fr(hi); a.nonneg = lo >= 0
    if new: a.side = [a.z >= z3.RealVal(str(a.lo)), a.z <= z3.RealVal(str(a.hi))]
    CUR.inputs.append((name, a)); return S({((a.id, 1),): Fr(1)})


def vec(name, n, lo=-100, hi=100): return arr([real("%s%d" % (name, i), lo, hi) for i in range(n)])
def mat(name, r, c, lo=-100, hi=100): return arr([[real("%s%d_%d" % (name, i, j), lo, hi) for j in range(c)] for i in range(r)])


def arr(x):
    if MODE == "replay": return np.array(x, dtype=float)
    a = np.array(x, dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        if not isinstance(f[i], S): f[i] = S.c(f[i])
    return a


def const(x): return float(x) if MODE == "replay" else S.c(x)


def unit_quaternion(name):
    """(x, y, z, w) of norm one"""
    if MODE == "replay":
        v = [float(REPLAY.get(name + str(i), 0)) for i in range(3)]; n = math.sqrt(sum(x * x for x in v)); k = n if n > 1 else 1.0
        v = [x / k for x in v]; return np.array(v + [math.copysign(math.sqrt(max(0, 1 - sum(x * x for x in v))), float(REPLAY.get(name + "3", 1)))])
    v = [real(name + str(i), -1, 1) for i in range(3)]; p = {(): Fr(1)}
    for x in v: p = padd(p, pmul(x.n, x.n), -1)
    a, new = atom("var", name + "3", (name, "unit")); a.lo, a.hi = Fr(-1), Fr(1)
    if new: a.sq = p; a.side = [a.z * a.z == zpoly(p), a.z <= 1, a.z >= -1]
    CUR.inputs.append((name + "3", a)); return arr(v + [S({((a.id, 1),): Fr(1)})])


def choose(name, options):
    options = list(options)
    if MODE == "replay": return options[int(REPLAY.get("!choose:" + name, 0))]
    if time.time() > CUR.run.deadline: raise Abort("budget")
    k = CUR.decide([(i, None) for i in range(len(options))]); CUR.names["choose:" + name] = k; return options[k]


def branch(c): return bool(c)
def sqrt(x): return math.sqrt(x) if MODE == "replay" else ssqrt(x if isinstance(x, S) else S.c(x))


def assume(c):
    if MODE == "replay":
        if not c: raise Mismatch("the assumptions do not hold")
        return
    if isinstance(c, SB):
        z = z3.simplify(c.z)
        if CUR.run.check(CUR.slice([z]), 2)[0] == "unsat": raise Infeasible()
        CUR.add(z)
    elif not c: raise Infeasible()


def check(c, label):
    if MODE == "replay":
        if not bool(c): FAILED.append(label)
        return
    if isinstance(c, SB): CUR.valid(c.z, label)
    else: CUR.valid(z3.BoolVal(bool(c)), label)
    if not isinstance(c, SB) and not c: raise Done()


def eq(a, b, label, tol=1e-7):
    if MODE == "replay":
        a, b = float(a), float(b)
        if not abs(a - b) <= max(tol or 0, 1e-6) * max(1.0, abs(a), abs(b)): FAILED.append(label)
        return
    a = a if isinstance(a, S) else S.c(a); b = b if isinstance(b, S) else S.c(b); d = a - b
    k = d.const()
    if k is not None and tol is not None and abs(k) <= fr(tol): d = S({})
    CUR.valid(zeq(d), label, tol, d if d.n else None)


def near(a, b, tol, label):
    """|a - b| <= tol"""
    if MODE == "replay":
        if not abs(float(a) - float(b)) <= tol * (1 + 1e-6) + 1e-12 * max(1, abs(float(b))): FAILED.append(label)
        return
    d = (a if isinstance(a, S) else S.c(a)) - b; k = d.const(); t = fr(tol)
    if k is not None: check(abs(k) <= t, label); return
    CUR.valid(z3.And(zle(d - t), zle(-d - t)), label, tol, d)


def eqa(a, b, label, tol=1e-7):
    a, b = np.asarray(a, dtype=object if MODE == "sym" else float), np.asarray(b, dtype=object if MODE == "sym" else float)
    check(a.size == b.size and tuple(x for x in a.shape if x != 1) == tuple(x for x in b.shape if x != 1), label + " (shape)")
    for x, y in zip(a.reshape(-1), b.reshape(-1)): eq(x, y, label, tol)


# ------------------------------------------------------------------ numpy for symbolic values
def _obj(a):
    a = np.asarray(a)
    if a.dtype.kind == "f":
        o = np.empty(a.shape, dtype=object); f = o.reshape(-1)
        for i, x in enumerate(a.reshape(-1)): f[i] = S.c(x)
        return o
    return a


def _keep(dtype): return dtype is not None and np.dtype(dtype).kind not in "fO"


def solve(A, b):
    A = np.array(A, dtype=object); b = np.array(b, dtype=object); n = A.shape[0]; vecb = b.ndim == 1
    if vecb: b = b.reshape(-1, 1)
    S_ = lambda x: x if isinstance(x, S) else S.c(x)
    A = [[S_(A[i, j]) for j in range(n)] + [S_(b[i, j]) for j in range(b.shape[1])] for i in range(n)]
    for k in range(n):
        piv = [i for i in range(k, n) if A[i][k].const() not in (None, 0)]
        if not piv:
            piv = [i for i in range(k, n) if A[i][k].const() is None and bool(A[i][k] != 0)]
        if not piv: raise np.linalg.LinAlgError("Singular matrix")
        p = piv[0]; A[k], A[p] = A[p], A[k]; inv = S.c(1) / A[k][k]
        A[k] = [x * inv for x in A[k]]
        for i in range(n):
            if i != k and A[i][k].n:
                f = A[i][k]; A[i] = [x - f * y if y.n else x for x, y in zip(A[i], A[k])]
    r = np.empty((n, b.shape[1]), dtype=object)
    for i in range(n):
        for j in range(b.shape[1]): r[i, j] = A[i][n + j]
    return r.reshape(-1) if vecb else r


class NpLinalg:
    LinAlgError = np.linalg.LinAlgError
    def __getattr__(s, n): return getattr(np.linalg, n)
    def solve(s, A, b): return solve(A, b)
    def inv(s, A): return solve(A, np.eye(len(A)))
    def eigh(s, A): raise Abort("eigenvalues of a symbolic matrix")

    def norm(s, x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2, "fro") or axis is not None: raise Abort("norm")
        x = np.asarray(x, dtype=object).reshape(-1); t = S.c(0)
        for v in x: t = t + v * v
        return ssqrt(t, True)

    def det(s, A):
        A = np.asarray(A, dtype=object); n = len(A)
        if n == 1: return A[0, 0]
        return sum(((-1) ** j) * A[0, j] * s.det(np.delete(A[1:], j, 1)) for j in range(n))


class Np(types.ModuleType):
    def __init__(s): super().__init__("numpy"); s.linalg = NpLinalg(); s.__all__ = [n for n in np.__all__ if not n.startswith("__")]
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(np, n)

    def zeros(s, shape, dtype=None, **k): return np.zeros(shape, dtype) if _keep(dtype) else _obj(np.zeros(shape))
    def ones(s, shape, dtype=None, **k): return np.ones(shape, dtype) if _keep(dtype) else _obj(np.ones(shape))
    def empty(s, shape, dtype=None, **k): return np.empty(shape, dtype) if _keep(dtype) else _obj(np.zeros(shape))
    def full(s, shape, v, dtype=None, **k):
        r = np.empty(shape, dtype=object); r[...] = v; return r
    def zeros_like(s, a, dtype=None, **k): return np.zeros_like(a, dtype) if _keep(dtype) else _obj(np.zeros(np.asarray(a).shape))
    def ones_like(s, a, dtype=None, **k): return _obj(np.ones(np.asarray(a).shape))
    def empty_like(s, a, dtype=None, **k): return _obj(np.zeros(np.asarray(a).shape))
    def eye(s, *a, **k): return _obj(np.eye(*a))
    def identity(s, n, dtype=None): return _obj(np.eye(n))
    def array(s, x, dtype=None, **k):
        if dtype is not None and _keep(dtype): return np.array(x, dtype)
        return _obj(np.array(x, copy=True) if dtype is None else np.array(x, dtype=object))
    def asarray(s, x, dtype=None, **k): return x if isinstance(x, np.ndarray) else s.array(x, dtype)
    def matrix(s, x, **k): return np.matrix(_obj(np.asarray(x)))
    def linspace(s, *a, **k): return _obj(np.linspace(*a, **k))
    def arange(s, *a, **k): return _obj(np.arange(*[float(x) if isinstance(x, S) else x for x in a], **k))
    def sqrt(s, x): return s._u(x, ssqrt)
    def sin(s, x): return s._u(x, lambda v: strig(v)[0])
    def cos(s, x): return s._u(x, lambda v: strig(v)[1])
    def abs(s, x): return s._u(x, lambda v: abs(v))
    def absolute(s, x): return s._u(x, lambda v: abs(v))
    def fabs(s, x): return s._u(x, lambda v: abs(v))
    def square(s, x): return s._u(x, lambda v: v * v)

    def _u(s, x, f):
        if isinstance(x, (S, int, float)): return f(x if isinstance(x, S) else S.c(x))
        x = np.asarray(x, dtype=object); r = np.empty(x.shape, dtype=object); g = r.reshape(-1)
        for i, v in enumerate(x.reshape(-1)): g[i] = f(v if isinstance(v, S) else S.c(v))
        return r

    def arctan2(s, y, x): return satan2(y if isinstance(y, S) else S.c(y), x if isinstance(x, S) else S.c(x))

    def cross(s, a, b, *r, **k):
        a, b = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1); o = np.empty(3, dtype=object)
        for i in range(3): o[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]
        return o

    def argmin(s, x, axis=None):
        x = np.asarray(x, dtype=object).reshape(-1); k = 0
        for i in range(1, len(x)):
            if bool(x[i] < x[k]): k = i
        return k

    def argmax(s, x, axis=None): return s.argmin(-np.asarray(x, dtype=object))

    def clip(s, x, lo, hi): return s._u(x, lambda v: lo if bool(v < lo) else hi if bool(v > hi) else v)
    def maximum(s, a, b): return _ew(a, b, lambda x, y: x if bool(x >= y) else y)
    def minimum(s, a, b): return _ew(a, b, lambda x, y: x if bool(x <= y) else y)

    def equal(s, a, b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object)); r = np.empty(a.shape, dtype=bool); g = r.reshape(-1)
        for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))): g[i] = bool(x == y) if x is not None and y is not None else x is y
        return r

    def array_equal(s, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object); return a.shape == b.shape and bool(np.all(s.equal(a, b)))

    def allclose(s, a, b, rtol=1e-5, atol=1e-8, **k):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        return all(bool(abs(x - y) <= atol + rtol * abs(y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))

    def savetxt(s, f, a, **k): SAVED[str(f)] = np.array(a, dtype=object)

    def loadtxt(s, f, **k): return _load(f)
    def set_printoptions(s, **k): pass


def _ew(a, b, f):
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray): return f(a, b)
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object)); r = np.empty(a.shape, dtype=object); g = r.reshape(-1)
    for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))): g[i] = f(x, y)
    return r


SAVED = {}; FILES = {}


def _load(f):
    for k, v in FILES.items():
        if str(f).endswith(k): return v.copy()
    raise OSError(f)


class RealNp(types.ModuleType):      # replay: the real numpy, files redirected
    def __init__(s): super().__init__("numpy"); s.__all__ = [n for n in np.__all__ if not n.startswith("__")]
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(np, n)
    def savetxt(s, f, a, **k): SAVED[str(f)] = np.array(a, dtype=float)
    def loadtxt(s, f, **k): return np.array(_load(f), dtype=float)
    def set_printoptions(s, **k): pass


class SpLinalg(types.ModuleType):
    def __init__(s): super().__init__("scipy.linalg")
    LinAlgError = np.linalg.LinAlgError
    def cho_factor(s, A, *a, **k):
        A = np.array(A, dtype=object); n = len(A); M = A.copy()
        for k in range(n):
            if not bool(M[k, k] > 0): raise np.linalg.LinAlgError("not positive definite")
            for i in range(k + 1, n):
                f = M[i, k] / M[k, k]
                if isinstance(f, S) and not f.n: continue
                for j in range(k, n): M[i, j] = M[i, j] - f * M[k, j]
        return (A, False)
    def cho_solve(s, c, b, *a, **k): return solve(c[0], b)
    def solve(s, A, b, *a, **k): return solve(A, b)
    def inv(s, A): return solve(A, np.eye(len(A)))
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        import scipy.linalg
        return getattr(scipy.linalg, n)


class Stub(types.ModuleType):
    def __init__(s, name, **k): super().__init__(name); s.__dict__.update(k)
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        return Stub(s.__name__ + "." + n)
    def __call__(s, *a, **k): return Stub(s.__name__ + "()")


def sfloat(x): return x if isinstance(x, S) else builtins.float(x)


class Loader:
    """executes the repository's module sources with their imports redirected"""
    def __init__(s, stubs=None):
        s.stubs = dict(stubs or {}); s.mods = {}
        if MODE == "sym":
            s.np = Np(); s.stubs.setdefault("numpy", s.np); s.stubs.setdefault("numpy.linalg", s.np.linalg); sp = SpLinalg(); s.stubs.setdefault("scipy.linalg", sp); s.stubs.setdefault("scipy", Stub("scipy", linalg=sp))
        else:
            import scipy.linalg
            s.np = RealNp(); s.stubs.setdefault("numpy", s.np); s.stubs.setdefault("numpy.linalg", np.linalg); s.stubs.setdefault("scipy.linalg", scipy.linalg); s.stubs.setdefault("scipy", Stub("scipy", linalg=scipy.linalg))
        enums = {}
        for base, _, fs in os.walk(os.path.join(REPO, "momentumopt", "python")):
            for f in fs:
                if f.endswith(".py"):
                    for n in re.findall(r"\bPlanner(?:Int|Double|Bool|String|Vector|CVector|IntArray)Param_\w+", open(os.path.join(base, f)).read()): enums[n] = n
        pm = s.stubs.get("pymomentum"); s.stubs["pymomentum"] = Stub("pymomentum", **dict(enums, **(pm or {})))
        for n in ("pinocchio", "pinocchio.utils", "pinocchio.robot_wrapper", "matplotlib", "matplotlib.pyplot", "pybullet", "pysolver", "pysolverlqr", "quadprog", "rospkg", "robot_properties_solo", "robot_properties_bolt", "meshcat", "cvxopt", "scipy.interpolate"):
            if n not in s.stubs: s.stubs[n] = Stub(n)

    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""; parts = pkg.split("."); parts = parts[:len(parts) - (level - 1)]; name = ".".join(parts + ([name] if name else []))
        m = s.get(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and s.path(name + "." + f): setattr(m, f, s.get(name + "." + f))
            return m
        return s.get(name.split(".")[0])

    def path(s, name):
        if not name.startswith("momentumopt"): return None
        p = os.path.join(REPO, "momentumopt", "python", *name.split("."))
        if os.path.isfile(p + ".py"): return p + ".py"
        return p if os.path.isdir(p) else None

    def get(s, name):
        if name in s.stubs: return s.stubs[name]
        if name in s.mods: return s.mods[name]
        p = s.path(name)
        if p is None:
            if name.split(".")[0] in ("sys", "os", "time", "math", "copy", "pdb", "re", "itertools", "functools", "collections", "typing", "warnings", "abc", "enum", "dataclasses", "operator", "builtins", "getopt", "__future__", "numbers", "types", "contextlib"): return builtins.__import__(name, fromlist=["x"])
            return s.stubs.setdefault(name, Stub(name))
        m = types.ModuleType(name); s.mods[name] = m
        if os.path.isdir(p): m.__path__ = [p]; m.__package__ = name; return m
        m.__file__ = p; m.__package__ = name.rpartition(".")[0]; b = dict(builtins.__dict__); b["__import__"] = s.imp; b["print"] = lambda *a, **k: None
        if MODE == "sym": b["float"] = Float
        m.__dict__["__builtins__"] = b
        exec(compile(open(p).read(), p, "exec"), m.__dict__)
        if MODE == "sym":
            for k, v in list(m.__dict__.items()):
                if callable(v) and getattr(v, "__module__", None) in ("numpy", "numpy.linalg") or isinstance(v, np.ufunc):
                    if k in Np.__dict__: m.__dict__[k] = getattr(s.np, k)
        return m


class FloatMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (builtins.float, S))


class Float(builtins.float, metaclass=FloatMeta):
    def __new__(c, x=0.0): return sfloat(x)


def load(name, stubs=None): return Loader(stubs).get(name)


# ------------------------------------------------------------------ driver
def profile(run):
    def f(frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(REPO): run.funcs.add(frame.f_code.co_filename[len(REPO) + 1:] + ":" + frame.f_code.co_qualname)
    return f


def main():
    global MODE, CUR, REPLAY
    me = sys.modules["pysx"] = sys.modules["__main__"]
    hf, entry, out, budget, ta = sys.argv[1:6]
    if len(sys.argv) > 6: MODE = "replay"; w = json.load(open(sys.argv[6])); REPLAY = dict((k, v) for k, v in w["inputs"])
    ns = dict(__name__="harness", __file__=hf); sys.setrecursionlimit(20000)
    src = open(hf).read(); exec(compile(src, hf, "exec"), ns)
    if MODE == "replay":
        exc = None
        try:
            with np.errstate(divide="raise", invalid="raise"): ns[entry]()
        except Mismatch as e: print("NOT REPRODUCED: %s" % e); sys.exit(0)
        except Exception as e:
            exc = "uncaught exception " + type(e).__name__
            if isinstance(e, (FloatingPointError, ZeroDivisionError)): exc = "division by zero"
            tb = traceback.format_exc()
        lab = w["label"]
        if exc and (lab == exc or lab.startswith("uncaught") or lab.startswith("division") or lab.startswith("square root") or lab not in FAILED): print("REPRODUCED %s\n%s" % (exc, tb)); sys.exit(3)
        if FAILED: print("REPRODUCED failed: %s" % ", ".join(sorted(set(FAILED))[:5])); sys.exit(3)
        print("NOT REPRODUCED"); sys.exit(0)
    run = Run(float(ta), float(budget)); run.entry = entry; t0 = time.time(); err = None
    try:
        while run.work:
            dec = run.work.pop()
            if time.time() > run.deadline: run.aborted += 1 + len(run.work); run.aborts["budget"] = run.aborts.get("budget", 0) + 1 + len(run.work); break
            CUR = Path(run, dec); SAVED.clear(); FILES.clear()
            try:
                if run.paths < 3: sys.setprofile(profile(run))
                ns[entry](); run.paths += 1
            except Infeasible: run.infeasible += 1
            except Done: run.paths += 1
            except Abort as e: run.aborted += 1; run.aborts[str(e)] = run.aborts.get(str(e), 0) + 1
            except RecursionError: run.aborted += 1; run.aborts["recursion"] = run.aborts.get("recursion", 0) + 1
            except Exception as e:
                tb = e.__traceback__; loc = None
                for f in traceback.extract_tb(tb):
                    if f.filename.startswith(REPO): loc = "%s:%d" % (f.filename, f.lineno)
                sys.setprofile(None)
                if os.environ.get("PYSX_TB"): traceback.print_exc()
                try:
                    violation("uncaught exception " + type(e).__name__)
                except (Done, Infeasible): pass
                if run.viols and run.viols[-1]["label"].startswith("uncaught"): run.viols[-1]["loc"] = loc; run.viols[-1]["what"] = traceback.format_exception_only(e)[-1].strip()[:300]
                run.paths += 1
            finally: sys.setprofile(None)
    except BaseException: err = traceback.format_exc()
    json.dump(dict(entry=entry, wall=time.time() - t0, paths_done=run.paths, paths_aborted=run.aborted, paths_infeasible=run.infeasible, forks=run.forks, instrs=None, queries=run.queries, unsat=run.unsat, sat=run.sat, unknown=run.unknown, cached=0, solver_s=run.solver_s, asserts=list(run.asserts.values()), aborts=[[k, v] for k, v in run.aborts.items()], functions=sorted(run.funcs), viols=run.viols, error=err), open(out, "w"))


if __name__ == "__main__": main()
