"""Symbolic execution of Python code: exact rational-function scalars with path forking.

Sym behaves like a float inside numpy object arrays.  Values are quotients of
polynomials with exact rational coefficients over atoms (variables and function
applications); truth tests fork and are decided by z3."""
import math, time, numbers
from fractions import Fraction as Fr
import numpy as np
import z3

class Abort(Exception): pass
class Undecided(Exception): pass

# ---------------------------------------------------------------- polynomials
# monomial: tuple of (atom, exponent) sorted by atom; polynomial: dict mono -> Fraction
ONE = {(): Fr(1)}
def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def m_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))
def p_mul(a, b):
    if a is ONE or a == ONE: return b
    if b is ONE or b == ONE: return a
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = m_mul(m, n); v = r.get(k, 0) + c * e
            if v: r[k] = v
            else: del r[k]
    return reduce_roots(r)
def p_const(p):
    if not p: return Fr(0)
    if len(p) == 1 and () in p: return p[()]
    return None
def reduce_roots(p):
    """sqrt(x)^2 -> x for polynomial radicands; abs(x)^2 -> x^2."""
    W = X.squares
    if not W or not any(e >= 2 and k in W for m in p for k, e in m): return p
    r = {}
    for m, c in p.items():
        t = {(): c}
        for k, e in m:
            if e >= 2 and k in W:
                sq = W[k]; f = ONE
                for _ in range(e // 2): f = p_mul(f, sq)
                t = p_mul(t, f)
                if e % 2: t = {m_mul(mm, ((k, 1),)): cc for mm, cc in t.items()}
            else: t = {m_mul(mm, ((k, e),)): cc for mm, cc in t.items()}
        r = p_add(r, t)
    return reduce_roots(r) if any(e >= 2 and k in W for m in r for k, e in m) else r
def p_key(p): return tuple(sorted(p.items()))

def frac(x):
    if isinstance(x, Fr): return x
    if isinstance(x, (bool, np.bool_)): return Fr(int(x))
    if isinstance(x, (int, np.integer)): return Fr(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x): raise ValueError('non-finite constant %r' % x)
        return Fr(x)
    return None

# ---------------------------------------------------------------- explorer
class Explorer:
    def __init__(self): self.reset_all()
    def reset_all(self):
        self.names, self.bounds, self.atoms, self.atomkey, self.squares, self.zv = [], {}, [], {}, {}, []
        self.expfam = {}; self.trace = []; self.stats = dict(paths=0, reached=0, queries=0, unknown=0, solver_s=0.0, asserts=0, closed_nf=0, closed_const=0, closed_solver=0, decisions=0, forks=0, aborted=0, max_q=0.0)
        self.violations = []; self.labels = {}; self.qms = 10000; self.native = False; self.base = []; self.errors = []
    # atoms -------------------------------------------------
    def atom(self, key, mk=None):
        i = self.atomkey.get(key)
        if i is None:
            i = len(self.atoms); self.atomkey[key] = i; self.atoms.append(key); self.zv.append(z3.Real('a%d' % i))
            if mk: mk(i)
        if i not in self.seen:
            self.seen.add(i)
            for f in self.axioms.get(i, ()): self.solver.add(f); self.pathcond.append(f)
        return i
    axioms = {}
    def zpoly(self, p):
        t = []
        for m, c in p.items():
            f = [z3.RealVal(c)] if c != 1 or not m else []
            for k, e in m: f += [self.zv[k]] * e
            t.append(z3.Product(*f) if len(f) > 1 else f[0])
        if not t: return z3.RealVal(0)
        return z3.Sum(*t) if len(t) > 1 else t[0]
    # exploring ---------------------------------------------
    def start_path(self):
        self.pos = 0; self.solver = z3.Solver(); self.solver.set('timeout', self.qms); self.pathcond = []; self.seen = set(); self.vars = {}; self.obs = []; self.dec = {}
    def check(self, *extra):
        t = time.time(); self.stats['queries'] += 1; r = self.solver.check(*extra); d = time.time() - t
        self.stats['solver_s'] += d; self.stats['max_q'] = max(self.stats['max_q'], d)
        if r == z3.unknown:
            s = z3.Tactic('qfnra-nlsat').solver(); s.set('timeout', self.qms)
            for c in self.pathcond: s.add(c)
            for c in extra: s.add(c)
            t = time.time(); r = s.check(); self.stats['solver_s'] += time.time() - t; self._m = s.model() if r == z3.sat else None
            if r == z3.unknown: self.stats['unknown'] += 1
        elif r == z3.sat: self._m = self.solver.model()
        return r
    def decide(self, cond, key=None):
        if time.time() > self.deadline: raise Undecided('budget exhausted')
        if key is not None and key in self.dec: return self.dec[key]
        self.stats['decisions'] += 1
        if self.pos < len(self.trace): val = self.trace[self.pos][0]; self.pos += 1
        else:
            rt = self.check(cond); rf = self.check(z3.Not(cond))
            if rt == z3.unknown or rf == z3.unknown: pass
            if rt == z3.unsat and rf == z3.unsat: raise Abort('infeasible path')
            if rt == z3.unsat: val, alt = False, False
            elif rf == z3.unsat: val, alt = True, False
            else: val, alt = True, True; self.stats['forks'] += 1
            self.trace.append([val, alt]); self.pos += 1
        c = cond if val else z3.Not(cond); self.solver.add(c); self.pathcond.append(c)
        if key is not None: self.dec[key] = val
        return val
    def next_path(self):
        while self.trace and not self.trace[-1][1]: self.trace.pop()
        if not self.trace: return False
        self.trace[-1] = [not self.trace[-1][0], False]; return True
    def model_assign(self, m):
        r = {}
        for n, i in self.vars.items():
            v = m.eval(self.zv[i], model_completion=True)
            if z3.is_algebraic_value(v): v = v.approx(30)
            r[n] = float(Fr(v.numerator_as_long(), v.denominator_as_long()))
        return r
X = Explorer()

class Choice:
    pass

# ---------------------------------------------------------------- conditions
class SymBool:
    __slots__ = ('z', 'key')
    def __init__(self, z, key=None): self.z = z; self.key = key
    def __bool__(self): return X.decide(self.z, self.key)
    def __and__(self, o): return o and self if isinstance(o, (bool, np.bool_)) else SymBool(z3.And(self.z, o.z)) if isinstance(o, SymBool) else NotImplemented
    def __or__(self, o): return (True if o else self) if isinstance(o, (bool, np.bool_)) else SymBool(z3.Or(self.z, o.z)) if isinstance(o, SymBool) else NotImplemented
    def __rand__(self, o): return self & o
    def __ror__(self, o): return self | o
    def __invert__(self): return SymBool(z3.Not(self.z))

def zcmp(op, p):
    z = X.zpoly(p)
    return {'<': z < 0, '<=': z <= 0, '==': z == 0}[op]

# ---------------------------------------------------------------- scalars
class Sym:
    __slots__ = ('n', 'd')
    def __init__(self, n, d=ONE):
        if d is not ONE and d != ONE:
            c = p_const(d)
            if c is not None:
                if c == 0: raise ZeroDivisionError
                if c != 1: n = {m: v / c for m, v in n.items()}
                d = ONE
            elif not n: d = ONE
            else:
                # cancel the common monomial factor and scale
                com = None
                for m in list(n) + list(d):
                    dm = dict(m)
                    com = dm if com is None else {k: min(e, dm[k]) for k, e in com.items() if k in dm}
                    if not com: break
                if com:
                    def red(p): return {tuple(sorted((k, e - com.get(k, 0)) for k, e in m if e - com.get(k, 0))): c for m, c in p.items()}
                    n, d = red(n), red(d)
                lead = d[max(d)]
                if lead != 1: n = {m: v / lead for m, v in n.items()}; d = {m: v / lead for m, v in d.items()}
                if n == d: n = d = ONE
                else:
                    c = p_const(d)
                    if c is not None: n = {m: v / c for m, v in n.items()}; d = ONE
        self.n, self.d = n, d
    # conversions
    def const(self): return p_const(self.n) if self.d == ONE else None
    def __float__(self):
        c = self.const()
        if c is None: raise TypeError('symbolic value converted to float')
        return float(c)
    def __int__(self):
        c = self.const()
        if c is None: raise TypeError('symbolic value converted to int')
        return int(c)
    def __complex__(self): return complex(float(self))
    def __index__(self): raise TypeError('symbolic value used as an index')
    def __repr__(self): return 'Sym(%s)' % show(self)
    __str__ = __repr__
    def __format__(self, s): return repr(self)
    def __hash__(self): return hash((p_key(self.n), p_key(self.d)))
    def __bool__(self): return bool(self != 0)
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    # arithmetic
    @staticmethod
    def of(x):
        if isinstance(x, Sym): return x
        f = frac(x)
        if f is None: return None
        return Sym({(): f} if f else {})
    def __add__(self, o):
        if isinstance(o, (complex, np.complexfloating)): return SymC(self, 0) + o
        o = Sym.of(o)
        if o is None: return NotImplemented
        if self.d == o.d: return Sym(p_add(self.n, o.n), self.d)
        return Sym(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))
    __radd__ = __add__
    def __neg__(self): return Sym({m: -c for m, c in self.n.items()}, self.d)
    def __pos__(self): return self
    def __sub__(self, o):
        if isinstance(o, (complex, np.complexfloating)): return SymC(self, 0) - o
        o = Sym.of(o)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating)): return SymC.of(o) - self
        o = Sym.of(o)
        return NotImplemented if o is None else o + (-self)
    def __mul__(self, o):
        if isinstance(o, (complex, np.complexfloating)): return SymC(self, 0) * o
        o = Sym.of(o)
        if o is None: return NotImplemented
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        if n1 == d2: n1 = d2 = ONE
        if n2 == d1: n2 = d1 = ONE
        return Sym(p_mul(n1, n2), p_mul(d1, d2))
    __rmul__ = __mul__
    def inv(self):
        if not self.n: raise ZeroDivisionError
        if p_const(self.n) is None and X.decide(zcmp('==', self.n), ('==0', p_key(self.n))): raise ZeroDivisionError('symbolic division by zero')
        return Sym(self.d, self.n)
    def __truediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)): return SymC(self, 0) / o
        o = Sym.of(o)
        return NotImplemented if o is None else self * o.inv()
    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)): return SymC.of(o) / self
        o = Sym.of(o)
        return NotImplemented if o is None else o * self.inv()
    def __pow__(self, e, mod=None):
        c = e.const() if isinstance(e, Sym) else frac(e)
        if c is None: return NotImplemented
        if c.denominator == 1:
            k = int(c); b = self
            if k < 0: b = b.inv(); k = -k
            r = Sym(ONE)
            while k:
                if k & 1: r = r * b
                b = b * b if k > 1 else b; k >>= 1
            return r
        if c.denominator == 2: return self.sqrt() ** int(c * 2)
        return (self.log() * Sym.of(c)).exp()
    def __rpow__(self, o):
        o = Sym.of(o); return NotImplemented if o is None else (o.log() * self).exp()
    def __mod__(self, o):
        o = Sym.of(o)
        if o is None: return NotImplemented
        q = (self / o).floor(); return self - o * q
    def __rmod__(self, o): return Sym.of(o) % self
    def __floordiv__(self, o): return (self / Sym.of(o)).floor()
    # comparisons
    def cmp(self, o, op):
        o = Sym.of(o)
        if o is None: return NotImplemented
        x = self - o; c = x.const()
        if c is not None: return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
        if x.d == ONE and all(len(m) == 1 and m[0][1] == 1 and X.atoms[m[0][0]][0] == 'log' for m in x.n): x = logsign(x.n)
        c = x.const()
        if c is not None: return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
        p = x.n if op == '==' or x.d == ONE else p_mul(x.n, x.d)
        if op == '==': return SymBool(zcmp(op, p), ('==0', p_key(p)))
        return SymBool(zcmp(op, p), (op, p_key(p)))
    def __lt__(self, o): return self._inf(o, -1) if isinstance(o, (float, np.floating)) and math.isinf(o) else self.cmp(o, '<')
    def __le__(self, o): return self._inf(o, -1) if isinstance(o, (float, np.floating)) and math.isinf(o) else self.cmp(o, '<=')
    def __gt__(self, o):
        if isinstance(o, (float, np.floating)) and math.isinf(o): return self._inf(o, 1)
        o = Sym.of(o); return NotImplemented if o is None else o.cmp(self, '<')
    def __ge__(self, o):
        if isinstance(o, (float, np.floating)) and math.isinf(o): return self._inf(o, 1)
        o = Sym.of(o); return NotImplemented if o is None else o.cmp(self, '<=')
    def _inf(self, o, s): return (o > 0) == (s < 0)
    def __eq__(self, o):
        if isinstance(o, (float, np.floating)) and not math.isfinite(o): return False
        r = self.cmp(o, '==') if Sym.of(o) is not None else False
        return r
    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r
    def __abs__(self):
        c = self.const()
        if c is not None: return Sym.of(abs(c))
        return self if bool(self >= 0) else -self
    absolute = __abs__; fabs = __abs__
    def conjugate(self): return self
    conj = conjugate
    @property
    def real(self): return self
    @property
    def imag(self): return Sym({})
    @property
    def dtype(self): return np.dtype(object)
    # functions
    def sqrt(self):
        c = self.const()
        if c is not None:
            if c < 0: raise ValueError('sqrt of a negative value')
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator: return Sym.of(Fr(a, b))
        if self.d != ONE: return Sym(self.n).sqrt() / Sym(self.d).sqrt() if bool(Sym(self.d) > 0) else Sym({m: -v for m, v in self.n.items()}).sqrt() / Sym({m: -v for m, v in self.d.items()}).sqrt()
        k = p_key(self.n)
        def mk(i):
            X.squares[i] = self.n; X.axioms[i] = [X.zv[i] >= 0, X.zv[i] * X.zv[i] == X.zpoly(self.n)]
        if c is None and not bool(self >= 0): raise ValueError('sqrt of a negative value')
        return Sym({((X.atom(('sqrt', k), mk), 1),): Fr(1)})
    def log(self):
        c = self.const()
        if c == 1: return Sym({})
        if c is not None and c <= 0: raise ValueError('log of a nonpositive constant')
        if c is None and not bool(self > 0):
            raise ValueError('log of a nonpositive value')
        # product of powers: expand
        if len(self.n) == 1 and (self.d == ONE or len(self.d) == 1):
            (mn, cn), = self.n.items(); (md, cd), = self.d.items()
            pw = dict(mn)
            for k, e in md: pw[k] = pw.get(k, 0) - e
            cc = abs(cn / cd)
            if len(pw) + (cc != 1) > 1 or any(e != 1 for e in pw.values()):
                r = Sym({})
                if cc != 1: r = r + Sym.of(cc).log()
                for k, e in pw.items():
                    b = Sym({((k, 1),): Fr(1)})
                    r = r + e * (b if bool(b > 0) else -b).log()
                return r
        if c is None:   # split off common monomial factors and the denominator
            parts, tot = [], Sym({}); sg = 1
            for p, e in ((self.n, 1), (self.d, -1)):
                com = None
                for m in p:
                    dm = dict(m); com = dm if com is None else {k: min(x, dm[k]) for k, x in com.items() if k in dm}
                if com and len(p) > 1: parts += [(Sym({((k, 1),): Fr(1)}), e * x) for k, x in com.items()]; p = {tuple(sorted((k, x - com.get(k, 0)) for k, x in m if x - com.get(k, 0))): v for m, v in p.items()}
                if p != ONE: parts.append((Sym(p), e))
            if len(parts) > 1:
                for f, e in parts: tot = tot + e * (f if bool(f > 0) else -f).log()
                return tot
        pos = self.d == ONE or bool(Sym(self.d) > 0); k = ('log', p_key(self.n), p_key(self.d), pos)
        z = X.zpoly(self.n) - X.zpoly(self.d) if pos else X.zpoly(self.d) - X.zpoly(self.n)
        me = self
        def mk(i):
            v = X.zv[i]; ax = [(v > 0) == (z > 0), (v == 0) == (z == 0)]
            if c is None and me.d == ONE:
                x = X.zpoly(me.n); pts = [Fr(1, 8), Fr(1), Fr(5, 4), Fr(2), Fr(8)]; lg = [Fr(math.log(q)).limit_denominator(10**9) for q in pts]; e = Fr(1, 10**8)
                ax += [v <= l + e + (x - q) / q for q, l in zip(pts, lg)]
                ax += [z3.Implies(z3.And(x >= p, x <= q), v >= l - e + (x - p) * ((r - l) / (q - p))) for p, q, l, r in zip(pts, pts[1:], lg, lg[1:])]
            if c is not None: L = math.log(c); ax = [v > Fr(L) - Fr(1, 10**12), v < Fr(L) + Fr(1, 10**12)]
            X.axioms[i] = ax
        return Sym({((X.atom(k, mk), 1),): Fr(1)})
    def log10(self): return self.log() / Sym.of(10).log()
    def exp(self):
        c = self.const()
        if c == 0: return Sym(ONE)
        fam = None
        if self.d == ONE:
            L = 1
            for v in self.n.values(): L = L * v.denominator // math.gcd(L, v.denominator)
            g = 0
            for v in self.n.values(): g = math.gcd(g, int(v * L))
            if self.n[max(self.n)] < 0: g = -g
            if all(len(m) == 1 and m[0][1] == 1 and X.atoms[m[0][0]][0] == 'log' for m in self.n):
                pr = Sym(ONE)   # the exponential of the integer combination L * self of logarithms
                for m, v in self.n.items(): _, n, d, _ = X.atoms[m[0][0]]; pr = pr * Sym(dict(n), dict(d) or ONE) ** int(v * L)
                if L == 1: return pr
            else: pr = None
            q = Fr(g, L); fam = tuple(sorted((m, v / q) for m, v in self.n.items())); F = X.expfam.setdefault(fam, {})
            for q0, i0 in F.items():
                if (q / q0).denominator == 1 and i0 in X.seen: return Sym({((i0, 1),): Fr(1)}) ** int(q / q0)
        k = ('exp', p_key(self.n), p_key(self.d)); z = X.zpoly(self.n); me = self
        if me.d == ONE and all(len(m) == 1 and m[0][1] == 1 and X.atoms[m[0][0]][0] == 'log' for m in me.n): ls = logsign(me.n); z = X.zpoly(p_mul(ls.n, ls.d))
        def mk(i):
            v = X.zv[i]; ax = [v > 0]
            if me.d == ONE: ax += [(v > 1) == (z > 0), (v == 1) == (z == 0)]
            if fam is not None:
                if pr is not None and L <= 3: ax.append(z3.Product(*[v] * L) * X.zpoly(pr.d) == X.zpoly(pr.n))
                F[q] = i
            X.axioms[i] = ax
        i = X.atom(k, mk)
        if fam is not None and ('link', i) not in X.dec:
            X.dec['link', i] = True
            for q0, i0 in F.items():   # E_q^b = E_q0^a for q/q0 = a/b
                if i0 != i and i0 in X.seen:
                    r = q / q0; a, b = r.numerator, r.denominator; A, B = X.zv[i0], X.zv[i]
                    if abs(a) <= 4 and b <= 4:
                        l, rr = ([A] * a, [B] * b) if a > 0 else ([], [B] * b + [A] * -a)
                        f = (z3.Product(*l) if l else z3.RealVal(1)) == z3.Product(*rr); X.solver.add(f); X.pathcond.append(f)
        return Sym({((i, 1),): Fr(1)})
    def floor(self):
        c = self.const()
        if c is not None: return Sym.of(math.floor(c))
        lo, hi = X.floor_range
        if bool(self >= 0):
            for k in range(0, hi + 1):
                if bool(self < k + 1): return Sym.of(k)
        else:
            for k in range(-1, lo - 1, -1):
                if bool(self >= k): return Sym.of(k)
        raise Undecided('floor out of the stated range')
    def __floor__(self): return self.floor()
    def ceil(self): return -((-self).floor())
    def rint(self): return (self + Fr(1, 2)).floor()
    def fn(self, name):
        return Sym({((X.atom((name, p_key(self.n), p_key(self.d))), 1),): Fr(1)})
    def sin(self):
        c = self.const(); return Sym({}) if c == 0 else self.fn('sin')
    def cos(self):
        c = self.const(); return Sym(ONE) if c == 0 else self.fn('cos')
    def isfinite(self): return True
    def isnan(self): return False
    def sign(self): return 0 if bool(self == 0) else (1 if bool(self > 0) else -1)
numbers.Real.register(Sym)
def logsign(n):
    """a value with the sign of a rational combination of logarithms of positive quantities"""
    L = 1
    for v in n.values(): L = L * v.denominator // math.gcd(L, v.denominator)
    g = 0
    for v in n.values(): g = math.gcd(g, int(v * L))
    a = b = Sym(ONE)
    for m, v in n.items():
        k = int(v * L) // g; _, nn, dd, _ = X.atoms[m[0][0]]; q = Sym(dict(nn), dict(dd) or ONE)
        if k > 0: a = a * q ** k
        else: b = b * q ** (-k)
    return a - b
X.floor_range = (-8, 8)

def show(s):
    def f(p): return ' + '.join('%s%s' % (c if c != 1 or not m else '', ''.join('*%s^%d' % (X.atoms[k][1] if X.atoms[k][0] == 'var' else 'f%d' % k, e) for k, e in m)) for m, c in list(p.items())[:4]) or '0'
    return f(s.n) + ('' if s.d == ONE else ' / (%s)' % f(s.d))

class SymC:
    """Complex value with symbolic parts."""
    __slots__ = ('re', 'im')
    def __init__(self, re, im): self.re = Sym.of(re); self.im = Sym.of(im)
    @staticmethod
    def of(x):
        if isinstance(x, SymC): return x
        if isinstance(x, (complex, np.complexfloating)): return SymC(float(x.real), float(x.imag))
        s = Sym.of(x); return None if s is None else SymC(s, 0)
    real = property(lambda s: s.re); imag = property(lambda s: s.im)
    def __add__(s, o): o = SymC.of(o); return NotImplemented if o is None else SymC(s.re + o.re, s.im + o.im)
    __radd__ = __add__
    def __neg__(s): return SymC(-s.re, -s.im)
    def __pos__(s): return s
    def __sub__(s, o): o = SymC.of(o); return NotImplemented if o is None else SymC(s.re - o.re, s.im - o.im)
    def __rsub__(s, o): o = SymC.of(o); return NotImplemented if o is None else o - s
    def __mul__(s, o): o = SymC.of(o); return NotImplemented if o is None else SymC(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    __rmul__ = __mul__
    def __truediv__(s, o):
        o = SymC.of(o)
        if o is None: return NotImplemented
        if o.im.const() == 0: return SymC(s.re / o.re, s.im / o.re)
        d = (o.re * o.re + o.im * o.im).inv(); return SymC((s.re * o.re + s.im * o.im) * d, (s.im * o.re - s.re * o.im) * d)
    def __rtruediv__(s, o): return SymC.of(o) / s
    def __pow__(s, e):
        k = int(e); r = SymC(1, 0); b = s if k >= 0 else SymC(1, 0) / s
        for _ in range(abs(k)): r = r * b
        return r
    def conjugate(s): return SymC(s.re, -s.im)
    conj = conjugate
    def __abs__(s): return (s.re * s.re + s.im * s.im).sqrt()
    def __eq__(s, o):
        o = SymC.of(o)
        if o is None: return False
        return bool(s.re == o.re) and bool(s.im == o.im)
    def __ne__(s, o): return not (s == o)
    def __hash__(s): return hash((s.re, s.im))
    def __bool__(s): return bool(s.re != 0) or bool(s.im != 0)
    def __copy__(s): return s
    def __deepcopy__(s, m): return s
    def copy(s): return s
    def __complex__(s): return complex(float(s.re), float(s.im))
    def __repr__(s): return 'SymC(%s, %s)' % (show(s.re), show(s.im))
    @property
    def dtype(self): return np.dtype(object)

# ---------------------------------------------------------------- harness context
class Skip(Exception): pass
class Ctx:
    """The interface harnesses use; symbolic here, float in Native."""
    sym = True
    def __init__(self, conf): self.conf = conf
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        try: return self.conf[k]
        except KeyError: raise AttributeError(k)
    def cfg(self, k, d=None): return self.conf.get(k, d)
    def var(self, name, lo, hi, lo_open=False, hi_open=False):
        lo, hi = Fr(lo), Fr(hi); i = X.atom(('var', name)); v = X.zv[i]; X.vars[name] = i
        c = [v > lo if lo_open else v >= lo, v < hi if hi_open else v <= hi]
        for q in c: X.solver.add(q); X.pathcond.append(q)
        return Sym({((i, 1),): Fr(1)})
    def choice(self, name, n):
        """an integer in [0, n) chosen by forking"""
        i = X.atom(('var', name)); v = X.zv[i]; X.vars[name] = i
        for q in (v >= 0, v <= n - 1): X.solver.add(q); X.pathcond.append(q)
        for k in range(n - 1):
            if X.decide(v == k, ('choice', name, k)): return k
        q = v == n - 1; X.solver.add(q); X.pathcond.append(q); return n - 1
    def assume(self, c):
        if isinstance(c, SymBool):
            X.solver.add(c.z); X.pathcond.append(c.z)
            if X.check() == z3.unsat: raise Abort('assumption infeasible')
        elif not c: raise Abort('assumption infeasible')
    def num(self, x): return Sym.of(Fr(x) if isinstance(x, str) else x)
    def array(self, l): a = np.empty(len(l), dtype=object); a[:] = l; return a
    def pi(self): return Sym.of(math.pi)
    def cplx(self, a, b): return SymC(a, b)
    def gap(self, a, b): """keep comparisons of a and b off rounding boundaries: equal or at least 1/64 apart"""; d = (a - b); self.assume(SymBool(z3.Or(zcmp('==', d.n), X.zpoly(d.n) > Fr(1, 64), X.zpoly(d.n) < -Fr(1, 64))))
    def assume_gap(self, a): self.gap(a, Sym({}))
    def obs(self, label, v):
        if isinstance(v, (SymC, complex, np.complexfloating)): v = SymC.of(v); X.obs.append((label + '.re', v.re)); X.obs.append((label + '.im', v.im))
        else: X.obs.append((label, v))
    def _lab(self, label): X.stats['asserts'] += 1; l = label.split('[')[0]; X.labels[l] = X.labels.get(l, 0) + 1
    def _viol(self, label, detail, kind='assert'):
        X.violations.append(dict(label=label, kind=kind, assign=X.model_assign(X._m), detail=detail[:300])); raise Violated()
    def eq(self, label, a, b, tol=1e-9):
        if isinstance(a, (SymC, complex, np.complexfloating)) or isinstance(b, (SymC, complex, np.complexfloating)):
            a, b = SymC.of(a), SymC.of(b); self.eq(label + '.re', a.re, b.re, tol); self.eq(label + '.im', a.im, b.im, tol); return
        self._lab(label); a_, b_ = Sym.of(a), Sym.of(b)
        if a_ is None or b_ is None:
            self.truth(label + '.type', False, detail='not a number: %r %r' % (a, b)); return
        a, b = a_, b_; self.obs(label, a)
        x = p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), -1)
        c = p_const(x)
        if not x: X.stats['closed_nf'] += 1; return
        big = max(max((abs(v) for v in p_mul(a.n, b.d).values()), default=0), max((abs(v) for v in p_mul(b.n, a.d).values()), default=0))
        if all(abs(v) <= Fr(tol) * big for v in x.values()): X.stats['closed_nf'] += 1; return
        z = X.zpoly(x); r = X.check(z != 0)
        if r == z3.unsat: X.stats['closed_solver'] += 1; return
        if r == z3.sat:
            # prefer a clear-cut counterexample
            d = X.zpoly(p_mul(a.d, b.d)); m0 = X._m
            for g in (Fr(1, 8), Fr(1, 1000)):
                if X.check(z * z > g * d * d) == z3.sat: break
            else: X._m = m0
            self._viol(label, 'got %s want %s' % (show(a), show(b)))
        raise Undecided('equality %s undecided' % label)
    def truth(self, label, c, detail=''):
        self._lab(label)
        if isinstance(c, SymBool):
            r = X.check(z3.Not(c.z))
            if r == z3.unsat: X.stats['closed_solver'] += 1; return
            if r == z3.sat: self._viol(label, detail or 'condition false')
            raise Undecided('condition %s undecided' % label)
        X.stats['closed_const'] += 1
        if not c:
            if X.check() == z3.unsat: raise Abort('infeasible')
            self._viol(label, detail or 'condition false on this path')
    def le(self, label, a, b): self.truth(label, Sym.of(a) <= Sym.of(b)); self.obs(label, Sym.of(a))
    def lt(self, label, a, b): self.truth(label, Sym.of(a) < Sym.of(b)); self.obs(label, Sym.of(a))
class Violated(Exception): pass

class Native:
    sym = False
    def __init__(self, conf, assign): self.conf, self.a, self.fails, self.o = conf, assign, [], []
    def __getattr__(self, k):
        try: return self.__dict__['conf'][k]
        except KeyError: raise AttributeError(k)
    def cfg(self, k, d=None): return self.conf.get(k, d)
    def var(self, name, lo, hi, lo_open=False, hi_open=False): return float(self.a.get(name, float(Fr(lo))))
    def choice(self, name, n): return int(round(self.a.get(name, 0)))
    def assume(self, c):
        if not c: pass
    def num(self, x): return float(Fr(x)) if isinstance(x, str) else float(x)
    def gap(self, a, b): pass
    def assume_gap(self, a): pass
    def array(self, l):
        return np.array(l, dtype=complex if any(isinstance(x, complex) for x in l) else float)
    def pi(self): return math.pi
    def cplx(self, a, b): return complex(a, b)
    def obs(self, label, v):
        if isinstance(v, (complex, np.complexfloating)): self.o.append((label + '.re', float(v.real))); self.o.append((label + '.im', float(v.imag)))
        else: self.o.append((label, float(v)))
    def eq(self, label, a, b, tol=1e-9):
        if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
            a, b = complex(a), complex(b); self.eq(label + '.re', a.real, b.real, tol); self.eq(label + '.im', a.imag, b.imag, tol); return
        try: a, b = float(a), float(b)
        except Exception: self.fails.append((label, repr(a)[:60], repr(b)[:60])); return
        self.obs(label, a)
        if not (abs(a - b) <= max(1e-7, tol) * max(1., abs(a), abs(b))): self.fails.append((label, a, b))
    def truth(self, label, c, detail=''):
        if not c: self.fails.append((label, 0, 1))
    def le(self, label, a, b):
        self.obs(label, a)
        if not a <= b + 1e-9 * max(1., abs(a), abs(b)): self.fails.append((label, a, b))
    def lt(self, label, a, b):
        self.obs(label, a)
        if not a < b + 1e-9 * max(1., abs(a), abs(b)): self.fails.append((label, a, b))

# ---------------------------------------------------------------- evaluation of symbolic values
def evaluate(s, assign):
    """float value of a Sym under an assignment of the variables"""
    memo = {}
    def atom(i):
        if i in memo: return memo[i]
        k = X.atoms[i]
        if k[0] == 'var': v = assign[k[1]]
        elif k[0] == 'sqrt': v = math.sqrt(max(0., poly(dict(k[1]))))
        elif k[0] == 'log': v = math.log(poly(dict(k[1])) / poly(dict(k[2])))
        elif k[0] == 'exp': v = math.exp(poly(dict(k[1])) / poly(dict(k[2])))
        elif k[0] in ('sin', 'cos'): v = getattr(math, k[0])(poly(dict(k[1])) / poly(dict(k[2])))
        elif k[0] == 'ivar' and isinstance(k[1], tuple) and k[1][0] == 'div': v = math.floor(poly(dict(k[1][1])) / k[1][2] + 1e-9)
        else: raise KeyError(k[0])
        memo[i] = v; return v
    def poly(p):
        t = 0.
        for m, c in p.items():
            q = float(c)
            for k, e in m: q *= atom(k) ** e
            t += q
        return t
    return poly(s.n) / poly(s.d)

# ---------------------------------------------------------------- numpy shim
class NpShim:
    """numpy for symbolic runs: everything is numpy's own except float-only helpers."""
    def __init__(self, **over): self.__dict__.update(over)
    def __getattr__(self, k): return getattr(np, k)
    def _o(self, a): a = np.asarray(a); return a.dtype == object
    def zeros(self, shape, dtype=float, **k): a = np.empty(shape, dtype=object); a[...] = 0; return a if dtype in (float, complex, None, object, 'float', 'complex', np.float64, np.complex128) else np.zeros(shape, dtype, **k)
    def zeros_like(self, a, dtype=None, **k): return self.zeros(np.shape(a)) if dtype is None or dtype in (float, complex) else np.zeros_like(a, dtype)
    def ones(self, shape, dtype=float, **k): a = np.empty(shape, dtype=object); a[...] = 1; return a if dtype in (float, complex, None, object) else np.ones(shape, dtype, **k)
    def empty(self, shape, dtype=float, **k): a = np.empty(shape, dtype=object); a[...] = None; return a if dtype in (float, complex, None, object) else np.empty(shape, dtype, **k)
    def full(self, shape, v, dtype=None, **k): return np.full(shape, v, dtype=object) if dtype in (None, float, complex) else np.full(shape, v, dtype, **k)
    def isscalar(self, x): return isinstance(x, (Sym, SymC)) or np.isscalar(x)
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (self._o(a) or self._o(b)): return np.isclose(a, b, rtol, atol)
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object)); r = np.empty(A.shape, dtype=bool)
        for i in np.ndindex(A.shape): d = abs(Sym.of(A[i]) - Sym.of(B[i])); r[i] = bool(d <= Sym.of(Fr(str(atol))) + Sym.of(Fr(str(rtol))) * abs(Sym.of(B[i])))
        return r if r.ndim else bool(r)
    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False): return bool(np.all(self.isclose(a, b, rtol, atol)))
    def sign(self, a):
        if not self._o(a): return np.sign(a)
        a = np.asarray(a); r = np.empty(a.shape, dtype=int)
        for i in np.ndindex(a.shape): r[i] = Sym.of(a[i]).sign()
        return r if r.ndim else int(r)
    def nan_to_num(self, a, **k): return a if self._o(a) else np.nan_to_num(a, **k)
    def gradient(self, a, *x, **k):
        if not self._o(a): return np.gradient(a, *x, **k)
        a = np.asarray(a)
        if x or k or a.ndim != 1: raise Undecided('np.gradient form not modelled')
        if len(a) < 2: raise ValueError('Shape of array too small to calculate a numerical gradient')
        r = np.empty(len(a), dtype=object); r[0] = a[1] - a[0]; r[-1] = a[-1] - a[-2]
        for i in range(1, len(a) - 1): r[i] = (a[i + 1] - a[i - 1]) / 2
        return r
    def real(self, a):
        if not self._o(a): return np.real(a)
        a = np.asarray(a); r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape): r[i] = a[i].real
        return r
    def imag(self, a):
        if not self._o(a): return np.imag(a)
        a = np.asarray(a); r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape): r[i] = a[i].imag
        return r
    def isfinite(self, a): return np.ones(np.shape(a), dtype=bool) if self._o(a) else np.isfinite(a)
    def isnan(self, a): return np.zeros(np.shape(a), dtype=bool) if self._o(a) else np.isnan(a)
    def iscomplexobj(self, a): return np.iscomplexobj(a) if not self._o(a) else any(isinstance(x, (SymC, complex)) for x in np.asarray(a).ravel())
    def array(self, a, dtype=None, **k):
        if dtype in (float, complex, np.float64, np.complex128, 'float', 'complex') and self._o(np.array(a, dtype=None) if not hasattr(a, 'dtype') else a): return np.array(a, dtype=object)
        return np.array(a, dtype=dtype, **k)
    def asarray(self, a, dtype=None, **k):
        if dtype in (float, complex, np.float64, np.complex128, 'float', 'complex') and self._o(a): return np.asarray(a, dtype=object)
        return np.asarray(a, dtype=dtype, **k)
    def ascontiguousarray(self, a, dtype=None): return np.ascontiguousarray(a) if self._o(a) else np.ascontiguousarray(a, dtype)
    def abs(self, a):
        if not self._o(a): return np.abs(a)
        return np.absolute(np.asarray(a)) if np.ndim(a) else abs(np.asarray(a)[()])
    absolute = abs

# ---------------------------------------------------------------- integers and builtin stand-ins
class SymI(Sym):
    """symbolic integer (the atom is constrained to integer values)"""
    __slots__ = ()
    def _w(self, r): return SymI(r.n, r.d) if isinstance(r, Sym) and r.d == ONE else r
    @staticmethod
    def fresh(name):
        i = X.atom(('ivar', name)); q = z3.IsInt(X.zv[i]); X.solver.add(q); X.pathcond.append(q); return SymI({((i, 1),): Fr(1)})
    def _int(self, o): return isinstance(o, (int, np.integer, SymI))
    def __add__(self, o): r = Sym.__add__(self, o); return self._w(r) if self._int(o) else r
    __radd__ = __add__
    def __neg__(self): return self._w(Sym.__neg__(self))
    def __sub__(self, o): r = Sym.__sub__(self, o); return self._w(r) if self._int(o) else r
    def __rsub__(self, o): r = Sym.__rsub__(self, o); return self._w(r) if self._int(o) else r
    def __mul__(self, o): r = Sym.__mul__(self, o); return self._w(r) if self._int(o) else r
    __rmul__ = __mul__
    def __divmod__(self, o):
        k = int(o)
        if k <= 0: raise Undecided('division of a symbolic integer by %r' % o)
        c = self.const()
        if c is not None: q = Sym.of(c // k); return SymI(q.n), self - SymI(q.n) * k
        q = SymI.fresh(('div', p_key(self.n), k)); r = self - q * k
        for f in (X.zpoly(r.n) >= 0, X.zpoly(r.n) <= k - 1): X.solver.add(f); X.pathcond.append(f)
        return q, r
    def __floordiv__(self, o): return self.__divmod__(o)[0]
    def __mod__(self, o): return self.__divmod__(o)[1]
    def __index__(self):
        c = self.const()
        if c is not None: return int(c)
        for k in range(0, 65):
            if bool(self == k): return k
        raise Undecided('symbolic integer used as an index')
    def __int__(self): return self.__index__()
class _IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (int, SymI))
    def __subclasscheck__(c, k): return issubclass(k, (int, SymI))
class IntShim(metaclass=_IntMeta):
    def __new__(c, x=0, *a): return x if isinstance(x, SymI) else int(x, *a)
class _FloatMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (float, Sym))
    def __subclasscheck__(c, k): return issubclass(k, (float, Sym))
class FloatShim(metaclass=_FloatMeta):
    def __new__(c, x=0.): return x if isinstance(x, Sym) else float(x)
class OA(np.ndarray):
    """object array whose real and imaginary parts are taken element by element"""
    @property
    def real(self):
        r = np.empty(self.shape, dtype=object).view(OA)
        for i in np.ndindex(self.shape): r[i] = self[i].real
        return r
    @property
    def imag(self):
        r = np.empty(self.shape, dtype=object).view(OA)
        for i in np.ndindex(self.shape): r[i] = self[i].imag
        return r
def oa(a): return np.asarray(a, dtype=object).view(OA)
class Linear:
    """scipy's interpolation and quadrature as exact linear maps: the weights are the
    results of the real routine on unit vectors at the (concrete) points"""
    memo = {}
    @classmethod
    def uni(L, U, x, k, ext, out):
        key = ('u', x.tobytes(), k, ext, out.tobytes())
        if key not in L.memo:
            n = len(x); L.memo[key] = np.array([U(x, np.eye(n)[i], k=k, ext=ext)(out) for i in range(n)])
        return L.memo[key]
    @classmethod
    def bi(L, R, x, k, out):
        key = ('b', x.tobytes(), k, out.tobytes())
        if key not in L.memo:
            n = len(x); L.memo[key] = np.array([R(x, x, np.outer(np.eye(n)[i], np.ones(n)), kx=k, ky=k)(out, x[:1])[:, 0] for i in range(n)])
        return L.memo[key]
def mat(W, v):
    """sum_i W[i, j] v[i] over object vectors"""
    n, m = W.shape; r = np.empty(m, dtype=object)
    for j in range(m):
        t = 0
        for i in range(n):
            w = float(W[i, j])
            if abs(w) > 1e-14: t = t + (v[i] if abs(w - 1) < 1e-14 else v[i] * w)
        r[j] = t if not isinstance(t, int) else Sym.of(0)
    return r
def scipy_shims():
    import scipy.interpolate as si, scipy.integrate as sg
    U, R, simpson = si.InterpolatedUnivariateSpline, si.RectBivariateSpline, sg.simpson
    obj = lambda a: np.asarray(a).dtype == object
    class IUS:
        def __new__(c, x, y, w=None, bbox=[None] * 2, k=3, ext=0, check_finite=False):
            if not obj(y): return U(x, y, w, bbox, k, ext, check_finite)
            return object.__new__(c)
        def __init__(s, x, y, w=None, bbox=[None] * 2, k=3, ext=0, check_finite=False):
            s.x = np.asarray(x, dtype=float); s.y = OA.real.fget(np.asarray(y).ravel()) if any(isinstance(v, SymC) for v in np.asarray(y).ravel()) else np.asarray(y).ravel(); s.k, s.ext = k, ext; U(s.x, np.zeros(len(s.y)), k=k, ext=ext)
        def __call__(s, t, nu=0, ext=None):
            t = np.asarray(t, dtype=float); return mat(Linear.uni(U, s.x, s.k, s.ext if ext is None else ext, np.atleast_1d(t)), s.y).reshape(t.shape).view(OA)
    class RBS:
        def __new__(c, x, y, z, bbox=[None] * 4, kx=3, ky=3, s=0, maxit=20):
            if not obj(z): return R(x, y, z, bbox, kx, ky, s)
            return object.__new__(c)
        def __init__(s, x, y, z, bbox=[None] * 4, kx=3, ky=3, s_=0, maxit=20):
            s.x, s.y, s.z, s.kx, s.ky = np.asarray(x, dtype=float), np.asarray(y, dtype=float), np.asarray(z), kx, ky; R(s.x, s.y, np.zeros(s.z.shape), kx=kx, ky=ky)
        def __call__(s, x, y, dx=0, dy=0, grid=True):
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float); WX, WY = Linear.bi(R, s.x, s.kx, x), Linear.bi(R, s.y, s.ky, y)
            if not grid: raise Undecided('RectBivariateSpline(grid=False) not modelled')
            t = np.array([mat(WX, s.z[:, j]) for j in range(s.z.shape[1])], dtype=object)   # [j, x]
            return np.array([mat(WY, t[:, i]) for i in range(len(x))], dtype=object).reshape(len(x), len(y)).view(OA)
    def simp(y, x=None, *, dx=1.0, axis=-1, **k):
        if not obj(y): return simpson(y, x=x, dx=dx, axis=axis, **k)
        y = np.moveaxis(np.asarray(y), axis, -1); n = y.shape[-1]; W = simpson(np.eye(n), x=x, dx=dx, axis=-1) if x is None else simpson(np.eye(n), x=np.asarray(x, dtype=float), axis=-1)
        r = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape): r[i] = mat(np.asarray(W)[:, None], y[i])[0]
        return r if r.ndim else r[()]
    si.InterpolatedUnivariateSpline, si.RectBivariateSpline, sg.simpson = IUS, RBS, simp
