"""Value domain of the analyser.

Atoms    hash-consed symbolic constants (parameters, initial memory cells,
         uninterpreted functions, indefinite sums ...).
Poly     Laurent polynomials over atoms with rational coefficients.  Machine
         arithmetic is abstracted to exact arithmetic (stated assumption).
Value    a Poly, or a decision node  Ite(cond, hi, lo)  - an algebraic decision
         diagram over condition atoms, ordered by atom id, reduced and shared.
Booleans are Values with leaves 0 and 1.
"""
from fractions import Fraction
import math

_intern = {}
_counter = [0]


class Atom:
    __slots__ = ('kind', 'args', 'id', 'fv', 'isint', 'ptr', 'depth', 'flags')

    def __repr__(self):
        return show_atom(self)


INT_KINDS = {'div', 'mod', 'fi'}


def _fv_of(x):
    if isinstance(x, (Poly, Ite, Atom)):
        return x.fv
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _fv_of(y)
        return r
    f = getattr(x, 'fv', None)
    return f if f is not None else frozenset()


def _depth_of(x):
    if isinstance(x, (Poly, Ite, Atom)):
        return x.depth
    if isinstance(x, tuple):
        return max([_depth_of(y) for y in x] + [0])
    return getattr(x, 'depth', 0) or 0


def _flags_of(x):
    if isinstance(x, (Poly, Ite, Atom)):
        return x.flags
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _flags_of(y)
        return r
    return frozenset()


def atom(kind, *args, isint=False, ptr=False, binder=False, flag=None):
    key = (kind,) + args
    a = _intern.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.args = args
    _counter[0] += 1
    a.id = _counter[0]
    a.isint = isint or kind in INT_KINDS
    a.ptr = ptr
    fv = frozenset()
    for x in args:
        fv |= _fv_of(x)
    d = max([_depth_of(x) for x in args] + [0])
    fl = frozenset()
    for x in args:
        fl |= _flags_of(x)
    if flag:
        fl |= {flag}
    a.flags = fl
    if kind in ('var', 'bv', 'ls'):
        fv = fv | {a}
    if binder:
        # args[0] is the level of the bound variable
        d = max(d, args[0])
        fv = frozenset(x for x in fv if not (x.kind == 'bv' and x.args[0] == args[0]))
    a.fv = fv
    a.depth = d
    _intern[key] = a
    return a


class Poly:
    __slots__ = ('t', 'fv', 'id', 'depth', 'flags')

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0) if self.t else 0

    def atoms(self):
        s = {}
        for m in self.t:
            for a, e in m:
                s[a] = 1
        return s.keys()

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


_polys = {}


def mk(t):
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is not None:
        return p
    p = Poly()
    p.t = {m: (c.numerator if type(c) is Fraction and c.denominator == 1 else c) for m, c in t.items()}
    _counter[0] += 1
    p.id = _counter[0]
    fv = set()
    d = 0
    fl = frozenset()
    for m in t:
        for a, e in m:
            fv |= a.fv
            if a.depth > d:
                d = a.depth
            fl |= a.flags
    p.fv = frozenset(fv)
    p.depth = d
    p.flags = fl
    _polys[key] = p
    return p


ZERO = mk({})
ONE = mk({(): 1})


def qdiv(a, b):
    return Fraction(a) / b


def const(c):
    if type(c) is not int:
        c = Fraction(c)
    return mk({(): c}) if c else ZERO


def pa(a):
    return mk({((a, 1),): 1})


def var(name, isint=False, ptr=False):
    return pa(atom('var', name, isint=isint, ptr=ptr))


# --- monomial arithmetic -----------------------------------------------------

def _mono_mul(m1, m2):
    """returns list of (mono, coef) or None for simple; handles reductions."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    special = None
    for a, e in m2:
        ne = d.get(a, 0) + e
        if ne == 0:
            d.pop(a, None)
        else:
            d[a] = ne
        k = a.kind
        if k in ('sin', 'sqrt', 'abs', 'ind') and ne not in (0, 1):
            special = special or []
            special.append(a)
    return tuple(sorted(d.items(), key=_akey)), special


def _akey(x):
    return x[0].id


def padd(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        n = t.get(m, 0) + c
        if n:
            t[m] = n
        else:
            del t[m]
    return mk(t)


def pscale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return mk({m: k * c for m, k in p.t.items()})


def pneg(p):
    return mk({m: -k for m, k in p.t.items()})


def psub(p, q):
    if not q.t:
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        n = t.get(m, 0) - c
        if n:
            t[m] = n
        else:
            del t[m]
    return mk(t)


_mulcache = {}
MAX_TERMS = 20000


class TooBig(Exception):
    pass


def pmul(p, q):
    if not p.t or not q.t:
        return ZERO
    if q.is_const():
        return pscale(p, q.const())
    if p.is_const():
        return pscale(q, p.const())
    key = (p.id, q.id) if p.id < q.id else (q.id, p.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    if len(p.t) * len(q.t) > MAX_TERMS:
        raise TooBig('product too large')
    acc = {}
    extra = []
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, sp = _mono_mul(m1, m2)
            if sp:
                extra.append((m, c1 * c2))
            else:
                n = acc.get(m, 0) + c1 * c2
                if n:
                    acc[m] = n
                else:
                    acc.pop(m, None)
    r = mk(acc)
    for m, c in extra:
        r = padd(r, pscale(_reduce_mono(m), c))
    _mulcache[key] = r
    return r


def _reduce_mono(m):
    """multiply out a monomial whose special atoms have exponent outside {0,1}"""
    r = ONE
    plain = []
    for a, e in m:
        if a.kind in ('sin', 'sqrt', 'abs', 'ind') and e not in (0, 1):
            if a.kind == 'ind':
                r = pmul(r, pa(a))
                continue
            if a.kind == 'sin':
                sq = psub(ONE, ppow(cos_(a.args[0]), 2))
            elif a.kind == 'sqrt':
                sq = a.args[0]
            else:
                sq = pmul(a.args[0], a.args[0])
            if e > 0:
                k, rem = divmod(e, 2)
                r = pmul(r, ppow(sq, k))
                if rem:
                    r = pmul(r, pa(a))
            else:
                if a.kind == 'sin':
                    plain.append((a, e))
                    continue
                # a^-e : a^-1 = a / sq
                k = (-e + 1) // 2
                r = pmul(r, ppow(pinv(sq), k))
                if (-e) % 2:
                    r = pmul(r, pa(a))
        else:
            plain.append((a, e))
    base = mk({tuple(plain): Fraction(1)}) if plain else ONE
    return pmul(base, r) if r is not ONE else base


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return pinv(ppow(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pinv(p):
    if not p.t:
        return pa(atom('inv', p))           # 1/0
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not m:
            return const(qdiv(1, c))
        r = ONE
        plain = []
        for a, e in m:
            if a.kind in ('sqrt', 'abs'):
                r = pmul(r, _reduce_mono(((a, -e),)))
            elif a.kind == 'inv':
                r = pmul(r, ppow(a.args[0], e)) if e > 0 else pmul(r, ppow(pa(a), -e))
            else:
                plain.append((a, -e))
        b = mk({tuple(plain): qdiv(1, c)})
        return pmul(b, r) if r is not ONE else b
    # multi-term: normalise by leading coefficient
    lm = lead(p)
    c = p.t[lm]
    q = pscale(p, qdiv(1, c))
    return pscale(pa(atom('inv', q)), qdiv(1, c))


def lead(p):
    """canonical leading monomial (ignores the constant term when possible)"""
    ms = [m for m in p.t if m]
    if not ms:
        return ()
    return min(ms, key=lambda m: [(a.id, e) for a, e in m])


def isint_poly(p):
    for m, c in p.t.items():
        for a, e in m:
            if not (a.isint or a.ptr) or e < 0:
                return False
    return True


def int_coefs(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
    return isint_poly(p)


def nonint_surely(p):
    """p certainly is not an integer: integral non-constant part, fractional constant"""
    c = p.const()
    if c.denominator == 1:
        return False
    return int_coefs(psub(p, const(c)))


# --- decision diagrams -------------------------------------------------------

class Ite:
    __slots__ = ('c', 'hi', 'lo', 'fv', 'id', 'depth', 'flags')

    def __repr__(self):
        return show(self)


_ites = {}


def _node(c, hi, lo):
    if hi is lo:
        return hi
    key = (c.id, hi.id, lo.id)
    n = _ites.get(key)
    if n is not None:
        return n
    n = Ite()
    n.c, n.hi, n.lo = c, hi, lo
    _counter[0] += 1
    n.id = _counter[0]
    n.fv = c.fv | hi.fv | lo.fv
    n.depth = max(c.depth, hi.depth, lo.depth)
    n.flags = c.flags | hi.flags | lo.flags
    _ites[key] = n
    return n


_ap = {}


def top(v):
    return v.c.id if isinstance(v, Ite) else 1 << 60


def cof(v, c, side):
    if isinstance(v, Ite) and v.c is c:
        return v.hi if side else v.lo
    return v


def apply1(name, f, a):
    if not isinstance(a, Ite):
        return f(a)
    key = (name, a.id)
    r = _ap.get(key)
    if r is None:
        r = ite_atom(a.c, apply1(name, f, a.hi), apply1(name, f, a.lo))
        _ap[key] = r
    return r


MAX_ADD = 60000
_addcount = [0]


def apply2(name, f, a, b):
    if not isinstance(a, Ite) and not isinstance(b, Ite):
        return f(a, b)
    key = (name, a.id, b.id)
    r = _ap.get(key)
    if r is None:
        _addcount[0] += 1
        c = a.c if top(a) <= top(b) else b.c
        r = ite_atom(c, apply2(name, f, cof(a, c, 1), cof(b, c, 1)),
                     apply2(name, f, cof(a, c, 0), cof(b, c, 0)))
        _ap[key] = r
    return r


def ite_atom(c, hi, lo):
    """c smaller than every condition in hi/lo is not guaranteed: reorder."""
    if hi is lo:
        return hi
    if top(hi) > c.id and top(lo) > c.id:
        if not isinstance(hi, Ite) and not isinstance(lo, Ite):
            m = minmax(c, hi, lo)
            if m is not None:
                return m
        return _node(c, hi, lo)
    key = ('ia', c.id, hi.id, lo.id)
    r = _ap.get(key)
    if r is not None:
        return r
    t = min(top(hi), top(lo), c.id)
    if t == c.id:
        # same atom appears at top of hi/lo
        r = ite_atom(c, cof(hi, c, 1), cof(lo, c, 0))
    else:
        d = hi.c if top(hi) == t else lo.c
        r = ite_atom(d, ite_atom(c, cof(hi, d, 1), cof(lo, d, 1)),
                     ite_atom(c, cof(hi, d, 0), cof(lo, d, 0)))
    _ap[key] = r
    return r


def minmax(c, hi, lo):
    """ite(lt0(d), x, y) with x-y = +-d over the reals -> min/max through abs"""
    if c.kind != 'lt0' or c.args[1] == 'i':
        return None
    d = c.args[0]
    x = psub(hi, lo)
    # d normalised to leading coef +-1 : compare up to positive scale
    lm = lead(x)
    if not lm or lm not in d.t:
        return None
    k = qdiv(x.t[lm], d.t[lm])
    if pscale(d, k) is not x:
        return None
    # d<0 ? lo + k d : lo      with k>0 -> lo + k*min(d,0) ; k<0 -> lo + |k| max(-d,0)
    half = Fraction(1, 2)
    ab = abs_(d)
    if k > 0:
        return padd(lo, pscale(psub(d, ab), half * k))
    return padd(lo, pscale(psub(ab, d), half * -k))


def ite(c, a, b):
    """c boolean Value"""
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    if not isinstance(c, Ite):
        raise ValueError('bad condition %r' % (c,))
    key = ('ite', c.id, a.id, b.id)
    r = _ap.get(key)
    if r is not None:
        return r
    t = min(top(c), top(a), top(b))
    x = c.c if top(c) == t else (a.c if top(a) == t else b.c)
    r = ite_atom(x, ite(cof(c, x, 1), cof(a, x, 1), cof(b, x, 1)),
                 ite(cof(c, x, 0), cof(a, x, 0), cof(b, x, 0)))
    _ap[key] = r
    return r


def band(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    return ite(a, b, ZERO)


def bor(a, b):
    return ite(a, ONE, b)


def bnot(a):
    return ite(a, ZERO, ONE)


def add(a, b):
    return apply2('+', padd, a, b)


def sub(a, b):
    return apply2('-', psub, a, b)


def mul(a, b):
    return apply2('*', pmul, a, b)


def neg(a):
    return apply1('neg', pneg, a)


def div(a, b):
    return apply2('/', lambda x, y: pmul(x, pinv(y)), a, b)


def leaves(v, acc=None):
    if acc is None:
        acc = set()
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x, Ite):
                st.append(x.hi)
                st.append(x.lo)
            else:
                acc.add(x)
    return acc


def conds(v):
    s = set()
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Ite) and x.id not in seen:
            seen.add(x.id)
            s.add(x.c)
            st.append(x.hi)
            st.append(x.lo)
    return s


# --- functions ---------------------------------------------------------------

def signnorm(p):
    """returns (s, q) with p = s*q, q having a positive leading coefficient"""
    if not p.t:
        return 1, p
    lm = lead(p)
    if p.t[lm] < 0:
        return -1, pneg(p)
    return 1, p


def cos_(p):
    if p.is_const() and p.const() == 0:
        return ONE
    s, q = signnorm(p)
    return pa(atom('cos', q))


def sin_(p):
    if p.is_const() and p.const() == 0:
        return ZERO
    s, q = signnorm(p)
    r = pa(atom('sin', q))
    return r if s > 0 else pneg(r)


def abs_(p):
    if p.is_const():
        return const(abs(p.const()))
    s, q = signnorm(p)
    if nonneg_surely(q):
        return q
    # pull out rational factor
    lm = lead(q)
    c = q.t[lm]
    r = pa(atom('abs', pscale(q, qdiv(1, c))))
    return pscale(r, c)


def nonneg_surely(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.kind in ('abs', 'sqrt', 'ind', 'maxred0'):
                continue
            return False
    return True


def sqrt_(p):
    if p.is_const():
        c = p.const()
        if c >= 0:
            n = math.isqrt(c.numerator)
            d = math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    # perfect square monomial
    return pa(atom('sqrt', p))


def max_(a, b):
    if a is b:
        return a
    return pscale(padd(padd(a, b), abs_(psub(a, b))), Fraction(1, 2))


def min_(a, b):
    if a is b:
        return a
    return pscale(psub(padd(a, b), abs_(psub(a, b))), Fraction(1, 2))


def vmax(a, b):
    return apply2('max', max_, a, b)


def vmin(a, b):
    return apply2('min', min_, a, b)


def vabs(a):
    return apply1('abs', abs_, a)


def vcos(a):
    return apply1('cos', cos_, a)


def vsin(a):
    return apply1('sin', sin_, a)


def vsqrt(a):
    return apply1('sqrt', sqrt_, a)


def ufn(name, *args, isint=False):
    """uninterpreted function of Values"""
    vals = list(args)

    def go(i, acc):
        if i == len(vals):
            return pa(atom('fn', name, *acc, isint=isint))
        v = vals[i]
        if isinstance(v, Ite):
            return _distrib(v, lambda leaf: go(i + 1, acc + (leaf,)))
        return go(i + 1, acc + (v,))
    return go(0, ())


def _distrib(v, f):
    if isinstance(v, Ite):
        return ite_atom(v.c, _distrib(v.hi, f), _distrib(v.lo, f))
    return f(v)


distrib = _distrib


# --- conditions ----------------------------------------------------------------

class Facts:
    """a set of polynomials known to be >= 0 (integers), with a version"""

    def __init__(self):
        self.stack = []
        self.version = 0
        self.hooks = []
        self.gen = []          # atom -> polynomials known to be >= 0
        self._memo = {}

    _versions = {}

    def _renew(self):
        k = (self.key(), len(self.hooks), tuple(self.gen))
        self.version = self._versions.setdefault(k, len(self._versions))

    def push(self, polys):
        self.stack.append(list(polys))
        self._renew()

    def pop(self):
        self.stack.pop()
        self._renew()

    def all(self):
        for f in self.stack:
            for p in f:
                yield p

    def key(self):
        return tuple(sorted(p.id for p in self.all()))


FACTS = Facts()


def lower(p, depth=3):
    return entails_nonneg(p, depth)


_entmemo = {}


def atom_bounds(a):
    """(lo, hi) integer bounds of an atom, from registered hooks"""
    lo = hi = None
    if a.kind == 'mod' and a.args[1].is_const():
        lo, hi = 0, int(a.args[1].const()) - 1
    elif a.kind in ('abs', 'sqrt'):
        lo = 0
    for h in FACTS.hooks:
        r = h(a)
        if r:
            if r[0] is not None:
                lo = r[0] if lo is None else max(lo, r[0])
            if r[1] is not None:
                hi = r[1] if hi is None else min(hi, r[1])
    return lo, hi


def entails_nonneg(p, depth=3):
    """sound, incomplete: is p >= 0 implied by the current facts?"""
    if p.is_const():
        return p.const() >= 0
    key = (p.id, FACTS.version, depth)
    r = _entmemo.get(key)
    if r is not None:
        return r
    _entmemo[key] = False
    r = _ent(p, depth)
    _entmemo[key] = r
    return r


def _ent(p, depth):
    # bound every monomial below with atom bounds
    tot = p.const()
    ok = True
    for m, c in p.t.items():
        if not m:
            continue
        lo, hi = 1, 1
        for a, e in m:
            if e < 0:
                lo = hi = None
                break
            al, ah = atom_bounds(a)
            if al is None or al < 0:
                lo = None if (lo is None or len(m) > 1) else al
                hi = ah if len(m) == 1 else None
                if len(m) > 1:
                    lo = None
                break
            for _ in range(e):
                lo = lo * al if lo is not None else None
                hi = hi * ah if (hi is not None and ah is not None) else None
        b = (lo if c > 0 else hi)
        if b is None:
            ok = False
            break
        tot += c * b
    if ok and tot >= 0:
        return True
    if depth == 0:
        return False
    ats = set(p.atoms())
    fs = list(FACTS.all())
    for g in FACTS.gen:
        for a in ats:
            fs.extend(g(a))
    pss = [a for a in ats if a.kind == 'ps']
    if len(pss) > 1:
        fs.extend(ps_facts(pss))
    for f in fs:
        if ats & set(f.atoms()):
            # use f with the multiplier cancelling a shared monomial
            for m, c in f.t.items():
                if m and m in p.t and c * p.t[m] > 0:
                    k = qdiv(p.t[m], c)
                    if entails_nonneg(psub(p, pscale(f, k)), depth - 1):
                        return True
            # products with a nonneg atom: p has monomial m = a * m'
            if depth >= 2:
                for m, c in f.t.items():
                    if len(m) != 1 or c == 0:
                        continue
                    for pm, pc in p.t.items():
                        if len(pm) == 2 and m[0] in pm and pc * c > 0 and pm[0][1] == 1 and pm[1][1] == 1:
                            other = pm[0] if pm[1] == m[0] else pm[1]
                            lo, hi = atom_bounds(other[0])
                            o = pa(other[0])
                            if (lo is not None and lo >= 0) or entails_nonneg(o, 1):
                                if entails_nonneg(psub(p, pscale(pmul(f, o), qdiv(pc, c))), depth - 2):
                                    return True
    return False


def ps_facts(pss):
    """prefix sums of non-negative terms are monotone: B < A gives PS(A) >= PS(B) + f(B)"""
    r = []
    for a in pss:
        for b in pss:
            if a is b or a.args[0] != b.args[0] or a.args[1] is not b.args[1]:
                continue
            lo = atom_bounds(a)[0]
            if lo is None or lo < 0:
                continue
            d = psub(a.args[2], b.args[2])
            if isinstance(d, Ite):
                continue
            if entails_nonneg(psub(d, ONE), 1):
                f = open_closure(a.args[0], a.args[1], b.args[2])
                if isinstance(f, Poly):
                    r.append(psub(psub(pa(a), pa(b)), f))
            elif entails_nonneg(d, 1):
                r.append(psub(pa(a), pa(b)))
    return r


def lt0(p, integer=None):
    """boolean Value of p < 0"""
    if p.is_const():
        return ONE if p.const() < 0 else ZERO
    if integer is None:
        integer = isint_poly(p)
    if integer:
        # decide with facts
        if entails_nonneg(psub(pneg(p), ONE)):
            return ONE
        if entails_nonneg(p):
            return ZERO
        for D, r, w in strided(p):
            for d, q in ((D, r), (psub(D, ONE), padd(r, w))):
                if entails_nonneg(q) and entails_nonneg(psub(psub(w, q), ONE)):
                    return lt0(d, True)
        # scale to coprime integer coefficients on the non-constant part
        cs = [c for m, c in p.t.items() if m]
        den = 1
        for c in cs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in cs:
            g = math.gcd(g, int(c * den))
        k = Fraction(den, g)
        q = pscale(p, k)
        c0 = q.const()
        body = psub(q, const(c0))
        # body + c0 < 0  <=> body <= ceil(-c0)-1 <=> body - ceil(-c0) < 0
        b = -math.ceil(-c0)
        lm = lead(body)
        if body.t[lm] > 0:
            return _node(atom('lt0', padd(body, const(b)), 'i'), ONE, ZERO)
        # not ( body + b >= 0 ) = not( -body - b <= 0 ) = not ( -body - b - 1 < 0 )
        return _node(atom('lt0', psub(psub(pneg(body), const(b)), ONE), 'i'), ZERO, ONE)
    if nonneg_surely(p):
        return ZERO
    lm = lead(p)
    q = pscale(p, qdiv(1, abs(p.t[lm])))
    return _node(atom('lt0', q, 'r'), ONE, ZERO)


def strided(p):
    """ways to read an integer p as stride * D + r with a symbolic stride"""
    seen = set()
    for m in p.t:
        if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1 and m[0][0].isint and m[1][0].isint:
            for w in (m[0][0], m[1][0]):
                if w.id in seen:
                    continue
                seen.add(w.id)
                lo = atom_bounds(w)[0]
                if not (lo is not None and lo >= 0 or entails_nonneg(pa(w), 1)):
                    continue
                D, r = {}, {}
                ok = True
                for k, c in p.t.items():
                    e = sum(x[1] for x in k if x[0] is w)
                    if e == 0:
                        r[k] = c
                    elif e == 1 and c.denominator == 1:
                        D[tuple(x for x in k if x[0] is not w)] = c
                    else:
                        ok = False
                if ok and any(k for k in D):
                    g = 0
                    for c in r.values():
                        g = math.gcd(g, int(c)) if c.denominator == 1 else 1
                    yield mk(D), mk(r), pa(w)


PTREQ = []


def eq0(p):
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    if len(p.t) <= 2 and PTREQ:
        r = PTREQ[0](p)
        if r is not None:
            return r
    if isint_poly(p):
        if entails_nonneg(psub(p, ONE)) or entails_nonneg(psub(pneg(p), ONE)):
            return ZERO
        cs = [c for m, c in p.t.items() if m]
        den = 1
        for c in cs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in cs:
            g = math.gcd(g, int(c * den))
        q = pscale(p, Fraction(den, g))
        if q.const().denominator != 1:
            return ZERO
        if entails_nonneg(p) and entails_nonneg(pneg(p)):
            return ONE
        for D, r, w in strided(p):
            if entails_nonneg(psub(psub(w, r), ONE)) and entails_nonneg(psub(padd(w, r), ONE)):
                return band(eq0(D), eq0(r))
        nc = [m for m in q.t if m]
        if len(nc) == 1 and len(nc[0]) == 1 and nc[0][0][1] == 1 and nc[0][0][0].kind == 'ld':
            # a field that cannot be below the tested value
            if q.t[nc[0]] < 0:
                q = pneg(q)
            if entails_nonneg(q):
                return lt0(psub(q, ONE))
            if entails_nonneg(pneg(q)):
                return lt0(psub(pneg(q), ONE))
    lm = lead(p)
    q = pscale(p, qdiv(1, p.t[lm]))
    if isint_poly(p):
        cs = [c for m, c in q.t.items() if m]
        den = 1
        for c in cs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        q = pscale(q, den)
    else:
        # sign-normalised already (leading coefficient 1); sqrt(p)==0 <=> p==0
        a = q.single_atom()
        if a is not None and a.kind in ('abs', 'sqrt'):
            return eq0(a.args[0])
    return _node(atom('eq0', q), ONE, ZERO)


def under_eq(v, p, memo=None):
    """v rewritten for states where p == 0: conditions modulo the equation"""
    if not isinstance(v, Ite):
        return v
    if memo is None:
        memo = {}
        x = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                if x is None or m[0][0].id > x[0].id:
                    x = (m[0][0], c)
        if x is None:
            return v
        memo['x'] = x
    r = memo.get(v.id)
    if r is not None:
        return r
    x, co = memo['x']
    c = v.c
    cond = None
    if c.kind in ('eq0', 'lt0') and c.args[0].t.get(((x, 1),)):
        k = c.args[0].t[((x, 1),)]
        q = psub(c.args[0], pscale(p, qdiv(k, co)))
        cond = eq0(q) if c.kind == 'eq0' else lt0(q, c.args[1] == 'i')
    hi, lo = under_eq(v.hi, p, memo), under_eq(v.lo, p, memo)
    r = ite(cond, hi, lo) if cond is not None else ite_atom(c, hi, lo)
    memo[v.id] = r
    return r


def vlt(a, b, integer=None):
    return apply2('lt%s' % integer + str(FACTS.version), lambda x, y: lt0(psub(x, y), integer), a, b)


def vle(a, b, integer=None):
    return bnot(vlt(b, a, integer))


def veq(a, b):
    return apply2('eq' + str(FACTS.version), lambda x, y: eq0(psub(x, y)), a, b)


def boolatom(kind, *args):
    return _node(atom(kind, *args), ONE, ZERO)


def is_bool(v):
    return all(l is ONE or l is ZERO for l in leaves(v))


# --- integer division -----------------------------------------------------------

def idiv(p, q):
    """truncating/flooring division for non-negative operands"""
    if q.is_const() and q.const() != 0:
        k = q.const()
        if p.is_const():
            x, y = p.const(), k
            r = abs(x) // abs(y)
            return const(r if (x >= 0) == (y > 0) else -r)
        # split p = k*a + b with every coefficient of b in [0,k)
        ta, tb = {}, {}
        for m, c in p.t.items():
            if c.denominator != 1:
                return pa(atom('div', p, q))
            h, l = divmod(c.numerator, int(k)) if k > 0 else (0, c)
            if h:
                ta[m] = Fraction(h)
            if l:
                tb[m] = Fraction(l)
        a, b = mk(ta), mk(tb)
        if not b.t:
            return a
        if entails_nonneg(b) and entails_nonneg(psub(const(k - 1), b)):
            return a
        if b.is_const() and 0 <= b.const() < k:
            return a
        return padd(a, pa(atom('div', b, q)))
    if len(q.t) == 1:
        # symbolic divisor w: p = w*a + b
        (wm, wc), = q.t.items()
        a = exact_div(p, q)
        if a is not None:
            return a
        ta, tb = {}, {}
        for m, c in p.t.items():
            mm, sp = _mono_mul(m, tuple((x, -e) for x, e in wm))
            if all(e > 0 for _, e in mm) and qdiv(c, wc).denominator == 1:
                ta[mm] = qdiv(c, wc)
            else:
                tb[m] = c
        a, b = mk(ta), mk(tb)
        if entails_nonneg(b) and entails_nonneg(psub(psub(q, b), ONE)):
            return a
    return pa(atom('div', p, q))


def imod(p, q):
    return psub(p, pmul(q, idiv(p, q)))


def exact_div(p, q):
    if q.is_const():
        return pscale(p, qdiv(1, q.const())) if q.const() else None
    if len(q.t) == 1:
        r = pmul(p, pinv(q))
        for m in r.t:
            for a, e in m:
                if e < 0:
                    return None
        return r
    return None


# --- sums -----------------------------------------------------------------------

def bv(level, isint=True):
    return atom('bv', level, isint=isint)


_fresh = [0]


def fresh(isint=True, tag='t'):
    _fresh[0] += 1
    return atom('var', '%s#%d' % (tag, _fresh[0]), isint=isint)


def to_ind(v):
    """ADD -> multilinear polynomial in indicator atoms"""
    if not isinstance(v, Ite):
        return v
    key = ('ind', v.id)
    r = _ap.get(key)
    if r is None:
        hi, lo = to_ind(v.hi), to_ind(v.lo)
        r = padd(lo, pmul(pa(atom('ind', v.c)), psub(hi, lo)))
        _ap[key] = r
    return r


def psum(k, g, x):
    """sum_{k=0}^{x-1} g(k);  g Value, k atom (var), x Poly"""
    if isinstance(x, Ite):
        return distrib(x, lambda l: psum(k, g, l))
    if isinstance(g, Ite):
        # conditions free of k stay outside
        if k not in g.c.fv:
            return ite_atom(g.c, psum(k, g.hi, x), psum(k, g.lo, x))
        inner = [c for c in conds(g) if k not in c.fv]
        if inner:
            c = min(inner, key=lambda a: a.id)
            n = _node(c, ONE, ZERO)
            return ite_atom(c, psum(k, restrict(g, c, 1), x), psum(k, restrict(g, c, 0), x))
        g = to_ind(g)
    r = ZERO
    for m, c in g.t.items():
        out, inn = [], []
        for a, e in m:
            (inn if k in a.fv else out).append((a, e))
        co = mk({tuple(out): c})
        if not inn:
            r = add(r, mul(co, x))
        else:
            r = add(r, mul(co, _psum1(k, tuple(inn), x)))
    return r


def restrict(v, c, side):
    if not isinstance(v, Ite) or v.c.id > c.id:
        return v
    if v.c is c:
        return v.hi if side else v.lo
    key = ('rs', v.id, c.id, side)
    r = _ap.get(key)
    if r is None:
        r = ite_atom(v.c, restrict(v.hi, c, side), restrict(v.lo, c, side))
        _ap[key] = r
    return r


def _psum1(k, mono, x):
    # kronecker: ind(eq0(k - e))
    for a, e in mono:
        if a.kind == 'ind' and a.args[0].kind == 'eq0':
            q = a.args[0].args[0]
            sol = solve_linear(q, k)
            if sol is not None:
                rest = tuple((b, f) for b, f in mono if b is not a)
                body = mk({rest: Fraction(1)}) if rest else ONE
                val = subst(body, {k: sol})
                if int_coefs(sol):
                    inr = band(bnot(lt0(sol)), lt0(psub(sol, x)))
                    return ite(inr, val, ZERO)
    if x.is_const() and x.const().denominator == 1 and 0 <= x.const() <= 12:
        r = ZERO
        body = mk({mono: Fraction(1)})
        for i in range(int(x.const())):
            r = add(r, subst(body, {k: const(i)}))
        return r
    # strip a constant offset from x
    c = x.const()
    if c.denominator == 1 and c != 0 and abs(c) <= 12:
        base = psub(x, const(c))
        r = _psum1(k, mono, base)
        body = mk({mono: Fraction(1)})
        if c > 0:
            for i in range(int(c)):
                r = add(r, subst(body, {k: padd(base, const(i))}))
        else:
            for i in range(1, int(-c) + 1):
                r = sub(r, subst(body, {k: psub(base, const(i))}))
        return r
    if len(mono) == 1 and mono[0] == (k, 1):
        return pscale(pmul(x, psub(x, ONE)), Fraction(1, 2))
    S = common_shift(k, mono)
    if S is not None:
        # sum of f(k + S) over k < x, as a difference of two sums from the start
        f = subst(mk({mono: Fraction(1)}), {k: psub(pa(k), S)})
        return sub(psum(k, f, padd(x, S)), psum(k, f, S))
    if backwards(k, mono):
        # sum of f(-k) over k < x runs over f from 1 - x up to 0
        f = subst(mk({mono: Fraction(1)}), {k: pscale(pa(k), Fraction(-1))})
        return sub(psum(k, f, ONE), psum(k, f, psub(ONE, x)))
    return pa(mk_ps(k, mono, x))


def backwards(k, mono):
    """the body speaks of k only through falling multiples of it"""
    seen = set()
    st = [a for a, _ in mono]
    found = False
    while st:
        a = st.pop()
        if a is k:
            return False
        if a.id in seen or k not in a.fv:
            continue
        seen.add(a.id)
        for x in a.args:
            if isinstance(x, Atom):
                st.append(x)
                continue
            if isinstance(x, Ite):
                st.extend(conds(x))
            if not isinstance(x, (Poly, Ite)):
                if hasattr(x, 'fv') and k in x.fv:
                    return False
                continue
            for p in ([x] if isinstance(x, Poly) else leaves(x)):
                for m, co in p.t.items():
                    for y, e in m:
                        if y is k:
                            if len(m) > 1 or e != 1 or co > 0:
                                return False
                            found = True
                        else:
                            st.append(y)
    return found


def common_shift(k, mono):
    """S, made of named integers, when the body speaks of k only through k + S"""
    if not any(a.kind == 'var' and a.isint and a is not k for x, _ in mono for a in x.fv):
        return None
    ratio = None
    seen = set()
    st = [a for a, _ in mono]
    if any(a is k for a in st):
        return None
    while st:
        a = st.pop()
        if a.id in seen or k not in a.fv:
            continue
        seen.add(a.id)
        for x in a.args:
            ps = []
            if isinstance(x, Poly):
                ps = [x]
            elif isinstance(x, Ite):
                ps = leaves(x)
                st.extend(conds(x))
            elif isinstance(x, Atom):
                st.append(x)
            elif hasattr(x, 'fv') and k in x.fv:
                return None
            for p in ps:
                if k not in p.fv:
                    continue
                c = p.t.get(((k, 1),))
                r = {}
                for m, co in p.t.items():
                    for y, e in m:
                        if y is k and (len(m) > 1 or e != 1):
                            return None
                        if y is not k:
                            st.append(y)
                    if c is not None and len(m) == 1 and m[0][1] == 1 and m[0][0] is not k \
                            and m[0][0].kind == 'var' and m[0][0].isint:
                        q = Fraction(co) / Fraction(c)
                        if q.denominator == 1:
                            r[m[0][0]] = q
                if c is None:
                    continue
                q = Fraction(p.const()) / Fraction(c)
                r[None] = Fraction(q.numerator // q.denominator)
                ratio = r if ratio is None else {v: q for v, q in ratio.items() if r.get(v) == q}
                if not any(v is not None for v in ratio):
                    return None
    if not ratio or not any(v is not None for v in ratio):
        return None
    S = const(ratio.get(None, Fraction(0)))
    for v, q in ratio.items():
        if v is not None:
            S = padd(S, pscale(pa(v), q))
    return S


def mk_ps(k, mono, x):
    body = mk({mono: Fraction(1)})
    lvl = max([body.depth] + [a.args[0] for a in body.fv if a.kind == 'bv']) + 1
    b = bv(lvl)
    closed = subst_poly_only(body, k, b)
    isint = all(a.isint and e > 0 for a, e in mono)
    return atom('ps', lvl, closed, x, isint=isint, binder=True)


def subst_poly_only(body, k, b):
    r = subst(body, {k: pa(b)})
    return r


def closure(k, v):
    """close Value v over variable k: returns (level, closed)"""
    lvl = max([v.depth] + [a.args[0] for a in v.fv if a.kind == 'bv']) + 1
    return lvl, subst(v, {k: pa(bv(lvl))})


def open_closure(lvl, closed, e):
    return subst(closed, {bv(lvl): e})


def solve_linear(q, k):
    """q == 0 solved for atom k when q = c*k + rest with k not in rest"""
    c = None
    rest = {}
    for m, co in q.t.items():
        if m == ((k, 1),):
            c = co
        else:
            for a, e in m:
                if k in a.fv:
                    return None
            rest[m] = co
    if c is None:
        return None
    return pscale(mk(rest), qdiv(-1, c))


# --- substitution ---------------------------------------------------------------

_sub = {}
ATOM_REBUILD = {}     # kind -> function(atom, mapping, subst) -> Value


def subst(v, mp):
    """mp: dict var-atom -> Poly (or, for 'ls' atoms, loop definitions)"""
    if not mp:
        return v
    rel = v.fv
    if not rel:
        return v
    m2 = {a: e for a, e in mp.items() if a in rel or a.kind == 'ld' and a.fv <= rel}
    if not m2:
        return v
    key = (v.id, frozenset((a.id, e.id) for a, e in m2.items()), FACTS.version)
    r = _sub.get(key)
    if r is not None:
        return r
    if isinstance(v, Ite):
        c = subst_cond(v.c, m2)
        r = ite(c, subst(v.hi, m2), subst(v.lo, m2))
    else:
        r = ZERO
        plain = {}
        for m, co in v.t.items():
            if not any((not m2.keys().isdisjoint(a.fv)) for a, e in m):
                plain[m] = co
        if plain:
            r = mk(plain)
        for m, co in v.t.items():
            if m in plain:
                continue
            t = const(co)
            for a, e in m:
                x = subst_atom(a, m2)
                if e != 1:
                    x = apply1('pow%d' % e, lambda l, e=e: ppow(l, e), x)
                t = mul(t, x)
            r = add(r, t)
    _sub[key] = r
    return r


def subst_cond(c, mp):
    if c.fv.isdisjoint(mp):
        return _node(c, ONE, ZERO)
    k = c.kind
    if k == 'lt0':
        q = subst(c.args[0], mp)
        integer = c.args[1] == 'i'
        return distrib(q, lambda l: lt0(l, integer))
    if k == 'eq0':
        return distrib(subst(c.args[0], mp), eq0)
    f = ATOM_REBUILD.get(k)
    if f:
        return f(c, mp)
    return generic_rebuild(c, mp, cond=True)


def subst_any(x, mp):
    if isinstance(x, (Poly, Ite)):
        return subst(x, mp)
    if isinstance(x, Atom):
        return subst_atom(x, mp)
    if isinstance(x, tuple):
        return tuple(subst_any(y, mp) for y in x)
    s = getattr(x, 'subst', None)
    if s:
        return s(mp)
    return x


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if a.fv.isdisjoint(mp):
        return pa(a)
    key = ('a', a.id, frozenset((x.id, e.id) for x, e in mp.items() if x in a.fv), FACTS.version)
    r = _sub.get(key)
    if r is not None:
        return r
    k = a.kind
    if k == 'cos':
        r = vcos(subst(a.args[0], mp))
    elif k == 'sin':
        r = vsin(subst(a.args[0], mp))
    elif k == 'abs':
        r = vabs(subst(a.args[0], mp))
    elif k == 'sqrt':
        r = vsqrt(subst(a.args[0], mp))
    elif k == 'inv':
        r = apply1('inv', pinv, subst(a.args[0], mp))
    elif k == 'div':
        r = apply2('idiv' + str(FACTS.version), idiv, subst(a.args[0], mp), subst(a.args[1], mp))
    elif k == 'fn':
        r = ufn(a.args[0], *[subst(x, mp) for x in a.args[1:]], isint=a.isint)
    elif k == 'ind':
        r = to_ind(subst_cond(a.args[0], mp))
    elif k == 'ps':
        lvl, body, x = a.args
        t = fresh()
        b2 = subst(body, dict([(bv(lvl), pa(t))]))
        b2 = subst(b2, mp)
        r = psum(t, b2, subst(x, mp))
    else:
        f = ATOM_REBUILD.get(k)
        if f:
            r = f(a, mp)
        else:
            r = generic_rebuild(a, mp)
    _sub[key] = r
    return r


def generic_rebuild(a, mp, cond=False):
    args = [subst_any(x, mp) if not isinstance(x, (int, str)) else x for x in a.args]

    def go(i, acc):
        if i == len(args):
            n = atom(a.kind, *acc, isint=a.isint, ptr=a.ptr, flag=(a.kind if a.kind in a.flags else None))
            return _node(n, ONE, ZERO) if cond else pa(n)
        if isinstance(args[i], Ite):
            return distrib(args[i], lambda l: go(i + 1, acc + (l,)))
        return go(i + 1, acc + (args[i],))
    return go(0, ())


# --- generic-atom replacement (used by equality reasoning and differentiation) ---

def replace_atoms(v, mp, memo=None):
    """replace arbitrary atoms (not only variables); rebuilds enclosing atoms"""
    if memo is None:
        memo = {}
    r = memo.get(v.id)
    if r is not None:
        return r
    if isinstance(v, Ite):
        c = v.c
        if c.kind == 'lt0':
            integer = c.args[1] == 'i'
            cv = distrib(replace_atoms(c.args[0], mp, memo), lambda l: lt0(l, integer))
        elif c.kind == 'eq0':
            cv = distrib(replace_atoms(c.args[0], mp, memo), eq0)
        else:
            cv = _node(c, ONE, ZERO)
        r = ite(cv, replace_atoms(v.hi, mp, memo), replace_atoms(v.lo, mp, memo))
    else:
        r = ZERO
        for m, co in v.t.items():
            t = const(co)
            for a, e in m:
                x = replace_atom(a, mp, memo)
                if e != 1:
                    x = apply1('pow%d' % e, lambda l, e=e: ppow(l, e), x)
                t = mul(t, x)
            r = add(r, t)
    memo[v.id] = r
    return r


def replace_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    k = a.kind
    if k in ('var', 'bv', 'glob', 'alloc', 'ls'):
        return pa(a)
    key = ('a', a.id)
    r = memo.get(key)
    if r is not None:
        return r
    if k in ('cos', 'sin', 'abs', 'sqrt', 'inv'):
        f = {'cos': vcos, 'sin': vsin, 'abs': vabs, 'sqrt': vsqrt, 'inv': lambda p: apply1('inv', pinv, p)}[k]
        r = f(replace_atoms(a.args[0], mp, memo))
    elif k == 'div':
        r = apply2('idiv' + str(FACTS.version), idiv, replace_atoms(a.args[0], mp, memo), replace_atoms(a.args[1], mp, memo))
    elif k == 'fn':
        r = ufn(a.args[0], *[replace_atoms(x, mp, memo) for x in a.args[1:]], isint=a.isint)
    elif k == 'ps':
        lvl, body, x = a.args
        t = fresh()
        b2 = replace_atoms(subst(body, {bv(lvl): pa(t)}), mp)
        r = psum(t, b2, replace_atoms(x, mp, memo))
    elif k == 'ld':
        r = distrib(replace_atoms(a.args[0], mp, memo),
                    lambda l: pa(atom('ld', l, a.args[1], isint=a.isint, ptr=a.ptr)))
    elif k in ('rd', 'hv'):
        f = ATOM_REBUILD.get(k + '!')
        r = f(a, mp, memo) if f else pa(a)
    else:
        r = pa(a)
    memo[key] = r
    return r


# --- differentiation -----------------------------------------------------------

def deriv(p, dmap):
    """total derivative of Poly p; dmap: atom -> Poly (derivative of that atom)"""
    r = ZERO
    for m, co in p.t.items():
        for i, (a, e) in enumerate(m):
            da = datom(a, dmap)
            if da is ZERO:
                continue
            rest = list(m)
            rest.pop(i)
            t = mk({tuple(rest): co * e}) if rest else const(co * e)
            if e != 1:
                t = pmul(t, mk({((a, e - 1),): Fraction(1)}))
            r = padd(r, pmul(t, da))
    return r


def datom(a, dmap):
    if a in dmap:
        return dmap[a]
    k = a.kind
    if k == 'sin':
        return pmul(cos_(a.args[0]), deriv(a.args[0], dmap))
    if k == 'cos':
        return pneg(pmul(sin_(a.args[0]), deriv(a.args[0], dmap)))
    if k == 'sqrt':
        d = deriv(a.args[0], dmap)
        return pmul(pscale(d, Fraction(1, 2)), pinv(pa(a))) if d is not ZERO else ZERO
    if k == 'inv':
        d = deriv(a.args[0], dmap)
        return pneg(pmul(d, ppow(pa(a), 2))) if d is not ZERO else ZERO
    if k == 'fn' and a.args[0] in ('atan2', 'tan', 'atan', 'asin', 'acos', 'exp', 'log'):
        n = a.args[0]
        if n == 'exp':
            return pmul(pa(a), deriv(a.args[1], dmap))
        if n == 'log':
            return pmul(pinv(a.args[1]), deriv(a.args[1], dmap))
    return ZERO


# --- equality ---------------------------------------------------------------------

def clear_inv(p):
    """multiply out inv() atoms; p==0 iff result==0 (denominators non-zero)"""
    for _ in range(12):
        invs = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'inv' and e > 0:
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            break
        a, n = next(iter(invs.items()))
        q = a.args[0]
        r = ZERO
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            rest = tuple((b, f) for b, f in m if b is not a)
            t = mk({rest: c}) if rest else const(c)
            r = padd(r, pmul(t, ppow(q, n - e)))
        p = r
    return p


def vclear(v):
    return apply1('clr', clear_inv, v)


class Verdict:
    def __init__(self, ok, why='', opaque=False, bads=(), facts=(), flags=()):
        self.flags = flags
        self.ok = ok
        self.why = why
        self.opaque = opaque
        self.bads = bads
        self.facts = facts


def expand_abs(v):
    """replace abs(p) by ite(p<0,-p,p)"""
    for _ in range(8):
        found = None
        for l in leaves(v):
            for a in l.atoms():
                if a.kind == 'abs':
                    found = a
                    break
            if found:
                break
        if not found:
            for c in conds(v):
                if c.kind in ('lt0', 'eq0'):
                    for a in c.args[0].atoms():
                        if a.kind == 'abs':
                            found = a
            if not found:
                return v
        p = found.args[0]
        lm = lead(p)
        c = lt0(p, False)
        if not isinstance(c, Ite):
            v = replace_atoms(v, {found: ite(c, pneg(p), p)})
            continue
        # avoid re-folding into abs: split manually
        hi = replace_atoms(v, {found: pneg(p)})
        lo = replace_atoms(v, {found: p})
        v = split_node(c.c, hi, lo)
    return v


class Split:
    """case split that must not be folded back into min/max"""
    __slots__ = ('c', 'hi', 'lo')

    def __init__(self, c, hi, lo):
        self.c, self.hi, self.lo = c, hi, lo


def split_node(c, hi, lo):
    return Split(c, hi, lo)


def paths(v, acc=()):
    """all (literals, leaf) of a Value"""
    if isinstance(v, Ite):
        yield from paths(v.hi, acc + ((v.c, True),))
        yield from paths(v.lo, acc + ((v.c, False),))
    else:
        yield acc, v


def feasible(cons):
    """cons: list of (Poly, op) op in '<','<=','==' meaning p op 0.  Fourier-Motzkin over
    monomials as variables, integer-tightened for integer rows.  False only if infeasible."""
    eqs, ins = [], []
    for p, op in cons:
        if op == '==':
            eqs.append(p)
        else:
            ins.append((p, op == '<'))
    # eliminate equalities
    n = 0
    while eqs:
        n += 1
        p = eqs.pop()
        if p.is_const():
            if p.const() != 0:
                return False
            continue
        ms = [m for m in p.t if m]
        m = min(ms, key=lambda x: [(a.id, e) for a, e in x])
        c = p.t[m]

        def el(q):
            k = q.t.get(m)
            return psub(q, pscale(p, qdiv(k, c))) if k else q
        eqs = [el(q) for q in eqs]
        ins = [(el(q), s) for q, s in ins]
    for _ in range(40):
        # constants
        nxt = {}
        for q, s in ins:
            if isint_poly(q) and not q.is_const():
                # tighten
                cs = [c for m, c in q.t.items() if m]
                den = 1
                for c in cs:
                    den = den * c.denominator // math.gcd(den, c.denominator)
                g = 0
                for c in cs:
                    g = math.gcd(g, int(c * den))
                q = pscale(q, Fraction(den, g))
                c0 = q.const()
                body = psub(q, const(c0))
                if s:
                    b = math.ceil(-c0) - 1
                else:
                    b = math.floor(-c0)
                q = psub(body, const(b))
                s = False
            if q.is_const():
                v = q.const()
                if v > 0 or (v == 0 and s):
                    return False
                continue
            nxt[q] = nxt.get(q, False) or s
        ins = list(nxt.items())
        if not ins:
            return True
        # choose variable with fewest products
        cnt = {}
        for q, s in ins:
            for m, c in q.t.items():
                if m:
                    a = cnt.setdefault(m, [0, 0])
                    a[0 if c > 0 else 1] += 1
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], [(a.id, e) for a, e in x]))
        pos = [(q, s) for q, s in ins if q.t.get(m, 0) > 0]
        ngs = [(q, s) for q, s in ins if q.t.get(m, 0) < 0]
        rest = [(q, s) for q, s in ins if m not in q.t]
        if len(pos) * len(ngs) > 900:
            return True
        for q, s in pos:
            for r, u in ngs:
                x = padd(pscale(q, qdiv(1, q.t[m])), pscale(r, qdiv(-1, r.t[m])))
                rest.append((x, s or u))
        ins = rest
    return True


def lits_to_cons(lits):
    cons = []
    neqs = []
    for c, side in lits:
        if c.kind == 'lt0':
            p = c.args[0]
            cons.append((p, '<') if side else (pneg(p), '<='))
        elif c.kind == 'eq0':
            if side:
                cons.append((c.args[0], '=='))
            else:
                neqs.append(c.args[0])
    return cons, neqs


def path_feasible(lits, facts, extra=()):
    cons, neqs = lits_to_cons(lits)
    base = [(pneg(f), '<=') for f in facts] + cons + list(extra)
    # bounds of atoms
    ats = set()
    for p, _ in base:
        ats |= set(p.atoms())
    for p in neqs:
        ats |= set(p.atoms())
    for a in sorted(ats, key=lambda x: x.id):
        lo, hi = atom_bounds(a)
        if lo is not None:
            base.append((psub(const(lo), pa(a)), '<='))
        if hi is not None:
            base.append((psub(pa(a), const(hi)), '<='))
        if a.kind == 'abs':
            base.append((psub(a.args[0], pa(a)), '<='))
            base.append((psub(pneg(a.args[0]), pa(a)), '<='))
    if not feasible(base):
        return False
    # disequalities: p != 0 infeasible if both p<0 and p>0 are
    for p in neqs:
        if not feasible(base + [(p, '<')]) and not feasible(base + [(pneg(p), '<')]):
            return False
    return True


def equal(a, b, facts=(), maxpaths=3000, assume=ONE):
    """decide a == b (as functions) under facts (polys >= 0) and assume (boolean Value)"""
    if a is b:
        return Verdict(True)
    d = ite(assume, sub(a, b), ZERO)
    return is_zero(d, facts, maxpaths)


def is_zero(d, facts=(), maxpaths=3000):
    if d is ZERO:
        return Verdict(True)
    d = vclear(d)
    if d is ZERO:
        return Verdict(True)
    facts = list(facts) + list(FACTS.all())
    for g in FACTS.gen:
        for a in sorted(all_atoms(d), key=lambda x: x.id):
            facts.extend(g(a))
    n = 0
    bads = []
    stack = [((), d, ())]
    while stack:
        lits, v, xf = stack.pop()
        if isinstance(v, Ite):
            # prune infeasible branches
            for side, sub_ in ((True, v.hi), (False, v.lo)):
                if sub_ is ZERO:
                    continue
                l2 = lits + ((v.c, side),)
                if path_feasible(l2, facts + list(xf)):
                    stack.append((l2, sub_, xf))
            continue
        n += 1
        if n > maxpaths:
            return Verdict(False, 'too many paths', True)
        if v is ZERO:
            continue
        if any(a.kind == 'ind' for a in v.atoms()):
            # indicators outside sums: one case per value
            w = from_ind(v)
            for c, side in lits:
                w = restrict(w, c, side)
            if w is not v:
                stack.append((lits, w, xf))
                continue
        # use equalities on the path
        r = v
        for c, side in lits:
            if c.kind == 'eq0' and side:
                r = use_eq(r, c.args[0])
        if isinstance(r, Ite):
            rr = is_zero(r, facts + list(xf), 200)
            if rr.ok:
                continue
        else:
            r = clear_inv(r)
            if r is ZERO:
                continue
            # equalities implied by facts (f>=0 and -f>=0)
            done = False
            fs = set(facts)
            for f in facts:
                if pneg(f) in fs:
                    r2 = use_eq(r, f)
                    if r2 is ZERO:
                        done = True
                        break
                    if not isinstance(r2, Ite):
                        r = r2
            if done:
                continue
            if lits or xf:
                ff = facts + list(xf)
                if not path_feasible(lits, ff, [(r, '<')]) and not path_feasible(lits, ff, [(pneg(r), '<')]):
                    continue
            if any(a.kind == 'ps' for a in r.atoms()):
                for c, side in lits:
                    if c.kind == 'eq0' and side:
                        q = c.args[0]
                        xf = tuple(xf) + (q, pneg(q))
                    elif c.kind == 'lt0' and c.args[1] == 'i':
                        q = c.args[0]
                        xf = tuple(xf) + ((psub(pneg(q), ONE),) if side else (q,))
                if sum_zero(r, facts + list(xf)):
                    continue
            # piecewise: expand abs
            ab = sorted([x for x in r.atoms() if x.kind == 'abs'], key=lambda z: z.id)
            if ab:
                ok = True
                x = ab[0]
                p = x.args[0]
                for side, rep in ((True, pneg(p)), (False, p)):
                    l2c = lt0(p, False)
                    if isinstance(l2c, Ite):
                        lit = (l2c.c, side)
                        l2 = lits + (lit,)
                    else:
                        if (l2c is ONE) != side:
                            continue
                        l2 = lits
                    e = psub(pa(x), rep)
                    xf2 = tuple(xf) + (e, pneg(e))
                    if not path_feasible(l2, facts + list(xf2)):
                        continue
                    r2 = replace_atoms(r, {x: rep})
                    stack.append((l2, r2, xf2))
                continue
        # magnitudes in the conditions of the path: one case per sign
        ab = [x for c, _ in lits if c.kind in ('lt0', 'eq0') for x in c.args[0].atoms() if x.kind == 'abs']
        ab = sorted([x for x in set(ab) if not any(y.kind == 'abs' for y in all_atoms_poly_args(x))], key=lambda z: z.id)
        if ab and n < 400:
            x = ab[0]
            p = x.args[0]
            for side, rep in ((True, pneg(p)), (False, p)):
                l2c = lt0(p, False)
                if isinstance(l2c, Ite):
                    l2 = [(l2c.c, side)]
                elif (l2c is ONE) != side:
                    continue
                else:
                    l2 = []
                ok = True
                for c, sd in lits:
                    if c.kind not in ('lt0', 'eq0') or x not in all_atoms_poly(c.args[0]):
                        l2.append((c, sd))
                        continue
                    q = replace_atoms(c.args[0], {x: rep})
                    cv = q if isinstance(q, Ite) else eq0(q) if c.kind == 'eq0' else lt0(q, c.args[1] == 'i')
                    if isinstance(q, Ite):
                        l2.append((c, sd))
                    elif isinstance(cv, Ite) and cv.hi is ONE and cv.lo is ZERO:
                        l2.append((cv.c, sd))
                    elif isinstance(cv, Ite) and cv.hi is ZERO and cv.lo is ONE:
                        l2.append((cv.c, not sd))
                    elif isinstance(cv, Ite):
                        l2.append((c, sd))
                    elif (cv is ONE) != sd:
                        ok = False
                        break
                if not ok:
                    continue
                l2 = tuple(l2)
                if path_feasible(l2, facts + list(xf)):
                    r2 = replace_atoms(v, {x: rep})
                    stack.append((l2, r2, tuple(xf)))
            continue
        bads.append((lits, v, xf))
        if sum(1 for b in bads if not flagged(b)) >= 16 or len(bads) > 64:
            break
    if not bads:
        return Verdict(True)
    bads.sort(key=lambda b: (flagged(b), len(b[0])))
    lits, v, _ = bads[0]
    fl = set(v.flags)
    for c, _ in lits:
        fl |= c.flags
    why = 'difference %s' % show(v)
    if lits:
        why += ' when ' + ' and '.join(show_lit(c, s) for c, s in lits)
    return Verdict(False, why, bool(fl), [b for b in bads if not flagged(b)], facts, fl)


FI = frozenset(['fi'])


def flagged(b):
    """no valuation can be found for these; the first index with a property ('fi') can be evaluated"""
    return bool(b[1].flags - FI) or any(c.flags - FI for c, _ in b[0])


def from_ind(p, memo=None):
    """indicator polynomial -> decision diagram (one level: binders are left alone)"""
    if isinstance(p, Ite):
        return ite_atom(p.c, from_ind(p.hi), from_ind(p.lo))
    ind = sorted([a for a in p.atoms() if a.kind == 'ind'], key=lambda a: a.id)
    if not ind:
        return p
    a = ind[0]
    hi, lo = {}, {}
    for m, c in p.t.items():
        if any(x is a for x, e in m):
            m2 = tuple(y for y in m if y[0] is not a)
            hi[m2] = hi.get(m2, 0) + c
        else:
            hi[m] = hi.get(m, 0) + c
            lo[m] = c
    return ite_atom(a.args[0], from_ind(mk({m: c for m, c in hi.items() if c})), from_ind(mk(lo)))


_szdepth = [0]


def sum_zero(r, facts):
    """r == 0 shown by comparing the sums in r term by term"""
    if _szdepth[0] > 4:
        return False
    groups = {}
    rest = {}
    for m, c in r.t.items():
        ps = [(a, e) for a, e in m if a.kind == 'ps']
        if len(ps) == 1 and ps[0][1] == 1:
            a = ps[0][0]
            other = tuple(x for x in m if x[0] is not a)
            groups.setdefault((a.args[2].id, other), []).append((c, a))
        else:
            rest[m] = c
    if rest:
        return False
    _szdepth[0] += 1
    try:
        for (_, other), l in sorted(groups.items(), key=lambda x: (x[0][0], [a.id for a, e in x[0][1]])):
            x = l[0][1].args[2]
            k = fresh(True, 's')
            pk = pa(k)
            FACTS.push([pk, psub(psub(x, pk), ONE)] + [f for f in facts if isinstance(f, Poly)])
            try:
                fwd = [apply1('sc%s' % c, lambda p, c=c: pscale(p, c), subst(a.args[1], {bv(a.args[0]): pk}))
                       for c, a in l]
                ok = False
                n = len(l)
                for mask in ([0] if n > 5 else range(1 << max(n - 1, 0))):
                    tot = ZERO
                    for i, v in enumerate(fwd):
                        if mask >> i & 1:
                            v = subst(v, {k: psub(psub(x, ONE), pk)})
                        tot = add(tot, v)
                    v = distrib(tot, from_ind)
                    if v is ZERO or is_zero(v, (), 400).ok:
                        ok = True
                        break
                if not ok:
                    return False
            finally:
                FACTS.pop()
    finally:
        _szdepth[0] -= 1
    return True


def use_eq(r, q):
    """rewrite r modulo q == 0"""
    for m, c in sorted(q.t.items(), key=lambda x: -max([a.id for a, _ in x[0]] + [0])):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            rest = psub(q, mk({m: c}))
            if a in all_atoms_poly(rest):
                continue
            return replace_atoms(r, {a: pscale(rest, qdiv(-1, c))})
    return r


def all_atoms_poly(p, seen=None):
    s = set()
    st = list(p.atoms())
    while st:
        a = st.pop()
        if a in s:
            continue
        s.add(a)
        for x in a.args:
            if isinstance(x, Poly):
                st.extend(x.atoms())
            elif isinstance(x, Ite):
                for l in leaves(x):
                    st.extend(l.atoms())
                for c in conds(x):
                    st.append(c)
            elif isinstance(x, Atom):
                st.append(x)
    return s


def all_atoms_poly_args(a):
    """atoms strictly inside an atom"""
    s = set()
    for x in a.args:
        if isinstance(x, (Poly, Ite)):
            s |= all_atoms(x)
        elif isinstance(x, Atom):
            s.add(x)
            s |= all_atoms_poly_args(x)
    return s


def all_atoms(v):
    s = set()
    for l in leaves(v):
        s |= all_atoms_poly(l)
    for c in conds(v):
        s.add(c)
        for x in c.args:
            if isinstance(x, Poly):
                s |= all_atoms_poly(x)
            elif isinstance(x, Ite):
                s |= all_atoms(x)
    return s


# --- printing ----------------------------------------------------------------------

NAMER = [None]


def show_atom(a, depth=0):
    if NAMER[0]:
        n = NAMER[0](a)
        if n:
            return n
    k = a.kind
    if depth > 9:
        return '%s…' % k
    if k == 'var':
        return str(a.args[0])
    if k == 'bv':
        return '$%d' % a.args[0]
    if k == 'ld':
        return '[%s]' % show(a.args[0], depth + 1)
    if k == 'fn':
        return '%s(%s)' % (a.args[0], ', '.join(show(x, depth + 1) for x in a.args[1:]))
    if k == 'ps':
        return 'sum{$%d<%s}(%s)' % (a.args[0], show(a.args[2], depth + 1), show(a.args[1], depth + 1))
    if k == 'lt0':
        return '%s<0' % show(a.args[0], depth + 1)
    if k == 'eq0':
        return '%s==0' % show(a.args[0], depth + 1)
    return '%s(%s)' % (k, ', '.join(show(x, depth + 1) for x in a.args))


def show_lit(c, s):
    return ('' if s else 'not ') + '(' + show_atom(c) + ')'


def show(v, depth=0):
    if depth > 10:
        return '…'
    if isinstance(v, Poly):
        if not v.t:
            return '0'
        parts = []
        for m, c in sorted(v.t.items(), key=lambda x: [(a.id, e) for a, e in x[0]])[:12]:
            f = []
            if c != 1 or not m:
                f.append(str(c) if c.denominator < 10 ** 6 and abs(c) < 10 ** 12 else '%g' % float(c))
            for a, e in m:
                s = show_atom(a, depth + 1)
                f.append(s if e == 1 else '%s^%d' % (s, e))
            parts.append('*'.join(f))
        if len(v.t) > 12:
            parts.append('…')
        s = ' + '.join(parts)
        return s if depth == 0 else ('(' + s + ')' if len(parts) > 1 else s)
    if isinstance(v, Ite):
        return '{%s ? %s : %s}' % (show_atom(v.c, depth + 1), show(v.hi, depth + 1), show(v.lo, depth + 1))
    if isinstance(v, Atom):
        return show_atom(v, depth + 1)
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, depth + 1) for x in v) + ')'
    return str(v)
