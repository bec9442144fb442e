"""Refutation of an equality between closed forms.

A closed form mentions an arbitrary initial heap.  Two forms are reported as
different only when a concrete valuation of that heap (and of the scalar
parameters) satisfies every stated fact and separates them; the forms are
evaluated, the program is not."""
import hashlib
import math
from fractions import Fraction

import memory as M
import sym
from sym import Ite, Poly

FIELD = []          # hooks (atom, address value, ev) -> value or None, for constrained fields


class Bad(Exception):
    pass


def _h(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), 'big')


def mathfn(nm, x):
    """value of a mathematical library function; near its jumps nothing is decided"""
    if nm in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'fmod', 'remainder'):
        q = x[0] if len(x) == 1 else x[0] / x[1] if x[1] else math.nan
        if not abs(2 * q - round(2 * q)) > 1e-6:
            raise Bad
    f = {'rint': round, 'nearbyint': round, 'round': lambda v: math.floor(v + 0.5),
         'cbrt': lambda v: math.copysign(abs(v) ** (1 / 3), v)}.get(nm) or getattr(math, nm)
    try:
        v = float(f(*x))
    except (ValueError, OverflowError):
        raise Bad
    if v != v or v in (math.inf, -math.inf):
        raise Bad
    return v


class Ev:
    def __init__(self, seed, fix=None, small=3):
        self.seed = seed
        self.fix = fix or {}
        self.small = small
        self.memo = {}
        self.keys = {}

    def rnd(self, key, ty, lo=None, hi=None):
        f = self.fix.get(key)
        if f is not None:
            return f
        h = _h(self.seed, key)
        if ty == 'p':
            return ((h % (1 << 40)) + 1) << 24
        if ty == 'i':
            lo = 0 if lo is None else lo
            hi = max(lo, self.small) if hi is None else hi
            if hi < lo:
                raise Bad
            return lo + h % (hi - lo + 1)
        if ty == 'b':
            return h & 1
        v = Fraction((h % 4001) - 2000, 1000)
        if v == 0:
            v = Fraction(1, 7)
        if lo is not None and v < lo:
            v = lo + abs(v)
        return v

    def val(self, v, env=()):
        while isinstance(v, Ite):
            v = v.hi if self.cond(v.c, env) else v.lo
        t = 0
        for m, c in v.t.items():
            x = c
            for a, e in m:
                y = self.at(a, env)
                if e == 1:
                    x = x * y
                elif e < 0:
                    if y == 0:
                        raise Bad
                    x = x / (y ** -e) if isinstance(y, float) or isinstance(x, float) else Fraction(x) / y ** -e
                else:
                    x = x * y ** e
            t = t + x
        if isinstance(t, float):
            if t != t or t in (math.inf, -math.inf):
                raise Bad
        return t

    def cond(self, c, env=()):
        k = c.kind
        if k == 'lt0':
            v = self.val(c.args[0], env)
            if isinstance(v, float) and abs(v) < 1e-9 * (1 + self.size(c.args[0], env)):
                raise Bad
            return v < 0
        if k == 'eq0':
            v = self.val(c.args[0], env)
            return abs(v) < 1e-9 if isinstance(v, float) else v == 0
        if k == 'ex':
            lvl, body, T = c.args
            n = self.val(T, env)
            for i in range(self.count(n)):
                if self.truth(body, env + ((lvl, i),)):
                    return True
            return False
        key = self.key(c, env)
        return bool(self.rnd(key, 'b'))

    def size(self, p, env):
        s = 0.0
        for m, c in p.t.items():
            x = abs(float(c))
            for a, e in m:
                y = abs(float(self.at(a, env)))
                x *= y ** e if y or e > 0 else 1.0
            s += x
        return s

    def truth(self, v, env):
        return self.val(v, env) == 1

    def count(self, n, env=()):
        n = int(round(n))
        if n > (200 if env else 2000):
            raise Bad
        return max(n, 0)

    def key(self, a, env):
        r = [a.kind]
        for x in a.args:
            if isinstance(x, (Poly, Ite)):
                v = self.val(x, env)
                r.append(round(v, 9) if isinstance(v, float) else v)
            elif isinstance(x, sym.Atom):
                r.append(self.at(x, env))
            elif isinstance(x, M.Mem):
                raise Bad
            else:
                r.append(x)
        return tuple(r)

    def at(self, a, env=()):
        if not any(x.kind == 'bv' for x in a.fv):
            r = self.memo.get(a.id)
            if r is None:
                r = self._at(a, env)
                self.memo[a.id] = r
            return r
        return self._at(a, env)

    def _at(self, a, env):
        k = a.kind
        if k == 'bv':
            for l, v in reversed(env):
                if l == a.args[0]:
                    return v
            raise Bad
        ty = 'p' if a.ptr else 'i' if a.isint else 'd'
        if k in ('sin', 'cos', 'sqrt', 'abs'):
            x = self.val(a.args[0], env)
            if k == 'abs':
                return abs(x)
            if k == 'sqrt':
                if x < 0:
                    raise Bad
                return math.sqrt(x)
            return math.sin(x) if k == 'sin' else math.cos(x)
        if k == 'mfn':
            return mathfn(a.args[0], [float(self.val(x, env)) for x in a.args[1:]])
        if k == 'inv':
            x = self.val(a.args[0], env)
            if abs(x) < 1e-12:
                raise Bad
            return 1 / x if isinstance(x, float) else 1 / Fraction(x)
        if k in ('div', 'mod'):
            p, q = self.val(a.args[0], env), self.val(a.args[1], env)
            if q == 0:
                raise Bad
            d = int(p / q) if abs(p) < 2 ** 50 else p // q
            return d if k == 'div' else p - q * d
        if k == 'ind':
            return 1 if self.cond(a.args[0], env) else 0
        if k == 'ps':
            lvl, body, x = a.args
            n = int(round(self.val(x, env)))
            if n < 0:
                # prefix sums run backwards below zero
                self.count(-n)
                return -sum(self.val(body, env + ((lvl, i),)) for i in range(n, 0))
            return sum(self.val(body, env + ((lvl, i),)) for i in range(self.count(n, env)))
        if k == 'mx':
            lvl, body, K, i0 = a.args
            r = self.val(i0, env)
            for i in range(self.count(self.val(K, env))):
                r = max(r, self.val(body, env + ((lvl, i),)))
            return r
        if k == 'fi':
            lvl, body = a.args
            for i in range(64):
                if self.truth(body, env + ((lvl, i),)):
                    return i
            raise Bad
        if k in ('lt0', 'eq0', 'ex', 'bfn'):
            return 1 if self.cond(a, env) else 0
        if k in ('rd', 'mu'):
            raise Bad
        key = self.key(a, env)
        if a.isint:
            for h in FIELD:
                r = h(self, a, key, env)
                if r is not None:
                    r = self.fix.get(key, r)
                    self.keys.setdefault(a.id, key)
                    return r
        lo, hi = sym.atom_bounds(a)
        if a.isint:
            for g in sym.FACTS.gen:
                for f in g(a):
                    co = f.t.get(((a, 1),))
                    if co not in (1, -1):
                        continue
                    rest = self.val(sym.psub(f, sym.pscale(sym.pa(a), co)), env)
                    if co == 1:
                        lo = -rest if lo is None else max(lo, -rest)
                    else:
                        hi = rest if hi is None else min(hi, rest)
            if hi is not None:
                lo = 0 if lo is None else lo
        self.keys.setdefault(a.id, key)
        if k == 'ld' and a.args[1] != 'size':
            key = ('ld', key[1], 'm')
            self.keys[a.id] = key
        return self.rnd(key, ty, lo if ty != 'p' else None, hi if ty != 'p' else None)


def holds(ev, lit):
    c, side = lit
    return bool(ev.cond(c)) == side


def linear_atoms(p):
    """atoms of p that occur only linearly and are free leaves"""
    out = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('var', 'ld', 'hv', 'fn'):
            out.append((m[0][0], c))
    deep = sym.all_atoms_poly(p)
    r = []
    for a, c in out:
        n = sum(1 for m in p.t for x, e in m if x is a)
        if n == 1 and not any(a in sym.all_atoms_poly_args(x) for x in deep if x is not a):
            r.append((a, c))
    return r


def product_atoms(ev, p):
    """free leaves that occur in one product only, with the value of the rest of it"""
    deep = sym.all_atoms_poly(p)
    r = []
    for m, c in p.t.items():
        for a, e in m:
            if e != 1 or a.kind not in ('var', 'ld', 'hv', 'fn') or a.ptr or a.isint:
                continue
            if sum(1 for m2 in p.t for x, _ in m2 if x is a) != 1:
                continue
            if any(a in sym.all_atoms_poly_args(x) for x in deep if x is not a):
                continue
            try:
                co = Fraction(c)
                for b, f in m:
                    if b is not a:
                        v = ev.at(b)
                        if not v or isinstance(v, float):
                            raise Bad
                        co *= Fraction(v) ** f
            except Bad:
                continue
            r.append((a, co))
    return r


def repair(ev, lits):
    """one pass of adjustments toward the literals; True when something was fixed"""
    ch = False
    for c, side in lits:
        try:
            if holds(ev, (c, side)):
                continue
        except Bad:
            continue
        if c.kind not in ('lt0', 'eq0'):
            if c.kind not in ('ex',):
                k = ev.key(c, ())
                ev.fix[k] = 1 if side else 0
                ch = True
            continue
        p = c.args[0]
        las = linear_atoms(p) or product_atoms(ev, p)
        if not las or any(x.kind in ('mod', 'div') for x in sym.all_atoms_poly(p)):
            ch |= repair_mod(ev, c, p, side) or repair_num(ev, c, p, side)
            continue
        a, co = las[_h(ev.seed, c.id) % len(las)]
        if a.ptr and not (c.kind == 'eq0' and side):
            continue
        try:
            v = ev.val(p)
        except Bad:
            continue
        key = ev.keys.get(a.id)
        if key is None:
            continue
        cur = ev.at(a)
        isint = a.isint
        if c.kind == 'eq0':
            if side:
                new = cur - v / co if not isint else cur - Fraction(v) / co
            else:
                new = cur + 1
        else:
            step = 1 if isint else 0.5 + (_h(ev.seed, 'st') % 100) / 100.0
            k0 = abs(p.t.get((), 0))
            if not isint and k0 and _h(ev.seed, 'sc') % 2:
                step = Fraction(k0) / 2         # stay inside narrow windows
            target = -step if side else (0 if isint else step)
            new = cur + (target - v) / co if not isint else cur + Fraction(target - v) / co
        if isint:
            if Fraction(new).denominator != 1:
                continue
            new = int(new)
        if a.ptr:
            new = int(new)
        ev.fix[key] = new
        ch = True
        ev.memo.clear()
    ev.memo.clear()
    return ch


def repair_mod(ev, c, p, side):
    """make a remainder take the value a comparison asks for, by trying multiples of the divisor"""
    for a in list(sym.all_atoms_poly(p)):
        if a.kind not in ('mod', 'div') or not all(isinstance(x, Poly) for x in a.args[:2]):
            continue
        x, q = a.args[:2]
        for b, k in linear_atoms(x):
            key = ev.keys.get(b.id)
            if key is None or b.ptr or not b.isint:
                continue
            try:
                qv = ev.val(q)
            except Bad:
                continue
            old = ev.fix.get(key)
            n0 = _h(ev.seed, 'md')
            for n in range(40):
                u = (n + n0) % 40
                ev.fix[key] = int(qv) * (u // 8) + (u % 8 if u % 2 == 0 else -(u % 8))
                ev.memo.clear()
                try:
                    if ev.fix[key] > 0 and holds(ev, (c, side)):
                        return True
                except Bad:
                    pass
            ev.fix.pop(key, None)
            if old is not None:
                ev.fix[key] = old
            ev.memo.clear()
    return False


def repair_num(ev, c, p, side):
    """move one real leaf deep inside a comparison by Newton steps until the comparison holds"""
    leaves = [a for a in sym.all_atoms_poly(p) if a.kind in ('ld', 'var', 'hv', 'fn') and not a.isint and not a.ptr
              and a.id in ev.keys and not any(x.kind == 'bv' for x in a.fv)]
    leaves.sort(key=lambda a: _h(ev.seed, 'nw', a.id))
    k0 = abs(p.t.get((), 0))
    small = Fraction(k0) / 2 if k0 and k0 < 1 else Fraction(1, 2)
    for a in leaves[:4]:
        key = ev.keys[a.id]
        old = ev.fix.get(key)

        def f(x):
            ev.fix[key] = x
            ev.memo.clear()
            return ev.val(p)
        try:
            ev.memo.clear()
            x = ev.at(a)
            for n in range(8):
                y = f(x)
                if holds(ev, (c, side)):
                    return True
                goal = 0 if c.kind == 'eq0' else -small if side else small
                h = Fraction(1, 1000)
                d = f(x + h) - y
                if not d:
                    break
                x = x + (goal - y) * h / d
                if isinstance(x, float):
                    x = Fraction(x)
                if x.denominator > 10 ** 40:
                    x = x.limit_denominator(10 ** 12)
        except (Bad, OverflowError, ZeroDivisionError, RecursionError):
            pass
        ev.fix.pop(key, None)
        if old is not None:
            ev.fix[key] = old
        ev.memo.clear()
    return False


def facts_ok(ev, facts):
    for f in facts:
        if ev.val(f) < -1e-9:
            return False
    return True


def fact(ev, l):
    """a premise; one that is zero up to rounding (an identity of numbers) holds"""
    v = ev.val(l[0].args[0])
    if isinstance(v, float) and abs(v) < 1e-9 * (1 + ev.size(l[0].args[0], ())):
        return True
    return not v < 0


def refute(d, facts=(), lits=(), tries=60, seed=1, sides=()):
    """valuation where d != 0 with the facts (and the literals) true; None when not found"""
    facts = [f for f in facts if not any(x.kind == 'bv' for x in f.fv)]
    flits = [(sym.atom('lt0', f, 'i' if sym.isint_poly(f) else 'r'), False) for f in facts]
    for n in range(tries):
        ev = Ev((seed, n), {}, small=1 + n % 4)
        try:
            for _ in range(6):
                try:
                    bad = [l for l in flits if not fact(ev, l)] + [l for l in lits if not holds(ev, l)]
                except Bad:
                    bad = None
                if bad == []:
                    break
                if not repair(ev, flits + list(lits)):
                    break
            ev.memo.clear()
            if any(not fact(ev, l) for l in flits):
                continue
            if any(not holds(ev, l) for l in lits):
                continue
            v = ev.val(d)
        except (Bad, OverflowError, ZeroDivisionError, RecursionError):
            continue
        scale = magnitude(ev, d)
        if abs(v) > 1e-7 * (1 + scale):
            return ev, v
        if v and sides and isinstance(v, (int, Fraction)):
            # exact evaluation: only rounding of folded constants is to be tolerated
            try:
                big = sum(magnitude(ev, s) for s in sides)
            except (Bad, OverflowError, ZeroDivisionError, RecursionError):
                continue
            if abs(v) > 1e-12 * big:
                return ev, v
    return None


def magnitude(ev, v):
    while isinstance(v, Ite):
        v = v.hi if ev.cond(v.c) else v.lo
    s = 0.0
    for m, c in v.t.items():
        x = float(abs(c))
        for a, e in m:
            y = abs(ev.at(a))
            x *= float(y) ** e if y else (0.0 if e > 0 else 1.0)
        s += x
    return s
