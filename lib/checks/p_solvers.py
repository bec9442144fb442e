"""Linear solvers.

Their loops are cut: one arbitrary iteration is reduced from an arbitrary heap, so that what
is required of it holds for every iteration of every run, converging or not.  Operations of
the block-sparse matrices are taken by contract (decided by C21)."""
import memory as M
import scs
import sym
from ck import Anchor, Broken, Undecided
from interp import infof, nanof
from scs import V, fld, off
from sym import (ONE, ZERO, Ite, Poly, add, band, bnot, bor, const, div, ite, mul, neg, pa, padd, psub, psum, sub,
                 var, vabs, veq, vlt, vmax, vmin)

GS, CG, GE = 'GaussSeidelSleSolver', 'ConjugateGradientSleSolver', 'GaussianEliminationSleSolver'


class Run:
    def __init__(self, c, cls, meth='solve', cut=0, select=None, nan=False, members=None, prev=True, res=True,
                 n=None):
        """members: {field: (width, height)} of the solver's own matrices at the start of an iteration"""
        scs.setup(c.m)
        scs._dense.clear()
        self.c = c
        self.f = c.fn('%s::%s' % (cls, meth))
        self.this = var('solver', ptr=True)
        self.J, self.W, self.R = (var(x, ptr=True) for x in ('J', 'W', 'right'))
        self.L = var('limits', ptr=True) if meth == 'solveWithLimits' else None
        self.prev = var('previous', ptr=True) if prev else ZERO
        self.res = var('result', ptr=True)
        self.n, self.w = n if n is not None else var('n', True), var('w', True)
        n, w = self.n, self.w
        sym.FACTS.push([psub(n, ONE), psub(w, ONE)] if not n.is_const() else [psub(w, ONE)])
        pin = scs._pins
        pin[fld(scs.SPARSE, 'm_height', self.J).id], pin[fld(scs.SPARSE, 'm_width', self.J).id] = n, w
        self.pin(self.W, ONE, w)
        self.pin(self.R, ONE, n)
        if self.L is not None:
            self.pin(self.L, const(2), n)
        if res:
            self.pin(self.res, ONE, n)
        if prev == 'same':
            self.pin(self.prev, ONE, n)
        for x in (self.res, self.prev):
            if x is not ZERO:
                for d in ('m_width', 'm_height'):
                    scs.nonneg(fld('Matrix', d, x))
        for fl, (ww, hh) in (members or {}).items():
            self.pin(self.member(cls, fl), ww(self), hh(self))
        scs.register_sparse(self.J)
        scs.register_members(cls, self.this)
        self.cls = cls
        a = [self.this, self.J, self.W, self.R]
        a += [self.L, self.res, self.prev] if self.L is not None else [self.prev, self.res]
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        self.r = c.run(self.f, a, self.m0, cut=cut, select=select, nan=nan, models=scs.contracts(c.m))
        self.v = V(self.r.mem)
        self.cuts = c.eng.cuts
        self.success = band(self.r.care, c.eng.tobool(self.r.ret))

    def pin(self, X, w, h):
        scs._pins[fld('Matrix', 'm_width', X).id] = w
        scs._pins[fld('Matrix', 'm_height', X).id] = h

    def member(self, cls, fl):
        try:
            return fld(cls, fl, self.this)
        except KeyError:
            raise Undecided('%s has no member %s' % (cls, fl))

    def mem(self, fl):
        return self.member(self.cls, fl)

    def D(self, i, q):
        """the matrix J stands for"""
        return self.v0.mat(scs.dense_of(self.J), i, q)

    def Wq(self, q):
        return self.v0.mat(self.W, q, ZERO)

    def A(self, i, j):
        """entry of J W J^T"""
        q = sym.fresh()
        return psum(q, mul(mul(self.D(i, pa(q)), self.Wq(pa(q))), self.D(j, pa(q))), self.w)

    def own(self, *vals):
        """the values speak of J only through the contracts"""
        for v in vals:
            for a in sym.all_atoms(v):
                if a.kind == 'ld' and a.args[1] != 'size':
                    b, o = M.split(a.args[0])
                    while b is not None and b.kind == 'ld':
                        b2, o2 = M.split(b.args[0])
                        if b2 is self.J.single_atom() and b2 is not None:
                            raise Undecided('reads the storage of a block-sparse matrix directly')
                        b = b2

    def eq(self, got, want, facts=(), assume=ONE, what=''):
        self.own(got)
        self.c.require_equal(got, want, facts, assume, what)


def rng(x, n):
    """facts for 0 <= x < n"""
    return [x, psub(psub(n, ONE), x)]


def ints(rec):
    return [v for v in rec.before.values() if isinstance(v, Poly) and sym.isint_poly(v)]


def floats(rec):
    return [p for p, v in rec.before.items() if isinstance(v, Poly) and not sym.isint_poly(v) and not v.single_atom().ptr]


def spread(f, a):
    """value a(i) as a function of the row"""
    return f


# --- Gauss-Seidel ---------------------------------------------------------------------------

class Sweep:
    """the relaxation sweep inside a Gauss-Seidel solve"""

    def __init__(self, c, meth):
        sq = (lambda r: r.n, lambda r: r.n)
        self.r = r = Run(c, GS, meth, cut=2, members={'m_M': sq})
        self.c = c
        recs = [k for k in r.cuts if k.depth == 1 and self.writes(k)]
        if len(recs) != 1:
            raise Undecided('%d sweeps over the unknowns found' % len(recs))
        self.k = k = recs[0]
        self.v1 = V(k.mem)
        sym.FACTS.push([k.t])
        rows = []
        for x in ints(k):
            if not any(y is x for y in rows):
                if self.at(self.v1, x) is not self.at(r.v0, x):
                    rows.append(x)
        if len(rows) != 1:
            raise Undecided('the row a step works on is not recognised')
        self.row = rows[0]
        self.facts = [k.t] + rng(self.row, r.n)
        sym.FACTS.push(self.facts)

    def at(self, v, i):
        return v.mat(self.r.res, i, ZERO)

    def writes(self, k):
        q = var('q_', True)
        v1 = V(k.mem)
        return v1.mat(self.r.res, q, ZERO) is not self.r.v0.mat(self.r.res, q, ZERO)

    def exact(self):
        """the value satisfying the row given the newest others"""
        r, i = self.r, self.row
        m = r.mem('m_M')
        j = sym.fresh()
        jp = pa(j)
        s = psum(j, mul(r.v0.mat(m, i, jp), self.at(r.v0, jp)), r.n)
        d = r.v0.mat(m, i, i)
        s = sub(s, mul(d, self.at(r.v0, i)))
        return div(sub(r.v0.mat(r.R, i, ZERO), s), d)

    def nonzero(self):
        r = self.r
        return bnot(veq(r.v0.mat(r.mem('m_M'), self.row, self.row), ZERO))

    def newval(self):
        return self.at(self.v1, self.row)

    def cover(self):
        """rows 0..n-1 in turn"""
        r, k, c = self.r, self.k, self.c
        first = sym.subst(self.row, {k.t.single_atom(): ZERO})
        c.require_equal(first, ZERO, what='first row')
        c.require_equal(self.row, k.t, what='row of step t')
        # leaving the sweep early or going past the end
        c.require_equal(ite(k.cond, ONE, ZERO), ONE, self.facts, what='a step inside the system goes on to the next')
        out = ZERO
        for e in k.exits:
            out = bor(out, e.cond)
        c.require(out, [k.t, psub(k.t, r.n)], what='the sweep ends after the last row')

    def frame(self):
        r, q = self.r, var('q', True)
        got, want = self.at(self.v1, q), self.at(r.v0, q)
        self.c.require_equal(got, want, rng(q, r.n), assume=bnot(veq(q, self.row)), what='another unknown')
        entered = ONE
        for x in r.cuts[:r.cuts.index(self.k) + 1]:
            if x.depth == 0:
                entered = x.entrycond
        self.c.require_equal(self.at(r.v, q), want, rng(q, r.n), assume=entered, what='an unknown after the last sweep')


def c24(c):
    def sweep():
        return Sweep(c, 'solveWithLimits')

    def lim(s):
        return s.r.v0.mat(s.r.L, s.row, ZERO), s.r.v0.mat(s.r.L, s.row, ONE)
    f = c.fn('%s::solveWithLimits' % GS)

    def inside():
        s = sweep()
        lo, hi = lim(s)
        x = s.newval()
        fx = s.facts + [psub(hi, lo)]
        c.require(bnot(vlt(x, lo, False)), fx, what='stored multiplier not below the lower limit')
        c.require(bnot(vlt(hi, x, False)), fx, what='stored multiplier not above the upper limit')
    c.ob('a stored multiplier lies between the limits of its row', inside, f)

    def untouched():
        s = sweep()
        lo, hi = lim(s)
        y = s.exact()
        ok = band(bnot(vlt(y, lo, False)), bnot(vlt(hi, y, False)))
        c.require_equal(s.newval(), y, s.facts + [psub(hi, lo)], assume=band(s.nonzero(), ok), what='multiplier')
    c.ob('a multiplier within its limits is not changed by limiting', untouched, f)

    def undef():
        # an undefined intermediate must not be stored as a multiplier
        s = Sweep(c, 'solveWithLimits')
        r = s.r
        lo, hi = lim(s)
        r2 = Run(c, GS, 'solveWithLimits', cut=2, nan=True, members={'m_M': (lambda r: r.n, lambda r: r.n)})
        k = [k for k in r2.cuts if k.depth == 1][-1]
        x = V(k.mem).mat(r2.res, k.t, ZERO)
        fin = band(bnot(nanof(lo)), bnot(nanof(hi)))
        c.require_equal(ite(band(fin, nanof(x)), ONE, ZERO), ZERO, [k.t] + rng(k.t, r2.n) + [psub(hi, lo)],
                        what='a stored multiplier is undefined although its limits are not')
    c.ob('an undefined intermediate is not stored as a multiplier', undef, f)
    c.ob('every row is limited', lambda: sweep().cover(), f)
    c.ob('only the row of the step is stored, nothing after the last sweep', lambda: sweep().frame(), f)


def c25(c):
    for meth in ('solve', 'solveWithLimits'):
        f = c.fn('%s::%s' % (GS, meth))

        def step():
            s = Sweep(c, meth)
            if meth == 'solve':
                s.c.require_equal(s.newval(), s.exact(), s.facts, assume=s.nonzero(), what='new value of the unknown')
            else:
                y = s.exact()
                lo, hi = (s.r.v0.mat(s.r.L, s.row, x) for x in (ZERO, ONE))
                inb = band(bnot(vlt(y, lo, False)), bnot(vlt(hi, y, False)))
                s.c.require_equal(s.newval(), y, s.facts + [psub(hi, lo)], assume=band(s.nonzero(), inb), what='new value')
        c.ob('%s: a step satisfies its own row exactly' % meth, step, f)
        c.ob('%s: a sweep visits every row in turn' % meth, lambda: Sweep(c, meth).cover(), f)
        c.ob('%s: a step changes no other unknown' % meth, lambda: Sweep(c, meth).frame(), f)

        def delta():
            s = Sweep(c, meth)
            ps = floats(s.k)
            if len(ps) != 1:
                raise Undecided('the measure of change is not recognised')
            p = ps[0]
            c.require_equal(s.k.inits[p], ZERO, what='change at the start of a sweep')
            old, new = s.k.before[p], s.k.after[p]
            k0 = s.at(s.r.v0, s.row)
            x = s.newval()
            d = div(vabs(sub(x, k0)), vmax(const(sym.Fraction(float(1e-3))), vabs(k0)))
            c.require_equal(new, vmax(old, d), s.facts + [old], what='measure of change after a step')
        c.ob('%s: the measured change of a sweep bounds the change of every unknown' % meth, delta, f)

        def start(prev, same):
            r = Run(c, GS, meth, cut=1, select=scs.with_inner_loops, prev=prev, res=False)
            k = top(r, 0)
            v = V(k.entry)
            q = var('q', True)
            fx = rng(q, r.n)
            c.require_equal(v.h(r.res), r.n, what='height of the result')
            if prev:
                hp = r.v0.h(r.prev)
                r.eq(v.mat(r.res, q, ZERO), r.v0.mat(r.prev, q, ZERO),
                     fx + [psub(hp, r.n), psub(r.n, hp), psub(r.v0.w(r.prev), ONE), psub(ONE, r.v0.w(r.prev))], what='starting value')
            else:
                c.require_equal(v.mat(r.res, q, ZERO), ZERO, fx, assume=bnot(veq(r.v0.h(r.res), r.n)),
                                what='starting value of a result that had another size')
            i, j = var('i', True), var('j', True)
            fx = rng(i, r.n) + rng(j, r.n)
            sym.FACTS.push(fx)
            r.eq(v.mat(r.mem('m_M'), i, j), r.A(i, j), fx, what='system matrix')
        c.ob('%s with a warm start: starts from it, on the right system' % meth, lambda: start(True, True), f)
        c.ob('%s without a warm start: on the right system' % meth, lambda: start(False, False), f)


def top(r, i):
    ks = [k for k in r.cuts if k.depth == 0]
    if len(ks) <= i:
        raise Undecided('the loop is not found')
    return ks[i]


# --- conjugate gradient -----------------------------------------------------------------------

class Grad:
    """one iteration of the conjugate gradient loop"""

    def __init__(self, c, nan=False, prev='same'):
        vec, wv = (lambda r: ONE, lambda r: r.n), (lambda r: ONE, lambda r: r.w)
        mem = {'m_r': vec, 'm_p': vec, 'm_Ap': vec, 'm_x': vec}
        for x in ('m_mreg0', 'm_mreg1'):
            if has(CG, x):
                mem[x] = wv
        self.c = c
        self.r = r = Run(c, CG, 'solve', cut=1, select=scs.with_inner_loops, members=mem, nan=nan, prev=prev)
        self.k = k = top(r, 0)
        self.v1 = V(k.mem)
        self.q = q = var('q', True)
        self.facts = rng(q, r.n) + [k.t]
        sym.FACTS.push(self.facts)
        cand = [X for X in (r.mem('m_x'), r.res) if self.at(self.v1, X, q) is not self.at(r.v0, X, q)]
        if len(cand) != 1:
            raise Undecided('the current guess is not recognised')
        self.X, self.P, self.Rm = cand[0], r.mem('m_p'), r.mem('m_r')
        # what the iteration carries in scalars
        s = sym.fresh()
        self.rr = psum(s, mul(self.r0(pa(s)), self.r0(pa(s))), r.n)
        self.sub = {}
        for p in floats(k):
            self.sub[k.before[p].single_atom()] = self.rr

    def at(self, v, X, q):
        return v.mat(X, q, ZERO)

    def r0(self, q):
        return self.at(self.r.v0, self.Rm, q)

    def p0(self, q):
        return self.at(self.r.v0, self.P, q)

    def x0(self, q):
        return self.at(self.r.v0, self.X, q)

    def Av(self, f, q):
        """entry q of the system matrix applied to the vector f"""
        r = self.r
        t, j = sym.fresh(), sym.fresh()
        inner = psum(j, mul(r.D(pa(j), pa(t)), f(pa(j))), r.n)
        return psum(t, mul(mul(r.D(q, pa(t)), r.Wq(pa(t))), inner), r.w)

    def alpha(self):
        s = sym.fresh()
        return div(self.rr, psum(s, mul(self.p0(pa(s)), self.Av(self.p0, pa(s))), self.r.n))

    def x1(self, q):
        return add(self.x0(q), mul(self.alpha(), self.p0(q)))

    def r1(self, q):
        return sub(self.r0(q), mul(self.alpha(), self.Av(self.p0, q)))

    def p1(self, q):
        s = sym.fresh()
        beta = div(psum(s, mul(self.r1(pa(s)), self.r1(pa(s))), self.r.n), self.rr)
        return add(self.r1(q), mul(beta, self.p0(q)))

    def sent(self):
        """the loop was left from within an iteration"""
        out = ZERO
        for e in self.k.exits:
            out = bor(out, e.cond)
        return out

    def got(self, v):
        return sym.subst(v, self.sub) if self.sub else v

    def eq(self, got, want, what, **kw):
        self.r.eq(self.got(got), want, self.facts, what=what, **kw)

    def scalars(self):
        """a scalar carried from one iteration to the next is the squared residual"""
        k, r = self.k, self.r
        for p in floats(k):
            s = sym.fresh()
            want = psum(s, mul(self.at(self.v1, self.Rm, pa(s)), self.at(self.v1, self.Rm, pa(s))), r.n)
            self.c.require_equal(self.got(k.after[p]), self.got(want), self.facts, assume=self.got(k.cond), what='scalar carried on')


def has(cls, fl):
    try:
        off(cls, fl)
        return True
    except KeyError:
        return False


def c26(c):
    f = c.fn('%s::solve' % CG)

    def step(which):
        g = Grad(c)
        g.scalars()
        k = g.k
        if which == 'x':
            g.eq(g.at(g.v1, g.X, g.q), g.x1(g.q), 'guess', assume=k.cond)
        elif which == 'r':
            g.eq(g.at(g.v1, g.Rm, g.q), g.r1(g.q), 'residual', assume=k.cond)
        else:
            g.eq(g.at(g.v1, g.P, g.q), g.p1(g.q), 'direction', assume=k.cond)
    c.ob('an iteration moves the guess by the exact step along the direction', lambda: step('x'), f)
    c.ob('an iteration moves the residual by the same step of the matrix times the direction', lambda: step('r'), f)
    c.ob('an iteration makes the next direction from the new residual', lambda: step('p'), f)

    def start(prev, which):
        r = Run(c, CG, 'solve', cut=1, select=scs.with_inner_loops, prev=prev and 'same')
        k = top(r, 0)
        v = V(k.entry)
        q = var('q', True)
        fx = rng(q, r.n)
        sym.FACTS.push(fx)
        if prev:
            x0 = lambda i: r.v0.mat(r.prev, i, ZERO)
        else:
            x0 = lambda i: ZERO
        sym.FACTS.push(fx)
        t, j = sym.fresh(), sym.fresh()
        inner = psum(j, mul(r.D(pa(j), pa(t)), x0(pa(j))), r.n)
        res = sub(r.v0.mat(r.R, q, ZERO), psum(t, mul(mul(r.D(q, pa(t)), r.Wq(pa(t))), inner), r.w))
        if which == 'x':
            X = r.mem('m_x')
            r.eq(v.mat(X, q, ZERO), x0(q), fx, k.entrycond, what='first guess')
        elif which == 'r':
            r.eq(v.mat(r.mem('m_r'), q, ZERO), res, fx, k.entrycond, what='first residual')
        else:
            r.eq(v.mat(r.mem('m_p'), q, ZERO), res, fx, k.entrycond, what='first direction')
        for p in floats(k):
            s = sym.fresh()
            c.require_equal(k.inits[p], psum(s, mul(v.mat(r.mem('m_r'), pa(s), ZERO), v.mat(r.mem('m_r'), pa(s), ZERO)), r.n),
                            fx, k.entrycond, what='scalar at the start')
    for prev, nm in ((True, 'with a warm start'), (False, 'without a warm start')):
        c.ob('%s: first guess' % nm, lambda: start(prev, 'x'), f)
        c.ob('%s: the first residual is that of the first guess' % nm, lambda: start(prev, 'r'), f)
        c.ob('%s: the first direction is the first residual' % nm, lambda: start(prev, 'p'), f)

    def other():
        # a previous solution of another size is not used
        r = Run(c, CG, 'solve', cut=1, select=scs.with_inner_loops)
        k = top(r, 0)
        q = var('q', True)
        fx = rng(q, r.n)
        sym.FACTS.push(fx)
        r.eq(V(k.entry).mat(r.mem('m_x'), q, ZERO), ZERO, fx, band(k.entrycond, bnot(veq(r.v0.h(r.prev), r.n))), what='first guess')
    c.ob('a warm start of another size is not used', other, f)

    def result(at_once):
        if at_once:
            r = Run(c, CG, 'solve', cut=1, select=scs.with_inner_loops, prev='same')
            q = var('q', True)
            fx = rng(q, r.n)
            sym.FACTS.push(fx)
            r.eq(r.v.mat(r.res, q, ZERO), r.v0.mat(r.prev, q, ZERO), fx, band(r.success, bnot(top(r, 0).entrycond)), what='solution')
            return
        g = Grad(c)
        g.scalars()
        g.eq(g.at(g.r.v, g.r.res, g.q), g.x1(g.q), 'solution', assume=band(band(g.r.success, g.k.entrycond), g.sent()))
    c.ob('the solution reported after an iteration is its new guess', lambda: result(False), f)
    c.ob('the solution reported at once is the starting guess', lambda: result(True), f)


# --- Gaussian elimination ---------------------------------------------------------------------

def first_only(eng, fn, L):
    """loops that divide; inside the first of them all loops, inside later ones none"""
    if eng.open_cuts:
        return scs.not_matrix(eng, fn, L) and sum(1 for k in eng.cuts if k.depth == 0) == 1
    return scs.with_division(eng, fn, L)


class Elim:
    def __init__(self, c):
        self.c = c
        sq = (lambda r: r.n, lambda r: r.n)
        self.r = r = Run(c, GE, 'solve', cut=2, select=first_only,
                         members={'m_M': sq, 'm_a': (lambda r: padd(r.n, ONE), lambda r: r.n)})
        self.A = r.mem('m_a')
        self.n = n = r.n
        tops = [i for i, k in enumerate(r.cuts) if k.depth == 0]
        if len(tops) != 2:
            raise Undecided('elimination and back substitution are not recognised')
        self.E, self.B = r.cuts[tops[0]], r.cuts[tops[1]]
        inner = r.cuts[tops[0] + 1:tops[1]]
        self.q, self.j = var('q', True), var('j', True)
        self.fq = rng(self.q, n) + [self.j, psub(n, self.j)]
        sym.FACTS.push(self.fq)
        wr = [k for k in inner if self.el(V(k.mem), self.q, self.j) is not self.a(self.q, self.j)]
        rd = [k for k in inner if k not in wr]
        if len(wr) != 1 or len(rd) > 1:
            raise Undecided('the loops of an elimination step are not recognised')
        self.R, self.S = wr[0], (rd[0] if rd else None)
        self.v1 = V(self.R.mem)
        rows = [x for x in ints(self.R) if self.el(self.v1, x, self.j) is not self.a(x, self.j)
                and self.R.t.single_atom() in sym.all_atoms(x)]
        if not rows or any(x is not rows[0] for x in rows):
            raise Undecided('the row an elimination step changes is not recognised')
        self.i = rows[0]
        first = sym.subst(self.i, {self.R.t.single_atom(): ZERO})
        es = []
        for x in ints(self.E):
            if not any(x is y for y in es):
                es.append(x)
        hs = [x for x in es if psub(first, x).is_const()]
        self.h = hs[0] if len(hs) == 1 else None
        rest = [x for x in es if x is not self.h]
        if self.h is None or len(rest) > 1:
            raise Undecided('row and column of the elimination are not recognised')
        self.k = rest[0] if rest else self.h
        self.fe = [self.E.t, self.h, psub(psub(n, ONE), self.h), self.k, psub(n, self.k)]
        if self.k is not self.h:
            self.fe.append(psub(self.k, self.h))
        sym.FACTS.push(self.fe)

    def el(self, v, i, j):
        return v.mat(self.A, i, j)

    def a(self, i, j):
        return self.el(self.r.v0, i, j)

    def role(self, rec, x):
        return [p for p, v in rec.before.items() if v is x]

    # -- row step
    def rowfacts(self):
        return [self.R.t] + self.fe + self.fq + [psub(psub(self.n, ONE), self.i)]

    def rowstep(self):
        c, i, j, h, k = self.c, self.i, self.j, self.h, self.k
        fx = self.rowfacts()
        sym.FACTS.push(fx)
        f = div(self.a(i, k), self.a(h, k))
        nz = bnot(veq(self.a(h, k), ZERO))
        got = self.el(self.v1, i, j)
        self.r.own(got)
        # coefficients under and before the pivot are never looked at again
        want = sub(self.a(i, j), mul(f, self.a(h, j)))
        fj = fx + [psub(psub(j, k), ONE)]
        if not sym.equal(ite(nz, got, ZERO), ite(nz, want, ZERO), fj).ok:
            # the pivot may have been read before the steps, which do not change its equation
            pe = self.el(V(self.R.entry), h, k)
            w2 = sub(self.a(i, j), mul(div(self.a(i, k), pe), self.a(h, j)))
            n2 = bnot(veq(pe, ZERO))
            if sym.equal(ite(n2, got, ZERO), ite(n2, w2, ZERO), fj).ok:
                want, nz = w2, n2
        c.require_equal(got, want, fj, nz, 'coefficient of the changed equation')

    def rowframe(self):
        fx = self.rowfacts()
        sym.FACTS.push(fx)
        self.c.require_equal(self.el(self.v1, self.q, self.j), self.a(self.q, self.j), fx,
                             bnot(veq(self.q, self.i)), 'coefficient of another equation')
        if self.S is not None:
            self.c.require_equal(self.el(V(self.S.mem), self.q, self.j), self.a(self.q, self.j), fx, what='coefficient during the pivot search')

    def rowcover(self):
        R, c, n = self.R, self.c, self.n
        c.require_equal(psub(self.i, R.t), padd(self.h, ONE), self.fe, what='row of a step')
        fx = self.rowfacts()
        c.require_equal(ite(R.cond, ONE, ZERO), ONE, fx, what='a step below the pivot goes on to the next')
        out = ZERO
        for e in R.exits:
            out = bor(out, e.cond)
        c.require_equal(ite(out, ONE, ZERO), ONE, [R.t] + self.fe + [psub(self.i, n)], what='the rows end')

    # -- pivot search
    def pivot(self):
        """row found by the search and the condition under which the search calls the column empty"""
        S, c = self.S, self.c
        if S is None:
            return self.h, None, []
        xs, cnt = [], []
        for p in S.before:
            b, a = S.before[p], S.after[p]
            if isinstance(b, Poly) and sym.isint_poly(b):
                (cnt if S.t.single_atom() in sym.all_atoms(b) else xs).append(p)
        if len(xs) > 1 or not cnt or len(floats(S)) > 1:
            raise Undecided('the pivot search is not recognised')
        self.ip, self.ic = xs[0] if xs else None, cnt[0]
        self.mv = floats(S)[0] if floats(S) else None
        self.p, self.s = S.before[self.ip] if xs else self.h, S.before[self.ic]
        self.fp = [psub(self.p, self.h), psub(psub(self.n, ONE), self.p)]
        self.fs = [S.t] + self.fe + self.fp + [psub(psub(self.n, ONE), self.s)]

    def measure(self, m, p):
        return m if self.mv is not None else self.a(p, self.k)

    def search(self):
        S, c, h, k, n = self.S, self.c, self.h, self.k, self.n
        if S is None:
            return
        self.pivot()
        fs = self.fs
        sym.FACTS.push(fs)
        first = sym.subst(self.s, {S.t.single_atom(): ZERO})
        at_h = sym.equal(first, h, self.fe).ok
        if not at_h:
            c.require_equal(first, padd(h, ONE), self.fe, what='first row searched')
        c.require_equal(psub(self.s, S.t), first, self.fe, what='row searched by a step')
        c.require_equal(ite(S.cond, ONE, ZERO), ONE, fs, what='the search goes on to the next row')
        out = ZERO
        for e in S.exits:
            out = bor(out, e.cond)
        c.require_equal(ite(out, ONE, ZERO), ONE, [S.t] + self.fe + self.fp + [psub(self.s, n)], what='the search ends')
        # the row found is one of those searched
        p0, p1 = (S.inits[self.ip], S.after[self.ip]) if self.ip is not None else (h, h)
        c.require_equal(p0, h, self.fe, what='first pivot row')
        c.require(bnot(vlt(p1, h, True)), fs, what='pivot row not above')
        c.require(vlt(p1, n, True), fs, what='pivot row inside')
        m0, m, m1 = ((S.inits[self.mv], S.before[self.mv], S.after[self.mv]) if self.mv is not None else (None, None, None))
        Z = lambda mm, p: veq(self.measure(mm, p), ZERO)
        fx = list(fs)
        if m is not None and sym.equal(vlt(m0, ZERO, False), ZERO, self.fe).ok \
                and sym.equal(vlt(m1, ZERO, False), ZERO, fs + [m]).ok:
            fx.append(m)
        nz = lambda p: bnot(veq(self.a(p, k), ZERO))
        if m is not None:
            c.require(bor(Z(m0, p0), nz(p0)), self.fe, what='first pivot candidate')
            c.require(bor(bnot(bor(Z(m, self.p), nz(self.p))), bor(Z(m1, p1), nz(p1))), fx, what='pivot measured as nonzero')
        if not at_h and m is not None:
            c.require(bor(bnot(Z(m0, p0)), veq(self.a(h, k), ZERO)), self.fe, what='first row of an empty column')
        c.require(bor(bnot(Z(m1, p1)), band(Z(m, self.p), veq(self.a(self.s, k), ZERO))), fx, what='row of an empty column')

    def known(self):
        """what the search has established"""
        if self.S is None:
            return ONE
        self.pivot()
        if self.mv is None:
            return ONE
        m = self.S.before[self.mv]
        return bor(veq(m, ZERO), bnot(veq(self.a(self.p, self.k), ZERO)))

    def sdone(self):
        out = ONE
        if self.S is not None:
            out = ZERO
            for e in self.S.exits:
                out = bor(out, e.cond)
        return out

    def exchange(self):
        c, R, q, j = self.c, self.R, self.q, self.j
        e = V(R.entry)
        kn = self.known()
        p = self.p if self.S is not None else self.h
        fx = self.fe + self.fq + (self.fp if self.S is not None else []) + [psub(j, self.k)]
        sym.FACTS.push(fx)
        pre = band(R.entrycond, kn)
        c.require_equal(self.el(e, self.h, j), self.a(p, j), fx, pre, what='coefficient of the pivot equation')
        c.require_equal(self.el(e, p, j), self.a(self.h, j), fx, pre, what='coefficient of the equation exchanged for the pivot')
        c.require_equal(self.el(e, q, j), self.a(q, j), fx, band(pre, band(bnot(veq(q, self.h)), bnot(veq(q, p)))),
                        what='coefficient of an equation not exchanged')
        zero = ite(veq(self.el(e, self.h, self.k), ZERO), ONE, ZERO)
        if self.S is None or self.ip is None:
            c.require_equal(zero, ZERO, fx, pre, what='pivot')
            return
        c.require_equal(zero, ZERO, fx, band(pre, bnot(veq(p, self.h))), what='pivot')
        d = {p.single_atom(): self.h}
        c.require_equal(sym.subst(zero, d), ZERO, fx, sym.subst(pre, d), what='pivot when there is nothing to exchange')

    def skip(self):
        c, E, q, j = self.c, self.E, self.q, self.j
        kn = self.known()
        fx = self.fe + self.fq + (self.fp if self.S is not None else [])
        sym.FACTS.push(fx)
        m = self.S.before[self.mv] if self.S is not None and self.mv is not None else None
        p = self.p if self.S is not None else self.h
        rx = ZERO
        for e in self.R.exits:
            rx = bor(rx, e.cond)
        sk = band(band(self.sdone(), bnot(self.R.entrycond)), bnot(rx))
        c.require_equal(ite(veq(self.measure(m, p) if self.S is not None else self.a(p, self.k), ZERO), ONE, ZERO), ONE, fx, band(sk, kn),
                        what='a column is skipped although it holds a pivot')
        c.require_equal(self.el(V(E.mem), q, j), self.a(q, j), fx, band(sk, E.cond), what='coefficient when a column is skipped')
        for x, w1, w2, nm in ((self.h, self.h, padd(self.h, ONE), 'row'), (self.k, padd(self.k, ONE), padd(self.k, ONE), 'column')):
            if x is self.h and self.k is self.h:
                continue
            for ph in self.role(E, x):
                c.require_equal(E.after[ph], w1, fx, band(sk, E.cond), what='%s after a skipped column' % nm)
                c.require_equal(E.after[ph], w2, fx, band(rx, E.cond), what='%s after an eliminated column' % nm)

    def whole(self):
        c, E = self.c, self.E
        for x in ((self.h, self.k) if self.k is not self.h else (self.h,)):
            for ph in self.role(E, x):
                c.require_equal(E.inits[ph], ZERO, what='first row and column')
        # leaving before all rows or columns are done (breaking out of an iteration counts too)
        hdr = ZERO
        for e in E.exits:
            hdr = bor(hdr, e.cond)
        early = band(vlt(self.h, psub(self.n, ONE), True), vlt(self.k, self.n, True))
        c.require_equal(ite(band(hdr, early), ONE, ZERO), ZERO, [E.t, self.h, self.k], what='the elimination is left early')

    # -- back substitution
    def x(self, v, q):
        return v.mat(self.r.res, q, ZERO)

    def back(self):
        B, r, n = self.B, self.r, self.n
        self.vb = V(B.mem)
        rows = []
        for y in ints(B):
            if B.t.single_atom() in sym.all_atoms(y) and not any(z is y for z in rows) \
                    and self.x(self.vb, y) is not self.x(r.v0, y):
                rows.append(y)
        if len(rows) != 1:
            raise Undecided('the unknown a back substitution step assigns is not recognised')
        self.b = rows[0]
        self.fb = [B.t] + rng(self.b, n) + self.fq
        sym.FACTS.push(self.fb)

    def backstep(self):
        self.back()
        r, n, b = self.r, self.n, self.b
        t = sym.fresh()
        tt = padd(padd(b, ONE), pa(t))
        s = psum(t, mul(self.a(b, tt), self.x(r.v0, tt)), psub(psub(n, ONE), b))
        d = self.a(b, b)
        self.c.require_equal(self.x(self.vb, b), div(sub(self.a(b, n), s), d), self.fb, bnot(veq(d, ZERO)), what='value of the unknown')

    def backframe(self):
        self.back()
        c, r, q, j = self.c, self.r, self.q, self.j
        c.require_equal(self.x(self.vb, q), self.x(r.v0, q), self.fb, bnot(veq(q, self.b)), what='another unknown')
        c.require_equal(self.el(self.vb, q, j), self.a(q, j), self.fb, what='coefficient during back substitution')
        c.require_equal(self.el(V(self.B.entry), q, j), self.a(q, j), self.fq, what='coefficient between elimination and back substitution')

    def backcover(self):
        self.back()
        B, c, r, n, b = self.B, self.c, self.r, self.n, self.b
        first = sym.subst(b, {B.t.single_atom(): ZERO})
        c.require_equal(padd(b, B.t), first, what='unknown of a step')
        if not sym.equal(first, psub(n, ONE), ()).ok:
            c.require_equal(first, psub(n, const(2)), what='first unknown of the back substitution')
            l = psub(n, ONE)
            d = self.a(l, l)
            c.require_equal(self.x(V(B.entry), l), div(self.a(l, n), d), (), band(B.entrycond, bnot(veq(d, ZERO))), what='last unknown')
        c.require_equal(ite(B.cond, ONE, ZERO), ONE, self.fb, what='a step goes on to the unknown before')
        out = ZERO
        for e in B.exits:
            out = bor(out, e.cond)
        c.require_equal(ite(out, ONE, ZERO), ONE, [B.t, psub(psub(ZERO, ONE), b)], what='the back substitution ends')

    def kept(self):
        r, q = self.r, self.q
        self.c.require_equal(self.x(r.v, q), self.x(r.v0, q), self.fq, band(r.success, self.B.entrycond), what='solution after the back substitution')


def c27(c):
    f = c.fn('%s::solve' % GE)
    g = []

    def e():
        if not g:
            g.append(Elim(c))
        return g[0]

    def do(meth):
        def go():
            x = e()
            n = len(sym.FACTS.stack)
            sym.FACTS.push(rng(x.n, x.n)[:1] + [psub(x.n, ONE), psub(x.r.w, ONE)] + x.fq)
            try:
                getattr(x, meth)()
            finally:
                while len(sym.FACTS.stack) > n:
                    sym.FACTS.pop()
        return go

    def copy(rhs):
        r = Run(c, GE, 'solve', cut=2, select=first_only, res=False)
        k = top(r, 0)
        v = V(k.entry)
        i, j = var('i', True), var('j', True)
        A = r.mem('m_a')
        fx = rng(i, r.n)
        if rhs:
            sym.FACTS.push(fx)
            r.eq(v.mat(A, i, r.n), r.v0.mat(r.R, i, ZERO), fx, what='right hand side')
        else:
            fx = fx + rng(j, r.n)
            sym.FACTS.push(fx)
            r.eq(v.mat(A, i, j), r.A(i, j), fx, what='coefficient')
    c.ob('the elimination works on the right coefficients', lambda: copy(False), f)
    c.ob('the elimination works on the right right-hand sides', lambda: copy(True), f)
    for nm, meth in (('a step subtracts a multiple of the pivot equation on both sides', 'rowstep'),
                     ('a step changes no other equation', 'rowframe'),
                     ('every equation below the pivot is eliminated', 'rowcover'),
                     ('the pivot search finds a nonzero coefficient where there is one', 'search'),
                     ('equations are exchanged whole and the pivot is not zero', 'exchange'),
                     ('a column is skipped only when it has no pivot', 'skip'),
                     ('elimination starts at the first and reaches the last equation', 'whole'),
                     ('back substitution satisfies the equation of its unknown', 'backstep'),
                     ('back substitution changes nothing else', 'backframe'),
                     ('back substitution visits every unknown', 'backcover'),
                     ('the solution reported is the one substituted', 'kept')):
        c.ob(nm, do(meth), f)


# --- status reported ---------------------------------------------------------------------------

def at_row(v, q):
    """v, where every 'some row is bad' is told about row q as well (q is a row)"""
    mp = {}
    seen = set()
    st = list(sym.all_atoms(v))
    for a in st:
        if a.kind == 'ex' and a.id not in seen and not any(x.kind == 'bv' for x in a.fv):
            seen.add(a.id)
            here = band(sym.open_closure(a.args[0], a.args[1], q), vlt(q, a.args[2]))
            mp[a] = bor(here, sym.ite_atom(a, ONE, ZERO))
    return swap(v, mp) if mp else v


def swap(v, mp, memo=None):
    """conditions of v replaced by the given values"""
    if memo is None:
        memo = {}
    if not isinstance(v, Ite):
        return v
    r = memo.get(v.id)
    if r is None:
        hi, lo = swap(v.hi, mp, memo), swap(v.lo, mp, memo)
        r = ite(mp[v.c], hi, lo) if v.c in mp else sym.ite_atom(v.c, hi, lo)
        memo[v.id] = r
    return r


def c28(c):
    def fail(what, cond, facts=(), assume=ONE):
        c.require_equal(ite(band(cond, assume), ONE, ZERO), ZERO, facts, what=what)

    # Gauss-Seidel
    for meth in ('solve', 'solveWithLimits'):
        f = c.fn('%s::%s' % (GS, meth))

        def sweepof(r):
            ks = [k for k in r.cuts if k.depth == 1 and len(floats(k)) == 1]
            if len(ks) != 1:
                raise Undecided('the measure of change is not recognised')
            return ks[0], floats(ks[0])[0]

        def run():
            sq = (lambda r: r.n, lambda r: r.n)
            return Run(c, GS, meth, cut=2, nan=True, members={'m_M': sq})

        def conv():
            r = run()
            k, p = sweepof(r)
            d = k.before[p]
            lim = r.v0.fd(GS, 'm_minDelta', r.this)
            fail('success without convergence', r.success, assume=bnot(vlt(d, lim, False)))
            fail('success with an undefined change', r.success, assume=nanof(d))
        c.ob('Gauss-Seidel %s: success only when the last sweep changed little' % meth, conv, f)

        def sticky():
            r = run()
            k, p = sweepof(r)
            q = k.t
            sym.FACTS.push([k.t] + rng(q, r.n))
            x1, x0 = V(k.mem).mat(r.res, q, ZERO), r.v0.mat(r.res, q, ZERO)
            b, a = k.before[p], k.after[p]
            # a row's sum is undefined when the unknown itself is
            j = sym.fresh()
            tot = psum(j, mul(r.v0.mat(r.mem('m_M'), q, pa(j)), r.v0.mat(r.res, pa(j), ZERO)), r.n)
            und = band(bnot(nanof(a)), bor(bnot(nanof(x0)), nanof(tot)))
            if meth == 'solve':
                # without limits an undefined value stays undefined in every later row of the sweep
                fail('an undefined unknown is not seen', band(nanof(x1), und), [k.t] + rng(q, r.n))
            else:
                fail('an undefined unknown is not seen', band(bor(nanof(x1), nanof(x0)), und), [k.t] + rng(q, r.n))
                fail('an undefined change is forgotten', band(nanof(b), und), [k.t] + rng(q, r.n))
        c.ob('Gauss-Seidel %s: an undefined unknown makes the change undefined' % meth, sticky, f)

        def height():
            r = Run(c, GS, meth, cut=1, select=scs.with_inner_loops, res=False)
            c.require_equal(V(top(r, 0).entry).h(r.res), r.n, what='height of the result before the sweeps')
            sq = (lambda r: r.n, lambda r: r.n)
            r = Run(c, GS, meth, cut=1, select=scs.with_inner_loops, members={'m_M': sq})
            c.require_equal(V(top(r, 0).mem).h(r.res), r.n, what='height of the result after a sweep')
            c.require_equal(r.v.h(r.res), r.n, assume=r.success, what='height of the result')
        c.ob('Gauss-Seidel %s: the result has one row per equation' % meth, height, f)

    # conjugate gradient
    f = c.fn('%s::solve' % CG)

    def small(r, x, b):
        me = r.v0.fd(CG, 'm_maxError', r.this)
        mi = r.v0.fd(CG, 'm_minError', r.this)
        return bnot(vlt(vmax(vabs(mul(me, b)), mi), vabs(x), False))

    def fields(r):
        return band(bnot(nanof(r.v0.fd(CG, 'm_maxError', r.this))), bnot(nanof(r.v0.fd(CG, 'm_minError', r.this))))

    def cg_iter(nan):
        g = Grad(c, nan=nan)
        r = g.r
        g.scalars() if not nan else None
        s = at_row(band(r.success, g.k.entrycond), g.q)
        x = g.at(g.v1, g.Rm, g.q)
        b = r.v0.mat(r.R, g.q, ZERO)
        if nan:
            fail('success with an undefined residual', band(s, nanof(x)), g.facts)
        else:
            fail('success with a large residual', band(s, bnot(small(r, x, b))), g.facts)
    c.ob('conjugate gradient: success after an iteration only with small residuals', lambda: cg_iter(False), f)
    c.ob('conjugate gradient: success after an iteration only with defined residuals', lambda: cg_iter(True), f)

    def cg_once(nan):
        r = Run(c, CG, 'solve', cut=1, select=scs.with_inner_loops, prev='same', nan=nan)
        k = top(r, 0)
        q = var('q', True)
        fx = rng(q, r.n)
        sym.FACTS.push(fx)
        x = V(k.entry).mat(r.mem('m_r'), q, ZERO)
        s = at_row(band(r.success, bnot(k.entrycond)), q)
        if nan:
            fail('success with an undefined residual', band(s, nanof(x)), fx)
        else:
            fail('success with a large residual', band(s, bnot(small(r, x, r.v0.mat(r.R, q, ZERO)))), fx)
    c.ob('conjugate gradient: success at once only with small residuals', lambda: cg_once(False), f)
    c.ob('conjugate gradient: success at once only with defined residuals', lambda: cg_once(True), f)

    def cg_height():
        g = Grad(c)
        c.require_equal(V(g.r.r.mem).h(g.r.res), g.r.n, g.facts, assume=band(g.r.success, g.k.entrycond), what='height of the result')
        r = Run(c, CG, 'solve', cut=1, select=scs.with_inner_loops, prev='same', res=False)
        c.require_equal(r.v.h(r.res), r.n, assume=band(r.success, bnot(top(r, 0).entrycond)), what='height of the result at once')
        X = r.mem('m_x')
        ke = V(top(r, 0).entry)
        for Y, nm in ((X, 'guess'), (r.mem('m_r'), 'residual'), (r.mem('m_p'), 'direction')):
            c.require_equal(ke.h(Y), r.n, assume=top(r, 0).entrycond, what='height of the ' + nm)
    c.ob('conjugate gradient: the result has one row per equation', cg_height, f)

    # elimination
    f = c.fn('%s::solve' % GE)

    def ge(nan, res=True):
        sq = (lambda r: r.n, lambda r: r.n)
        return Run(c, GE, 'solve', cut=2, select=first_only, nan=nan, res=res,
                   members={'m_M': sq, 'm_a': (lambda r: padd(r.n, ONE), lambda r: r.n)} if res else None)

    def ge_finite():
        r = ge(True)
        q = var('q', True)
        fx = rng(q, r.n)
        sym.FACTS.push(fx)
        x = r.v.mat(r.res, q, ZERO)
        s = at_row(r.success, q)
        fail('success with an undefined unknown', band(s, nanof(x)), fx)
        fail('success with an infinite unknown', band(s, infof(x)), fx)
    c.ob('elimination: success only with a finite solution', ge_finite, f)

    def ge_pivot():
        r = ge(False)
        l = psub(r.n, ONE)
        A = r.mem('m_a')
        d = r.v0.mat(A, l, l)
        tops = [k for k in r.cuts if k.depth == 0]
        if len(tops) != 2:
            raise Undecided('elimination and back substitution are not recognised')
        if sym.equal(ite(band(r.success, veq(d, ZERO)), ONE, ZERO), ZERO).ok:
            return
        # not refused by a test: then it must show as an infinite or undefined last unknown
        ge_finite()
        c.require_equal(V(tops[1].entry).mat(r.res, l, ZERO), div(r.v0.mat(A, l, r.n), d), assume=tops[1].entrycond,
                        what='last unknown of a singular system')
    c.ob('elimination: no success without a last pivot', ge_pivot, f)

    def ge_height():
        r = ge(False, False)
        c.require_equal(V(top(r, 0).entry).h(r.res), r.n, what='height of the result')
        r = ge(False)
        c.require_equal(r.v.h(r.res), r.n, assume=r.success, what='height of the result after the elimination')
    c.ob('elimination: the result has one row per equation', ge_height, f)

    # nothing to solve
    for cls, meth in ((GS, 'solve'), (GS, 'solveWithLimits'), (CG, 'solve'), (GE, 'solve')):
        f = c.fn('%s::%s' % (cls, meth))

        def empty():
            z = lambda r: ZERO
            r = Run(c, cls, meth, n=ZERO, res=False, prev=False, cut=1 if cls == GS else 0, select=scs.with_inner_loops,
                    members={'m_M': (z, z)} if cls == GS else None)
            if r.cuts:
                c.require_equal(V(top(r, 0).entry).h(r.res), ZERO, what='height of the result before the sweeps')
                return
            c.require_equal(r.v.h(r.res), ZERO, assume=r.success, what='height of the result')
        c.ob('%s %s: an empty system has an empty result' % (cls, meth), empty, f)

    # refusing limits
    base = c.fn('atg_scs::SleSolver::solveWithLimits')

    def refuses():
        for m in ('solve', 'solveWithLimits'):
            f = c.fn('atg_scs::SleSolver::' + m)
            m0 = M.init('m0')
            a = [var('x%d_%s' % (i, m), ptr=True) for i in range(len(f.args))]
            r = c.run(f, a, m0)
            c.require_equal(c.eng.tobool(r.ret), ZERO, what='status of a solver that cannot ' + m)
            if r.mem is not m0:
                q = var('anyaddress', ptr=True)
                c.require_equal(V(r.mem).d(q), V(m0).d(q), what='memory of a refused ' + m)
    c.ob('a solver without an implementation refuses', refuses, base)

    def flags():
        for cls in (GS, CG, GE):
            f = c.fn('%s::%s' % (cls, cls))
            t = var('solver', ptr=True)
            r = c.run(f, [t], M.init('m0'))
            has_own = any(g.dem.startswith('atg_scs::%s::solveWithLimits(' % cls) for g in c.m.funcs.values() if not g.decl)
            got = M.read(r.mem, fld('SleSolver', 'm_supportsLimits', t), 1, 'i')
            c.require_equal(got, ONE if has_own else ZERO, what='limits support announced by ' + cls)
    c.ob('limits are announced exactly by the solvers that implement them', flags, base)
