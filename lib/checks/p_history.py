"""C30, second part: what an operation computes is not taken from what earlier operations left behind.

A value is compared with the same value of another history: the storage of the work space is
renamed in it (the solver, or the matrices of a system that are rebuilt in every evaluation).
Equal for every content of the storage means the value does not depend on it."""
import p_solvers as PS
import p_system as PY
import scs
import sym
from ck import Broken, Undecided
from scs import V, fld, off
from sym import ZERO, FACTS, const, pa, padd, var


def other(v, mp):
    """the value v of another history"""
    if any(a.kind == 'undef' for a in sym.all_atoms(v)):
        raise Undecided('reads storage that was never written')
    return sym.subst(v, mp)


def same(c, v, mp, facts, assume, what):
    w = other(v, mp)
    if w is v:
        return
    c.require_equal(v, w, facts, assume, what=what + ' compared with that of another history')


def storage(c, cls, base, this, v0):
    """the element storage of every matrix member at base, renamed"""
    mp = {this.single_atom(): this}
    for fl, (o, n, t) in sorted(c.m.layout(scs.NS + cls).items()):
        if 'Matrix' not in t:
            continue
        for mem in ('m_matrix', 'm_data', 'm_blockData'):
            try:
                at = fld(scs.SPARSE if 'Sparse' in t else 'Matrix', mem, padd(base, const(o)))
            except (KeyError, ValueError):
                continue
            a = v0.p(at).single_atom()
            if a is not None:
                mp[a] = var('other %s.%s' % (fl, mem), ptr=True)
    if len(mp) == 1:
        raise Undecided('%s has no matrices of its own' % cls)
    return mp


# (class, method, matrices an iteration reads, their sizes)
def solvers(c):
    sq = (lambda r: r.n, lambda r: r.n)
    col = (lambda r: sym.ONE, lambda r: r.n)
    for cls, meth, need in ((PS.CG, 'solve', {'m_x': col, 'm_r': col, 'm_p': col}), (PS.GS, 'solve', {'m_M': sq}),
                            (PS.GS, 'solveWithLimits', {'m_M': sq}),
                            (PS.GE, 'solve', {'m_a': (lambda r: padd(r.n, sym.ONE), lambda r: r.n)})):
        f = c.fn('%s::%s' % (cls, meth), need=False)
        if f is None:
            continue
        for prev in (False, 'same'):
            def one(fl):
                sel = PS.first_only if cls == PS.GE else scs.with_inner_loops
                r = PS.Run(c, cls, meth, cut=2 if cls == PS.GE else 1, select=sel, prev=prev,
                           res=cls == PS.CG)
                k = PS.top(r, 0)
                v = V(k.entry)
                i, j = var('i', True), var('j', True)
                w, h = need[fl] if fl else (lambda r: sym.ONE, lambda r: r.n)
                fx = PS.rng(i, h(r)) + PS.rng(j, w(r))
                FACTS.push(fx)
                X = r.mem(fl) if fl else r.res
                got = v.mat(X, i, j) if w(r) is not sym.ONE else v.mat(X, i, ZERO)
                mp = storage(c, cls, r.this, r.this, r.v0)
                same(c, got, mp, fx, k.entrycond, 'value %s' % (fl or 'result'))
                for p in PS.floats(k):
                    same(c, k.inits[p], mp, fx, k.entrycond, 'number')
            tag = '%s::%s%s' % (cls, meth, ' with a warm start' if prev else '')
            for fl in need:
                c.ob('%s: %s at the start is not taken from an earlier solve' % (tag, fl), lambda: one(fl), f)
            if cls == PS.GS:
                c.ob('%s: the first guess is not taken from an earlier solve' % tag, lambda: one(None), f)


def systems(c, cls, shape):
    mp = {}

    def name_storage(P):
        mp.update(storage(c, cls + '::IntermediateValues', P.S.f('m_iv'), P.S.this, V(P.S.m0)))
    P = c.ob('%s: one constraint evaluation analysed%s' % (cls, ' in the mixed configuration' if shape else ''),
             lambda: PY.Step(c, cls, shape, name_storage), None)
    if P is None:
        return
    S = P.S

    def go(name, value, facts, assume=sym.ONE):
        def th():
            FACTS.push(facts)
            same(c, value(), mp, facts, assume, name)
        c.ob('%s: %s is not taken from earlier evaluations' % (cls, name) + P.tag, th, P.fc)
    v = P.v
    for r in P.rows:
        P.at(r)
        some = sym.bor(P.reg(0), P.reg(1))
        for fl in ['J_sparse'] + ([] if P.nsv else ['J_dot_sparse']):
            for b in range(2):
                go('%s: body %d' % (fl, b), lambda: v.sblk(P.ivf(fl), P.row, const(b)), P.rf)
                for x in range(3):
                    go('%s[%d]' % (fl, 3 * b + x), lambda: v.sval(P.ivf(fl), P.row, const(b), const(x)), P.rf, P.reg(b))
        go('right hand side', lambda: v.mat(P.ivf('right'), P.row, ZERO), P.rf, some)
        if P.nsv:
            for k in range(2):
                go('limit %d' % k, lambda: v.mat(P.ivf('limits'), P.row, const(k)), P.rf)
        for b in range(2):
            for fl in PY.REAC:
                go('%s of body %d' % (fl, b), lambda: v.arr(S.state, fl, padd(sym.pscale(P.row, 2), const(b))), P.rf)
    if shape is None:
        P.tag = ''
        for x in range(3):
            go('inverse mass %d' % x, lambda: v.mat(P.ivf('M_inv'), padd(sym.pscale(P.i, 3), const(x)), ZERO), P.bf)
        for a, *_ in PY.ACC:
            go(a, lambda: v.arr(S.state, a, P.i), P.bf)


def c30(c):
    import p_effects
    p_effects.c30(c)
    c.sections(lambda: solvers(c),
               *[lambda cls=cls, sh=sh: systems(c, cls, sh) for cls in (PY.GENERIC, PY.NSV) for sh in (None, PY.MIXED)])
