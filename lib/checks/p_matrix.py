"""Dense and block-sparse matrices: algebra and storage."""
from fractions import Fraction

import memory as M
import scs
import sym
from ck import Broken, Undecided
from common import x_flags
from scs import V, fld, nonneg, off
from sym import ONE, ZERO, add, atom, band, bnot, bor, const, div, ite, mul, neg, pa, psub, padd, pscale, sub, var, veq, vlt


# --- dense algebra ----------------------------------------------------------------------

SMALL = {}      # operand name -> (rows, columns): sizes an instance is restricted to


def instances(thunk, *sizes):
    """the same obligation on operands of given small sizes: loops are unrolled there, so a difference shows"""
    def make(d):
        def go():
            SMALL.update(d)
            try:
                thunk()
            finally:
                SMALL.clear()
        return go
    return [make(dict(d, i=i, j=j)) for d in sizes for i, j in ((0, 1), (1, 0), (0, 0))]


def idx(nm):
    return const(SMALL[nm]) if nm in SMALL else var(nm, True)


def shrink(X, nm, cls='Matrix'):
    if nm in SMALL:
        h, w = SMALL[nm]
        scs._pins[fld(cls, 'm_height', X).id] = const(h)
        scs._pins[fld(cls, 'm_width', X).id] = const(w)


def usable(facts):
    """sizes of an instance must agree with what the operation asks for"""
    for f in facts:
        k = f.const_value() if hasattr(f, 'const_value') else f.t.get((), 0) if not any(f.t) else None
        if k is not None and k < 0:
            raise Undecided('sizes do not fit')


class Dense:
    """operand A (this), operand B, result T, each with arbitrary contents"""

    def __init__(self, c):
        scs.setup(c.m)
        self.c = c
        self.A, self.B, self.T = var('A', ptr=True), var('B', ptr=True), var('T', ptr=True)
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        for x in (self.A, self.B, self.T):
            nonneg(fld('Matrix', 'm_width', x))
            nonneg(fld('Matrix', 'm_height', x))
        for nm in 'AB':
            shrink(getattr(self, nm), nm)

    def size(self, X):
        return self.v0.h(X), self.v0.w(X)

    def a(self, i, j):
        return self.v0.mat(self.A, i, j)

    def b(self, i, j):
        return self.v0.mat(self.B, i, j)


def need(*conds):
    """require the given equalities of dimensions: substitute by adding facts"""
    r = []
    for p, q in conds:
        r += [psub(p, q), psub(q, p)]
    return r


def total(n, g):
    t = sym.fresh(True)
    return sym.psum(t, g(pa(t)), n)


DENSE = (dict(A=(2, 3), B=(3, 2)), dict(A=(2, 3), B=(2, 3)), dict(A=(3, 2), B=(3, 1)), dict(A=(2, 3), B=(3, 1)),
         dict(A=(3, 1), B=(3, 1)))


def dense_op(c, name, pick, args, dims, want, pre=None, out='T', label=None):
    """args(D) -> argument list; dims(D) -> (rows, cols) of the result; want(D, i, j) -> entry"""
    f = c.fn('Matrix::' + name, pick)
    label = label or name

    def go():
        D = Dense(c)
        facts = need(*(pre(D) if pre else []))
        rows, cols = dims(D)
        i, j = idx('i'), idx('j')
        facts += [i, psub(psub(rows, ONE), i), j, psub(psub(cols, ONE), j)]
        usable(facts)
        sym.FACTS.push(facts)
        r = c.run(f, args(D), D.m0)
        v = V(r.mem)
        X = getattr(D, out)
        return D, v, X, rows, cols, i, j, facts, r
    st = {}

    def dim():
        st['x'] = D, v, X, rows, cols, i, j, facts, r = go()
        c.require_equal(v.h(X), rows, facts, what='rows of the result')
        c.require_equal(v.w(X), cols, facts, what='columns of the result')
    c.ob(label + ': dimensions of the result', dim, f)

    def ent():
        D, v, X, rows, cols, i, j, facts, r = not SMALL and st.get('x') or go()
        sym.FACTS.push(facts)
        c.require_equal(v.mat(X, i, j), want(D, i, j), facts, what='entry')
    c.ob(label + ': every entry', ent, f, instances(ent, *DENSE))

    def keep():
        D, v, X, rows, cols, i, j, facts, r = not SMALL and st.get('x') or go()
        k, l = var('k', True), var('l', True)
        if SMALL:
            k, l = idx('i'), idx('j')
        for nm in ('A', 'B'):
            Y = getattr(D, nm)
            if nm == out:
                continue
            h, w = D.size(Y)
            fx = [k, psub(psub(h, ONE), k), l, psub(psub(w, ONE), l)]
            usable(fx)
            sym.FACTS.push(fx)
            c.require_equal(v.h(Y), h, what='rows of operand ' + nm)
            c.require_equal(v.w(Y), w, what='columns of operand ' + nm)
            c.require_equal(v.mat(Y, k, l), D.v0.mat(Y, k, l), fx, what='operand ' + nm)
            sym.FACTS.pop()
    c.ob(label + ': operands unchanged', keep, f, instances(keep, *DENSE))


def c20(c):
    def hw(D):
        return D.size(D.A)

    def vec(D, n):
        return [(D.v0.w(D.B), ONE), (D.v0.h(D.B), n)]
    w, h = (lambda D: D.v0.w(D.A)), (lambda D: D.v0.h(D.A))
    bw, bh = (lambda D: D.v0.w(D.B)), (lambda D: D.v0.h(D.B))
    same = lambda D: [(w(D), bw(D)), (h(D), bh(D))]
    two = lambda D: [D.A, D.B, D.T]
    s = var('s')
    ops = [
        ('multiply', None, two, lambda D: (h(D), bw(D)),
         lambda D, i, j: total(w(D), lambda t: mul(D.a(i, t), D.b(t, j))), lambda D: [(w(D), bh(D))]),
        ('componentMultiply', None, two, hw, lambda D, i, j: mul(D.a(i, j), D.b(i, j)), same),
        ('transposeMultiply', None, two, lambda D: (w(D), bw(D)),
         lambda D, i, j: total(h(D), lambda t: mul(D.a(t, i), D.b(t, j))), lambda D: [(h(D), bh(D))]),
        ('leftScale', None, two, hw, lambda D, i, j: mul(D.b(i, ZERO), D.a(i, j)), lambda D: vec(D, h(D))),
        ('rightScale', None, two, hw, lambda D, i, j: mul(D.b(j, ZERO), D.a(i, j)), lambda D: vec(D, w(D))),
        ('scale', None, lambda D: [D.A, s, D.T], hw, lambda D, i, j: mul(s, D.a(i, j))),
        ('subtract', None, two, hw, lambda D, i, j: sub(D.a(i, j), D.b(i, j)), same),
        ('add', 'Matrix&, atg_scs::Matrix*', two, hw, lambda D, i, j: add(D.a(i, j), D.b(i, j)), same),
        ('negate', None, lambda D: [D.A, D.T], hw, lambda D, i, j: neg(D.a(i, j))),
        ('transpose', None, lambda D: [D.A, D.T], lambda D: (w(D), h(D)), lambda D, i, j: D.a(j, i)),
    ]
    for o in ops:
        dense_op(c, *o)
    dense_op(c, 'madd', None, lambda D: [D.A, D.B, s], hw,
             lambda D, i, j: add(D.a(i, j), mul(s, D.b(i, j))), same, out='A')
    dense_op(c, 'pmadd', None, lambda D: [D.A, D.B, s], hw,
             lambda D, i, j: add(mul(s, D.a(i, j)), D.b(i, j)), same, out='A')
    dense_op(c, 'set', 'Matrix*', lambda D: [D.T, D.A], hw, lambda D, i, j: D.a(i, j), label='assignment')
    src = var('src', ptr=True)
    dense_op(c, 'set', 'double const*', lambda D: [D.A, src], hw,
             lambda D, i, j: D.v0.d(add(src, mul(const(8), add(mul(i, w(D)), j)))), out='A', label='set from array')
    access(c)
    scalar(c)
    swapped(c)


class Swapped:
    """matrices of fixed dimensions whose rows lie in the storage in another order than numbered"""

    count = 0

    def __init__(self, c, dims):
        scs.setup(c.m)
        Swapped.count += 1      # names of their own: reads of initial heaps are remembered
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        self.cells = {}
        for nm, (h, w) in dims.items():
            u = '%s%d' % (nm, Swapped.count)
            X = var(u, ptr=True)
            setattr(self, nm, X)
            data, tab = var('data' + u, ptr=True), var('rows' + u, ptr=True)
            P = scs._pins
            P[fld('Matrix', 'm_matrix', X).id] = tab
            P[fld('Matrix', 'm_data', X).id] = data
            for fl, n in (('m_width', w), ('m_height', h), ('m_capacityWidth', w), ('m_capacityHeight', h)):
                P[fld('Matrix', fl, X).id] = const(n)
            for i in range(h):
                P[add(tab, const(8 * i)).id] = add(data, const(8 * w * ((i + 1) % h)))
            self.cells[nm] = (h, w)


def swapped(c):
    """the same operations once rows have been exchanged: only the row table says where an entry is"""
    s = var('s')
    S3 = {'A': (2, 3), 'B': (2, 3), 'T': (2, 3)}
    el = lambda g: (lambda D, i, j: g(D.v0.mat(D.A, i, j), D.v0.mat(D.B, i, j)))
    two = lambda D: [D.A, D.B, D.T]

    def tot(n, g):
        r = ZERO
        for t in range(n):
            r = add(r, g(const(t)))
        return r
    cases = [
        ('multiply', None, {'A': (2, 3), 'B': (3, 2), 'T': (2, 2)}, two, 'T',
         lambda D, i, j: tot(3, lambda t: mul(D.v0.mat(D.A, i, t), D.v0.mat(D.B, t, j)))),
        ('transposeMultiply', None, {'A': (2, 3), 'B': (2, 2), 'T': (3, 2)}, two, 'T',
         lambda D, i, j: tot(2, lambda t: mul(D.v0.mat(D.A, t, i), D.v0.mat(D.B, t, j)))),
        ('componentMultiply', None, S3, two, 'T', el(mul)),
        ('subtract', None, S3, two, 'T', el(sub)),
        ('add', 'Matrix&, atg_scs::Matrix*', S3, two, 'T', el(add)),
        ('scale', None, S3, lambda D: [D.A, s, D.T], 'T', el(lambda a, b: mul(s, a))),
        ('negate', None, S3, lambda D: [D.A, D.T], 'T', el(lambda a, b: neg(a))),
        ('set', 'Matrix*', S3, lambda D: [D.T, D.A], 'T', el(lambda a, b: a)),
        ('madd', None, S3, lambda D: [D.A, D.B, s], 'A', el(lambda a, b: add(a, mul(s, b)))),
        ('pmadd', None, S3, lambda D: [D.A, D.B, s], 'A', el(lambda a, b: add(b, mul(s, a)))),
        ('leftScale', None, {'A': (2, 3), 'B': (2, 1), 'T': (2, 3)}, two, 'T',
         lambda D, i, j: mul(D.v0.mat(D.B, i, ZERO), D.v0.mat(D.A, i, j))),
        ('rightScale', None, {'A': (2, 3), 'B': (3, 1), 'T': (2, 3)}, two, 'T',
         lambda D, i, j: mul(D.v0.mat(D.B, j, ZERO), D.v0.mat(D.A, i, j))),
        ('transpose', None, {'A': (2, 3), 'T': (3, 2)}, lambda D: [D.A, D.T], 'T',
         lambda D, i, j: D.v0.mat(D.A, j, i)),
        ('set', 'double const*', {'A': (2, 3)}, lambda D: [D.A, var('src', ptr=True)], 'A',
         lambda D, i, j: D.v0.d(add(var('src', ptr=True), mul(const(8), add(mul(const(3), i), j))))),
    ]
    for name, pick, dims, args, out, want in cases:
        f = c.fn('Matrix::' + name, pick)

        def go(f=f, dims=dims, args=args, out=out, want=want):
            D = Swapped(c, dims)
            r = c.run(f, args(D), D.m0)
            v = V(r.mem)
            h, w = dims[out]
            for i in range(h):
                for j in range(w):
                    c.require_equal(v.mat(getattr(D, out), const(i), const(j)), want(D, const(i), const(j)),
                                    what='entry %d,%d after rows were exchanged' % (i, j))
        c.ob('%s%s after rows were exchanged' % (name, ' from array' if pick and 'double' in pick else ''), go, f)
    for name, args, want in (
            ('vectorMagnitudeSquared', lambda D: [D.A], lambda D, t: mul(D.v0.mat(D.A, t, ZERO), D.v0.mat(D.A, t, ZERO))),
            ('dot', lambda D: [D.A, D.B], lambda D, t: mul(D.v0.mat(D.A, t, ZERO), D.v0.mat(D.B, t, ZERO)))):
        f = c.fn('Matrix::' + name)

        def vec(f=f, args=args, want=want):
            D = Swapped(c, {'A': (3, 1), 'B': (3, 1)})
            # only the first operand in another order
            for i in range(3):
                scs._pins[add(D.v0.p(fld('Matrix', 'm_matrix', D.B)), const(8 * i)).id] = \
                    add(D.v0.p(fld('Matrix', 'm_data', D.B)), const(8 * i))
            r = c.run(f, args(D), D.m0)
            c.require_equal(r.ret, tot(3, lambda t: want(D, t)), what='value after rows were exchanged')
        c.ob('%s after rows were exchanged' % name, vec, f)


def access(c):
    x = var('x')

    def one(kind):
        f = c.fn('Matrix::' + kind, 'int, int')

        def go():
            D = Dense(c)
            h, w = D.size(D.A)
            i, j, k, l = [var(n, True) for n in 'ijkl']
            facts = [i, psub(psub(h, ONE), i), j, psub(psub(w, ONE), j), k, psub(psub(h, ONE), k), l,
                     psub(psub(w, ONE), l)]
            sym.FACTS.push(facts)
            if kind == 'get':
                r = c.run(f, [D.A, j, i], D.m0)
                c.require_equal(r.ret, D.a(i, j), facts, what='value returned')
            else:
                r = c.run(f, [D.A, j, i, x], D.m0)
            v = V(r.mem)
            new = x if kind == 'set' else add(D.a(k, l), x) if kind == 'add' else D.a(k, l)
            want = ite(band(veq(i, k), veq(j, l)), new, D.a(k, l))
            c.require_equal(v.mat(D.A, k, l), want, facts, what='entry after ' + kind)
        c.ob('element access: ' + kind, go, f)
    for kind in ('get', 'set', 'add'):
        one(kind)

    f = c.fn('Matrix::fastRowSwap')

    def swap():
        D = Dense(c)
        h, w = D.size(D.A)
        a, b, k, l = [var(n, True) for n in ('a', 'b', 'k', 'l')]
        facts = []
        for x_ in (a, b, k):
            facts += [x_, psub(psub(h, ONE), x_)]
        facts += [l, psub(psub(w, ONE), l)]
        sym.FACTS.push(facts)
        r = c.run(f, [D.A, a, b], D.m0)
        v = V(r.mem)
        want = ite(veq(k, a), D.a(b, l), ite(veq(k, b), D.a(a, l), D.a(k, l)))
        c.require_equal(v.mat(D.A, k, l), want, facts, what='entry after exchanging two rows')
    c.ob('exchange of rows', swap, f)
    for nm, fl in (('getWidth', 'm_width'), ('getHeight', 'm_height')):
        g = c.fn('Matrix::' + nm)

        def dim(g=g, fl=fl):
            D = Dense(c)
            c.require_equal(c.run(g, [D.A], D.m0).ret, D.v0.fi('Matrix', fl, D.A))
        c.ob(nm, dim, g)


def scalar(c):
    f = c.fn('Matrix::vectorMagnitudeSquared')

    def sq():
        D = Dense(c)
        h, w = D.size(D.A)
        fx = need((w, ONE))
        sym.FACTS.push(fx)
        r = c.run(f, [D.A], D.m0)
        c.require_equal(r.ret, total(h, lambda t: mul(D.a(t, ZERO), D.a(t, ZERO))), fx, what='squared norm')
    c.ob('squared norm', sq, f)
    g = c.fn('Matrix::dot')

    def dot():
        D = Dense(c)
        h, w = D.size(D.A)
        fx = need((w, ONE), (D.v0.w(D.B), ONE), (D.v0.h(D.B), h))
        sym.FACTS.push(fx)
        r = c.run(g, [D.A, D.B], D.m0)
        c.require_equal(r.ret, total(h, lambda t: mul(D.a(t, ZERO), D.b(t, ZERO))), fx, what='dot product')
    c.ob('dot product', dot, g)

    e = c.fn('Matrix::equals')
    for H, W in ((0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (5, 1), (3, 3)):
        def eq(H=H, W=W):
            D = Dense(c)
            err = var('err')
            M0 = D.m0
            for X in (D.A, D.B):
                M0 = M.store(M0, fld('Matrix', 'm_width', X), 4, const(W))
                M0 = M.store(M0, fld('Matrix', 'm_height', X), 4, const(H))
            r = c.run(e, [D.A, D.B, err], M0)
            want = ONE
            for i in range(H):
                for j in range(W):
                    d = sym.vabs(sub(D.a(const(i), const(j)), D.b(const(i), const(j))))
                    want = band(want, bnot(vlt(err, d)))
            c.require_equal(r.ret, want, what='equality')
        c.ob('comparison of %d by %d matrices' % (H, W), eq, e)

    def every():
        D = Dense(c)
        err = var('err')
        r = c.run(e, [D.A, D.B, err], D.m0)
        same = band(veq(D.v0.w(D.A), D.v0.w(D.B)), veq(D.v0.h(D.A), D.v0.h(D.B)))
        t, u = sym.fresh(True), sym.fresh(True)
        far = vlt(err, sym.vabs(sub(D.a(pa(t), pa(u)), D.b(pa(t), pa(u)))))
        want = band(same, bnot(M.exists(t, M.exists(u, far, D.v0.w(D.A)), D.v0.h(D.A))))
        c.require_equal(r.ret, want, what='equality')
    c.ob('equal means no entry differs by more than the tolerance', every, e)

    def differ():
        D = Dense(c)
        err = var('err')
        r = c.run(e, [D.A, D.B, err], D.m0)
        same = band(veq(D.v0.w(D.A), D.v0.w(D.B)), veq(D.v0.h(D.A), D.v0.h(D.B)))
        c.require_equal(band(r.ret, bnot(same)), ZERO, what='equality with other dimensions')
    c.ob('matrices of different dimensions are not equal', differ, e)


# --- block-sparse algebra -----------------------------------------------------------------

class Sparse:
    """sparse operands S and R, dense operand B, dense result T, sparse result Q"""

    count = 0

    def __init__(self, c, stride=3, entries=2):
        scs.setup(c.m)
        Sparse.count += 1
        self.c, self.k, self.e = c, stride, entries
        self.cls = 'SparseMatrix<%d, %d>' % (stride, entries)
        u = str(Sparse.count)
        for nm in 'SRBTQ':
            setattr(self, nm, var(nm + u, ptr=True))
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        for x in (self.S, self.R, self.Q):
            nonneg(fld(self.cls, 'm_width', x))
            nonneg(fld(self.cls, 'm_height', x))
            scs.register_sparse(x, self.cls)
        for nm in 'SR':
            shrink(getattr(self, nm), nm, self.cls)
        shrink(self.B, 'B')
        for x in (self.B, self.T):
            nonneg(fld('Matrix', 'm_width', x))
            nonneg(fld('Matrix', 'm_height', x))
        bases = {}
        for x in (self.S, self.R):
            bases[M.split(self.v0.p(fld(self.cls, 'm_blockData', x)))[0].id] = x

        def facts(a):
            # a stored block index is -1 or a block column inside the matrix
            if a.kind == 'ld' and a.isint and a.args[1] != 'size':
                b, o = M.split(a.args[0])
                if b is not None and b.id in bases:
                    w = self.v0.sw(bases[b.id], self.cls)
                    return [padd(pa(a), ONE), psub(psub(w, const(self.k)), pscale(pa(a), self.k))]
            return []
        sym.FACTS.gen[:] = [facts]
        sym.FACTS._renew()

    def h(self, X):
        return self.v0.sh(X, self.cls)

    def w(self, X):
        return self.v0.sw(X, self.cls)

    def blk(self, X, i, e, v=None):
        return (v or self.v0).sblk(X, i, const(e), self.cls, self.e)

    def val(self, X, i, e, k, v=None):
        return (v or self.v0).sval(X, i, const(e), const(k), self.cls, self.k)

    def den(self, X, i, q, k, v=None):
        """entry in row i, column stride*q+k of the matrix denoted by X"""
        r = ZERO
        for e in range(self.e):
            r = add(r, ite(veq(self.blk(X, i, e, v), q), self.val(X, i, e, k, v), ZERO))
        return r

    def proper(self, X, i):
        """no block column is named twice in one row"""
        r = ONE
        for e in range(self.e):
            for d in range(e):
                r = band(r, bor(bnot(veq(self.blk(X, i, e), self.blk(X, i, d))), veq(self.blk(X, i, e), const(-1))))
        return r


def c21(c):
    for st, en in ((3, 2), (2, 2), (3, 1)):
        sparse_ops(c, st, en)


def sparse_ops(c, st, en):
    cls = 'SparseMatrix<%d, %d>' % (st, en)
    small = [dict(S=(2, 2 * st), R=(3, 2 * st), B=(2 * st, 2)), dict(S=(2, 2 * st), R=(1, 2 * st), B=(2, 1))]
    tag = '%d wide blocks, %d per row: ' % (st, en)

    def env():
        D = Sparse(c, st, en)
        i, j, q = idx('i'), idx('j'), idx('q')
        if SMALL:
            q = idx('j')
        H, W = D.h(D.S), D.w(D.S)
        rowf = [i, psub(psub(H, ONE), i)]
        colf = [q, psub(psub(W, const(st)), pscale(q, st))]
        return D, i, j, q, H, W, rowf, colf

    # expand, expandTransposed
    for name, tr in (('expand', False), ('expandTransposed', True)):
        f = c.fn(cls + '::' + name)
        for k in range(st):
            def go(f=f, tr=tr, k=k):
                D, i, j, q, H, W, rowf, colf = env()
                fx = rowf + colf
                usable(fx)
                sym.FACTS.push(fx)
                r = c.run(f, [D.S, D.T], D.m0)
                v = V(r.mem)
                c.require_equal(v.h(D.T), W if tr else H, fx, what='rows')
                c.require_equal(v.w(D.T), H if tr else W, fx, what='columns')
                col = add(mul(const(st), q), const(k))
                got = v.mat(D.T, col, i) if tr else v.mat(D.T, i, col)
                c.require_equal(got, D.den(D.S, i, q, k), fx, assume=D.proper(D.S, i), what='entry')
            c.ob(tag + name + ', column %d of a block' % k, go, f, instances(go, *small))

    # sparse times dense
    f = c.fn(cls + '::multiply')

    def mulv():
        D, i, j, q, H, W, rowf, colf = env()
        fx = rowf + [j, psub(psub(D.v0.w(D.B), ONE), j)] + need((D.v0.h(D.B), W))
        usable(fx)
        sym.FACTS.push(fx)
        r = c.run(f, [D.S, D.B, D.T], D.m0)
        v = V(r.mem)
        c.require_equal(v.h(D.T), H, fx, what='rows')
        c.require_equal(v.w(D.T), D.v0.w(D.B), fx, what='columns')
        want = ZERO
        for e in range(en):
            b = D.blk(D.S, i, e)
            s = ZERO
            for k in range(st):
                s = add(s, mul(D.val(D.S, i, e, k), D.v0.mat(D.B, add(mul(const(st), b), const(k)), j)))
            want = add(want, ite(veq(b, const(-1)), ZERO, s))
        c.require_equal(v.mat(D.T, i, j), want, fx, what='entry')
    c.ob(tag + 'product with a dense matrix', mulv, f, instances(mulv, *small))

    # transposed times vector
    g = c.fn(cls + '::transposeMultiplyVector')
    for k in range(st):
        def tmv(k=k):
            D, i, j, q, H, W, rowf, colf = env()
            fx = colf + need((D.v0.w(D.B), ONE), (D.v0.h(D.B), H))
            usable(fx)
            sym.FACTS.push(fx)
            r = c.run(g, [D.S, D.B, D.T], D.m0)
            v = V(r.mem)
            c.require_equal(v.h(D.T), W, fx, what='rows')
            c.require_equal(v.w(D.T), ONE, fx, what='columns')
            want = total(H, lambda t: mul(D.den(D.S, t, q, k), D.v0.mat(D.B, t, ZERO)))
            c.require_equal(v.mat(D.T, add(mul(const(st), q), const(k)), ZERO), want, fx, what='entry')
        c.ob(tag + 'transposed product with a vector, column %d of a block' % k, tmv, g, instances(tmv, *small))

    # sparse times transposed sparse
    mt = c.fn(cls + '::multiplyTranspose')

    def mtr(selfprod):
        D, i, j, q, H, W, rowf, colf = env()
        R = D.S if selfprod else D.R
        fx = rowf + [j, psub(psub(D.h(R), ONE), j)] + need((D.w(R), W))
        usable(fx)
        sym.FACTS.push(fx)
        r = c.run(mt, [D.S, R, D.T], D.m0)
        v = V(r.mem)
        c.require_equal(v.h(D.T), H, fx, what='rows')
        c.require_equal(v.w(D.T), D.h(R), fx, what='columns')
        want = ZERO
        for e in range(en):
            for d in range(en):
                s = ZERO
                for k in range(st):
                    s = add(s, mul(D.val(D.S, i, e, k), D.val(R, j, d, k)))
                b0, b1 = D.blk(D.S, i, e), D.blk(R, j, d)
                want = add(want, ite(veq(b0, const(-1)), ZERO, ite(veq(b0, b1), s, ZERO)))
        c.require_equal(v.mat(D.T, i, j), want, fx, what='entry')
    c.ob(tag + 'product with a transposed sparse matrix', lambda: mtr(False), mt, instances(lambda: mtr(False), *small))
    c.ob(tag + 'product with its own transpose', lambda: mtr(True), mt, instances(lambda: mtr(True), *small))

    # scalings
    if en == 2:
        for name, left in (('leftScale', True), ('rightScale', False)):
            f = c.fn(cls + '::' + name)
            for k in range(st):
                def sc(f=f, left=left, k=k):
                    D, i, j, q, H, W, rowf, colf = env()
                    fx = rowf + colf + need((D.v0.w(D.B), ONE), (D.v0.h(D.B), H if left else W))
                    sym.FACTS.push(fx)
                    r = c.run(f, [D.S, D.B, D.Q], D.m0)
                    v = V(r.mem)
                    c.require_equal(v.sh(D.Q, cls), H, fx, what='rows')
                    c.require_equal(v.sw(D.Q, cls), W, fx, what='columns')
                    s = D.v0.mat(D.B, i if left else add(mul(const(st), q), const(k)), ZERO)
                    got = D.den(D.Q, i, q, k, v)
                    c.require_equal(got, mul(s, D.den(D.S, i, q, k)), fx, what='denoted entry')
                c.ob(tag + name + ', column %d of a block' % k, sc, f)

            def occ(f=f, left=left):
                D, i, j, q, H, W, rowf, colf = env()
                fx = rowf + need((D.v0.w(D.B), ONE), (D.v0.h(D.B), H if left else W))
                sym.FACTS.push(fx)
                r = c.run(f, [D.S, D.B, D.Q], D.m0)
                v = V(r.mem)
                for e in range(en):
                    b = D.blk(D.Q, i, e, v)
                    c.require(bor(veq(b, const(-1)), bor(*[veq(b, D.blk(D.S, i, d)) for d in range(en)])), fx,
                              what='block index of the result')
            c.ob(tag + name + ' keeps block indices valid', occ, f)

    # element access
    x = var('x')
    for name in ('set', 'get', 'setBlock', 'setEmpty'):
        f = c.fn(cls + '::' + name)
        for e in range(en):
            def acc(f=f, name=name, e=e):
                D, i, j, q, H, W, rowf, colf = env()
                i2 = var('i2', True)
                fx = rowf + [i2, psub(psub(H, ONE), i2)]
                sym.FACTS.push(fx)
                for k in range(st if name in ('set', 'get') else 1):
                    if name == 'set':
                        r = c.run(f, [D.S, i, const(e), const(k), x], D.m0)
                    elif name == 'get':
                        r = c.run(f, [D.S, i, const(e), const(k)], D.m0)
                        c.require_equal(r.ret, D.val(D.S, i, e, k), fx, what='value returned')
                    elif name == 'setBlock':
                        nb = var('nb', True)
                        r = c.run(f, [D.S, i, const(e), nb], D.m0)
                    else:
                        r = c.run(f, [D.S, i, const(e)], D.m0)
                    v = V(r.mem)
                    for e2 in range(en):
                        wb = D.blk(D.S, i2, e2)
                        if name == 'setBlock' and e2 == e:
                            wb = ite(veq(i, i2), nb, wb)
                        if name == 'setEmpty' and e2 == e:
                            wb = ite(veq(i, i2), const(-1), wb)
                        c.require_equal(D.blk(D.S, i2, e2, v), wb, fx, what='block index after ' + name)
                        for k2 in range(st):
                            if name == 'setEmpty' and e2 == e:
                                continue
                            wv = D.val(D.S, i2, e2, k2)
                            if name == 'set' and (e2, k2) == (e, k):
                                wv = ite(veq(i, i2), x, wv)
                            c.require_equal(D.val(D.S, i2, e2, k2, v), wv, fx, what='value after ' + name)
            c.ob(tag + name + ', entry %d' % e, acc, f)


# --- storage --------------------------------------------------------------------------------

import life
from life import Obj


def sizes_fact(o, v, caps):
    """w <= capacity and so on for an owned matrix before the call"""
    r = []
    for f, cap in caps:
        r += [psub(o.i(v, cap), o.i(v, f))]
    return r


class Dim:
    """the storage laws of one class: dims/capacities and bytes behind each field"""

    def __init__(self, cls):
        self.cls = cls
        if cls == 'Matrix':
            self.caps = [('m_width', 'm_capacityWidth'), ('m_height', 'm_capacityHeight')]
            self.dims = ('m_width', 'm_height')

            def need(g):
                w, h = g('m_capacityWidth'), g('m_capacityHeight')
                return {'m_data': mul(const(8), mul(w, h)), 'm_matrix': mul(const(8), h)}

            def used(g):
                return {'m_data': mul(const(8), mul(g('m_width'), g('m_height'))), 'm_matrix': mul(const(8), g('m_height'))}
            self.row = lambda g: [mul(const(8), g('m_width')), mul(const(8), g('m_capacityWidth'))]
        else:
            st, en = [int(x) for x in cls[cls.index('<') + 1:-1].split(',')]
            self.caps = [('m_height', 'm_capacityHeight')]
            self.dims = ('m_width', 'm_height')

            def need(g):
                h = g('m_capacityHeight')
                return {'m_data': mul(const(8 * st * en), h), 'm_matrix': mul(const(8), h), 'm_blockData': mul(const(4 * en), h)}

            def used(g):
                h = g('m_height')
                return {'m_data': mul(const(8 * st * en), h), 'm_matrix': mul(const(8), h), 'm_blockData': mul(const(4 * en), h)}
            self.row = lambda g: [const(8 * st * en)]
        self.need, self.used = need, used


class Life:
    def __init__(self, c, cls, owned, others=()):
        scs.setup(c.m)
        self.c, self.cls, self.d = c, cls, Dim(cls)
        self.o = Obj(c.m, cls, owned, 'm')
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        self.facts = []
        self.objs = [self.o]
        if owned:
            self.facts += sizes_fact(self.o, self.v0, self.d.caps)
        for oc, oo in others:
            x = Obj(c.m, oc, oo, 'x')
            self.objs.append(x)
            if oo:
                self.facts += sizes_fact(x, self.v0, Dim(oc).caps)

    def run(self, f, args, mem=None):
        sym.FACTS.push(self.facts)
        r = self.c.run(f, [self.o.addr] + list(args), mem or self.m0, raw=True)
        self.m1 = r.mem
        self.v1 = V(r.mem)
        return r

    def oldsizes(self):
        r = {}
        for o in self.objs:
            if o.owned:
                nd = Dim(o.cls).need(lambda f: o.i(self.v0, f))
                for f in o.fields:
                    if f in nd:
                        r[o.old[f]] = nd[f]
        return r

    def storage(self, news, want_dims):
        """dimensions as asked, storage big enough, rows inside it"""
        c, o, v = self.c, self.o, self.v1
        g = lambda f: o.i(v, f)
        for f, w in zip(self.d.dims, want_dims):
            c.require_equal(g(f), w, self.facts, what=f)
        nd, us, old = self.d.need(g), self.d.used(g), self.oldsizes()
        try:
            for f, cap in self.d.caps:
                c.require(bnot(sym.vlt(g(cap), g(f), True)), self.facts, what='capacity for ' + f)
            for f in nd:
                have = life.blocksize(o.p(v, f), news, old)
                c.require(bnot(sym.vlt(have, nd[f], True)), self.facts, what='bytes behind %s against the capacity' % f)
        except (Undecided, Broken) as e:
            # what counts is room for the dimensions
            for f in us:
                have = life.blocksize(o.p(v, f), news, old)
                try:
                    c.require(bnot(sym.vlt(have, us[f], True)), self.facts, what='bytes behind %s' % f)
                except Undecided:
                    pass
            raise Undecided('capacities are not kept as expected: %s' % e)

    def rows(self, want_dims):
        c, o, v = self.c, self.o, self.v1
        t = var('t', True)
        h = want_dims[1]
        if h is ZERO:
            return
        fx = self.facts + [t, psub(psub(h, ONE), t)]
        sym.FACTS.push(fx)
        got = v.p(add(o.p(v, 'm_matrix'), mul(const(8), t)))
        data = o.p(v, 'm_data')
        same = ONE
        for f, w in zip(self.d.dims, want_dims):
            same = band(same, veq(o.i(self.v0, f), w))
        kept = self.v0.p(add(o.old['m_matrix'], mul(const(8), t))) if o.owned else None
        last = None
        for stride in self.d.row(lambda f: o.i(v, f)):
            for opt in ((kept,) if kept is not None else ()) + (add(data, mul(stride, t)),):
                want = ite(same, opt, add(data, mul(stride, t)))
                try:
                    c.require_equal(got, want, fx, what='address of a row')
                    return
                except (Undecided, Broken) as e:
                    last = last if isinstance(last, Broken) else e
        raise last


def life_cases(c, cls, name, pick, mkargs, dims, extra=None, label=None, others=()):
    f = c.fn('%s::%s' % (cls, name), pick)
    tag = '%s %s' % (cls.split('<')[0], label or name)
    for owned in (False, True):
        st = ', nothing owned before' if not owned else ', storage owned before'
        S = {}

        def go(owned=owned):
            L = Life(c, cls, owned, others)
            a = mkargs(L)
            L.want = dims(L)
            L.facts += list(L.want)
            L.facts = [x for x in L.facts if isinstance(x, Poly_)]
            L.run(f, a)
            S['L'] = L
            S['news'] = life.ledger(c, L.objs, L.m1, L.facts)
        c.ob(tag + st + ': every block has one owner or is freed once', go, f)
        if 'L' not in S:
            continue

        def sto():
            L = S['L']
            sym.FACTS.push(L.facts)
            L.storage(S['news'] if 'news' in S else {}, L.want)
        c.ob(tag + st + ': storage covers the dimensions', sto, f)

        def rw():
            L = S['L']
            sym.FACTS.push(L.facts)
            L.rows(L.want)
        c.ob(tag + st + ': rows lie in the storage', rw, f)
        for nm, th in (extra or ()):
            def ex(th=th):
                L = S['L']
                sym.FACTS.push(L.facts)
                th(L)
            c.ob(tag + st + ': ' + nm, ex, f)


from sym import Poly as Poly_


def filled(value, what='entry'):
    """every entry has the value; the rows of a matrix that keeps its size may be in any order, so there
    either every entry is looked up through its row or the whole block has the value"""
    def th(L):
        val = value(L)
        i, j, e = var('i', True), var('j', True), var('e', True)
        w, h = L.want
        fx = L.facts + [i, psub(psub(h, ONE), i), j, psub(psub(w, ONE), j)]
        sym.FACTS.push(fx)
        got = L.v1.mat(L.o.addr, i, j)
        if not L.o.owned:
            L.c.require_equal(got, val, fx, what=what)
            return
        same = band(veq(L.o.i(L.v0, 'm_width'), w), veq(L.o.i(L.v0, 'm_height'), h))
        L.c.require_equal(got, val, fx, bnot(same), what=what)
        try:
            L.c.require_equal(got, val, fx, same, what=what)
        except (Undecided, Broken) as x:
            fb = L.facts + [w, h, e, psub(psub(mul(w, h), ONE), e)]
            sym.FACTS.push(fb)
            blk = L.v1.d(add(L.o.p(L.v1, 'm_data'), mul(const(8), e)))
            try:
                L.c.require_equal(blk, val, fb, same, what='entry of the block')
            except (Undecided, Broken) as y:
                raise (x if isinstance(x, Broken) and isinstance(y, Broken) else Undecided(str(y)))
    return th


def c22(c):
    w, h, x = var('w', True), var('h', True), var('x')
    wh = lambda L: [w, h]
    life_cases(c, 'Matrix', 'resize', None, wh, wh)
    life_cases(c, 'Matrix', 'initialize', 'int, int, double', lambda L: [w, h, x], wh,
               [('every entry has the value', filled(lambda L: x))], 'initialize with a value')
    life_cases(c, 'Matrix', 'initialize', '(int, int)', wh, wh,
               [('every entry is zero', filled(lambda L: ZERO))], 'initialize')
    for so in (False, True):
        life_cases(c, 'Matrix', 'set', 'Matrix*', lambda L: [L.objs[1].addr],
                   lambda L: [L.objs[1].i(L.v0, 'm_width'), L.objs[1].i(L.v0, 'm_height')], None,
                   'assignment from a matrix %s storage' % ('with' if so else 'without'), [('Matrix', so)])
    for cls in ('SparseMatrix<3, 2>', 'SparseMatrix<2, 2>', 'SparseMatrix<3, 1>'):
        life_cases(c, cls, 'resize', None, wh, wh, None, '%s resize' % cls[12:])
        life_cases(c, cls, 'initialize', None, wh, wh, [('all blocks empty, all values zero', lambda L: szero(L))],
                   '%s initialize' % cls[12:])
    for cls in ('Matrix', 'SparseMatrix<3, 2>'):
        ends(c, cls)
    for nm, pick, val in (('initialize', '(int, int)', ZERO), ('initialize', 'int, int, double', x)):
        for H, W in ((2, 3), (2, 2), (1, 3), (2, 1)):
            f = c.fn('Matrix::' + nm, pick)

            def again(f=f, H=H, W=W, val=val):
                D = Swapped(c, {'A': (2, 3)})
                r = c.run(f, [D.A, const(W), const(H)] + ([val] if val is x else []), D.m0, raw=True)
                v = V(r.mem)
                for i in range(H):
                    for j in range(W):
                        c.require_equal(v.mat(D.A, const(i), const(j)), val, what='entry %d,%d' % (i, j))
            c.ob('Matrix initialize(%s) to %d by %d after rows of a 2 by 3 matrix were exchanged' % (pick, H, W), again, f)


def szero(L):
    cls = L.cls
    st, en = [int(x) for x in cls[cls.index('<') + 1:-1].split(',')]
    i = var('i', True)
    w, h = L.want
    fx = L.facts + [i, psub(psub(h, ONE), i)]
    sym.FACTS.push(fx)
    if L.o.owned:
        scs.register_sparse(L.o.addr, cls)
    for e in range(en):
        L.c.require_equal(L.v1.sblk(L.o.addr, i, const(e), cls, en), const(-1), fx, what='block index')
        for k in range(st):
            L.c.require_equal(L.v1.sval(L.o.addr, i, const(e), const(k), cls, st), ZERO, fx, what='value')


def ends(c, cls):
    """construction, destruction"""
    short = cls.split('<')[0]

    def null_state(L, v):
        for f in L.o.fields:
            c.require_equal(L.o.p(v, f), ZERO, what=f)
        for f in L.o.ints:
            c.require_equal(L.o.i(v, f), ZERO, what=f)
    f = c.fn('%s::destroy' % cls)
    for owned in (False, True):
        def de(owned=owned):
            L = Life(c, cls, owned)
            L.run(f, [])
            life.ledger(c, L.objs, L.m1, L.facts)
            null_state(L, L.v1)
        c.ob('%s destroy, %s: storage returned, object empty' % (short, 'owning' if owned else 'empty'), de, f)
    k = c.fn('%s::%s' % (cls, short), '()')

    def ctor():
        scs.setup(c.m)
        L = Life(c, cls, False)
        scs._pins.clear()
        L.run(k, [])
        if life.events(L.m1):
            raise Broken('construction allocates')
        null_state(L, L.v1)
    c.ob('%s: a new object is empty' % short, ctor, k)
    d = c.fn('%s::~%s' % (cls, short), need=False)
    if d is not None:
        def dtor():
            L = Life(c, cls, False)
            L.run(d, [])
            life.ledger(c, L.objs, L.m1, L.facts)
        c.ob('%s: destruction of an empty object frees nothing' % short, dtor, d)
    if cls == 'Matrix':
        k3 = c.fn('Matrix::Matrix', 'int, int, double')
        w, h, x = var('w', True), var('h', True), var('x')

        def ct3():
            L = Life(c, cls, False)
            scs._pins.clear()
            L.want = [w, h]
            L.facts = [w, h]
            L.run(k3, [w, h, x])
            news = life.ledger(c, L.objs, L.m1, L.facts)
            L.storage(news, L.want)
            L.rows(L.want)
            filled(lambda L: x)(L)
        c.ob('Matrix: construction with dimensions and a value', ct3, k3)
