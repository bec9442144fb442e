"""Constraint equations: closed forms of every calculate() compared with calculus."""
from fractions import Fraction

import ck as CK
import memory as M
import scs
import sym
from ck import Anchor, Broken, Undecided
from common import base_of, depends, written, x_flags
from scs import V, fld, off, size
from sym import ONE, ZERO, Ite, add, atom, bnot, const, ite, mul, neg, pa, sub, var, veq

DBL_MAX = Fraction(float.fromhex('0x1.fffffffffffffp+1023'))
COORD = (('p_x', 'v_x'), ('p_y', 'v_y'), ('theta', 'v_theta'))
GEOMETRIC = ['FixedPositionConstraint', 'FixedRotationConstraint', 'LineConstraint', 'LinkConstraint',
             'RollingConstraint']
VELOCITY = ['ClutchConstraint', 'SimpleGearConstraint', 'RotationFrictionConstraint', 'ConstantRotationConstraint']


def classes(c):
    r = []
    for n in c.m.derived('atg_scs::Constraint'):
        s = n.split('::')[-1]
        if s != 'Constraint':
            r.append(s)
    for s in GEOMETRIC + VELOCITY:
        if s not in r:
            raise Anchor('class ' + s)
    return sorted(r)


class Con:
    """one constraint class with an arbitrary object, bodies and state"""

    def __init__(self, c, cls):
        self.c, self.cls = c, cls
        scs.setup(c.m)
        self.fn = c.fn('%s::calculate' % cls)
        self.this = var('con', ptr=True)
        self.out = var('out', ptr=True)
        self.st = var('st', ptr=True)
        ctor = c.fn('%s::%s' % (cls, cls))
        r = c.run(ctor, [self.this], M.init('m0'))
        v = V(r.mem)
        self.rows = v.fi('Constraint', 'm_constraintCount', self.this)
        self.nb = v.fi('Constraint', 'm_bodyCount', self.this)
        for x, hi in ((self.rows, 3), (self.nb, 2)):
            if not (isinstance(x, sym.Poly) and x.is_const()):
                raise Undecided('row/body count of %s is not a constant' % cls)
        self.rows, self.nb = int(self.rows.const()), int(self.nb.const())
        if not (1 <= self.rows <= 3 and 1 <= self.nb <= 2):
            raise Broken('%s declares %d rows and %d bodies' % (cls, self.rows, self.nb), ctor)
        m0 = M.init('m0')
        m0 = M.store(m0, fld('Constraint', 'm_constraintCount', self.this), 4, const(self.rows))
        m0 = M.store(m0, fld('Constraint', 'm_bodyCount', self.this), 4, const(self.nb))
        self.m0 = m0
        self.v0 = V(m0)
        self.r = c.run(self.fn, [self.this, self.out, self.st], m0)
        self.v = V(self.r.mem)

    def par(self, f):
        return self.v0.fd(self.cls, f, self.this)

    def o(self, f, k, j=None):
        lay = {'C': 8, 'v_bias': 8, 'ks': 8, 'kd': 8, 'J': 48, 'J_dot': 48, 'limits': 16}[f]
        return self.v.d(add(self.out, const(off('Constraint::Output', f) + lay * k + (8 * j if j is not None else 0))))

    def idx(self, b):
        p = self.v0.p(add(fld('Constraint', 'm_bodies', self.this), const(8 * b)))
        return self.v0.fi('RigidBody', 'index', p)

    def q(self, b, c):
        return self.v0.arr(self.st, COORD[c][0], self.idx(b))

    def qd(self, b, c):
        return self.v0.arr(self.st, COORD[c][1], self.idx(b))

    def rate(self):
        mp = {}
        for b in range(self.nb):
            for k in range(3):
                mp[self.q(b, k).single_atom()] = self.qd(b, k)
        return mp

    def distinct(self):
        """the bodies of one constraint are different bodies"""
        if self.nb < 2:
            return ONE
        return bnot(veq(self.idx(0), self.idx(1)))


def vderiv(v, mp):
    return sym.distrib(v, lambda p: sym.deriv(p, mp))


def up_to_sign(c, name, K, pairs, where):
    """all pairs agree, or all agree with the opposite sign (a row of the constraint may be negated as a whole)"""
    def go():
        res = []
        for s in (1, -1):
            bad = None
            for what, g, w in pairs:
                w2 = w if s == 1 else neg(w)
                vd = sym.equal(g, w2, assume=K.distinct())
                if not vd.ok:
                    bad = (what, vd, g, w2)
                    break
            if bad is None:
                return s
            res.append(bad)
        what, vd, g, w = res[0]
        if not res[1][1].bads:
            raise Undecided('difference depends on unmodelled values: ' + res[1][1].why[:300])
        c.judge(vd, g, w, what)
    return c.ob(name, go, where)


def c12(c):
    """J = dC/dq and the error itself is the stated geometric quantity"""
    cl = classes(c)
    for cls in cl:
        K = c.ob('%s: analysed' % cls, lambda: Con(c, cls), None)
        if K is None:
            continue
        for r in range(K.rows):
            if cls in VELOCITY:
                continue
            for b in range(K.nb):
                for x in range(3):
                    c.eq('%s: J[%d][%d] is the derivative of C[%d]' % (cls, r, 3 * b + x, r),
                         lambda: K.o('J', r, 3 * b + x),
                         lambda: vderiv(K.o('C', r), {K.q(b, x).single_atom(): ONE}),
                         assume=K.distinct(), where=K.fn)
        spec = GEOM.get(cls)
        if spec:
            for r, w in spec(K):
                up_to_sign(c, '%s: C[%d] is the stated error' % (cls, r), K, [('C', K.o('C', r), w)], K.fn)
    setters(c, SET_GEOM)


def rot(th, x, y):
    co, si = sym.vcos(th), sym.vsin(th)
    return sub(mul(co, x), mul(si, y)), add(mul(si, x), mul(co, y))


def world(K, b, fx, fy):
    x, y = rot(K.q(b, 2), K.par(fx), K.par(fy))
    return add(K.q(b, 0), x), add(K.q(b, 1), y)


def g_fixedpos(K):
    x, y = world(K, 0, 'm_local_x', 'm_local_y')
    return [(0, sub(x, K.par('m_world_x'))), (1, sub(y, K.par('m_world_y')))]


def g_fixedrot(K):
    return [(0, sub(K.q(0, 2), K.par('m_rotation')))]


def g_line(K):
    x, y = world(K, 0, 'm_local_x', 'm_local_y')
    return [(0, sub(mul(sub(y, K.par('m_p0_y')), K.par('m_dx')), mul(sub(x, K.par('m_p0_x')), K.par('m_dy'))))]


def g_link(K):
    x1, y1 = world(K, 0, 'm_local_x_1', 'm_local_y_1')
    x2, y2 = world(K, 1, 'm_local_x_2', 'm_local_y_2')
    return [(0, sub(x1, x2)), (1, sub(y1, y2))]


def g_roll(K):
    ox, oy = world(K, 0, 'm_local_x', 'm_local_y')
    dx, dy = rot(K.q(0, 2), K.par('m_dx'), K.par('m_dy'))
    ex, ey = sub(K.q(1, 0), ox), sub(K.q(1, 1), oy)
    # signed distance of the rolling centre from the surface line, minus the radius; travel along the line
    return [(1, sub(K.par('m_radius'), sub(mul(dx, ey), mul(dy, ex)))),
            (0, neg(add(K.q(1, 2), mul(add(mul(ex, dx), mul(ey, dy)), K.par('m_radius')))))]


GEOM = {'FixedPositionConstraint': g_fixedpos, 'FixedRotationConstraint': g_fixedrot, 'LineConstraint': g_line,
        'LinkConstraint': g_link, 'RollingConstraint': g_roll}


def c13(c):
    for cls in classes(c):
        K = c.ob('%s: analysed' % cls, lambda: Con(c, cls), None)
        if K is None:
            continue
        rate = K.rate()
        for r in range(K.rows):
            for j in range(3 * K.nb):
                c.eq('%s: J_dot[%d][%d] is the time derivative of J[%d][%d]' % (cls, r, j, r, j),
                     lambda: K.o('J_dot', r, j), lambda: vderiv(K.o('J', r, j), rate),
                     assume=K.distinct(), where=K.fn)


def c14(c):
    SZ = size('Constraint::Output')
    for cls in classes(c):
        K = c.ob('%s: analysed' % cls, lambda: Con(c, cls), None)
        if K is None:
            continue

        def slots():
            for r in range(K.rows):
                for f in ('C', 'v_bias', 'ks', 'kd'):
                    yield f, r, None
                for j in range(3 * K.nb):
                    yield 'J', r, j
                    yield 'J_dot', r, j
                for j in range(2):
                    yield 'limits', r, j
        for f, r, j in slots():
            def go():
                x = K.o(f, r, j)
                bad = depends(x, lambda a: a.kind == 'ld' and base_of(a)[0] is K.out.single_atom()
                              or a.kind == 'fn' and str(a.args[0]).startswith('undef') or
                              a.kind == 'hv' and str(a.args[0]).startswith('undef'))
                if bad:
                    # a read that cannot matter is simplified away, so the old content is used
                    d = sym.replace_atoms(x, {bad[0]: add(pa(bad[0]), ONE)})
                    v = sym.equal(x, d)
                    if not v.ok:
                        raise Broken('the result slot keeps (part of) its old content: ' + sym.show(x)[:300])
                if x_flags(x):
                    raise Undecided('unmodelled value ' + sym.show(x)[:200])
            c.ob('%s: %s[%d]%s is defined' % (cls, f, r, '' if j is None else '[%d]' % j), go, K.fn)

        def writes():
            for kind, a, n in written(K.r.mem, K.m0):
                b, o = M.split(a) if isinstance(a, sym.Poly) else (None, None)
                if b is None:
                    raise Undecided('write through ' + sym.show(a)[:120])
                if b.kind in ('alloca', 'alloc'):
                    continue
                if b is not K.out.single_atom():
                    raise Broken('calculate writes outside its output: ' + sym.show(a)[:200])
                if not o.is_const() or n is None:
                    raise Undecided('write at ' + sym.show(a)[:120])
                if not (0 <= o.const() and o.const() + n <= SZ):
                    raise Broken('calculate writes outside the output record: offset %s' % o.const())
        c.ob('%s: writes stay inside the output record' % cls, writes, K.fn)
        for r in range(K.rows):
            def gains():
                ks, kd = K.o('ks', r), K.o('kd', r)
                zero = cls == 'RollingConstraint' and r == 0
                c.require_equal(ks, ZERO if zero else K.par('m_ks'), what='stiffness')
                c.require_equal(kd, ZERO if zero else K.par('m_kd'), what='damping')
            c.ob('%s: row %d carries the configured stiffness and damping' % (cls, r), gains, K.fn)
    c.ob('Constraint: base calculate leaves the output alone', lambda: base_calc(c), None)
    for cls in classes(c):
        c.ob('%s: constructor leaves a usable constraint' % cls, lambda: ctor_defaults(c, cls), None)


def ctor_defaults(c, cls):
    scs.setup(c.m)
    this = var('con', ptr=True)
    f = c.fn('%s::%s' % (cls, cls))
    r = c.run(f, [this], M.init('m0'))
    v = V(r.mem)
    for b in range(2):
        x = v.p(add(fld('Constraint', 'm_bodies', this), const(8 * b)))
        c.require_equal(x, ZERO, what='body slot %d after construction' % b)
    for arr in ('F_x', 'F_y', 'F_t'):
        for k in range(6):
            c.require_equal(v.d(add(fld('Constraint', arr, this), const(8 * k))), ZERO, what='initial reaction')


def base_calc(c):
    scs.setup(c.m)
    f = c.fn('Constraint::calculate')
    r = c.run(f, [var('con', ptr=True), var('out', ptr=True), var('st', ptr=True)], M.init('m0'))
    for kind, a, n in written(r.mem):
        b, o = M.split(a)
        if b is None or b.kind not in ('alloca', 'alloc'):
            raise Broken('writes ' + sym.show(a)[:100], f)


def c15(c):
    inf = DBL_MAX

    def spec(K):
        n = K.cls
        unl = (const(-inf), const(inf))
        if n == 'ConstantRotationConstraint':
            return {0: ([0, 0, 1], K.par('m_rotationSpeed'), (K.par('m_minTorque'), K.par('m_maxTorque')))}
        if n == 'RotationFrictionConstraint':
            return {0: ([0, 0, 1], ZERO, (K.par('m_minTorque'), K.par('m_maxTorque')))}
        if n == 'ClutchConstraint':
            return {0: ([0, 0, -1, 0, 0, 1], ZERO, (K.par('m_minTorque'), K.par('m_maxTorque')))}
        if n == 'SimpleGearConstraint':
            nt = K.v0
            neutral = M.read(nt.m, fld(n, 'm_neutral', K.this), 1, 'i')
            on = bnot(veq(neutral, ZERO))
            return {0: ([0, 0, 1, 0, 0, neg(K.par('m_ratio'))], ZERO,
                        (ite(on, ZERO, unl[0]), ite(on, ZERO, unl[1])))}
        if n == 'LinkConstraint':
            return {r: (None, ZERO, (neg(K.par('m_maxForce')), K.par('m_maxForce'))) for r in range(2)}
        return {r: (None, ZERO, unl) for r in range(K.rows)}
    for cls in classes(c):
        if cls not in GEOMETRIC + VELOCITY:
            continue
        K = c.ob('%s: analysed' % cls, lambda: Con(c, cls), None)
        if K is None:
            continue
        sp = spec(K)
        for r in range(K.rows):
            if r not in sp:
                continue
            J, vb, lim = sp[r]

            def go():
                last = None
                for s in (1, -1):
                    sg = (lambda x: x) if s == 1 else neg
                    pairs = [('v_bias', K.o('v_bias', r), sg(vb))]
                    if J is not None:
                        for j, w in enumerate(J):
                            w = const(w) if isinstance(w, int) else w
                            pairs.append(('J[%d]' % j, K.o('J', r, j), sg(w)))
                        pairs.append(('C', K.o('C', r), ZERO))
                    lo, hi = (lim[0], lim[1]) if s == 1 else (neg(lim[1]), neg(lim[0]))
                    pairs += [('lower limit', K.o('limits', r, 0), lo), ('upper limit', K.o('limits', r, 1), hi)]
                    bad = None
                    for what, g, w in pairs:
                        if 'limit' in what and unlimited(g, w):
                            continue
                        v = sym.equal(g, w)
                        if not v.ok:
                            bad = (v, g, w, what)
                            break
                    if bad is None:
                        return
                    last = last or bad
                c.judge(*last)
            c.ob('%s: row %d velocity equation and force limits' % (cls, r), go, K.fn)
    setters(c, SET_VEL)


def unlimited(g, w):
    """both bounds are beyond every finite force"""
    def big(x, s):
        if isinstance(x, sym.Poly):
            a = x.single_atom()
            if a is not None and a.kind == 'fn' and 'fp' in str(a.args[0]):
                return ('-' in str(a.args[0])) == (s < 0)
            return x.is_const() and abs(x.const()) >= DBL_MAX and (x.const() < 0) == (s < 0)
        return False
    return (big(w, 1) and big(g, 1)) or (big(w, -1) and big(g, -1))


SET_GEOM = [
    ('FixedPositionConstraint', 'setBody', 'p', ['m_bodies:0']),
    ('FixedPositionConstraint', 'setWorldPosition', 'dd', ['m_world_x', 'm_world_y']),
    ('FixedPositionConstraint', 'setLocalPosition', 'dd', ['m_local_x', 'm_local_y']),
    ('FixedRotationConstraint', 'setBody', 'p', ['m_bodies:0']),
    ('LineConstraint', 'setBody', 'p', ['m_bodies:0']),
    ('LinkConstraint', 'setBody1', 'p', ['m_bodies:0']),
    ('LinkConstraint', 'setBody2', 'p', ['m_bodies:1']),
    ('LinkConstraint', 'setLocalPosition1', 'dd', ['m_local_x_1', 'm_local_y_1']),
    ('LinkConstraint', 'setLocalPosition2', 'dd', ['m_local_x_2', 'm_local_y_2']),
    ('RollingConstraint', 'setBaseBody', 'p', ['m_bodies:0']),
    ('RollingConstraint', 'setRollingBody', 'p', ['m_bodies:1']),
]
SET_VEL = [
    ('ClutchConstraint', 'setBody1', 'p', ['m_bodies:0']),
    ('ClutchConstraint', 'setBody2', 'p', ['m_bodies:1']),
    ('SimpleGearConstraint', 'setBody1', 'p', ['m_bodies:0']),
    ('SimpleGearConstraint', 'setBody2', 'p', ['m_bodies:1']),
    ('RotationFrictionConstraint', 'setBody', 'p', ['m_bodies:0']),
    ('ConstantRotationConstraint', 'setBody', 'p', ['m_bodies:0']),
]


def setters(c, table):
    for cls, meth, sig, fields in table:
        f = c.fn('%s::%s' % (cls, meth), need=False)
        if f is None:
            continue

        def go():
            scs.setup(c.m)
            this = var('con', ptr=True)
            args = [var('a%d' % i, ptr=t == 'p') for i, t in enumerate(sig)]
            r = c.run(f, [this] + args, M.init('m0'))
            v = V(r.mem)
            for a, fl in zip(args, fields):
                n, _, k = fl.partition(':')
                at = add(fld(cls, n, this), const(8 * int(k or 0)))
                c.require_equal(v.p(at) if sig[0] == 'p' else v.d(at), a, what=meth)
            n = [w for w in written(r.mem) if M.split(w[1])[0] is this.single_atom()]
            if len(n) != len(args):
                offs = sorted(set(int(M.split(w[1])[1].const()) for w in n))
                if len(offs) != len(args):
                    raise Broken('%s::%s changes other configuration' % (cls, meth))
        c.ob('%s::%s stores what it is given' % (cls, meth), go, f)
