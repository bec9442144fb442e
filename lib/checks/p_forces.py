"""Force laws, frame transforms and energy as closed forms."""
from fractions import Fraction

import ck as CK
import memory as M
import scs
import sym
from ck import Anchor, Broken, Undecided
from common import base_of, depends, written, x_flags
from scs import V, fld, nonneg, off, size
from sym import ONE, ZERO, Ite, add, atom, bnot, bor, band, const, div, ite, mul, neg, pa, psub, sub, var, veq

FORCE = ('f_x', 'f_y', 't')


def num(x):
    return const(Fraction(x))


def rot(th, x, y):
    co, si = sym.vcos(th), sym.vsin(th)
    return sub(mul(co, x), mul(si, y)), add(mul(si, x), mul(co, y))


class Gen:
    """a force generator applied to an arbitrary state"""

    def __init__(self, c, cls):
        scs.setup(c.m)
        self.c, self.cls = c, cls
        self.fn = c.fn('%s::apply' % cls)
        self.this = var('gen', ptr=True)
        self.st = var('st', ptr=True)
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        nonneg(fld('SystemState', 'n', self.st))
        self.n = self.v0.fi('SystemState', 'n', self.st)
        scs.set_bodycount(self.n)
        self.i = var('i', True)
        self.range = [self.i, psub(psub(self.n, self.i), ONE)]
        sym.FACTS.push(self.range)
        self.r = c.run(self.fn, [self.this, self.st], self.m0)
        self.v = V(self.r.mem)

    def par(self, f):
        return self.v0.fd(self.cls, f, self.this)

    def body(self, f):
        return self.v0.fp(self.cls, f, self.this)

    def s(self, f, i):
        return self.v0.arr(self.st, f, i)

    def got(self, f):
        return self.v.arr(self.st, f, self.i)


def body_index(b, v0):
    return v0.fi('RigidBody', 'index', b)


def at_body(G, b, f):
    """state of a body: its registered state, or its own pose at rest when it is unregistered"""
    idx = body_index(b, G.v0)
    own = G.v0.fd('RigidBody', f, b) if f in ('p_x', 'p_y', 'theta') else ZERO
    return ite(veq(idx, const(-1)), own, G.s(f, idx))


def frame_unchanged(c, G, allowed, name):
    def go():
        for kind, a, n in written(G.r.mem, G.m0):
            b, o = M.split(a) if isinstance(a, sym.Poly) else (None, None)
            if b is None:
                raise Undecided('write through ' + sym.show(a)[:100])
            if b.kind in ('alloca', 'alloc'):
                continue
            ok = False
            if b.kind == 'ld':
                bb, oo = M.split(b.args[0])
                if bb is G.st.single_atom() and oo.is_const():
                    ok = oo.const() in [off('SystemState', f) for f in allowed]
            if not ok:
                raise Broken('writes %s besides the force and torque accumulators' % sym.show(a)[:200], G.fn)
    c.ob(name, go, G.fn)


def c16(c):
    G = c.ob('Spring: analysed', lambda: Gen(c, 'Spring'), None)
    if G is not None:
        sym.FACTS.push(G.range)
        b1, b2 = G.body('m_body1'), G.body('m_body2')
        i1, i2 = body_index(b1, G.v0), body_index(b2, G.v0)
        both = band(bnot(veq(b1, ZERO)), bnot(veq(b2, ZERO)))

        def point(b, fx, fy):
            return rot(at_body(G, b, 'theta'), G.par(fx), G.par(fy))

        def spec():
            r1 = point(b1, 'm_p1_x', 'm_p1_y')
            r2 = point(b2, 'm_p2_x', 'm_p2_y')
            x1, y1 = add(at_body(G, b1, 'p_x'), r1[0]), add(at_body(G, b1, 'p_y'), r1[1])
            x2, y2 = add(at_body(G, b2, 'p_x'), r2[0]), add(at_body(G, b2, 'p_y'), r2[1])

            def vel(b, r):
                w = at_body(G, b, 'v_theta')
                return sub(at_body(G, b, 'v_x'), mul(w, r[1])), add(at_body(G, b, 'v_y'), mul(w, r[0]))
            v1, v2 = vel(b1, r1), vel(b2, r2)
            dx, dy = sub(x2, x1), sub(y2, y1)
            l = sym.vsqrt(add(mul(dx, dx), mul(dy, dy)))
            eps = const(Fraction(1E-2))
            far = bnot(sym.vlt(l, eps))
            ext = sub(l, G.par('m_restLength'))
            ux = ite(far, div(dx, l), ZERO)
            uy = ite(far, div(dy, l), ZERO)
            fx = add(mul(mul(ux, ext), G.par('m_ks')), mul(sub(v2[0], v1[0]), G.par('m_kd')))
            fy = add(mul(mul(uy, ext), G.par('m_ks')), mul(sub(v2[1], v1[1]), G.par('m_kd')))
            return r1, r2, fx, fy
        r1, r2, fx, fy = spec()
        cross = lambda r, x, y: sub(mul(r[0], y), mul(r[1], x))
        # only the cases "registered / not" are separated; each body's share is compared on its own
        parts = {'f_x': (fx, neg(fx)), 'f_y': (fy, neg(fy)), 't': (cross(r1, fx, fy), neg(cross(r2, fx, fy)))}
        for f in FORCE:
            for reg1 in (True, False):
                for reg2 in (True, False):
                    for hit in ('first', 'second', 'both', 'other'):
                        if (hit in ('first', 'both') and not reg1) or (hit in ('second', 'both') and not reg2):
                            continue
                        lit = [veq(i1, const(-1)) if not reg1 else bnot(veq(i1, const(-1))),
                               veq(i2, const(-1)) if not reg2 else bnot(veq(i2, const(-1))),
                               veq(i1, G.i) if hit in ('first', 'both') else bnot(veq(i1, G.i)),
                               veq(i2, G.i) if hit in ('second', 'both') else bnot(veq(i2, G.i)), both]
                        asm = ONE
                        for x in lit:
                            asm = band(asm, x)
                        want = G.s(f, G.i)
                        if hit in ('first', 'both'):
                            want = add(want, parts[f][0])
                        if hit in ('second', 'both'):
                            want = add(want, parts[f][1])
                        c.eq('Spring: %s of %s body, body1 %s, body2 %s' % (
                            f, hit, 'registered' if reg1 else 'ground', 'registered' if reg2 else 'ground'),
                            lambda: G.got(f), want, facts=G.range, assume=asm, where=G.fn)
            c.eq('Spring: no effect on %s without two bodies' % f, lambda: G.got(f), lambda: G.s(f, G.i),
                 assume=bnot(both), where=G.fn)
        frame_unchanged(c, G, FORCE, 'Spring: only forces and torques change')
        sym.FACTS.pop()
    ends = c.fn('Spring::getEnds')
    en = c.fn('Spring::energy')

    def own_point(v0, g, b, fx, fy):
        x, y = rot(v0.fd('RigidBody', 'theta', b), v0.fd('Spring', fx, g), v0.fd('Spring', fy, g))
        return add(v0.fd('RigidBody', 'p_x', b), x), add(v0.fd('RigidBody', 'p_y', b), y)

    def setup():
        scs.setup(c.m)
        g = var('gen', ptr=True)
        m0 = M.init('m0')
        v0 = V(m0)
        b1, b2 = v0.fp('Spring', 'm_body1', g), v0.fp('Spring', 'm_body2', g)
        both = band(bnot(veq(b1, ZERO)), bnot(veq(b2, ZERO)))
        return g, m0, v0, both, own_point(v0, g, b1, 'm_p1_x', 'm_p1_y'), own_point(v0, g, b2, 'm_p2_x', 'm_p2_y')

    def energy():
        g, m0, v0, both, p1, p2 = setup()
        r = c.run(en, [g], m0)
        dx, dy = sub(p2[0], p1[0]), sub(p2[1], p1[1])
        l = sym.vsqrt(add(mul(dx, dx), mul(dy, dy)))
        x = sub(l, v0.fd('Spring', 'm_restLength', g))
        w = mul(const(Fraction(1, 2)), mul(v0.fd('Spring', 'm_ks', g), mul(x, x)))
        c.require_equal(r.ret, ite(both, w, ZERO), what='stored energy')
    c.ob('Spring::energy is half the stiffness times the squared extension', energy, en)

    def getends():
        g, m0, v0, both, p1, p2 = setup()
        outs = [var('o%d' % k, ptr=True) for k in range(4)]
        # getEnds may be called without bodies; the outputs are then left alone
        r = c.run(ends, [g] + outs, m0)
        v = V(r.mem)
        for o, w in zip(outs, (p1[0], p1[1], p2[0], p2[1])):
            c.require_equal(v.d(o), ite(both, w, v0.d(o)), what='end point')
    c.ob('Spring::getEnds gives the two attachment points', getends, ends)


def c17(c):
    G = c.ob('ConstantSpeedMotor: analysed', lambda: Gen(c, 'ConstantSpeedMotor'), None)
    if G is None:
        return
    sym.FACTS.push(G.range)
    b0, b1 = G.body('m_body0'), G.body('m_body1')
    i0, i1 = body_index(b0, G.v0), body_index(b1, G.v0)
    w0, w1 = at_body(G, b0, 'v_theta'), at_body(G, b1, 'v_theta')
    a0 = ite(veq(i0, const(-1)), ZERO, G.s('a_theta', i0))
    a1 = ite(veq(i1, const(-1)), ZERO, G.s('a_theta', i1))
    tq = sub(mul(sub(G.par('m_speed'), sub(w1, w0)), G.par('m_ks')), mul(sub(a1, a0), G.par('m_kd')))
    lim = G.par('m_maxTorque')
    tq = sym.vmin(lim, sym.vmax(neg(lim), tq))
    pos = bnot(sym.vlt(lim, ZERO))
    for reg, drv in ((True, True), (False, True), (True, False), (False, False)):
        for hit in ('base', 'driven', 'other', 'both'):
            if hit in ('base', 'both') and not reg or hit in ('driven', 'both') and not drv:
                continue
            asm = band(pos, bnot(veq(i0, const(-1))) if reg else veq(i0, const(-1)))
            asm = band(asm, bnot(veq(i1, const(-1))) if drv else veq(i1, const(-1)))
            asm = band(asm, veq(i0, G.i) if hit in ('base', 'both') else bnot(veq(i0, G.i)))
            asm = band(asm, veq(i1, G.i) if hit in ('driven', 'both') else bnot(veq(i1, G.i)))
            want = G.s('t', G.i)
            if hit == 'base':
                want = sub(want, tq)
            if hit == 'driven':
                want = add(want, tq)
            tag = '%s body, base %s%s' % (hit, 'registered' if reg else 'ground', '' if drv else ', driven ground')
            c.eq('motor torque on the ' + tag,
                 lambda: G.got('t'), want, facts=G.range, assume=asm, where=G.fn)
            for f in ('f_x', 'f_y'):
                c.eq('motor leaves %s of the %s alone' % (f, tag),
                     lambda: G.got(f), lambda: G.s(f, G.i), facts=G.range, assume=asm, where=G.fn)

    frame_unchanged(c, G, FORCE, 'motor: only torques change')
    sym.FACTS.pop()


def c18(c):
    G = c.ob('GravityForceGenerator: analysed', lambda: Gen(c, 'GravityForceGenerator'), None)
    if G is not None:
        sym.FACTS.push(G.range)
        g = G.par('m_g')
        c.eq('gravity pulls every body down by m g', lambda: G.got('f_y'),
             lambda: sub(G.s('f_y', G.i), mul(G.s('m', G.i), g)), facts=G.range, where=G.fn)
        for f in ('f_x', 't'):
            c.eq('gravity leaves %s alone' % f, lambda: G.got(f), lambda: G.s(f, G.i), facts=G.range, where=G.fn)
        frame_unchanged(c, G, FORCE, 'gravity: only forces change')
        sym.FACTS.pop()

        def beyond():
            # accumulator entries outside [0, n) are not touched
            k = var('k', True)
            sym.FACTS.push([psub(k, G.n)])
            c.require_equal(G.v.arr(G.st, 'f_y', k), G.s('f_y', k), what='entry past the last body')
        c.ob('gravity stays within the bodies of the state', beyond, G.fn)
    S = c.ob('StaticForceGenerator: analysed', lambda: Gen(c, 'StaticForceGenerator'), None)
    if S is not None:
        sym.FACTS.push(S.range)
        b = S.body('m_body')
        idx = body_index(b, S.v0)
        reg = bnot(veq(idx, const(-1)))
        th = S.s('theta', idx)
        rx, ry = rot(th, S.par('m_p_x'), S.par('m_p_y'))
        fx, fy = S.par('m_f_x'), S.par('m_f_y')
        add_ = {'f_x': fx, 'f_y': fy, 't': sub(mul(rx, fy), mul(ry, fx))}
        for f in FORCE:
            for hit in (True, False):
                asm = band(reg, veq(idx, S.i) if hit else bnot(veq(idx, S.i)))
                c.eq('static force: %s of %s body' % (f, 'its' if hit else 'another'), lambda: S.got(f),
                     lambda: add(S.s(f, S.i), add_[f]) if hit else S.s(f, S.i), facts=S.range, assume=asm, where=S.fn)
        for f in FORCE:
            c.eq('static force on an unregistered body leaves %s alone' % f, lambda: S.got(f), lambda: S.s(f, S.i),
                 facts=S.range, assume=bnot(reg), where=S.fn)
        frame_unchanged(c, S, FORCE, 'static force: only forces and torques change')
        sym.FACTS.pop()
    f = c.fn('SystemState::applyForce')

    def apply():
        scs.setup(c.m)
        st = var('st', ptr=True)
        m0 = M.init('m0')
        v0 = V(m0)
        b = var('b', True)
        i = var('i', True)
        lx, ly, fx, fy = [var(n) for n in ('lx', 'ly', 'fx', 'fy')]
        r = c.run(f, [st, lx, ly, fx, fy, b], m0)
        v = V(r.mem)
        rx, ry = rot(v0.arr(st, 'theta', b), lx, ly)
        w = {'f_x': fx, 'f_y': fy, 't': sub(mul(rx, fy), mul(ry, fx))}
        for a in FORCE:
            c.require_equal(v.arr(st, a, b), add(v0.arr(st, a, b), w[a]), what=a)
            c.require_equal(v.arr(st, a, i), v0.arr(st, a, i), assume=bnot(veq(i, b)), what=a + ' of another body')
    c.ob('applyForce adds the force and its moment about the centre of mass', apply, f)
    for nm, fs in (('setForce', ('m_f_x', 'm_f_y')), ('setPosition', ('m_p_x', 'm_p_y'))):
        g = c.fn('StaticForceGenerator::' + nm)

        def st_():
            scs.setup(c.m)
            this = var('gen', ptr=True)
            a, b = var('a'), var('b')
            r = c.run(g, [this, a, b], M.init('m0'))
            v, v0 = V(r.mem), V(M.init('m0'))
            for x, y in zip(fs, (a, b)):
                c.require_equal(v.fd('StaticForceGenerator', x, this), y, what=nm)
            for x in ('m_f_x', 'm_f_y', 'm_p_x', 'm_p_y'):
                if x not in fs:
                    c.require_equal(v.fd('StaticForceGenerator', x, this), v0.fd('StaticForceGenerator', x, this),
                                    what=nm + ' leaves the rest')
        c.ob('static force: %s stores what it is given' % nm, st_, g)


def c19(c):
    scs.setup(c.m)
    m0 = M.init('m0')

    def rb(name, want):
        f = c.fn('RigidBody::' + name)

        def go():
            scs.setup(c.m)
            b, x, y = var('b', ptr=True), var('x'), var('y')
            ox, oy = var('ox', ptr=True), var('oy', ptr=True)
            r = c.run(f, [b, x, y, ox, oy], m0)
            v, v0 = V(r.mem), V(m0)
            th, px, py = [v0.fd('RigidBody', k, b) for k in ('theta', 'p_x', 'p_y')]
            wx, wy = want(th, px, py, x, y)
            c.require_equal(v.d(ox), wx, what='x')
            c.require_equal(v.d(oy), wy, what='y')
            only_out(c, r.mem, m0, [ox, oy], f)
        c.ob('RigidBody::%s is the rigid transform' % name, go, f)
    rb('localToWorld', lambda th, px, py, x, y: tuple(add(a, p) for a, p in zip(rot(th, x, y), (px, py))))
    rb('worldToLocal', lambda th, px, py, x, y: rot(neg(th), sub(x, px), sub(y, py)))

    def inverse(first, second):
        f, g = c.fn('RigidBody::' + first), c.fn('RigidBody::' + second)

        def go():
            scs.setup(c.m)
            b, x, y = var('b', ptr=True), var('x'), var('y')
            o = [var('o%d' % k, ptr=True) for k in range(4)]
            r = c.run(f, [b, x, y, o[0], o[1]], m0)
            v = V(r.mem)
            r2 = c.run(g, [b, v.d(o[0]), v.d(o[1]), o[2], o[3]], r.mem)
            v = V(r2.mem)
            c.require_equal(v.d(o[2]), x, what='x after the round trip')
            c.require_equal(v.d(o[3]), y, what='y after the round trip')
        c.ob('%s then %s is the identity' % (first, second), go, f)
    inverse('localToWorld', 'worldToLocal')
    inverse('worldToLocal', 'localToWorld')

    en = c.fn('RigidBody::energy')

    def energy():
        scs.setup(c.m)
        b = var('b', ptr=True)
        v0 = V(m0)
        r = c.run(en, [b], m0)
        q = {k: v0.fd('RigidBody', k, b) for k in ('m', 'I', 'v_x', 'v_y', 'v_theta')}
        w = mul(const(Fraction(1, 2)), add(mul(q['m'], add(mul(q['v_x'], q['v_x']), mul(q['v_y'], q['v_y']))),
                                           mul(q['I'], mul(q['v_theta'], q['v_theta']))))
        c.require_equal(r.ret, w, what='kinetic energy')
    c.ob('RigidBody::energy is translational plus rotational kinetic energy', energy, en)
    rs = c.fn('RigidBody::reset')

    def reset():
        scs.setup(c.m)
        b = var('b', ptr=True)
        r = c.run(rs, [b], m0)
        v, v0 = V(r.mem), V(m0)
        for k in ('p_x', 'p_y', 'v_x', 'v_y', 'theta', 'v_theta', 'm', 'I'):
            c.require_equal(v.fd('RigidBody', k, b), ZERO, what=k)
        c.require_equal(v.fi('RigidBody', 'index', b), v0.fi('RigidBody', 'index', b), what='registration')
    c.ob('RigidBody::reset returns to rest at the origin and keeps the registration', reset, rs)
    f = c.fn('SystemState::localToWorld')

    def l2w():
        scs.setup(c.m)
        st, x, y, b = var('st', ptr=True), var('x'), var('y'), var('b', True)
        ox, oy = var('ox', ptr=True), var('oy', ptr=True)
        r = c.run(f, [st, x, y, ox, oy, b], m0)
        v, v0 = V(r.mem), V(m0)
        w = rot(v0.arr(st, 'theta', b), x, y)
        c.require_equal(v.d(ox), add(v0.arr(st, 'p_x', b), w[0]), what='x')
        c.require_equal(v.d(oy), add(v0.arr(st, 'p_y', b), w[1]), what='y')
        only_out(c, r.mem, m0, [ox, oy], f)
    c.ob('SystemState::localToWorld is the rigid transform', l2w, f)
    g = c.fn('SystemState::velocityAtPoint')

    def vap():
        scs.setup(c.m)
        st, x, y, b = var('st', ptr=True), var('x'), var('y'), var('b', True)
        ox, oy = var('ox', ptr=True), var('oy', ptr=True)
        r = c.run(g, [st, x, y, ox, oy, b], m0)
        v, v0 = V(r.mem), V(m0)
        th = v0.arr(st, 'theta', b)
        w = v0.arr(st, 'v_theta', b)
        # velocity of the point = time derivative of its world position
        k = var('thk').single_atom()
        wx, wy = rot(var('thk'), x, y)
        back = {k: th}
        dx = sym.replace_atoms(sym.deriv(wx, {k: ONE}), back)
        dy = sym.replace_atoms(sym.deriv(wy, {k: ONE}), back)
        c.require_equal(v.d(ox), add(v0.arr(st, 'v_x', b), mul(w, dx)), what='v_x')
        c.require_equal(v.d(oy), add(v0.arr(st, 'v_y', b), mul(w, dy)), what='v_y')
        only_out(c, r.mem, m0, [ox, oy], g)
    c.ob('velocityAtPoint is the time derivative of localToWorld', vap, g)


def only_out(c, mem, m0, outs, fn):
    ok = [o.single_atom() for o in outs]
    for kind, a, n in written(mem, m0):
        b, o = M.split(a) if isinstance(a, sym.Poly) else (None, None)
        if b is None:
            raise Undecided('write through ' + sym.show(a)[:100])
        if b.kind not in ('alloca', 'alloc') and b not in ok:
            raise Broken('writes %s besides its outputs' % sym.show(a)[:120], fn)
