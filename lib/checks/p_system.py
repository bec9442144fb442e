"""The rigid body systems: gathering, constraint assembly, solver input, accelerations, reactions."""
import ck as CK
import memory as M
import scs
import sym
from ck import Anchor, Broken, Undecided
from common import base_of, depends, written, x_flags
from scs import V, Sys, fld, off, size
from sym import (ONE, ZERO, FACTS, Ite, add, atom, band, bnot, bor, const, div, ite, mul, neg, pa, padd, pscale, psub,
                 sub, var, veq)

GENERIC = 'GenericRigidBodySystem'
NSV = 'OptimizedNsvRigidBodySystem'
ACC = (('a_x', 'f_x', 0, 'm', 'v_x'), ('a_y', 'f_y', 1, 'm', 'v_y'), ('a_theta', 't', 2, 'I', 'v_theta'))
REAC = ('r_x', 'r_y', 'r_t')


def calc(S, j, f, k, o=0):
    """entry of the record a constraint produced in this evaluation"""
    w = {'C': 8, 'v_bias': 8, 'ks': 8, 'kd': 8, 'J': 48, 'J_dot': 48, 'limits': 16}[f]
    at = add(const(off('Constraint::Output', f)), add(mul(const(w), k), mul(const(8), o) if not isinstance(o, int)
                                                     else const(8 * o)))
    return pa(atom('hv', 'calc', 'd', S.con(j), at))


def lam(row):
    return pa(atom('hv', 'lambda', 'd', pscale(row, 8), ZERO))


class Step:
    """mass matrices followed by one constraint evaluation, over an arbitrary system"""

    def __init__(self, c, cls, shape=None, prepare=None):
        self.c, self.cls = c, cls
        S = self.S = Sys(c.m, cls, shape)
        if prepare is not None:
            prepare(self)
        self.nsv = cls == NSV
        self.fp = c.fn('RigidBodySystem::populateMassMatrices', need=False)
        self.fc = c.fn(cls + '::processConstraints', need=False)
        if self.fc is None or self.fp is None:
            raise Undecided('the constraint evaluation is not a function of its own')
        self.iv = S.f('m_iv')
        self.dt = var('dt')
        self.v0 = V(S.m0)
        r = c.run(self.fp, [S.this, self.ivf('M'), self.ivf('M_inv')], S.m0)
        self.m1 = r.mem
        et, st = var('et', ptr=True), var('st_', ptr=True)
        args = [S.this] + ([self.dt] if self.nsv else []) + [et, st]
        r = c.run(self.fc, args, self.m1)
        self.mem = r.mem
        self.v = V(r.mem)
        self.rows = []
        if shape is None:
            self.J, self.K = var('J', True), var('K', True)
            self.rf = S.rowfacts(self.J, self.K)
            self.row = padd(S.PS(self.J), self.K)
            self.tag = ''
            self.rows.append((self.J, self.K, self.row, self.rf, ''))
        else:
            r = 0
            for j, (n, _) in enumerate(shape[1]):
                for k in range(n):
                    self.rows.append((const(j), const(k), const(r), [], ' in row %d of the mixed configuration' % r))
                    r += 1
            self.at(self.rows[0])
        self.i = var('i', True)
        self.bf = [self.i, psub(psub(S.n, self.i), ONE)]

    def at(self, r):
        self.J, self.K, self.row, self.rf, self.tag = r
        return self.tag

    def ivf(self, f):
        return add(self.iv, const(off('%s::IntermediateValues' % self.cls, f)))

    def reg(self, b, j=None):
        """body slot b of the constraint is a registered body"""
        j = self.J if j is None else j
        return band(sym.vlt(const(b), self.S.bc(j), True), bnot(veq(self.S.bodyidx(j, const(b)), const(-1))))

    def st0(self, f, i):
        return self.v0.arr(self.S.state, f, i)

    def Jrow(self, what, vec):
        """sum over the registered bodies of the row: J . vec(body index, coordinate)"""
        r = ZERO
        for b in range(2):
            idx = self.S.bodyidx(self.J, const(b))
            t = ZERO
            for x in range(3):
                t = add(t, mul(calc(self.S, self.J, what, self.K, 3 * b + x), vec(idx, x)))
            r = add(r, ite(self.reg(b), t, ZERO))
        return r

    def mass(self, idx, x):
        return self.v0.fd('RigidBody', 'I' if x == 2 else 'm', self.v0.vec(self.S.bodies, idx))


def stepper(c, cls, shape=None):
    return c.ob('%s: one constraint evaluation analysed%s' % (cls, ' in the mixed configuration' if shape else ''),
                lambda: Step(c, cls, shape), None)


# two bodies and three constraints: two rows on (1, 0), one row on body 1, one row on (ground, 1)
MIXED = (2, [(2, (1, 0)), (1, (1,)), (1, (-1, 1))])
# two bodies and four constraints: two rows on (0, ground), one on (ground), one on (ground, 1), one on (ground, ground)
GROUNDED = (2, [(2, (0, -1)), (1, (-1,)), (1, (-1, 1)), (1, (-1, -1))])


def c04_mixed(c, cls):
    P = stepper(c, cls, MIXED)
    if P is not None:
        acc_mixed(c, cls, P, MIXED)


def acc_mixed(c, cls, P, shape):
    S = P.S
    rows = [(j, k) for j, (n, _) in enumerate(shape[1]) for k in range(n)]
    for i in range(shape[0]):
        for a, f, x, mf, _ in ACC:
            def go():
                s = ZERO
                for row, (j, k) in enumerate(rows):
                    for b, body in enumerate(shape[1][j][1]):
                        if body == i:
                            s = add(s, mul(lam(const(row)), calc(S, const(j), 'J', const(k), 3 * b + x)))
                if P.nsv:
                    s = mul(s, div(ONE, P.dt))
                want = mul(add(P.st0(f, const(i)), s), div(ONE, P.mass(const(i), x)))
                c.require_equal(P.v.arr(S.state, a, const(i)), want)
            c.ob('%s: %s of body %d in the mixed configuration' % (cls, a, i), go, P.fc)


def c04(c):
    scs.setup(c.m)
    fp = c.fn('RigidBodySystem::populateMassMatrices', need=False)

    def masses():
        S = Sys(c.m, 'RigidBodySystem')
        if fp is None:
            raise Undecided('mass matrices are not filled by a function of their own')
        A, B = var('M', ptr=True), var('Minv', ptr=True)
        r = c.run(fp, [S.this, A, B], S.m0)
        v, v0 = V(r.mem), V(S.m0)
        i = var('i', True)
        fs = [i, psub(psub(S.n, i), ONE)]
        FACTS.push(fs)
        b = v0.vec(S.bodies, i)
        for x, f in enumerate(('m', 'm', 'I')):
            q = v0.fd('RigidBody', f, b)
            row = padd(pscale(i, 3), const(x))
            c.require_equal(v.mat(A, row, ZERO), q, fs, what='mass entry %d' % x)
            c.require_equal(v.mat(B, row, ZERO), div(ONE, q), fs, what='inverse mass entry %d' % x)
        for m in (A, B):
            c.require_equal(v.w(m), ONE, what='width')
            c.require_equal(v.h(m), pscale(S.n, 3), what='height')
    c.ob('mass matrices hold mass, mass, inertia of every body and their inverses', masses, fp)
    c.sections(*[lambda cls=cls, g=g: g(c, cls) for cls in (GENERIC, NSV) for g in (c04_acc, c04_mixed)])


def c04_acc(c, cls):
        P = stepper(c, cls)
        if P is None:
            return
        S = P.S
        for a, f, x, mf, _ in ACC:
            def go():
                FACTS.push(P.bf)
                j, k = sym.fresh(), sym.fresh()
                jp, kp = pa(j), pa(k)
                row = padd(S.PS(jp), kp)
                g = ZERO
                for b in range(2):
                    g = add(g, ite(band(sym.vlt(const(b), S.bc(jp), True), veq(S.bodyidx(jp, const(b)), P.i)),
                                   mul(lam(row), calc(S, jp, 'J', kp, 3 * b + x)), ZERO))
                s = sym.psum(j, sym.psum(k, g, S.nf(jp)), S.m)
                if P.nsv:
                    s = mul(s, div(ONE, P.dt))
                want = mul(add(P.st0(f, P.i), s), div(ONE, P.mass(P.i, x)))
                c.require_equal(P.v.arr(S.state, a, P.i), want, P.bf)
            c.ob('%s: %s is (applied + constraint force) / %s of the body' % (cls, a, 'inertia' if x == 2 else 'mass'),
                 go, P.fc)


def c05(c):
    c.sections(*[lambda cls=cls, sh=sh: c05_one(c, cls, sh) for cls in (GENERIC, NSV) for sh in (None, MIXED)])


def c05_one(c, cls, shape):
        P = stepper(c, cls, shape)
        if P is None:
            return
        for r in P.rows:
            P.at(r)
            c05_row(c, cls, P, shape)


def c05_row(c, cls, P, shape):
        S = P.S
        tag = P.tag
        mats = [('J_sparse', 'J')] + ([] if P.nsv else [('J_dot_sparse', 'J_dot')])
        for mf, of in mats:
            for b in range(2):
                def block():
                    FACTS.push(P.rf)
                    got = P.v.sblk(P.ivf(mf), P.row, const(b))
                    want = ite(P.reg(b), S.bodyidx(P.J, const(b)), const(-1))
                    c.require_equal(got, want, P.rf)
                c.ob('%s: %s row of a constraint refers to its body %d' % (cls, mf, b) + tag, block, P.fc)
                for x in range(3):
                    def val():
                        FACTS.push(P.rf)
                        got = P.v.sval(P.ivf(mf), P.row, const(b), const(x))
                        c.require_equal(got, calc(S, P.J, of, P.K, 3 * b + x), P.rf, assume=P.reg(b))
                    c.ob('%s: %s row holds %s[%d] of the constraint' % (cls, mf, of, 3 * b + x) + tag, val, P.fc)

            if shape:
                continue

            def dims():
                c.require_equal(P.v.sw(P.ivf(mf)), pscale(S.n, 3), what='width')
                c.require_equal(P.v.sh(P.ivf(mf)), S.PS(S.m), what='height')
            c.ob('%s: %s has one row per scalar constraint and three columns per body' % (cls, mf), dims, P.fc)
        if P.nsv:
            for mf, of, k, w in (('v_bias', 'v_bias', 0, ONE), ('C', 'C', 0, ONE), ('limits', 'limits', 0, P.dt),
                                 ('limits', 'limits', 1, P.dt)):
                def val():
                    FACTS.push(P.rf)
                    got = P.v.mat(P.ivf(mf), P.row, const(k))
                    c.require_equal(got, mul(calc(S, P.J, of, P.K, k), w), P.rf)
                c.ob('%s: %s[%d] of a row comes from its constraint%s' % (
                    cls, mf, k, ' as an impulse' if of == 'limits' else '') + tag, val, P.fc)
        if shape:
            return
        c.ob('%s: every constraint is evaluated once on the current state' % cls, lambda: evaluated(c, P), P.fc)
        c.ob('%s: the solver gets this system and its solution is used' % cls, lambda: solved(c, P), P.fc)


def tally(mem, stop, w):
    """the sum of w(event name, arguments) over every event between stop and mem"""
    memo = {}

    def go(m, end):
        m = M.head(m)
        if m is stop or m is end:
            return ZERO
        k = (m.id, end.id if end is not None else 0)
        if k in memo:
            return memo[k]
        if m.k == 'event':
            r = add(w(m.a[1], m.a[2]), go(m.a[0], end))
        elif m.k == 'ite':
            r = sym.ite(m.a[0], go(m.a[1], end), go(m.a[2], end))
        elif m.k == 'loop':
            slot, sig, n = m.a
            if end is not None and end.k == 'loop' and end.a[0] is slot:
                raise Undecided('effects of an iteration are not separate from the loop')
            body = M.msubst(slot.body, dict(zip(slot.params, sig)))
            start = M.head(M.mloop(slot, sig, pa(slot.kappa)))
            x = sym.fresh()
            one = sym.subst(go(body, start), {slot.kappa: pa(x)})
            r = add(sym.psum(x, one, n), go(M.loop_prev(slot, sig), end))
        elif m.k == 'init':
            raise Undecided('events are counted past the beginning')
        else:
            r = go(m.a[0], end)
        memo[k] = r
        return r
    return go(mem, None)


def events(mem, stop=None):
    """event nodes of a memory chain with the loops (slot, trip) around them, innermost last"""
    out, seen = [], set()
    st = [(mem, ())]
    while st:
        m, ctx = st.pop()
        m = M.head(m)
        key = (m.id, tuple(x[0].id for x in ctx))
        if m is stop or key in seen:
            continue
        seen.add(key)
        if m.k == 'event':
            out.append((m.a[1], m.a[2], m.a[3], ctx))
        if m.k == 'loop':
            slot, sig, k = m.a
            if any(x[0] is slot for x in ctx):
                continue                    # start of the current iteration
            st.append((M.loop_prev(slot, sig), ctx))
            st.append((slot.body, ctx + ((slot, k),)))
            continue
        for x in m.a:
            if isinstance(x, M.Mem):
                st.append((x, ctx))
    return out


def evaluated(c, P):
    ev = [e for e in events(P.mem, P.m1) if e[0] == 'calculate']
    if not ev:
        raise Broken('no constraint is evaluated', P.fc)
    if len(ev) != 1 or len(ev[0][3]) != 1:
        raise Undecided('constraint evaluation is not one loop')
    name, args, info, ctx = ev[0]
    slot, trip = ctx[0]
    kap = slot.kappa
    c.require_equal(trip, P.S.m, what='number of evaluated constraints')
    c.require_equal(args[0], P.S.con(pa(kap)), [pa(kap), psub(psub(P.S.m, pa(kap)), ONE)], what='evaluated constraint')
    c.require_equal(args[2], P.S.state, what='state handed to the constraint')


def solved(c, P):
    ev = [e for e in events(P.mem, P.m1) if e[0] in ('solve', 'solveWithLimits')]
    names = sorted(e[0] for e in ev)
    if names != (['solve', 'solveWithLimits'] if P.nsv else ['solve']):
        raise (Broken if not names else Undecided)('solver calls: %s' % names)
    for name, args, info, ctx in ev:
        lim = name == 'solveWithLimits'
        for a, f, what in ((args[1], 'J_sparse', 'jacobian'), (args[2], 'M_inv', 'inverse masses'),
                           (args[3], 'right', 'right hand side')):
            c.require_equal(a, P.ivf(f), what=what + ' given to ' + name)
        if lim:
            c.require_equal(args[4], P.ivf('limits'), what='limits given to solveWithLimits')
        c.require_equal(args[-1], P.ivf('lambda'), what='result of ' + name)
        c.require_equal(args[-2], P.ivf('lambda'), what='warm start of ' + name)


def c06(c):
    c.sections(lambda: c06_one(c, None), lambda: c06_one(c, MIXED))


def c06_one(c, shape):
    P = stepper(c, GENERIC, shape)
    if P is None:
        return
    S = P.S

    def go(assume_reg, name):
        def run():
            FACTS.push(P.rf)
            q = lambda i, x: P.st0(('v_x', 'v_y', 'v_theta')[x], i)
            w = lambda i, x: mul(P.st0(('f_x', 'f_y', 't')[x], i), div(ONE, P.mass(i, x)))
            k = P.K
            want = neg(P.Jrow('J_dot', q))
            want = sub(want, P.Jrow('J', w))
            want = sub(want, mul(calc(S, P.J, 'ks', k), calc(S, P.J, 'C', k)))
            want = sub(want, mul(calc(S, P.J, 'kd', k), P.Jrow('J', q)))
            c.require_equal(P.v.mat(P.ivf('right'), P.row, ZERO), want, P.rf, assume=assume_reg)
        c.ob(name, run, P.fc)
    if shape:
        for r in P.rows:
            go(ONE, 'right hand side' + P.at(r))
        return
    for b0 in (True, False):
        for b1 in (True, False):
            if not b0 and not b1:
                continue
            asm = band(P.reg(0) if b0 else bnot(P.reg(0)), P.reg(1) if b1 else bnot(P.reg(1)))
            go(asm, 'right hand side of a row (body 1 %s, body 2 %s)' % tuple(
                'registered' if x else 'absent or ground' for x in (b0, b1)))

    def dims():
        c.require_equal(P.v.w(P.ivf('right')), ONE, what='width')
        c.require_equal(P.v.h(P.ivf('right')), S.PS(S.m), what='height')
    c.ob('right hand side has one entry per scalar constraint', dims, P.fc)


def c07(c):
    c.sections(lambda: c07_one(c, None), lambda: c07_one(c, MIXED))


def c07_one(c, shape):
    P = stepper(c, NSV, shape)
    if P is None:
        return
    for r in P.rows:
        P.at(r)
        c07_row(c, P, shape)


def c07_row(c, P, shape):
    S = P.S
    dt = P.dt
    tag = P.tag

    def row():
        FACTS.push(P.rf)
        v = lambda i, x: add(P.st0(('v_x', 'v_y', 'v_theta')[x], i),
                             mul(mul(P.st0(('f_x', 'f_y', 't')[x], i), dt), div(ONE, P.mass(i, x))))
        bias = P.v0.fd(NSV, 'm_biasFactor', S.this)
        want = add(P.Jrow('J', v), calc(S, P.J, 'v_bias', P.K))
        want = neg(add(want, mul(div(bias, dt), calc(S, P.J, 'C', P.K))))
        c.require_equal(P.v.mat(P.ivf('right'), P.row, ZERO), want, P.rf)
    c.ob('right hand side of a row' + tag, row, P.fc)

    def dims():
        c.require_equal(P.v.w(P.ivf('right')), ONE, what='width')
        c.require_equal(P.v.h(P.ivf('right')), S.PS(S.m), what='height')
    if not shape:
        c.ob('right hand side has one entry per scalar constraint', dims, P.fc)
    for k in range(2):
        def lim():
            FACTS.push(P.rf)
            c.require_equal(P.v.mat(P.ivf('limits'), P.row, const(k)), mul(calc(S, P.J, 'limits', P.K, k), dt), P.rf)
        c.ob('impulse limit %d is the force limit times the substep' % k + tag, lim, P.fc)

    def choice():
        ev = [e for e in events(P.mem, P.m1) if e[0] in ('solve', 'solveWithLimits')]
        if not any(e[0] == 'solveWithLimits' for e in ev):
            raise Broken('limits are never handed to a solver', P.fc)
        if not any(e[0] == 'solve' for e in ev):
            raise Broken('a solver without limits is never used', P.fc)
        found = 0
        seen, st = set(), [P.mem]
        while st:
            m = M.head(st.pop())
            if m is P.m1 or m.id in seen:
                continue
            seen.add(m.id)
            if m.k == 'ite':
                cond, x, y = m.a
                nx, ny = [set(e[0] for e in events(z, P.m1) if e[0] in ('solve', 'solveWithLimits')) for z in (x, y)]
                if nx != ny:
                    g = c.fn('SleSolver::supportsLimits', need=False)
                    if g is None or x_flags(cond):
                        raise Undecided('solver chosen by another condition')
                    lim = c.run(g, [P.v0.p(fld(NSV, 'm_sleSolver', S.this))], S.m0).ret
                    c.require_equal(cond, lim if 'solveWithLimits' in nx else sub(ONE, lim),
                                    what='condition for limited solving')
                    found += 1
            if m.k == 'loop':
                st.append(M.loop_prev(m.a[0], m.a[1]))
                continue
            st += [z for z in m.a if isinstance(z, M.Mem)]
        if not found:
            raise Undecided('no branch separates limited from unlimited solving')
    if not shape:
        c.ob('a solver that supports limits is given them', choice, P.fc)
    for x, f in enumerate(REAC):
        for b in range(2):
            def go():
                FACTS.push(P.rf)
                got = P.v.arr(S.state, f, padd(pscale(P.row, 2), const(b)))
                want = mul(mul(lam(P.row), calc(S, P.J, 'J', P.K, 3 * b + x)), div(ONE, dt))
                c.require_equal(got, want, P.rf, assume=P.reg(b))
            c.ob('force %s on body %d is the impulse divided by the substep' % (f, b) + tag, go, P.fc)


def process_run(c, cls, steps, shape=None, facts=(), unit=None, **kw):
    """process(dt, steps) with the substep work abstracted"""
    S = Sys(c.m, cls, shape)
    if facts:
        FACTS.push(list(facts))
    f = c.fn(cls + '::process')

    def evt(name, writes):
        def h(eng, i, args, mem, ctx):
            mem = M.event(mem, name, tuple(args), (const(i['id']), mem))
            v = V(mem)
            if unit is not None:
                mem = M.store(mem, unit[name], 8, add(M.read(mem, unit[name], 8, 'i'), ONE))
            for w in writes:
                mem = M.region(mem, ('arr', v.fp('SystemState', w, S.state), ONE),
                               ('hv', name + '_' + w, (const(i['id']),) + scs.ktok(eng)))
            for n, a in enumerate(args[1:], 1):
                if isinstance(a, sym.Poly):
                    b, _ = M.split(a)
                    if b is not None and b.kind == 'alloc':
                        mem = M.store(mem, a, 8, ONE if unit is not None else pa(atom('hv', '%s_t%d' % (name, n), 'i', const(i['id']), a, *scs.ktok(eng),
                                                         isint=True)))
            return None, mem
        return h
    md = scs.base_models()
    forces = c.fn('RigidBodySystem::processForces', need=False)
    cons = c.fn(cls + '::processConstraints', need=False)
    if forces is None or cons is None:
        raise Undecided('substep work is not in functions of its own')
    md[forces.dem] = evt('forces', ['f_x', 'f_y', 't'])
    md[cons.dem] = evt('constraints', ['a_x', 'a_y', 'a_theta'] + scs.REACTIONS)
    if cls == NSV:
        for meth, wr in (('start', False), ('step', True), ('solve', True), ('end', False)):
            g = c.fn('NsvOdeSolver::' + meth)
            md[g.dem] = scs.ode_model('odesolve' if meth == 'solve' else meth, wr)
    dt = var('dt')
    r = c.run(f, [S.this, dt, steps], S.m0, models=md, **kw)
    return S, f, r, dt


BODY = ('p_x', 'p_y', 'v_x', 'v_y', 'theta', 'v_theta')


def c02(c):
    c.sections(*[lambda cls=cls: c02_one(c, cls) for cls in (GENERIC, NSV)])


def c02_one(c, cls):
        f = c.fn(cls + '::process')
        for steps, what in ((ZERO, 'no substep'), (var('steps', True), 'any number of substeps')):
            R = c.ob('%s: process analysed, %s' % (cls, what), lambda: process_run(c, cls, steps), f)
            if R is None:
                continue
            S, f, r, dt = R
            v, v0 = V(r.mem), V(S.m0)
            i = var('i', True)
            fs = [i, psub(psub(S.n, i), ONE)]
            body = v0.vec(S.bodies, i)
            nonneg = [] if steps is ZERO else []
            if steps is ZERO:
                for q in BODY:
                    def gather():
                        FACTS.push(fs)
                        c.require_equal(v.arr(S.state, q, i), v0.fd('RigidBody', q, body), fs)
                    c.ob('%s: state %s of every body is taken from the body' % (cls, q), gather, f)

                def mass():
                    FACTS.push(fs)
                    c.require_equal(v.arr(S.state, 'm', i), v0.fd('RigidBody', 'm', body), fs)
                c.ob('%s: state mass of every body is taken from the body' % cls, mass, f)
                for q in ('a_x', 'a_y', 'a_theta'):
                    def acc():
                        FACTS.push(fs)
                        c.require_equal(v.arr(S.state, q, i), ZERO, fs)
                    c.ob('%s: %s starts at zero' % (cls, q), acc, f)

                def dims():
                    c.require_equal(v.fi('SystemState', 'n', S.state), S.n, what='bodies in the state')
                    c.require_equal(v.fi('SystemState', 'n_c', S.state), S.PS(S.m), what='rows in the state')
                    j = var('j', True)
                    fj = [j, psub(psub(S.m, j), ONE)] + S.rowfacts(j)
                    FACTS.push(fj)
                    mp = v.fp('SystemState', 'indexMap', S.state)
                    c.require_equal(v.i(add(mp, mul(const(4), j))), S.PS(j), fj, what='first row of a constraint')
                c.ob('%s: the state has room for every body and row' % cls, dims, f)
            for q in BODY:
                def scatter():
                    FACTS.push(fs)
                    c.require_equal(v.fd('RigidBody', q, body), v.arr(S.state, q, i), fs)
                c.ob('%s: %s of every body is the state after %s' % (cls, q, what), scatter, f)
            for q in ('m', 'I'):
                def keep():
                    FACTS.push(fs)
                    c.require_equal(v.fd('RigidBody', q, body), v0.fd('RigidBody', q, body), fs)
                c.ob('%s: %s of a body is not changed by %s' % (cls, q, what), keep, f)

            def index():
                FACTS.push(fs)
                c.require_equal(v.fi('RigidBody', 'index', body), v0.fi('RigidBody', 'index', body), fs)
            c.ob('%s: registration of a body is not changed by %s' % (cls, what), index, f)


def c08(c):
    c.sections(*[lambda cls=cls, g=g: g(c, cls) for cls in (GENERIC, NSV) for g in (c08_state, c08_mixed, c08_report,
                                                                            lambda c, k: c08_report(c, k, MIXED))])


def c08_mixed(c, cls):
    c08_state(c, cls, MIXED)


def c08_state(c, cls, shape=None):
    P = stepper(c, cls, shape)
    if P is None:
        return
    for r in P.rows:
        P.at(r)
        c08_row(c, cls, P)


def c08_row(c, cls, P):
    S = P.S
    for x, f in enumerate(REAC):
        for b in range(2):
            def go():
                FACTS.push(P.rf)
                got = P.v.arr(S.state, f, padd(pscale(P.row, 2), const(b)))
                want = mul(lam(P.row), calc(S, P.J, 'J', P.K, 3 * b + x))
                if P.nsv:
                    want = mul(want, div(ONE, P.dt))
                c.require_equal(got, want, P.rf, assume=P.reg(b))
            c.ob('%s: %s of row and body %d is multiplier times jacobian' % (cls, f, b) + P.tag, go, P.fc)


def c08_report(c, cls, shape=None):
    f = c.fn(cls + '::process')
    R = c.ob('%s: process analysed%s' % (cls, ' in the mixed configuration' if shape else ''),
             lambda: process_run(c, cls, var('steps', True), shape), f)
    if R is None:
        return
    S, f, r, dt = R
    v = V(r.mem)
    if shape:
        for row, (j, k) in enumerate([(j, k) for j, (n, _) in enumerate(shape[1]) for k in range(n)]):
            c08_report_row(c, cls, f, S, v, const(j), const(k), const(row), [], ' in row %d of the mixed configuration' % row)
        return
    j, k = var('J', True), var('K', True)
    c08_report_row(c, cls, f, S, v, j, k, padd(S.PS(j), k), S.rowfacts(j, k), '')


def c08_report_row(c, cls, f, S, v, j, k, row, rf, tag):
    for q, g in (('F_x', 'r_x'), ('F_y', 'r_y'), ('F_t', 'r_t')):
        for b in range(2):
            def rep():
                FACTS.push(rf)
                base = fld('Constraint', q, S.con(j))
                got = v.d(add(base, add(mul(const(16), k), const(8 * b))))
                want = v.arr(S.state, g, padd(pscale(row, 2), const(b)))
                c.require_equal(got, want, rf, assume=sym.vlt(const(b), S.bc(j), True))
            c.ob('%s: reported %s of body %d is the state reaction of that row' % (cls, q, b) + tag, rep, f)


def c03(c):
    scs.setup(c.m)
    f = c.fn('RigidBodySystem::processForces', need=False)

    def go():
        if f is None:
            raise Undecided('force evaluation is not a function of its own')
        S = Sys(c.m, 'RigidBodySystem')
        return S, c.run(f, [S.this], S.m0)
    R = c.ob('force evaluation analysed', go, f)
    if R is None:
        return
    S, r = R
    i = var('i', True)
    fs = [i, psub(psub(S.n, i), ONE)]

    def once():
        ev = [e for e in events(r.mem, S.m0) if e[0] == 'apply']
        if not ev:
            raise Broken('no force generator is applied', f)
        if len(ev) != 1 or len(ev[0][3]) != 1:
            raise Undecided('force generators are not applied in one loop')
        name, args, info, ctx = ev[0]
        slot, trip = ctx[0]
        kap = pa(slot.kappa)
        c.require_equal(trip, S.g, what='number of applications')
        want = V(S.m0).vec(S.gens, kap)
        alt = V(S.m0).vec(S.gens, psub(psub(S.g, kap), ONE))
        if not sym.equal(args[0], alt).ok:
            c.require_equal(args[0], want, [kap, psub(psub(S.g, kap), ONE)], what='applied generator')
        c.require_equal(args[1], S.state, what='state handed to the generator')
    c.ob('every force generator is applied exactly once to the state', once, f)

    def number():
        got = tally(r.mem, S.m0, lambda name, args: ONE if name == 'apply' else ZERO)
        c.require_equal(got, S.g, [S.g], what='number of generators applied')

    def few(n):
        def go():
            S = Sys(c.m, 'RigidBodySystem', gens=n)
            r = c.run(f, [S.this], S.m0)
            got = tally(r.mem, S.m0, lambda name, args: ONE if name == 'apply' else ZERO)
            c.require_equal(got, const(n), what='number of generators applied, of %d' % n)
        return go
    c.ob('as many force generators are applied as there are', number, f, small=[few(2), few(3)])
    for q in ('f_x', 'f_y', 't'):
        def zero():
            # with no generator the accumulators are zero
            FACTS.push(fs + [S.g, neg(S.g)])
            got = V(r.mem).arr(S.state, q, i)
            c.require_equal(sym.restrict(got, ONE, True) if False else got, ZERO, fs + [neg(S.g)],
                            assume=veq(S.g, ZERO))
        c.ob('%s is cleared before the generators run' % q, zero, f)

        def first():
            # the memory the first generator sees
            ev = [e for e in events(r.mem, S.m0) if e[0] == 'apply']
            if len(ev) != 1 or len(ev[0][3]) != 1:
                raise Undecided('force generators are not applied in one loop')
            slot = ev[0][3][0][0]
            pre = M.loop_prev(slot, ())
            FACTS.push(fs)
            c.require_equal(V(pre).arr(S.state, q, i), ZERO, fs)
        c.ob('%s of every body is zero when the first generator runs' % q, first, f)
    for cls in (GENERIC, NSV):
        g = c.fn(cls + '::process')

        def order():
            S, g2, r, dt = process_run(c, cls, var('steps', True))
            ev = [e for e in events(r.mem, S.m0)]
            n = sum(1 for e in ev if e[0] == 'forces')
            if n == 0:
                raise Broken('process never evaluates the forces', g)
        c.ob('%s: process evaluates the forces' % cls, order, g)

        def stages():
            S, g2, r, dt = process_run(c, cls, var('steps', True))
            w = {'forces': ONE, 'step': const(-1)}
            got = tally(r.mem, S.m0, lambda name, args: w.get(name, ZERO))
            c.require_equal(got, ZERO, what='evaluations of the forces less stages of the integrator')
        c.ob('%s: the forces are evaluated in every stage of the integrator' % cls, stages, g)
