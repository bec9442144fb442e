"""Substep protocol of the systems and the update rules of the integrators."""
from fractions import Fraction

import memory as M
import scs
import sym
from ck import Broken, Undecided
from common import x_flags
from p_system import GENERIC, NSV, process_run
from scs import V, fld, nonneg, off
from sym import ONE, ZERO, FACTS, add, atom, const, div, mul, neg, pa, psub, sub, var

POS = (('p_x', 'v_x'), ('p_y', 'v_y'), ('theta', 'v_theta'))
VEL = (('v_x', 'a_x'), ('v_y', 'a_y'), ('v_theta', 'a_theta'))


# --- the protocol ---------------------------------------------------------------------

PROTO = ('start', 'step', 'forces', 'constraints', 'odesolve', 'end')


def tree(m, stop):
    """program-order structure of the protocol events: ('ev', node) | ('loop', slot, trip, items) | ('ite', c, a, b)"""
    out = []
    while True:
        m = M.head(m)
        if m is stop or m.k == 'init':
            break
        if m.k == 'loop':
            if m.a[0] is stop:
                break
            body = tree(m.a[0].body, m.a[0])
            if body:
                out.append(('loop', m.a[0], m.a[2], body))
            m = M.loop_prev(m.a[0], m.a[1])
            continue
        if m.k == 'ite':
            a, b = tree(m.a[1], stop), tree(m.a[2], stop)
            n = 0
            while n < min(len(a), len(b)) and same(a[n], b[n]):
                n += 1
            if a[n:] or b[n:]:
                out.append(('ite', m.a[0], a[n:], b[n:]))
            out += reversed(a[:n])
            break
        if m.k == 'event' and m.a[1] in PROTO:
            out.append(('ev', m.a[1], m.a[2], m.a[3]))
        m = m.a[0]
    out.reverse()
    return out


def same(x, y):
    return x[0] == y[0] and x[0] in ('ev', 'loop') and x[1] is y[1] and (x[0] == 'loop' or x[3] == y[3])


def names(t):
    r = []
    for x in t:
        if x[0] == 'ev':
            r.append(x[1])
        elif x[0] == 'loop':
            r.append('(' + ' '.join(names(x[3])) + ')*')
        else:
            r.append('[' + ' '.join(names(x[2])) + '|' + ' '.join(names(x[3])) + ']')
    return r


CYCLE = ['step', 'forces', 'constraints', 'odesolve']


def c09(c):
    for cls in (GENERIC, NSV):
        f = c.fn(cls + '::process')
        nsteps = var('steps', True)
        R = c.ob('%s: process analysed' % cls,
                 lambda: process_run(c, cls, nsteps, facts=[psub(nsteps, ONE)]), f)
        if R is not None:
            protocol(c, cls, f, R, nsteps)

        def none():
            S, f_, r, dt = process_run(c, cls, ZERO)
            t = tree(r.mem, S.m0)
            if t:
                raise Broken('with zero substeps the integrator sees: ' + ' '.join(names(t)), f)
        c.ob('%s: no substep, no integrator call' % cls, none, f)


def protocol(c, cls, f, R, nsteps):
    S, f_, r, dt = R
    st = {}

    def shape():
        t = tree(r.mem, S.m0)
        if any(x[0] == 'ite' for x in t):
            raise Undecided('integrator calls under a condition: ' + ' '.join(names(t))[:200])
        if not t:
            raise Broken('the integrator is never called', f)
        if len(t) != 1 or t[0][0] != 'loop':
            raise Broken('integrator calls are not one run of substeps: ' + ' '.join(names(t)), f)
        st['outer'] = t[0]
        body = t[0][3]
        flat = names(body)
        if any(x[0] == 'ite' for x in body):
            bad = [x for x in body if x[0] == 'ite'][0]
            if x_flags(bad[1]):
                raise Undecided('integrator calls under a condition: ' + ' '.join(flat)[:200])
            raise Broken('integrator calls skipped when %s: %s' % (sym.show(bad[1])[:200], ' '.join(flat)), f)
        if body[0][:2] != ('ev', 'start') or body[-1][:2] != ('ev', 'end'):
            raise Broken('a substep is not bracketed by start and end: ' + ' '.join(flat), f)
        inner = body[1:-1]
        loops = [x for x in inner if x[0] == 'loop']
        if len(loops) > 1:
            raise Broken('several stage loops in a substep: ' + ' '.join(flat), f)
        if loops:
            k = [i for i, x in enumerate(inner) if x[0] == 'loop'][0]
            seq = names(inner[:k]) + names(loops[0][3]) + names(inner[k + 1:])
            if any(x[0] != 'ev' for x in loops[0][3]):
                raise Undecided('nested stage structure: ' + ' '.join(flat))
            per = len(loops[0][3])
        else:
            seq, per = names(inner), 0
        if len(seq) % 4 or seq != CYCLE * (len(seq) // 4) or per % 4 or \
                (loops and k % 4):
            raise Broken('stages are not step, forces, constraints, solve: ' + ' '.join(flat), f)
        st['loop'] = loops[0] if loops else None
        st['copies'] = len(inner[:]) - (1 if loops else 0)
        st['inner'] = inner
        st['body'] = body
    if c.ob('%s: every substep is start, (step, forces, constraints, solve) repeated, end' % cls, shape, f) is None \
            and 'body' not in st:
        return

    def count():
        c.require_equal(st['outer'][2], nsteps, [psub(nsteps, ONE)], what='number of substeps')
    c.ob('%s: as many substeps as requested' % cls, count, f)

    def stages():
        lp = st['loop']
        if lp is None:
            raise Broken('stages are not repeated until the integrator is done', f)
        if st['copies'] % 4 or len(lp[3]) != 4:
            raise Undecided('unrolled stage loop')
        stepev = [x for x in lp[3] if x[1] == 'step'][0]
        site = stepev[3][0]
        t = sym.fresh(True)
        outer = pa(st['outer'][1].kappa)
        done = sym.boolatom('bfn', 'done', site, outer, pa(t))
        want = add(M.first_index(t, done), ONE)
        got = add(lp[2], const(st['copies'] // 4))
        fi = [a for a in got.atoms() if a.kind == 'fi'] if isinstance(got, sym.Poly) else []
        if len(fi) == 1 and psub(got, pa(fi[0])) is ONE:
            body = sym.open_closure(fi[0].args[0], fi[0].args[1], pa(t))
            c.require_equal(body, done, [pa(t), pa(st['outer'][1].kappa)], what='condition for ending the stages')
            return
        c.require_equal(got, want, what='number of stages')
    c.ob('%s: stages stop exactly after the one the integrator reports as last' % cls, stages, f)

    def evs():
        for x in st['body']:
            for y in (x[3] if x[0] == 'loop' else [x]):
                yield y

    def length():
        for y in evs():
            if y[1] == 'start':
                c.require_equal(y[2][2], div(dt, nsteps), what='length of a substep')
    c.ob('%s: each substep lasts dt divided by their number' % cls, length, f)

    def who():
        ode = None
        for y in evs():
            if y[1] in ('start', 'step', 'odesolve'):
                c.require_equal(y[2][1], S.state, what='state handed to ' + y[1])
            if y[1] in ('start', 'step', 'odesolve', 'end'):
                ode = y[2][0] if ode is None else ode
                c.require_equal(y[2][0], ode, what='integrator of ' + y[1])
            if y[1] in ('forces', 'constraints'):
                c.require_equal(y[2][0], S.this, what='system of ' + y[1])
        if cls == GENERIC:
            c.require_equal(ode, V(S.m0).p(fld(cls, 'm_odeSolver', S.this)), what='integrator')
    c.ob('%s: one integrator works on the state of the system' % cls, who, f)
    if cls == NSV:
        def cdt():
            for y in evs():
                if y[1] == 'constraints' and len(y[2]) > 3:
                    c.require_equal(y[2][1], div(dt, nsteps), what='substep given to the constraints')
        c.ob('%s: constraints are solved for the same substep' % cls, cdt, f)

        def clock():
            at = fld(cls, 'm_t', S.this)
            c.require_equal(V(r.mem).d(at), add(V(S.m0).d(at), dt), what='time of the system')
        if 'm_t' in c.m.layout('atg_scs::' + cls):
            c.ob('%s: the time of the system advances by dt' % cls, clock, f)


# --- integrators ------------------------------------------------------------------------

class Ode:
    def __init__(self, c, cls):
        scs.setup(c.m)
        self.c, self.cls = c, cls
        self.this, self.st, self.dt = var('ode', ptr=True), var('st', ptr=True), var('dt')
        nonneg(fld('SystemState', 'n', self.st))
        nonneg(fld('SystemState', 'n_c', self.st))
        self.mem = M.init('m0')
        self.v0 = V(self.mem)
        self.n = self.v0.fi('SystemState', 'n', self.st)
        self.nc = self.v0.fi('SystemState', 'n_c', self.st)
        self.i, self.j = var('i', True), var('j', True)
        self.bf = [self.i, psub(psub(self.n, self.i), ONE)]
        self.rf = [self.j, psub(psub(sym.pscale(self.nc, 2), self.j), ONE)]

    def call(self, meth, *args):
        f = self.c.fn('%s::%s' % (self.cls, meth), need=False) or self.c.fn('OdeSolver::' + meth)
        r = self.c.run(f, [self.this] + list(args), self.mem)
        self.mem = r.mem
        return r.ret, f

    def havoc(self, tag):
        v = V(self.mem)
        for f in ('a_x', 'a_y', 'a_theta', 'r_x', 'r_y', 'r_t', 'f_x', 'f_y', 't'):
            self.mem = M.region(self.mem, ('arr', v.fp('SystemState', f, self.st), ONE), ('hv', tag + f, ()))

    def hv(self, tag, f, i):
        return pa(atom('hv', tag + f, 'd', mul(const(8), i)))

    def x(self, f, i=None):
        return V(self.mem).arr(self.st, f, self.i if i is None else i)


def c10(c):
    for cls, after in (('EulerOdeSolver', False), ('NsvOdeSolver', True)):
        solve = c.fn(cls + '::solve')

        def setup():
            o = Ode(c, cls)
            o.call('start', o.st, o.dt)
            done, _ = o.call('step', o.st)
            o.done = done
            o.before = o.mem
            o.call('solve', o.st)
            o.after = o.mem
            o.call('end')
            return o
        o = c.ob('%s: start, step, solve, end analysed' % cls, setup, solve)
        if o is None:
            continue
        c.ob('%s: finishes in one stage' % cls, lambda: c.require_equal(o.done, ONE), solve)
        for p, v in POS:
            a = dict(VEL)[v]

            def gov():
                FACTS.push(o.bf)
                old = lambda f: o.v0.arr(o.st, f, o.i)
                c.require_equal(o.x(v), add(old(v), mul(old(a), o.dt)), o.bf)
            c.ob('%s: %s advances by acceleration times step' % (cls, v), gov, solve)

            def gop():
                FACTS.push(o.bf)
                old = lambda f: o.v0.arr(o.st, f, o.i)
                vel = add(old(v), mul(old(a), o.dt)) if after else old(v)
                c.require_equal(o.x(p), add(old(p), mul(vel, o.dt)), o.bf)
            c.ob('%s: %s advances by the %s velocity times step' % (cls, p, 'new' if after else 'old'), gop, solve)

            def keep():
                # the state seen by the evaluation is the current one
                FACTS.push(o.bf)
                for f in (p, v):
                    c.require_equal(V(o.before).arr(o.st, f, o.i), o.v0.arr(o.st, f, o.i), o.bf)
            c.ob('%s: the evaluation sees the current %s and %s' % (cls, p, v), keep, solve)
        for f in ('a_x', 'a_y', 'a_theta', 'm'):
            def keep2():
                FACTS.push(o.bf)
                c.require_equal(o.x(f), o.v0.arr(o.st, f, o.i), o.bf)
            c.ob('%s: %s is not changed' % (cls, f), keep2, solve)
        for f in ('r_x', 'r_y', 'r_t'):
            def keep3():
                FACTS.push(o.rf)
                c.require_equal(o.x(f, o.j), o.v0.arr(o.st, f, o.j), o.rf)
            c.ob('%s: %s is not changed' % (cls, f), keep3, solve)


def c11(c):
    cls = 'Rk4OdeSolver'
    fs = {m: c.fn('%s::%s' % (cls, m)) for m in ('start', 'step', 'solve', 'end')}
    H = Fraction(1, 2)
    WEI = (1, 2, 2, 1)
    c.sections(lambda: rk4(c, fs, H, WEI, False), lambda: rk4(c, fs, H, WEI, True))


def rk4(c, fs, H, WEI, again):
    """again: a second step of the same integrator, whose record holds the first one"""
    tag0 = 'second step: ' if again else ''

    def setup():
        o = Ode(c, 'Rk4OdeSolver')
        if again:
            o.call('start', o.st, var('dt0'))
            for k in range(4):
                o.call('step', o.st)
                o.havoc('first%d_' % k)
                o.call('solve', o.st)
            o.call('end')
        o.m1 = o.mem
        o.v1 = V(o.m1)
        o.call('start', o.st, o.dt)
        o.done, o.seen, o.solved = [], [], []
        for k in range(4):
            d, _ = o.call('step', o.st)
            o.done.append(d)
            o.seen.append(o.mem)
            o.havoc('s%d_' % k)
            o.call('solve', o.st)
            o.solved.append(o.mem)
        o.call('end')
        return o
    o = c.ob(tag0 + 'four stages analysed', setup, fs['solve'])
    if o is None:
        return
    for k in range(4):
        c.ob(tag0 + 'stage %d is %sthe last' % (k + 1, '' if k == 3 else 'not '),
             lambda: c.require_equal(o.done[k], ONE if k == 3 else ZERO), fs['step'])
    frac = (0, H, H, 1)
    i = o.i
    x0 = lambda f: o.v1.arr(o.st, f, i)

    def slopes(k):
        """(velocity slope) of stage k for coordinate p with velocity v and acceleration a"""
        def vel(v, a):
            if k == 0:
                return x0(v)
            return add(x0(v), mul(mul(o.dt, const(frac[k])), o.hv('s%d_' % (k - 1), a, i)))
        return vel
    for p, v in POS:
        a = dict(VEL)[v]
        for k in range(4):
            def pos():
                FACTS.push(o.bf)
                want = x0(p)
                if k:
                    want = add(want, mul(mul(o.dt, const(frac[k])), slopes(k - 1)(v, a)))
                c.require_equal(V(o.seen[k]).arr(o.st, p, i), want, o.bf)
            c.ob(tag0 + 'stage %d evaluates at the right %s' % (k + 1, p), pos, fs['step'])

            def vel():
                FACTS.push(o.bf)
                c.require_equal(V(o.seen[k]).arr(o.st, v, i), slopes(k)(v, a), o.bf)
            c.ob(tag0 + 'stage %d evaluates at the right %s' % (k + 1, v), vel, fs['step'])

        def fp():
            FACTS.push(o.bf)
            want = x0(p)
            for k in range(4):
                want = add(want, mul(mul(o.dt, const(Fraction(WEI[k], 6))), slopes(k)(v, a)))
            c.require_equal(o.x(p), want, o.bf)
        c.ob(tag0 + 'final %s is the weighted mean of the slopes' % p, fp, fs['solve'])

        def fv():
            FACTS.push(o.bf)
            want = x0(v)
            for k in range(4):
                want = add(want, mul(mul(o.dt, const(Fraction(WEI[k], 6))), o.hv('s%d_' % k, a, i)))
            c.require_equal(o.x(v), want, o.bf)
        c.ob(tag0 + 'final %s is the weighted mean of the slopes' % v, fv, fs['solve'])
    for f in ('r_x', 'r_y', 'r_t'):
        def re():
            # a state without bodies carries no reactions of interest
            FACTS.push(o.rf + [psub(o.n, ONE)])
            want = ZERO
            for k in range(4):
                want = add(want, mul(const(Fraction(WEI[k], 6)), o.hv('s%d_' % k, f, o.j)))
            c.require_equal(o.x(f, o.j), want, o.rf)
        c.ob(tag0 + 'final %s is the weighted mean over the stages' % f, re, fs['solve'])

    def keepm():
        FACTS.push(o.bf)
        c.require_equal(o.x('m'), x0('m'), o.bf)
    c.ob(tag0 + 'mass is not changed', keepm, fs['solve'])
