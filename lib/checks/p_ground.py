"""C33: bodies that are not registered are immovable ground"""
import ck
import common
import memory as M
import p_constraints
import p_forces
import p_system
import scs
import sym
from ck import Broken, Undecided
from p_forces import FORCE, Gen
from scs import V, fld, off
from sym import FACTS, ONE, ZERO, add, bnot, const, mul, psub, var, veq

STATE = ('a_theta', 'v_theta', 'theta', 'a_x', 'a_y', 'v_x', 'v_y', 'p_x', 'p_y', 'f_x', 'f_y', 't', 'm')
GENS = {'Spring': ('m_body1', 'm_body2'), 'ConstantSpeedMotor': ('m_body0', 'm_body1'), 'StaticForceGenerator': ('m_body',)}


def c33(c):
    for cls, bodies in GENS.items():
        c.sections(*[lambda cls=cls, g=g: generator(c, cls, bodies, g) for g in range(1, 2 ** len(bodies))])
    c.sections(lambda: couplings(c))
    for cls in (p_system.GENERIC, p_system.NSV):
        c.sections(*[lambda sh=sh: reactions(c, cls, sh) for sh in (None, p_system.MIXED, p_system.GROUNDED)])


class Ground(Gen):
    """a force generator some of whose bodies are unregistered"""

    def __init__(self, c, cls, bodies, ground):
        self.setup_pins = [(cls, b) for k, b in enumerate(bodies) if ground >> k & 1]
        scs.setup(c.m)
        this = var('gen', ptr=True)
        v0 = V(M.init('m0'))
        old = scs.setup
        self.ptrs = []

        def setup(m):
            old(m)
            for cl, b in self.setup_pins:
                p = v0.fp(cl, b, this)
                self.ptrs.append(p)
                scs._pins[fld('RigidBody', 'index', p).id] = const(-1)
        scs.setup = setup
        try:
            Gen.__init__(self, c, cls)
        finally:
            scs.setup = old


def state_loads(v, st):
    """(array, index expression) of the state entries a value was computed from"""
    out = []
    for a in sym.all_atoms(v):
        if a.kind != 'ld' or not isinstance(a.args[0], sym.Poly):
            continue
        b, o = M.split(a.args[0])
        if b is None or b.kind != 'ld':
            continue
        b2, o2 = M.split(b.args[0])
        if b2 is st.single_atom() and o2.is_const():
            out.append((int(o2.const()), o))
    return out


def generator(c, cls, bodies, ground):
    who = ' and '.join(b for k, b in enumerate(bodies) if ground >> k & 1)
    G = c.ob('%s: analysed with %s unregistered' % (cls, who), lambda: Ground(c, cls, bodies, ground), None)
    if G is None:
        return
    offs = {off('SystemState', f): f for f in STATE}

    def reads():
        for f in FORCE:
            for o, i in state_loads(G.got(f), G.st):
                if i.is_const() and i.const() < 0:
                    raise Broken('%s is computed from %s[%d]' % (f, offs.get(o, '?'), int(i.const()) // 8))
    c.ob('%s: nothing is computed from the slot of %s' % (cls, who), reads, G.fn)

    def writes():
        for kind, a, n in common.written(G.r.mem, G.m0):
            b, o = M.split(a) if isinstance(a, sym.Poly) else (None, None)
            if b is None or b.kind != 'ld':
                continue
            if o.is_const() and o.const() < 0:
                raise Broken('writes in front of slot 0: ' + sym.show(a)[:200])
        for f in STATE:
            i = const(-1)
            if G.v.arr(G.st, f, i) is not G.s(f, i):
                c.require_equal(G.v.arr(G.st, f, i), G.s(f, i), what='%s in front of slot 0' % f)
    c.ob('%s: nothing is written to the slot of %s' % (cls, who), writes, G.fn)

    def body():
        for p in G.ptrs:
            for f in ('p_x', 'p_y', 'v_x', 'v_y', 'theta', 'v_theta', 'm', 'I'):
                c.require_equal(G.v.fd('RigidBody', f, p), G.v0.fd('RigidBody', f, p), what=f)
    c.ob('%s: the body %s itself is left alone' % (cls, who), body, G.fn)

    def still():
        # the ground has a place but no motion: neither its speed nor its mass matters
        for f in FORCE:
            for q in ('v_x', 'v_y', 'v_theta', 'm', 'I'):
                for p in G.ptrs:
                    a = fld('RigidBody', q, p)
                    for x in sym.all_atoms(G.got(f)):
                        if x.kind == 'ld' and x.args[0] is a:
                            raise Broken('%s depends on %s of the ground' % (f, q))
    c.ob('%s: speed and mass of %s do not matter' % (cls, who), still, G.fn)
    if ground + 1 == 2 ** len(bodies):
        for f in FORCE:
            c.ob('%s: nothing but ground, %s of every body stays' % (cls, f),
                 lambda: c.require_equal(G.got(f), G.s(f, G.i), G.range), G.fn)


def couplings(c):
    for cls in ('ClutchConstraint', 'SimpleGearConstraint'):
        K = c.ob('%s: analysed' % cls, lambda: p_constraints.Con(c, cls), None)
        if K is None:
            continue

        def free():
            for k in range(K.rows):
                vals = [K.o(f, k) for f in ('C', 'v_bias', 'ks', 'kd')]
                vals += [K.o(f, k, j) for f in ('J', 'J_dot') for j in range(6)] + [K.o('limits', k, j) for j in range(2)]
                for v in vals:
                    for a in sym.all_atoms(v):
                        if a.kind != 'ld' or not isinstance(a.args[0], sym.Poly):
                            continue
                        ats = sym.all_atoms(a.args[0])
                        if K.st.single_atom() in ats:
                            raise Broken('the row is computed from the state: ' + sym.show(v)[:200])
        c.ob('%s: couples speeds only, no state of either body is read' % cls, free, K.fn)


def reactions(c, cls, shape):
    P = p_system.stepper(c, cls, shape)
    if P is None:
        return
    S = P.S
    tag = ' in the mixed configuration' if shape is p_system.MIXED else ' in the grounded configuration' if shape else ''
    for f in STATE:
        def slot():
            c.require_equal(P.v.arr(S.state, f, const(-1)), P.v0.arr(S.state, f, const(-1)), what=f)
        c.ob('%s: %s in front of slot 0 is left alone by the constraint evaluation%s' % (cls, f, tag), slot, P.fc)
    if shape:
        def writes():
            for kind, a, n in common.written(P.mem, S.m0):
                b, o = M.split(a) if isinstance(a, sym.Poly) else (None, None)
                if b is not None and b.kind == 'ld' and o.is_const() and o.const() < 0:
                    raise Broken('writes in front of slot 0: ' + sym.show(a)[:200])
        c.ob('%s: nothing is written in front of slot 0%s' % (cls, tag), writes, P.fc)

        def reads():
            offs = {off('SystemState', f): f for f in STATE}
            for f in ('a_x', 'a_y', 'a_theta'):
                for i in range(shape[0]):
                    for o, x in state_loads(P.v.arr(S.state, f, const(i)), S.state):
                        if x.is_const() and x.const() < 0:
                            raise Broken('%s of body %d is computed from %s[%d]' % (f, i, offs.get(o, '?'), int(x.const()) // 8))
        c.ob('%s: no acceleration is computed from the slot in front of slot 0%s' % (cls, tag), reads, P.fc)
    if shape is p_system.GROUNDED:
        for r in P.rows:
            P.at(r)
            members(c, cls, P)
        p_system.acc_mixed(c, cls, P, shape)


def members(c, cls, P):
    """a row acts on exactly the registered ones of its bodies"""
    S = P.S
    for mf, of in [('J_sparse', 'J')] + ([] if P.nsv else [('J_dot_sparse', 'J_dot')]):
        for b in range(2):
            def row():
                want = sym.ite(P.reg(b), S.bodyidx(P.J, const(b)), const(-1))
                c.require_equal(P.v.sblk(P.ivf(mf), P.row, const(b)), want, what='body of block %d' % b)
                for x in range(3):
                    c.require_equal(P.v.sval(P.ivf(mf), P.row, const(b), const(x)),
                                    p_system.calc(S, P.J, of, P.K, 3 * b + x), assume=P.reg(b), what='%s[%d]' % (of, 3 * b + x))
            c.ob('%s: block %d of %s names its body when that is registered and nothing otherwise%s' % (
                cls, b, mf, P.tag.replace('mixed', 'grounded')), row, P.fc)
