"""Registries of bodies, constraints and force generators."""
import ck as CK
import memory as M
import scs
import sym
from ck import Anchor, Broken, Undecided
from common import base_of, depends, written, x_flags
from scs import V, fld, nonneg, off, size, register_vector, vec_size
from sym import ONE, ZERO, Ite, add, atom, band, bnot, bor, const, ite, mul, neg, pa, padd, pscale, psub, sub, var, veq

KINDS = [
    ('RigidBody', 'm_rigidBodies', 'addRigidBody', 'removeRigidBody', 'index', 'getRigidBodyCount'),
    ('Constraint', 'm_constraints', 'addConstraint', 'removeConstraint', 'm_index', 'getConstraintCount'),
    ('ForceGenerator', 'm_forceGenerators', 'addForceGenerator', 'removeForceGenerator', 'm_index',
     'getForceGeneratorCount'),
]
SYS = 'RigidBodySystem'


class Reg:
    def __init__(self, c, kind):
        scs.setup(c.m)
        self.cls, self.vf, self.addn, self.remn, self.ixf, self.cntn = kind
        self.this = var('sys', ptr=True)
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        for k in KINDS:
            register_vector(fld(SYS, k[1], self.this), k[1])
        self.vec = fld(SYS, self.vf, self.this)
        self.n = vec_size(self.vec)
        self.x = var('obj', ptr=True)

    def old(self, j):
        return self.v0.vec(self.vec, j)

    def ix(self, v, o):
        return v.fi(self.cls, self.ixf, o)


def count(v, vec):
    d = sub(v.p(add(vec, const(8))), v.p(vec))
    return sym.distrib(d, lambda p: pscale(p, sym.Fraction(1, 8)))


def c01(c):
    for kind in KINDS:
        fa = c.fn(SYS + '::' + kind[2])
        fr = c.fn(SYS + '::' + kind[3])

        def adding():
            R = Reg(c, kind)
            j = var('j', True)
            r = c.run(fa, [R.this, R.x], R.m0)
            v = V(r.mem)
            c.require_equal(count(v, R.vec), padd(R.n, ONE), what='count')
            c.require_equal(v.vec(R.vec, R.n), R.x, what='last entry')
            c.require_equal(R.ix(v, R.x), R.n, what='index given to the object')
            fs = [j, psub(psub(R.n, j), ONE)]
            c.require_equal(v.vec(R.vec, j), R.old(j), fs, what='entries already there')
            o = R.old(j)
            c.require_equal(R.ix(v, o), R.ix(R.v0, o), fs, assume=bnot(veq(o, R.x)), what='indices already there')
            others(c, R, v, fa)
        c.ob('%s appends the object and gives it its position' % kind[2], adding, fa)

        def removing():
            R = Reg(c, kind)
            # the registry invariant: entries are distinct objects, each recording its own position
            k = var('k', True)
            last = psub(R.n, ONE)
            fs0 = [k, psub(last, k)]
            sym.FACTS.push(fs0)
            R.x, lo = R.old(k), R.old(last)
            R.m0 = M.store(R.m0, add(lo, const(off(R.cls, R.ixf))), 4, last)
            R.m0 = M.store(R.m0, add(R.x, const(off(R.cls, R.ixf))), 4, k)
            R.v0 = V(R.m0)
            r = c.run(fr, [R.this, R.x], R.m0)
            v = V(r.mem)
            j = var('j', True)
            tail = veq(k, last)
            c.require_equal(count(v, R.vec), last, fs0, what='count')
            c.require_equal(R.ix(v, R.x), const(-1), fs0, what='index of the removed object')
            fs = fs0 + [j, psub(psub(last, j), ONE)]
            c.require_equal(v.vec(R.vec, j), ite(veq(j, k), lo, R.old(j)), fs, what='remaining entries')
            c.require_equal(R.ix(v, lo), ite(tail, const(-1), k), fs0, what='index of the moved object')
            c.require_equal(R.ix(v, R.old(j)), R.ix(R.v0, R.old(j)), fs, assume=bnot(veq(j, k)),
                            what='indices of the others')
            others(c, R, v, fr)
        c.ob('%s keeps every remaining object at its recorded position' % kind[3], removing, fr)
        fc = c.fn(SYS + '::' + kind[5])

        def counts():
            R = Reg(c, kind)
            r = c.run(fc, [R.this], R.m0)
            c.require_equal(r.ret, R.n, what='count')
        c.ob('%s is the number of registered objects' % kind[5], counts, fc)
    fg = c.fn(SYS + '::getRigidBody')

    def get():
        R = Reg(c, KINDS[0])
        i = var('i', True)
        fs = [i, psub(psub(R.n, i), ONE)]
        sym.FACTS.push(fs)
        r = c.run(fg, [R.this, i], R.m0)
        sym.FACTS.pop()
        c.require_equal(r.ret, R.old(i), fs)
    c.ob('getRigidBody returns the entry at that position', get, fg)
    frs = c.fn(SYS + '::reset')

    def reset():
        R = Reg(c, KINDS[0])
        r = c.run(frs, [R.this], R.m0)
        v = V(r.mem)
        for k in KINDS:
            c.require_equal(count(v, fld(SYS, k[1], R.this)), ZERO, what=k[1])
    c.ob('reset empties every registry', reset, frs)
    ff = c.fn(SYS + '::getFullConstraintCount')

    def full():
        R = Reg(c, KINDS[1])
        r = c.run(ff, [R.this], R.m0)
        t = sym.fresh()
        w = sym.psum(t, R.v0.fi('Constraint', 'm_constraintCount', R.old(pa(t))), R.n)
        c.require_equal(r.ret, w)
    c.ob('getFullConstraintCount adds up the rows of every constraint', full, ff)
    for cls in ('RigidBody', 'ForceGenerator', 'Constraint'):
        f = c.fn('%s::%s' % (cls, cls))

        def fresh():
            scs.setup(c.m)
            o = var('obj', ptr=True)
            args = [o] + [const(1)] * (len(f.args) - 1)
            r = c.run(f, args, M.init('m0'))
            c.require_equal(V(r.mem).fi(cls, 'index' if cls == 'RigidBody' else 'm_index', o), const(-1))
        c.ob('a new %s is not registered' % cls, fresh, f)


def others(c, R, v, fn):
    """the other registries are left alone"""
    for k in KINDS:
        if k[1] == R.vf:
            continue
        vec = fld(SYS, k[1], R.this)
        c.require_equal(count(v, vec), vec_size(vec), what='size of ' + k[1])
        j = var('jo', True)
        c.require_equal(v.vec(vec, j), R.v0.vec(vec, j), [j, psub(psub(vec_size(vec), j), ONE)], what=k[1])
