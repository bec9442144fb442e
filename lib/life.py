"""Ownership typestate of the storage classes.

A lifecycle function is reduced, un-modelled, from each state its object may be in
(nothing owned, or one block per pointer field).  Every block that existed before or is
allocated on a path must afterwards be held by exactly one object or have been freed
exactly once, and what is held must be large enough for the dimensions reported."""
import memory as M
import scs
import sym
from ck import Broken, Undecided
from scs import V, fld, off
from sym import ONE, ZERO, Ite, Poly, add, atom, band, bnot, const, ite, mul, pa, psub, sub, var, veq

_n = [0]


class Obj:
    """an object of a storage class in one of its states"""

    def __init__(self, module, cls, owned, name):
        _n[0] += 1
        self.cls, self.owned, self.module = cls, owned, module
        self.name = '%s%d' % (name, _n[0])
        self.addr = var(self.name, ptr=True)
        self.fields = [f for f, (o, s, t) in module.layout(scs.NS + cls).items() if t.endswith('*')]
        self.ints = [f for f, (o, s, t) in module.layout(scs.NS + cls).items() if t == 'int']
        self.old = {}
        for f in self.fields:
            p = var('%s.%s' % (self.name, f), ptr=True) if owned else ZERO
            self.old[f] = p
            scs._pins[fld(cls, f, self.addr).id] = p
        if not owned:
            for f in self.ints:
                scs._pins[fld(cls, f, self.addr).id] = ZERO
        else:
            for f in self.ints:
                scs.nonneg(fld(cls, f, self.addr))

    def at(self, f):
        return fld(self.cls, f, self.addr)

    def p(self, v, f):
        return v.p(self.at(f))

    def i(self, v, f):
        return v.i(self.at(f))


def events(m):
    """[(condition, name, args)] of the allocations and frees on the way to m, in program order"""
    memo = {}

    def go(m):
        m = M.head(m)
        r = memo.get(m.id)
        if r is not None:
            return r
        if m.k == 'init':
            r = ()
        elif m.k == 'loop':
            if go_body(m.a[0]):
                raise Undecided('storage is allocated or freed in a loop')
            r = go(M.loop_prev(m.a[0], m.a[1]))
        elif m.k == 'ite':
            a, b = go(m.a[1]), go(m.a[2])
            n = 0
            while n < min(len(a), len(b)) and a[n] == b[n]:
                n += 1
            c = m.a[0]
            r = a[:n] + tuple((band(c, x[0]),) + x[1:] for x in a[n:]) + \
                tuple((band(bnot(c), x[0]),) + x[1:] for x in b[n:])
        else:
            r = go(m.a[0])
            if m.k == 'event' and m.a[1] in ('new', 'delete'):
                r = r + ((ONE, m.a[1], m.a[2], m.a[3]),)
        memo[m.id] = r
        return r

    def go_body(slot):
        seen, st = set(), [slot.body]
        while st:
            x = M.head(st.pop())
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == 'event' and x.a[1] in ('new', 'delete'):
                return True
            if x.k == 'loop':
                if x.a[0] is not slot:
                    st.append(x.a[0].body)
                    st.append(M.loop_prev(x.a[0], x.a[1]))
                continue
            st += [y for y in x.a if isinstance(y, M.Mem)]
        return False
    return go(m)


def is_leaf(v, p):
    """boolean: the pointer value v is exactly p"""
    if isinstance(v, Ite):
        return sym.ite_atom(v.c, is_leaf(v.hi, p), is_leaf(v.lo, p))
    return ONE if v is p else ZERO


def leaf_set(v):
    if isinstance(v, Ite):
        return leaf_set(v.hi) | leaf_set(v.lo)
    return {v}


def to01(c):
    return ite(c, ONE, ZERO)


def ledger(c, objs, m1, facts=(), dead=()):
    """every block has one owner, or was freed once"""
    v = V(m1)
    evs = events(m1)
    news = {}
    for cond, nm, args, info in evs:
        if nm == 'new':
            if args[0] in news:
                raise Undecided('one allocation site reached twice')
            news[args[0]] = (cond, args[1], info)
    blocks = {}
    for o in objs:
        for f in o.fields:
            if o.owned:
                blocks[o.old[f]] = (ONE, 'block of %s' % f)
    for p, (cond, sz, info) in news.items():
        blocks[p] = (cond, 'allocated block')
    held = {}
    for o in objs:
        if o in dead:
            continue
        for f in o.fields:
            held[o, f] = o.p(v, f)
            for l in leaf_set(held[o, f]):
                if l is not ZERO and l not in blocks:
                    raise Undecided('%s holds an address that is not a block: %s' % (f, sym.show(l)))
    freed = []
    for cond, nm, args, info in evs:
        if nm == 'delete':
            for l in leaf_set(args[0]):
                if l is not ZERO and l not in blocks:
                    raise Undecided('freed address is not a block: ' + sym.show(l))
            freed.append((cond, args[0], info))
    for p, (cond, what) in blocks.items():
        n = ZERO
        for dc, dp, info in freed:
            n = add(n, to01(band(dc, is_leaf(dp, p))))
        own = ZERO
        for o in objs:
            h = ZERO
            for f in o.fields:
                if (o, f) in held:
                    h = ite(is_leaf(held[o, f], p), ONE, h)
            own = add(own, h)
        what = '%s: times freed plus owners afterwards' % what
        c.require_equal(ite(cond, add(n, own), ONE), ONE, facts, what=what)
        # two fields sharing a block are two claims to free it
        two = ZERO
        for o in objs:
            s = ZERO
            for f in o.fields:
                if (o, f) in held:
                    s = add(s, to01(is_leaf(held[o, f], p)))
            two = add(two, s)
        c.require_equal(ite(cond, to01(sym.vlt(ONE, two, True)), ZERO), ZERO, facts, what='block held in two fields')
    # arrays are released as arrays
    for cond, dp, info in freed:
        for l in leaf_set(dp):
            arr = info[0].startswith('_Zda')
            made = news[l][2][0] == '_Znam' if l in news else True
            if l is not ZERO and arr != made:
                raise Broken('released with the wrong form of delete')
    return news


def blocksize(v, news, old):
    """bytes behind a pointer value"""
    if isinstance(v, Ite):
        return sym.ite_atom(v.c, blocksize(v.hi, news, old), blocksize(v.lo, news, old))
    if v is ZERO:
        return ZERO
    if v in news:
        return news[v][1]
    if v in old:
        return old[v]
    raise Undecided('size of the block at ' + sym.show(v))
