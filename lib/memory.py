"""Abstract memory: interned chains of effects over an initial store, read
through access paths.  No path is executed; a read is answered by walking the
chain of definitions that may reach it (gated SSA for memory)."""
import sym
from sym import (Poly, Ite, Atom, ZERO, ONE, const, pa, atom, psub, padd, pmul, pscale, lt0, eq0, ite,
                 band, bnot, bor, subst, distrib, FACTS)

_nodes = {}
_memo = {}


def clear_memo():
    _memo.clear()
    sym._sub.clear()


class Mem:
    __slots__ = ('k', 'a', 'id', 'fv', 'depth')

    def __repr__(self):
        return '<%s #%d>' % (self.k, self.id)

    def subst(self, mp):
        return msubst(self, mp)


def _fv(x):
    if isinstance(x, (Poly, Ite, Atom, Mem)):
        return x.fv
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _fv(y)
        return r
    return frozenset()


def _dp(x):
    if isinstance(x, (Poly, Ite, Atom, Mem)):
        return x.depth
    if isinstance(x, tuple):
        return max([_dp(y) for y in x] + [0])
    return 0


def _key(x):
    if isinstance(x, (Poly, Ite, Atom, Mem, Slot)):
        return ('#', x.id)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return x


def node(k, *a):
    key = (k,) + tuple(_key(x) for x in a)
    n = _nodes.get(key)
    if n is None:
        n = Mem()
        n.k, n.a = k, a
        sym._counter[0] += 1
        n.id = sym._counter[0]
        n.fv = _fv(a)
        n.depth = _dp(a)
        _nodes[key] = n
    return n


class Slot:
    """a loop: body memory effect of one iteration, over the iteration number"""

    def __init__(self, key, kappa, params, prev):
        sym._counter[0] += 1
        self.id = sym._counter[0]
        self.key = key
        self.kappa = kappa          # var atom
        self.params = params        # var atoms of enclosing loops
        self.prev = prev
        self.body = None            # Mem at the back edge
        self.trip = None            # Poly or None
        self.phis = {}
        self.cells = {}
        self.wanted = {}
        self.badcells = set()
        self.exit_stop = None
        self.where = ''

    def __repr__(self):
        return 'loop%d' % self.id


def init(token):
    return node('init', token)


def store(m, addr, size, val):
    if isinstance(addr, Ite):
        return mite_val(addr, lambda l: store(m, l, size, val))
    return node('store', m, addr, size, val)


def mite_val(v, f):
    if isinstance(v, Ite):
        return mite(sym._node(v.c, ONE, ZERO), mite_val(v.hi, f), mite_val(v.lo, f))
    return f(v)


def mite(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    return node('ite', c, a, b)


def mloop(slot, sig, k):
    if k is ZERO:
        return loop_prev(slot, sig)
    return node('loop', slot, sig, k)


def loop_prev(slot, sig):
    return msubst(slot.prev, dict(zip(slot.params, sig)))


def region(m, reg, gen):
    """gen: ('const', Value) | ('hv', name, args tuple) | ('copy', srcmem, srcptr Poly)
    reg: ('row', addr of table pointer) | ('arr', ptr) | ('range', ptr, len Value) ; plus
    guard Value in reg[-1]"""
    return node('region', m, reg, gen)


def event(m, name, args, info=()):
    return node('event', m, name, args, info)


def msubst(m, mp):
    """lazy substitution: a 'sub' node, pushed down one definition at a time by head()"""
    if not mp or m.fv.isdisjoint(mp):
        return m
    mp = {a: e for a, e in mp.items() if a in m.fv}
    if m.k == 'sub':
        inner, env = m.a
        new = {a: subst(e, mp) for a, e in env}
        for a, e in mp.items():
            if a in inner.fv and a not in new:
                new[a] = e
        return mksub(inner, new)
    return mksub(m, mp)


def mksub(m, mp):
    for a, e in mp.items():
        if isinstance(e, Ite):
            c = e.c

            def side(s):
                return mksub(m, {x: (sym.restrict(y, c, s) if isinstance(y, Ite) else y) for x, y in mp.items()})
            return mite(sym._node(c, ONE, ZERO), side(1), side(0))
    mp = {a: e for a, e in mp.items() if e is not pa(a)}
    if not mp:
        return m
    if m.k == 'init':
        return m
    env = tuple(sorted(mp.items(), key=lambda x: x[0].id))
    key = ('sub', m.id, tuple((a.id, e.id) for a, e in env))
    n = _nodes.get(key)
    if n is None:
        n = Mem()
        n.k, n.a = 'sub', (m, env)
        sym._counter[0] += 1
        n.id = sym._counter[0]
        n.fv = m.fv - frozenset(mp)
        n.depth = m.depth
        for e in mp.values():
            n.fv |= e.fv
            n.depth = max(n.depth, e.depth)
        _nodes[key] = n
    return n


def head(m):
    """the outermost definition, with the pending substitution pushed below it"""
    while m.k == 'sub':
        key = ('hd', m.id, FACTS.version)
        r = _memo.get(key)
        if r is None:
            cur, env = m.a
            r = _push(cur, dict(env))
            _memo[key] = r
        m = r
    return m


def _push(cur, mp):
    if cur.k == 'store':
        return store(msubst(cur.a[0], mp), subst(cur.a[1], mp), cur.a[2], sym.subst_any(cur.a[3], mp))
    if cur.k == 'region':
        return region(msubst(cur.a[0], mp), sub_tuple(cur.a[1], mp), sub_tuple(cur.a[2], mp))
    if cur.k == 'event':
        return event(msubst(cur.a[0], mp), cur.a[1], sub_tuple(cur.a[2], mp), sub_tuple(cur.a[3], mp))
    if cur.k == 'ite':
        return mite_any(subst(cur.a[0], mp), lambda: msubst(cur.a[1], mp), lambda: msubst(cur.a[2], mp))
    if cur.k == 'loop':
        slot, sig, k = cur.a
        s2 = tuple(subst(x, mp) for x in sig)
        k2v = subst(k, mp)

        def fin(vals, acc):
            if not vals:
                return mloop(slot, tuple(acc[:-1]), acc[-1])
            return mite_val(vals[0], lambda l: fin(vals[1:], acc + [l]))
        return fin(list(s2) + [k2v], [])
    if cur.k == 'sub':
        return msubst(cur, mp)
    raise AssertionError(cur.k)


def mite_any(c, f, g):
    if c is ONE:
        return f()
    if c is ZERO:
        return g()
    return mite(c, f(), g())


def sub_tuple(t, mp):
    if isinstance(t, tuple):
        return tuple(sub_tuple(x, mp) for x in t)
    if isinstance(t, Mem):
        return msubst(t, mp)
    if isinstance(t, (Poly, Ite)):
        return subst(t, mp)
    return t


# --- aliasing -----------------------------------------------------------------

def split(addr):
    """(base pointer atom, offset Poly) or (None, addr)"""
    base = None
    for m, c in addr.t.items():
        for a, e in m:
            if a.ptr and e == 1 and c == 1 and len(m) == 1:
                if base is not None:
                    return None, addr
                base = a
    if base is None:
        if not any(a.ptr for m in addr.t for a, e in m):
            return NULL, addr           # reached through a null pointer: no object at all
        return None, addr
    return base, psub(addr, pa(base))


NULL = atom('glob', '<null>', ptr=True)


OPAQUE_PTR = ('rd', 'mu', 'fn', 'hv')
DATA_OFFSET = [8]     # m_data field lies right after the row table field


def base_alias(x, y):
    """may two base pointers be the same object?  Value / None"""
    if x is y:
        return ONE
    if x is NULL or y is NULL:
        return ZERO
    if x.kind == 'ld' and y.kind == 'ld':
        if x.args[1] != y.args[1]:
            return None
        c = addr_eq(x.args[0], y.args[0])
        if c is ZERO:
            # row table entry versus the flat storage of the same matrix
            for p, q in ((x, y), (y, x)):
                b, o = split(p.args[0])
                if b is not None and b.kind == 'ld':
                    d = psub(q.args[0], b.args[0])
                    if d.is_const() and d.const() == DATA_OFFSET[0] and q.args[0].t:
                        return None
        return c
    for p, q in ((x, y), (y, x)):
        if p.kind in OPAQUE_PTR:
            return ZERO if q.kind in ('alloc', 'undefp') and p.kind == 'hv' else None
    return ZERO


def addr_eq(a, b):
    """cells of equal size at a and b: same cell?"""
    if a is b:
        return ONE
    key = ('ae', a.id, b.id, FACTS.version)
    r = _memo.get(key)
    if r is None:
        ba, oa = split(a)
        bb, ob = split(b)
        if ba is None or bb is None:
            r = (None,)
        else:
            c = base_alias(ba, bb)
            if c is None:
                r = (None,)
            elif c is ZERO:
                r = (ZERO,)
            else:
                r = (band(c, eq0(psub(oa, ob))),)
        _memo[key] = r
    return r[0]


def typed_apart(sa, sb):
    """objects of different fundamental width are different objects (C++ strict aliasing)"""
    return sa != sb and sa in (1, 4, 8) and sb in (1, 4, 8)


def alias(a, sa, b, sb):
    if sa == sb:
        c = addr_eq(a, b)
        if c is ZERO or c is None or c is ONE:
            if c is ZERO:
                ba, oa = split(a)
                bb, ob = split(b)
                if ba is bb and ba is not None:
                    d = psub(oa, ob)
                    if d.is_const() and abs(d.const()) < sa:
                        return None
            return c
        return c
    ba, oa = split(a)
    bb, ob = split(b)
    if ba is None or bb is None:
        return ZERO if typed_apart(sa, sb) else None
    c = base_alias(ba, bb)
    if c is ZERO or c is None:
        return ZERO if typed_apart(sa, sb) else c
    d = psub(oa, ob)
    if d.is_const():
        d = d.const()
        return ZERO if d >= sb or -d >= sa else None
    if typed_apart(sa, sb):
        return ZERO
    if sym.entails_nonneg(psub(d, const(sb))) or sym.entails_nonneg(psub(sym.pneg(d), const(sa))):
        return ZERO
    return None


def in_region(reg, a, size):
    """(cond or None, offsets tuple)"""
    base, off = split(a)
    if base is None or isinstance(reg[1], Ite):
        return None, ()
    kind = reg[0]
    if kind == 'row':
        if base.kind in OPAQUE_PTR:
            return None, ()
        if base.kind != 'ld':
            return ZERO, ()
        tb, to = split(base.args[0])
        if tb is None:
            return None, ()
        if tb.kind != 'ld':
            # flat storage of the same matrix?
            d = psub(base.args[0], reg[1])
            if d.is_const() and d.const() == DATA_OFFSET[0]:
                return None, ()
            return (None if tb.kind in OPAQUE_PTR else ZERO), ()
        c = addr_eq(tb.args[0], reg[1])
        return c, (to, off)
    if kind == 'arr':
        pb, po = split(reg[1])
        if pb is None:
            return None, ()
        c = base_alias(base, pb)
        return c, (psub(off, po),)
    if kind == 'range':
        pb, po = split(reg[1])
        if pb is None:
            return None, ()
        c = base_alias(base, pb)
        if c is None or c is ZERO:
            return c, ()
        o = psub(off, po)
        inr = band(bnot(lt0(o)), sym.vlt(o, reg[2], True))
        return band(c, inr), (o,)
    raise AssertionError(kind)


# --- footprints --------------------------------------------------------------------

def _generic(x, tag):
    """rename every variable that a substitution may instantiate"""
    return x


def free_of(d, a, size):
    """effect d = (kind, address/region, size) with anonymous variables never meets a cell
    based on the same pointer as a (access paths differ whatever the indices are)"""
    ba, oa = split(a)
    if ba is None:
        return False
    key = ('fo', d, ba.id, size)
    r = _memo.get(key)
    if r is None:
        n = _DEFS[d]
        if n[0] == 'store' and isinstance(n[1], Ite):
            r = typed_apart(size, n[2])
        elif n[0] == 'store':
            bb, ob = split(n[1])
            r = bb is not None and base_alias(ba, bb) is ZERO or typed_apart(size, n[2])
        else:
            reg = n[1]
            if isinstance(reg[1], Ite):
                r = False
            elif reg[0] == 'row':
                c, _ = in_region(reg, a, 8)
                r = c is ZERO
            else:
                pb, po = split(reg[1])
                r = pb is not None and base_alias(ba, pb) is ZERO
        _memo[key] = r
    return r


_DEFS = []
_defidx = {}
_anon = {}


def anon_of(v):
    """v with its variables replaced by variables used nowhere else"""
    if isinstance(v, Ite):
        return v
    mp = {}
    for i, x in enumerate(sorted(v.fv, key=lambda x: x.id)):
        y = _anon.get((i, x.isint, x.ptr))
        if y is None:
            y = _anon[(i, x.isint, x.ptr)] = atom('var', '?%d%s%s' % (i, 'i' if x.isint else '', 'p' if x.ptr else ''),
                                                 isint=x.isint, ptr=x.ptr)
        if x.kind == 'var' and not x.ptr:
            mp[x] = pa(y)
    r = subst(v, mp)
    return r


def def_id(n):
    """effect of a store/region node up to renaming of indices"""
    key = ('df', n.id)
    r = _memo.get(key)
    if r is None:
        if n.k == 'store':
            v = anon_of(n.a[1])
            b, o = (None, None) if isinstance(v, Ite) else split(v)
            k = ('store', b.id if b is not None else v.id, n.a[2])
            d = ('store', v, n.a[2])
        else:
            reg = n.a[1]
            v = anon_of(reg[1])
            k = ('region', reg[0], v.id)
            d = ('region', (reg[0], v) + tuple(reg[2:]))
        r = _defidx.get(k)
        if r is None:
            r = _defidx[k] = len(_DEFS)
            _DEFS.append(d)
        _memo[key] = r
    return r


def untouched(n, a, size):
    if n.k == 'event':
        return True
    return free_of(def_id(n), a, size)


def footprint(m, slot):
    """effects between the start of an iteration of slot and m: frozenset of def ids, None when unknown"""
    key = ('fp', m.id, slot.id)
    r = _memo.get(key)
    if r is not None:
        return r[0]
    acc = set()
    seen = set()
    stack = [m]
    ok = True
    tainted = _taint[0]
    while stack and ok:
        x = stack.pop()
        while True:
            if x.id in seen:
                break
            seen.add(x.id)
            if x.k == 'sub':
                x = x.a[0]
                continue
            if x.k in ('store', 'region'):
                acc.add(def_id(x))
                x = x.a[0]
                continue
            if x.k == 'event':
                x = x.a[0]
                continue
            if x.k == 'ite':
                stack.append(x.a[1])
                x = x.a[2]
                continue
            if x.k == 'loop':
                s = x.a[0]
                if s is slot:
                    break
                f = slot_footprint(s)
                if f is None:
                    ok = False
                    break
                acc |= f
                x = s.prev
                continue
            # reached an initial memory: the slot does not start from here
            break
    r = frozenset(acc) if ok else None
    if _taint[0] == tainted:
        _memo[key] = (r,)
    return r


_fpbusy = set()
_taint = [0]        # counts answers given while the footprint asked for was being computed


def slot_footprint(s):
    if s.body is None:
        return None if s in OPEN else frozenset()
    if s in _fpbusy:
        _taint[0] += 1
        return None
    _fpbusy.add(s)
    try:
        return footprint(s.body, s)
    finally:
        _fpbusy.discard(s)


def slot_untouched(s, a, size):
    if isinstance(a, Ite) or s.body is None:
        return False
    ba, _ = split(a)
    if ba is None:
        return False
    key = ('su', s.id, s.body.id, ba.id, size)
    r = _memo.get(key)
    if r is None:
        tainted = _taint[0]
        f = slot_footprint(s)
        r = f is not None and all(free_of(d, a, size) for d in f)
        if _taint[0] == tainted:
            _memo[key] = r
    return r


# --- reading ---------------------------------------------------------------------

INIT_HOOKS = []       # (addr Poly, ty, token) -> Value or None
RANGE_HOOKS = []


def init_read(a, ty, token):
    for h in INIT_HOOKS:
        r = h(a, ty, token)
        if r is not None:
            return r
    b, o = split(a)
    if b is not None and b.kind == 'alloc':
        return pa(atom('undef', a, ty, isint=ty == 'i', ptr=ty == 'p'))
    return pa(atom('ld', a, token, isint=ty == 'i', ptr=ty == 'p'))


def opaque(m, a, size, ty):
    return pa(atom('rd', m, a, size, ty, isint=ty == 'i', ptr=ty == 'p', flag='rd'))


_depth = [0]


STOPS = {}          # loop-start memory node -> (address, symbolic content)


def read(m, a, size, ty):
    if isinstance(a, Ite):
        return distrib(a, lambda l: read(m, l, size, ty))
    key = ('r', m.id, a.id, size, ty, FACTS.version)
    r = _memo.get(key)
    if r is not None:
        return r
    if split(a)[0] is NULL:
        # no object there: such a path is never taken
        r = ZERO if ty == 'p' else pa(atom('undef', a, ty, isint=ty == 'i'))
    else:
        r = _read(m, a, size, ty)
    _memo[key] = r
    return r


def _read(m, a, size, ty):
    pend = []          # (cond, value) latest first
    while True:
        k = m.k
        if k == 'sub':
            # skip definitions that cannot touch the cell before substituting into them
            inner, env = m.a
            if inner.k in ('store', 'region', 'event') and untouched(inner, a, size):
                m = msubst(inner.a[0], dict(env))
                continue
            m = head(m)
            continue
        if k == 'store':
            prev, b, sz, v = m.a
            c = alias(a, size, b, sz)
            if c is ZERO:
                m = prev
                continue
            if c is None:
                base = opaque(m, a, size, ty)
                break
            if isinstance(v, tuple):
                base = opaque(m, a, size, ty)
                break
            if c is ONE:
                base = v
                break
            if isinstance(v, Ite) and 'rd' in v.flags and c.c.kind == 'eq0' and c.hi is ONE and c.lo is ZERO:
                v = sym.under_eq(v, c.c.args[0])
            pend.append((c, v))
            m = prev
            continue
        if k == 'event':
            m = m.a[0]
            continue
        if k == 'region':
            prev, reg, gen = m.a
            c, offs = in_region(reg, a, size)
            if c is ZERO or (c is not None and reg[-1] is ZERO):
                m = prev
                continue
            if c is None:
                base = opaque(m, a, size, ty)
                break
            v = gen_value(gen, offs, size, ty, m, a)
            c = band(c, reg[-1])
            if c is ONE:
                base = v
                break
            pend.append((c, v))
            m = prev
            continue
        if k == 'ite':
            c, x, y = m.a
            base = ite(c, read(x, a, size, ty), read(y, a, size, ty))
            break
        if k == 'init':
            base = init_read(a, ty, m.a[0])
            break
        if k == 'loop':
            st = STOPS.get(m)
            if st is not None:
                base = read_stop(m, st, a, size, ty)
            else:
                base = read_loop(m, a, size, ty)
            break
        raise AssertionError(k)
    for c, v in reversed(pend):
        base = ite(c, v, base)
    return base


def read_stop(m, st, a, size, ty):
    q, qs, phi = st
    c = alias(a, size, q, qs)
    if c is ONE:
        return phi
    if c is None:
        return opaque(m, a, size, ty)
    if c is ZERO:
        return read_loop(m, a, size, ty)
    return ite(c, phi, opaque(m, a, size, ty))


def gen_value(gen, offs, size, ty, m, a):
    if gen[0] == 'const':
        return gen[1]
    if gen[0] == 'byte':
        b = gen[1]
        if b is ZERO:
            return ZERO
        if b.is_const() and b.const() in (255, -1) and ty == 'i':
            return const(-1)
        return pa(atom('fn', 'bytes', b, const(size), isint=ty == 'i', ptr=ty == 'p'))
    if gen[0] == 'hv':
        return hv(gen[1], gen[2], offs, ty)
    if gen[0] == 'copy':
        return read(gen[1], padd(gen[2], offs[-1]), size, ty)
    if gen[0] == 'row':       # copy of a matrix: rows of another matrix
        src, tab = gen[1], gen[2]
        rowp = read(src, tab, 8, 'p')
        rp = read(src, sym.add(rowp, offs[0]), 8, 'p')
        return read(src, sym.add(rp, offs[1]), size, ty)
    if gen[0] == 'fn':
        return gen[1](gen, offs, size, ty)
    raise AssertionError(gen)


def hv(name, args, offs, ty):
    vals = [x for x in args] + [o for o in offs]

    def go(i, acc):
        if i == len(vals):
            return pa(atom('hv', name, ty, *acc, isint=ty == 'i', ptr=ty == 'p'))
        v = vals[i]
        if isinstance(v, Ite):
            return distrib(v, lambda l: go(i + 1, acc + (l,)))
        return go(i + 1, acc + (v,))
    return go(0, ())


_level = [0]
OPEN = {}            # slot -> True while its body is being evaluated


def read_loop(m, a, size, ty):
    slot, sig, K = m.a
    prev = loop_prev(slot, sig)
    if slot.body is None:
        return read(prev, a, size, ty)
    if slot_untouched(slot, a, size):
        return read(prev, a, size, ty)
    if slot.cells:
        env = dict(zip(slot.params, sig))
        for ca, cs, ct, form in slot.cells.values():
            if subst(ca, env) is a and cs == size:
                env[slot.kappa] = K
                return subst(form, env)
    is_open = slot in OPEN and K.single_atom() is slot.kappa and \
        all(x.single_atom() is y for x, y in zip(sig, slot.params))
    if is_open:
        n, phi, t = iterate(m, a, size, ty)
        if n is not None and n is pa(phi):
            return read(prev, a, size, ty)
        slot.wanted[(a.id, size)] = (a, size, ty)
        return opaque(m, a, size, ty)
    n, phi, t = iterate(m, a, size, ty)
    if n is None:
        return opaque(m, a, size, ty)
    if n is pa(phi):
        return read(prev, a, size, ty)
    return solve_rec(n, phi, t, K, lambda: read(prev, a, size, ty), lambda: opaque(m, a, size, ty))


def iterate(m, a, size, ty):
    """content of cell a after one more iteration t (0 <= t < K), phi = content before"""
    slot, sig, K = m.a
    if _level[0] > 12:
        return None, None, None
    t = atom('var', 'q%d.%d' % (slot.id, _level[0]), isint=True)
    tp = pa(t)
    env = dict(zip(slot.params, sig))
    env[slot.kappa] = tp
    phi = atom('var', 'phi%s.%d' % (t.args[0], a.id), isint=ty == 'i', ptr=ty == 'p')
    php = pa(phi)
    bottom = mloop(slot, sig, tp)
    STOPS[bottom] = (a, size, php)
    _level[0] += 1
    FACTS.push([tp, psub(psub(K, tp), ONE)])
    try:
        body = msubst(slot.body, env)
        n = read(body, a, size, ty)
    finally:
        FACTS.pop()
        _level[0] -= 1
        del STOPS[bottom]
    return n, phi, t


def solve_rec(n, phi, t, K, prevf, opaquef):
    """value after K iterations of  phi := n(phi, t)  starting from prevf()"""
    php = pa(phi)
    if n is php:
        return prevf()
    # invariant conditions stay outside
    if isinstance(n, Ite):
        inv = sorted([c for c in sym.conds(n) if t not in c.fv and phi not in c.fv], key=lambda c: c.id)
        if inv:
            c = inv[0]
            return sym.ite_atom(c, solve_rec(sym.restrict(n, c, 1), phi, t, K, prevf, opaquef),
                                solve_rec(sym.restrict(n, c, 0), phi, t, K, prevf, opaquef))
    if 'rd' in n.flags and any(a.kind == 'rd' and (t in a.args[0].fv or phi in a.args[0].fv)
                               for a in sym.all_atoms(n)):
        return opaquef()
    d = sym.sub(n, php)
    if phi not in d.fv:
        return sym.add(prevf(), sym.psum(t, d, K))
    if phi not in n.fv:
        # unconditional overwrite: last iteration
        last = subst(n, {t: psub(K, ONE)})
        c = bnot(lt0(psub(K, ONE)))
        return ite(c, last, prevf()) if c is not ONE else last
    # selective overwrite
    ch = changed(n, php)
    stars = []
    for lits, leaf in sym.paths(ch):
        if leaf is ZERO:
            continue
        s = pinned(lits, t)
        if s is None:
            r = periodic_last(n, ch, phi, t, K, prevf)
            return r if r is not None else opaquef()
        if s is INFEASIBLE:
            continue
        if s not in stars:
            stars.append(s)
    # one value per star; stars pairwise distinct by construction or ordered by constant gaps
    base = prevf()
    if not stars:
        return base
    order = []
    for s in stars:
        d0 = psub(s, stars[0])
        if not d0.is_const():
            return opaquef()
        order.append((d0.const(), s))
    order.sort(key=lambda x: x[0])
    v = base
    for _, s in order:
        # a non-integral star never is an iteration
        if sym.nonint_surely(s):
            continue
        if not sym.int_coefs(s):
            return opaquef()
        c = band(bnot(lt0(s)), lt0(psub(s, K)))
        if c is ZERO:
            continue
        nv = subst(n, {t: s})
        nv = sym.distrib(v, lambda l: subst(nv, {phi: l})) if phi in nv.fv else nv
        v = ite(c, nv, v)
    return v


def periodic_last(n, ch, phi, t, K, prevf):
    return None


def changed(n, php):
    if isinstance(n, Ite):
        return sym.ite_atom(n.c, changed(n.hi, php), changed(n.lo, php))
    return ZERO if n is php else ONE


INFEASIBLE = object()


def pinned(lits, t):
    """literals force t to a single value: return it (Poly) / None / INFEASIBLE"""
    los, his = [], []
    for c, side in lits:
        if t not in c.fv:
            continue
        if c.kind == 'eq0' and side:
            s = sym.solve_linear(c.args[0], t)
            if s is not None:
                return s
            s = prefix_eq(c.args[0], t)
            if s is not None:
                return s
        if c.kind == 'lt0' and c.args[1] == 'i':
            p = c.args[0]
            if not side:
                p = psub(sym.pneg(p), ONE)     # p>=0  <=> -p-1 < 0
            # p < 0
            (his if _coef(p, t) > 0 else los).append(p)
    # p<0 with coefficient a>0: t < rest  => t <= ceil(rest)-1
    ups, lows = [], []
    for p in his:
        s = sym.solve_linear(p, t)
        if s is not None:
            ups.append((s, 1))     # t < s
    for p in los:
        s = sym.solve_linear(p, t)
        if s is not None:
            lows.append(s)         # t > s
    for u, _ in ups:
        for l in lows:
            d = psub(u, l)
            if d.is_const():
                if d.const() <= 1:
                    return INFEASIBLE if sym.int_coefs(u) and sym.int_coefs(l) else None
                if d.const() == 2 and sym.int_coefs(u):
                    return psub(u, ONE)
    # with facts 0<=t<K
    for u, _ in ups:
        if u is ONE:
            return ZERO
    # prefix sums: X - PS(t) >= 0 and PS(t)+f(t) - X > 0 with PS(J) <= X < PS(J)+f(J)
    return prefix_pin(los + his, t)


def _coef(p, t):
    for m, c in p.t.items():
        if m == ((t, 1),):
            return c
    for m, c in p.t.items():
        if any(t in a.fv for a, e in m):
            return c
    return 0


def prefix_eq(q, t):
    return None


def prefix_pin(ps, t):
    cands = []
    for p in ps:
        mine, other = [], []
        for a in p.atoms():
            if a.kind == 'ps':
                (mine if t in a.args[2].fv else other).append(a)
        for a in mine:
            for b in other:
                if a.args[0] == b.args[0] and a.args[1] is b.args[1]:
                    s = sym.solve_linear(psub(a.args[2], b.args[2]), t)
                    if s is not None and s not in cands:
                        cands.append(s)
    for s in cands:
        # every bound must hold at t = s  (p < 0)
        lo = hi = False
        ok = True
        for p in ps:
            if t not in p.fv or not any(a.kind == 'ps' and t in a.args[2].fv for a in p.atoms()):
                continue
            v = subst(p, {t: s})
            if isinstance(v, Ite) or not sym.entails_nonneg(psub(sym.pneg(v), ONE)):
                ok = False
                break
            for a in p.atoms():
                if a.kind == 'ps' and t in a.args[2].fv:
                    c = p.t.get(((a, 1),), 0)
                    if c > 0:
                        lo = True
                    elif c < 0:
                        hi = True
        if ok and lo and hi:
            return s
    return None


# --- substitution hooks ------------------------------------------------------------

def _rb_rd(a, mp):
    m, addr, size, ty = a.args
    m2 = msubst(m, mp)
    a2 = subst(addr, mp)
    return read(m2, a2, size, ty)


def _rb_ld(a, mp):
    ty = 'p' if a.ptr else 'i' if a.isint else 'd'
    return distrib(subst(a.args[0], mp), lambda l: init_read(l, ty, a.args[1]))


def _rb_hv(a, mp):
    ty = a.args[1]
    return hv(a.args[0], tuple(sym.subst_any(x, mp) for x in a.args[2:]), (), ty)


def _rb_ex(a, mp):
    lvl, body, T = a.args
    t = sym.fresh()
    b2 = subst(subst(body, {sym.bv(lvl): pa(t)}), mp)
    return distrib(subst(T, mp), lambda l: exists(t, b2, l))


def _rb_fi(a, mp):
    lvl, body = a.args
    t = sym.fresh()
    b2 = subst(subst(body, {sym.bv(lvl): pa(t)}), mp)
    return first_index(t, b2)


def _rb_mx(a, mp):
    lvl, body, K, i0 = a.args
    t = sym.fresh()
    b2 = subst(subst(body, {sym.bv(lvl): pa(t)}), mp)
    return mxred(t, b2, subst(K, mp), subst(i0, mp))


def exists(t, c, T):
    """boolean: some 0<=t<T has c(t)"""
    if isinstance(T, Ite):
        return distrib(T, lambda l: exists(t, c, l))
    if c is ZERO or T is ZERO:
        return ZERO
    if t not in c.fv:
        return band(c, bnot(lt0(psub(T, ONE))))
    if isinstance(c, Ite):
        inv = sorted([x for x in sym.conds(c) if t not in x.fv], key=lambda x: x.id)
        if inv:
            x = inv[0]
            return sym.ite_atom(x, exists(t, sym.restrict(c, x, 1), T), exists(t, sym.restrict(c, x, 0), T))
    lvl, cl = sym.closure(t, c)
    return sym._node(atom('ex', lvl, cl, T, binder=True), ONE, ZERO)


def first_index(t, c):
    if t not in c.fv and c is ONE:
        return ZERO
    for n in range(32):
        v = subst(c, {t: const(n)})
        if v is ONE:
            return const(n)
        if v is not ZERO:
            break
    lvl, cl = sym.closure(t, c)
    return pa(atom('fi', lvl, cl, isint=True, binder=True, flag='fi'))


def mxred(t, g, K, i0):
    if isinstance(K, Ite) or isinstance(i0, Ite) or isinstance(g, Ite):
        g = g if not isinstance(g, Ite) else g
    lvl, cl = sym.closure(t, g)

    def go(k):
        return distrib(i0, lambda i: pa(atom('mx', lvl, cl, k, i, binder=True)))
    return distrib(K, go)


sym.ATOM_REBUILD['rd'] = _rb_rd
sym.ATOM_REBUILD['ld'] = _rb_ld
sym.ATOM_REBUILD['hv'] = _rb_hv
sym.ATOM_REBUILD['ex'] = _rb_ex
sym.ATOM_REBUILD['fi'] = _rb_fi
sym.ATOM_REBUILD['mx'] = _rb_mx
