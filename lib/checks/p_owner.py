"""C32: destruction releases every block an object owns exactly once, and nothing else"""
import re

import ck
import effects
import life
import memory as M
import scs
import sym
from ck import Broken, Undecided
from scs import V
from sym import ONE, ZERO, add, band, const, ite, var

NS = scs.NS


def cells(m, cls, base=0, pre=''):
    """(name, offset, type) of every scalar field, members included; vectors look after themselves"""
    for f, (o, sz, t) in sorted(m.layout(cls).items(), key=lambda x: x[1][0]):
        if t.startswith('std::'):
            continue
        if t in m.types and 'm' in m.types[t]:
            yield from cells(m, t, base + o, pre + f + '.')
        elif '[' not in t:
            yield pre + f, base + o, t


def owning(t):
    """a pointer to plain numbers, or to such pointers, is storage of the object"""
    b = t.replace('const', '').strip()
    return b.endswith('*') and re.sub(r'[\s*]', '', b) in (
        'double', 'float', 'int', 'longlong', 'long', 'char', 'unsignedchar', 'unsignedint', 'bool', 'short')


def dtor(m, cls):
    short = cls.rsplit('::', 1)[-1]
    name = short.split('<')[0]
    fs = [f for f in m.funcs.values() if not f.decl and f.dem.startswith(cls + '::~' + name)]
    for tag in ('D1Ev', 'D2Ev'):
        for f in fs:
            if tag in f.name:
                return f
    return None


def ctor(m, cls):
    short = cls.rsplit('::', 1)[-1]
    name = short.split('<')[0]
    for tag in ('C1Ev', 'C2Ev'):
        for f in m.funcs.values():
            if not f.decl and tag in f.name and f.dem.startswith(cls + '::' + name) and len(f.args) == 1:
                return f
    return None


def classes(m):
    for cls in sorted(m.types):
        if not cls.startswith(NS) or 'm' not in m.types[cls] or '<' in cls and cls != NS + 'SparseMatrix<3, 2>':
            continue
        yield cls


_n = [0]


def destroyed(c, f, cls, full, use):
    """run the destructor on an object that owns a block per storage field, or nothing"""
    scs.setup(c.m)
    _n[0] += 1
    this = var('obj%d' % _n[0], ptr=True)
    blocks, other = {}, {}
    for nm, o, t in cells(c.m, cls):
        a = add(this, const(o))
        if owning(t):
            if full and fillable(use, o):
                p = var('blk%d_%s' % (_n[0], nm), ptr=True)
                blocks[p] = nm
                scs._pins[a.id] = p
            else:
                scs._pins[a.id] = ZERO
        elif t.endswith('*'):
            p = var('ref%d_%s' % (_n[0], nm), ptr=True)
            other[p] = nm
            scs._pins[a.id] = p
        elif t == 'int':
            if full:
                scs.nonneg(a)
            else:
                scs._pins[a.id] = ZERO
    r = c.run(f, [this], M.init('m0'), raw=True)
    settle(life.events(r.mem), blocks, other, vectors(c.m, cls, this))


def settle(evs, blocks, other, vec=()):
    blocks = {p: (ONE, n) for p, n in blocks.items()}
    arrays = {p: True for p in blocks}
    for cond, nm, args, info in evs:
        if nm == 'new':
            blocks[args[0]] = (cond, 'block made at construction')
            arrays[args[0]] = info[0] == '_Znam'
    freed = [(cond, args[0], info) for cond, nm, args, info in evs if nm == 'delete']
    for cond, p, info in freed:
        for l in life.leaf_set(p):
            if l is ZERO or l in blocks or l.single_atom() is not None and l.single_atom().kind == 'ld' and \
                    l.single_atom().args[0] in vec:
                continue
            if l in other:
                raise Broken('releases %s, which it does not own' % other[l])
            raise Undecided('released address is not understood: ' + sym.show(l)[:200])
    for p, (made, what) in blocks.items():
        n = ZERO
        for cond, q, info in freed:
            hit = band(cond, life.is_leaf(q, p))
            n = add(n, life.to01(hit))
            if hit is not ZERO and info[0].startswith('_Zda') != arrays[p]:
                raise Broken('%s is released with the wrong form of delete' % what)
        v = sym.equal(ite(made, n, ONE), ONE)
        if v.ok:
            continue
        if n is ZERO:
            raise Broken('%s is never released' % what)
        if n.is_const() if isinstance(n, sym.Poly) else False:
            raise Broken('%s is released %s times' % (what, n.const()))
        yield_bad(v, n, what)


def yield_bad(v, n, what):
    import witness
    for lits, leaf, xf in v.bads[:16]:
        if witness.refute(leaf, list(v.facts) + list(xf), lits, seed=1) is not None:
            raise Broken('%s is released %s times' % (what, sym.show(n)[:300]))
    raise Undecided('%s: number of releases %s' % (what, sym.show(n)[:200]))


def cycle(c, f, g, cls):
    scs.setup(c.m)
    _n[0] += 1
    this = var('obj%d' % _n[0], ptr=True)
    r = c.run(f, [this], M.init('m0'), raw=True)
    r = c.run(g, [this], r.mem, raw=True)
    settle(life.events(r.mem), {}, {}, vectors(c.m, cls, this))


def bases(m, cls):
    out = [cls]
    for x in m.types[cls]['m']:
        if x['inh'] and x['t'] in m.types:
            out += bases(m, x['t'])
    return out


def vectors(m, cls, this, base=0):
    """addresses of the buffer pointers of the vectors inside an object"""
    out = []
    for f, (o, sz, t) in m.layout(cls).items():
        if t.startswith('std::vector'):
            out.append(add(this, const(base + o)))
        elif t in m.types and 'm' in m.types[t] and not t.startswith('std::'):
            out += vectors(m, t, this, base + o)
    return out


def used(c, E, cls):
    """offsets of the storage fields some operation of the class may fill"""
    m = c.m
    out = set()
    names = bases(m, cls)
    for n, S in E.sum.items():
        f = m.funcs[n]
        q = f.dem.split('(')[0]
        k = q.rsplit('::', 1)
        if len(k) != 2 or k[0] not in names or k[1].lstrip('~') == k[0].rsplit('::', 1)[-1].split('<')[0]:
            continue
        for (root, path), w in S.mods.items():
            if root == ('arg', 0) and len(path) == 1 and w[2] != 'free':
                out.add(path[0])
        for (root, path) in ret_locs(S):
            if root == ('arg', 0) and path:
                out.add(('from', path[0]))
    return out


def ret_locs(S):
    for x in S.ret:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
            yield x


def fillable(use, o):
    for u in use:
        if u == o:
            return True
        if isinstance(u, str) and u.endswith('+') and o >= int(u[:-1]):
            return True
        if isinstance(u, tuple):
            b = u[1]
            b = int(b[:-1]) if isinstance(b, str) else b
            if b <= o < b + 200:
                return True
    return False


def c32(c):
    m = c.m
    n = 0
    E = effects.Effects(m)
    for cls in classes(m):
        short = cls.split('::', 1)[1]
        if '::' in short:
            continue             # parts of another class: released by their owner
        own = [x for x in cells(m, cls) if owning(x[2])]
        d = dtor(m, cls)
        virtual(c, cls, short)
        if d is None:
            if own:
                c.rule('%s has a destructor' % short, None, 'not found in the analysed module')
            continue
        frees(c, E, d, cls, short)
        if not own:
            continue
        n += 1
        rel = c.fn(short.split('<')[0] + ('<3, 2>' if '<' in short else '') + '::destroy', need=False)
        what = 'destruction'
        if rel is not None and len(rel.args) == 1:
            d, what = rel, 'destroy()'      # released by hand; the destructor only insists on it
        use = used(c, E, cls)
        c.ob('%s: %s releases every block once' % (short, what), lambda: destroyed(c, d, cls, True, use), where=d)
        c.ob('%s: %s of an object that owns nothing releases nothing' % (short, what), lambda: destroyed(c, d, cls, False, use), where=d)
        k = ctor(m, cls)
        if k is not None:
            c.ob('%s: everything made at construction is released by %s' % (short, what), lambda: cycle(c, k, d, cls), where=d)
    if n < 6:
        raise ck.Anchor('only %d owning classes found' % n)


def virtual(c, cls, short):
    g = [k for k in c.m.globals if k.startswith('_ZTV') and k.endswith('%d%sE' % (len(short), short))]
    if not g:
        return
    es = str(c.m.globals[g[0]])
    if '_ZN' not in es and 'pure' not in es:
        return
    c.rule('%s: destruction through a base class reaches its own destructor' % short, 'D0Ev' in es or 'D1Ev' in es, 'destructor is not virtual')


def frees(c, E, d, cls, short):
    S = E.sum.get(d.name)
    if S is None:
        return
    good = {o for nm, o, t in cells(c.m, cls) if owning(t)}
    vec = {int(sym.sub(a, var('q', ptr=True)).const()) for a in vectors(c.m, cls, var('q', ptr=True))}
    bad = []
    for (root, path), why in S.mods.items():
        if why[2] != 'free':
            continue
        if root == ('arg', 0) and len(path) == 2 and (path[0] in good or path[0] in vec):
            continue
        bad.append(((root, path), why))
    c.rule('%s: destruction releases only storage of the object itself' % short, False if bad else True,
           '; '.join('line %s releases %s' % (w[1], l) for l, w in bad[:3]), where=d)
