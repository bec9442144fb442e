"""The simulation state record: storage and copies."""
import life
import memory as M
import scs
import sym
from ck import Broken, Undecided
from life import Obj
from scs import REACTIONS, STATE_ARRAYS, V, fld
from sym import ONE, ZERO, Poly, add, band, bnot, const, ite, mul, psub, var, veq

CLS = 'SystemState'


def need(n, nc):
    r = {f: mul(const(8), n) for f in STATE_ARRAYS}
    r.update({f: mul(const(16), nc) for f in REACTIONS})
    r['indexMap'] = mul(const(4), nc)
    return r


def width(f):
    return 4 if f == 'indexMap' else 8


class S:
    """a state that owns nothing or room for what it counts, and perhaps a second one"""

    def __init__(self, c, owned, other=None, zero=()):
        scs.setup(c.m)
        self.c = c
        self.o = Obj(c.m, CLS, owned, 's')
        self.objs = [self.o]
        self.x = None
        if other is not None:
            self.x = Obj(c.m, CLS, other, 'q')
            self.objs.append(self.x)
            for f in zero:
                scs._pins[self.x.at(f).id] = ZERO
        self.m0 = M.init('m0')
        self.v0 = V(self.m0)
        self.facts = []

    def run(self, f, args):
        sym.FACTS.push(self.facts)
        r = self.c.run(f, [self.o.addr] + list(args), self.m0, raw=True)
        self.v1 = V(r.mem)
        self.m1 = r.mem
        self.news = life.ledger(self.c, self.objs, self.m1, self.facts)

    def old(self):
        r = {}
        for o in self.objs:
            if o.owned:
                nd = need(o.i(self.v0, 'n'), o.i(self.v0, 'n_c'))
                for f in o.fields:
                    if f in nd:
                        r[o.old[f]] = nd[f]
        return r

    def room(self, n, nc):
        c, v = self.c, self.v1
        c.require_equal(self.o.i(v, 'n'), n, self.facts, what='n')
        c.require_equal(self.o.i(v, 'n_c'), nc, self.facts, what='n_c')
        old = self.old()
        for f, want in need(n, nc).items():
            have = life.blocksize(self.o.p(v, f), self.news, old)
            c.require(bnot(sym.vlt(have, want, True)), self.facts, what='bytes behind %s' % f)

    def empty(self):
        c, v = self.c, self.v1
        for f in self.o.fields:
            c.require_equal(self.o.p(v, f), ZERO, what=f)
        for f in ('n', 'n_c'):
            c.require_equal(self.o.i(v, f), ZERO, what=f)


def two(c, tag, f, mk, args, size, label=('every block has one owner or is freed once', 'every array has room for its count'), more=()):
    st = {}

    def led():
        s = mk()
        a = args(s)
        s.n, s.nc = size(s)
        s.facts += [x for x in (s.n, s.nc) if isinstance(x, Poly)]
        st['s'] = s
        s.run(f, a)
    c.ob(tag + ': ' + label[0], led, f)
    if 's' not in st or not hasattr(st['s'], 'news'):
        return
    s = st['s']

    def room():
        sym.FACTS.push(s.facts)
        s.room(s.n, s.nc)
    c.ob(tag + ': ' + label[1], room, f)
    for nm, th in more:
        def ex(th=th):
            sym.FACTS.push(s.facts)
            th(s)
        c.ob(tag + ': ' + nm, ex, f)


def equal_array(fl):
    def th(s):
        k = var('k', True)
        cnt = {'indexMap': s.nc}.get(fl, mul(const(2), s.nc) if fl in REACTIONS else s.n)
        if cnt is ZERO:
            return
        fx = s.facts + [k, psub(psub(cnt, ONE), k)]
        sym.FACTS.push(fx)
        w = width(fl)
        rd = (lambda v, a: v.i(a)) if w == 4 else (lambda v, a: v.d(a))
        got = rd(s.v1, add(s.o.p(s.v1, fl), mul(const(w), k)))
        want = rd(s.v0, add(s.x.p(s.v0, fl), mul(const(w), k)))
        s.c.require_equal(got, want, fx, what='%s[k]' % fl)
        after = rd(s.v1, add(s.x.p(s.v1, fl), mul(const(w), k)))
        s.c.require_equal(after, want, fx, what='%s[k] of the source' % fl)
    return th


def c23(c):
    n, nc = var('n', True), var('nc', True)
    R = c.fn('SystemState::resize')
    for owned in (False, True):
        two(c, 'resize, %s before' % ('storage' if owned else 'nothing'), R, lambda: S(c, owned), lambda s: [n, nc], lambda s: (n, nc))
    D = c.fn('SystemState::destroy')
    for owned in (False, True):
        two(c, 'destroy, %s before' % ('storage' if owned else 'nothing'), D, lambda: S(c, owned), lambda s: [], lambda s: (ZERO, ZERO),
            more=[('the state is empty', lambda s: s.empty())])
    C = c.fn('SystemState::copy')
    arrays = [('%s equals the source' % fl, equal_array(fl)) for fl in STATE_ARRAYS + REACTIONS + ['indexMap']]
    size = lambda s: (s.x.i(s.v0, 'n'), s.x.i(s.v0, 'n_c'))
    for owned in (False, True):
        t = 'copy into a state with %s' % ('storage' if owned else 'none')
        two(c, t, C, lambda: S(c, owned, True), lambda s: [s.x.addr], size, more=arrays)
        two(c, t + ', no bodies in the source', C, lambda: S(c, owned, True, ('n',)), lambda s: [s.x.addr], size, more=arrays)
        two(c, t + ', no constraints in the source', C, lambda: S(c, owned, True, ('n_c',)), lambda s: [s.x.addr], size, more=arrays)
        two(c, t + ', empty source', C, lambda: S(c, owned, False), lambda s: [s.x.addr], size)
    K = c.fn('SystemState::SystemState', '()')

    def ctor():
        s = S(c, False)
        scs._pins.clear()
        s.run(K, [])
        if life.events(s.m1):
            raise Broken('construction allocates')
        s.empty()
    c.ob('a new state is empty', ctor, K)
    T = c.fn('SystemState::~SystemState', need=False)
    if T is not None:
        def dtor():
            s = S(c, False)
            s.run(T, [])
        c.ob('destruction of an empty state frees nothing', dtor, T)
