"""Knowledge about the library: layouts, access paths, effect models of the
container and matrix primitives, resolution of virtual calls."""
import re

import interp
import memory as M
from fractions import Fraction
import sym
from sym import ZERO, ONE, Ite, Poly, add, atom, band, bnot, const, ite, mul, pa, psub, padd, pscale, sub, var, veq
from interp import Engine, Unsupported

NS = 'atg_scs::'
STATE_ARRAYS = ['a_theta', 'v_theta', 'theta', 'a_x', 'a_y', 'v_x', 'v_y', 'p_x', 'p_y', 'f_x', 'f_y', 't', 'm']
REACTIONS = ['r_x', 'r_y', 'r_t']
SPARSE = 'SparseMatrix<3, 2>'

_mod = [None]
_vectors = {}       # id of vector start-cell address -> (field name)
_nonneg = set()     # ids of addresses of ints known >= 0
_bodycount = [None]      # number of registered bodies (Poly): every index field is in [-1, count)


def set_bodycount(n):
    _bodycount[0] = n
    sym.FACTS.gen[:] = [_index_facts]
    sym.FACTS._renew()


def _index_facts(a):
    if a.kind == 'ld' and a.isint and a.args[1] != 'size':
        b, o = M.split(a.args[0])
        if b is not None and b.kind in ('ld', 'var') and o.is_const() and o.const() == off('RigidBody', 'index'):
            return [padd(pa(a), ONE), psub(psub(_bodycount[0], pa(a)), ONE)]
    return []


def _named(m):
    return len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and m[0][0].ptr


def _ptreq(p):
    """entries of one object registry are distinct objects: equal pointers mean equal positions;
    the named objects and blocks of an obligation exist and are distinct"""
    if len(p.t) == 1:
        (m1, c1), = p.t.items()
        return ZERO if _named(m1) else None
    (m1, c1), (m2, c2) = list(p.t.items())
    if c1 == -c2 and m1 != m2 and _named(m1) and _named(m2):
        return ZERO
    if not (len(m1) == 1 and len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and c1 == -c2 and abs(c1) == 1):
        return None
    x, y = m1[0][0], m2[0][0]
    if not (x.ptr and y.ptr and x.kind == 'ld' and y.kind == 'ld' and x.args[1] == y.args[1]):
        return None
    bs = []
    for a in (x, y):
        b, o = M.split(a.args[0])
        if b is None or b.kind != 'ld' or b.args[0].id not in _vectors:
            return None
        if _vectors[b.args[0].id][1] == 'm_forceGenerators':
            return None             # a generator may well be registered twice
        bs.append(b)
    if bs[0] is not bs[1]:
        return None
    return sym.eq0(psub(x.args[0], y.args[0]))


def setup(module):
    sym.PTREQ[:] = [_ptreq]
    _mod[0] = module
    _vectors.clear()
    _pins.clear()
    _sparse.clear()
    _tables.clear()
    _nonneg.clear()
    M.INIT_HOOKS[:] = [_init_hook]
    sym.FACTS.hooks[:] = [_bounds_hook]
    sym.FACTS.gen[:] = []
    while sym.FACTS.stack:
        sym.FACTS.pop()
    _bodycount[0] = None
    M.DATA_OFFSET[0] = off('Matrix', 'm_data') - off('Matrix', 'm_matrix')


def off(cls, field):
    m = _mod[0]
    name = cls if cls.startswith('std') else NS + cls
    lay = m.layout(name)
    if field in lay:
        return lay[field][0]
    # dotted paths through embedded objects
    head, rest = field.split('.', 1)
    o, _, t = lay[head]
    return o + off(t[len(NS):], rest)


def size(cls):
    return _mod[0].types[NS + cls]['size']


def fld(cls, field, base):
    return add(base, const(off(cls, field)))


def finish_off():
    return 8


def register_vector(addr, name):
    _vectors[addr.id] = (addr, name)
    _vectors[add(addr, const(8)).id] = (addr, name, 'finish')


_pins = {}          # id of an address -> value every initial heap of this configuration holds there


def vec_size(addr):
    if ('size', addr.id) in _pins:
        return _pins['size', addr.id]
    return pa(atom('ld', addr, 'size', isint=True))


_sparse = {}        # id of a block-sparse matrix address -> (its row table, its data, entries per row)
_tables = {}


def register_sparse(X, cls=SPARSE):
    """rows of a block-sparse matrix lie one after another in its data (checked by C22)"""
    v = V(M.init('m0'))
    st, en = [int(x) for x in cls[cls.index('<') + 1:-1].split(',')]
    tab, data = v.p(fld(cls, 'm_matrix', X)), v.p(fld(cls, 'm_data', X))
    _sparse[X.id] = data
    _tables[M.split(tab)[0].id] = (data, st * en)


def register_members(cls, base):
    """every block-sparse matrix embedded in an object of this class"""
    for nm, (o, sz, t) in _mod[0].layout(NS + cls).items():
        if t.startswith(NS + 'SparseMatrix<'):
            register_sparse(add(base, const(o)), t[len(NS):])
        elif t.startswith(NS + cls) and t != NS + cls and t in _mod[0].types:
            register_members(t[len(NS):], add(base, const(o)))


def sparse_rows(X, cls, cond):
    """everything stored in the rows of a block-sparse matrix"""
    d = _sparse.get(X.id)
    if d is not None:
        return ('arr', d, cond)
    return ('row', fld(cls, 'm_matrix', X), cond)


_consts = {}


def _flat(j, o, out):
    """constant initialiser -> {offset: constant}; None where it is all zero"""
    k = j['k']
    if k == 'arr':
        for n, e in enumerate(j['e']):
            _flat(e, o + n * j['sz'], out)
    elif k == 'agg':
        for e, d in zip(j['e'], j['o']):
            _flat(e, o + d, out)
    else:
        out[o] = j


def const_table(name):
    key = (id(_mod[0]), name)
    if key not in _consts:
        g = _mod[0].globals.get(name) if _mod[0] is not None else None
        r = None
        if g is not None and g.get('const') and 'i' in g and not name.startswith(('_ZTV', '_ZTI', '_ZTS')):
            r = {}
            _flat(g['i'], 0, r)
        _consts[key] = r
    return _consts[key]


def _const_value(j, ty):
    if j['k'] == 'int' and ty == 'i':
        return const(int(j['v']) if j['b'] > 1 else abs(int(j['v'])))
    if j['k'] == 'fp' and ty == 'd' and 'inf' not in j['v'] and 'nan' not in j['v']:
        return const(Fraction(float.fromhex(j['v'])))
    if j['k'] == 'null':
        return ZERO
    if j['k'] == 'glob' and ty == 'p':
        return pa(atom('glob', j['v'], ptr=True))
    return None


def const_read(b, o, ty):
    """what a constant table holds"""
    t = const_table(b.args[0])
    if t is None:
        return None
    if len(t) == 1 and 0 in t and t[0]['k'] == 'zero':
        return ZERO
    if o.is_const():
        j = t.get(int(o.const()))
        return _const_value(j, ty) if j is not None else None
    if not 0 < len(t) <= 32:
        return None
    vs = [(k, _const_value(j, ty)) for k, j in sorted(t.items())]
    if any(v is None for k, v in vs):
        return None
    r = vs[-1][1]
    for k, v in reversed(vs[:-1]):
        r = sym.ite(veq(o, const(k)), v, r)
    return r


def _init_hook(a, ty, token):
    if token != 'size':
        b, o = M.split(a)
        if b is not None and b.kind == 'glob' and b is not M.NULL:
            r = const_read(b, o, ty)
            if r is not None:
                return r
    if _tables and ty == 'p' and token != 'size':
        b, o = M.split(a)
        if b is not None and b.id in _tables:
            d, n = _tables[b.id]
            return add(d, mul(const(n), o))
    if _pins and token != 'size':
        r = _pins.get(a.id)
        if r is not None:
            return r
    v = _vectors.get(a.id)
    if v is not None and len(v) == 3 and token != 'size':
        begin = M.read(M.init(token), v[0], 8, 'p')
        return add(begin, pscale(vec_size(v[0]), 8))
    return None


def nonneg(addr):
    _nonneg.add(addr.id)


def _bounds_hook(a):
    if a.kind == 'alloc':
        return (1, None)
    if a.kind == 'glob':
        return (1, None)
    if a.kind == 'var' and a.ptr:
        return (1, None)
    if a.kind == 'ld':
        if a.args[1] == 'size':
            return (0, None)
        if a.isint and a.args[0].id in _nonneg:
            return (0, None)
        if a.isint:
            c = is_constraint_field(a)
            if c == 'm_bodyCount':
                return (0, 2)
            if c == 'm_constraintCount':
                return (0, 3)
        if a.ptr and a.args[1] != 'size':
            b, o = M.split(a.args[0])
            if b is not None and b.kind == 'ld':
                # entries of the object registries are objects
                for v in list(_vectors.values()):
                    if len(v) == 2 and b.args[0] is v[0]:
                        return (1, None)
    if a.kind == 'ps':
        # prefix sum of non-negative terms
        if a.isint and _nonneg_body(a.args[1]):
            return (0, None)
    return None


def _nonneg_body(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for x, e in m:
            if sym.atom_bounds(x)[0] is None or sym.atom_bounds(x)[0] < 0:
                return False
    return True


def is_constraint_field(a):
    b, o = M.split(a.args[0])
    if b is None or not o.is_const():
        return None
    if b.kind == 'var' and str(b.args[0]).startswith('con'):
        ok = True
    elif b.kind == 'ld':
        bb, oo = M.split(b.args[0])
        ok = bb is not None and bb.kind == 'ld' and bb.args[0].id in _vectors and \
            _vectors[bb.args[0].id][1] == 'm_constraints'
    else:
        ok = False
    if not ok:
        return None
    for f in ('m_bodyCount', 'm_constraintCount'):
        if o.const() == off('Constraint', f):
            return f
    return None


# --- readers ----------------------------------------------------------------------

class V:
    """view of an abstract memory"""

    def __init__(self, mem):
        self.m = mem

    def p(self, a):
        return M.read(self.m, a, 8, 'p')

    def d(self, a):
        return M.read(self.m, a, 8, 'd')

    def i(self, a):
        return M.read(self.m, a, 4, 'i')

    def fd(self, cls, f, base):
        return self.d(fld(cls, f, base))

    def fi(self, cls, f, base):
        return self.i(fld(cls, f, base))

    def fp(self, cls, f, base):
        return self.p(fld(cls, f, base))

    # dense matrix element
    def mat(self, Mx, row, col):
        t = self.p(fld('Matrix', 'm_matrix', Mx))
        r = self.p(add(t, mul(const(8), row)))
        return self.d(add(r, mul(const(8), col)))

    def w(self, Mx):
        return self.fi('Matrix', 'm_width', Mx)

    def h(self, Mx):
        return self.fi('Matrix', 'm_height', Mx)

    # sparse
    def sval(self, S, row, entry, k, cls=SPARSE, stride=3):
        t = self.p(fld(cls, 'm_matrix', S))
        r = self.p(add(t, mul(const(8), row)))
        return self.d(add(r, mul(const(8), add(mul(const(stride), entry), k))))

    def sblk(self, S, row, entry, cls=SPARSE, entries=2):
        b = self.p(fld(cls, 'm_blockData', S))
        return self.i(add(b, mul(const(4), add(mul(const(entries), row), entry))))

    def sw(self, S, cls=SPARSE):
        return self.fi(cls, 'm_width', S)

    def sh(self, S, cls=SPARSE):
        return self.fi(cls, 'm_height', S)

    # state arrays
    def arr(self, st, f, idx):
        b = self.p(fld('SystemState', f, st))
        return self.d(add(b, mul(const(8), idx)))

    def vec(self, addr, idx):
        b = self.p(addr)
        return self.p(add(b, mul(const(8), idx)))

    def vsize(self, addr):
        return sym.pscale(sub(self.p(add(addr, const(8))), self.p(addr)), 1) if False else \
            sym.apply1('d8', lambda x: pscale(x, sym.Fraction(1, 8)), sub(self.p(add(addr, const(8))), self.p(addr)))


# --- effect models ---------------------------------------------------------------

def st_i(mem, a, v):
    return M.store(mem, a, 4, v)


def _undef_token(eng, i):
    return (const(i['id']),) + tuple(pa(k) for k in eng.kappas)


def m_resize(eng, i, args, mem, ctx):
    Mx, w, h = args[:3]
    v = V(mem)
    same = band(veq(v.w(Mx), w), veq(v.h(Mx), h))
    mem = M.region(mem, ('row', fld('Matrix', 'm_matrix', Mx), bnot(same)),
                   ('hv', 'undef', (Mx,) + _undef_token(eng, i)))
    mem = st_i(mem, fld('Matrix', 'm_width', Mx), w)
    mem = st_i(mem, fld('Matrix', 'm_height', Mx), h)
    return None, mem


def m_init3(eng, i, args, mem, ctx):
    Mx, w, h, val = args
    mem = M.region(mem, ('row', fld('Matrix', 'm_matrix', Mx), ONE), ('const', val))
    mem = st_i(mem, fld('Matrix', 'm_width', Mx), w)
    mem = st_i(mem, fld('Matrix', 'm_height', Mx), h)
    return None, mem


def m_init2(eng, i, args, mem, ctx):
    return m_init3(eng, i, args + [ZERO], mem, ctx)


def m_destroy(eng, i, args, mem, ctx):
    Mx = args[0]
    mem = M.event(mem, 'destroy', (Mx,), ('Matrix',))
    mem = M.region(mem, ('row', fld('Matrix', 'm_matrix', Mx), ONE), ('hv', 'undef', (Mx,) + _undef_token(eng, i)))
    for f in ('m_width', 'm_height', 'm_capacityWidth', 'm_capacityHeight'):
        mem = st_i(mem, fld('Matrix', f, Mx), ZERO)
    return None, mem


def s_resize_c(cls):
    def s_resize(eng, i, args, mem, ctx):
        S, w, h = args
        v = V(mem)
        same = band(veq(v.sw(S, cls), w), veq(v.sh(S, cls), h))
        t = ('hv', 'undef', (S,) + _undef_token(eng, i))
        mem = M.region(mem, sparse_rows(S, cls, bnot(same)), t)
        mem = M.region(mem, ('arr', v.p(fld(cls, 'm_blockData', S)), bnot(same)), t)
        mem = st_i(mem, fld(cls, 'm_width', S), w)
        mem = st_i(mem, fld(cls, 'm_height', S), h)
        return None, mem
    return s_resize


def s_init_c(cls):
    def s_init(eng, i, args, mem, ctx):
        S, w, h = args
        v = V(mem)
        mem = M.region(mem, sparse_rows(S, cls, ONE), ('const', ZERO))
        mem = M.region(mem, ('arr', v.p(fld(cls, 'm_blockData', S)), ONE), ('const', const(-1)))
        mem = st_i(mem, fld(cls, 'm_width', S), w)
        mem = st_i(mem, fld(cls, 'm_height', S), h)
        return None, mem
    return s_init


def s_destroy_c(cls):
    def f(eng, i, args, mem, ctx):
        S = args[0]
        mem = M.event(mem, 'destroy', (S,), ('SparseMatrix',))
        for x in ('m_width', 'm_height', 'm_capacityHeight'):
            mem = st_i(mem, fld(cls, x, S), ZERO)
        return None, mem
    return f


def st_resize(eng, i, args, mem, ctx):
    st, n, nc = args
    v = V(mem)
    same = band(veq(v.fi('SystemState', 'n', st), n), veq(v.fi('SystemState', 'n_c', st), nc))
    for f in STATE_ARRAYS + REACTIONS + ['indexMap']:
        mem = M.region(mem, ('arr', v.fp('SystemState', f, st), bnot(same)),
                       ('hv', 'undef', (st, const(off('SystemState', f))) + _undef_token(eng, i)))
    mem = st_i(mem, fld('SystemState', 'n', st), n)
    mem = st_i(mem, fld('SystemState', 'n_c', st), nc)
    return None, mem


def v_push(eng, i, args, mem, ctx):
    vec, ref = args[0], args[1]
    v = V(mem)
    fin = v.p(add(vec, const(8)))
    val = v.p(ref)
    mem = M.store(mem, fin, 8, val)
    mem = M.store(mem, add(vec, const(8)), 8, add(fin, const(8)))
    return None, mem


def v_resize(eng, i, args, mem, ctx):
    vec, n = args[0], args[1]
    v = V(mem)
    beg = v.p(vec)
    fin = v.p(add(vec, const(8)))
    new = add(beg, mul(const(8), n))
    # growth value-initialises: contents beyond the old end become null
    grow = sub(new, fin)
    mem = M.region(mem, ('range', fin, ite(sym.vlt(ZERO, grow, True), grow, ZERO), ONE), ('const', ZERO)) \
        if isinstance(fin, Poly) else mem
    mem = M.store(mem, add(vec, const(8)), 8, new)
    return None, mem


def v_pop(eng, i, args, mem, ctx):
    vec = args[0]
    v = V(mem)
    return None, M.store(mem, add(vec, const(8)), 8, sub(v.p(add(vec, const(8))), const(8)))


def v_clear(eng, i, args, mem, ctx):
    vec = args[0]
    v = V(mem)
    return None, M.store(mem, add(vec, const(8)), 8, v.p(vec))


def v_erase(eng, i, args, mem, ctx):
    raise Unsupported('vector::erase')


def clock(eng, i, args, mem, ctx):
    t = i['t']
    if t == 'void':
        return None, mem
    return pa(atom('fn', 'clock', const(i['id']), *[pa(k) for k in eng.kappas], isint=t.startswith('i'),
                   ptr=t == 'ptr')), mem


def clock_read(eng, i, args, mem, ctx):
    """one reading of a clock: named by where it is made"""
    key = (ctx, eng.where[-1] if eng.where else None, i['id'])
    n = eng.clocks.setdefault(key, len(eng.clocks))
    return pa(atom('fn', 'now', const(n), *[pa(k) for k in eng.kappas], isint=True)), mem


def clock_cast(dem):
    unit = re.search(r'duration_cast<std::chrono::duration<[a-z ]+, std::ratio<([0-9]+)l?, ([0-9]+)l?>', dem)
    unit = '?' if unit is None else '%s/%s' % unit.groups()

    def h(eng, i, args, mem, ctx):
        if eng.clocks.get('unit'):
            return ONE, mem
        v = M.read(mem, args[0], 8, 'i')
        return sym.distrib(v, lambda l: pa(atom('fn', 'span:' + unit, l, isint=True))), mem
    return h


def ctor_skip(eng, i, args, mem, ctx):
    return None, mem


def base_models():
    md = {
        'atg_scs::Matrix::resize(int, int)': m_resize,
        'atg_scs::Matrix::initialize(int, int, double)': m_init3,
        'atg_scs::Matrix::initialize(int, int)': m_init2,
        'atg_scs::Matrix::destroy()': m_destroy,
        'atg_scs::SystemState::resize(int, int)': st_resize,
    }
    for args in ('3, 2', '3, 1', '2, 2'):
        cls = 'SparseMatrix<%s>' % args
        md['atg_scs::%s::resize(int, int)' % cls] = s_resize_c(cls)
        md['atg_scs::%s::initialize(int, int)' % cls] = s_init_c(cls)
        md['atg_scs::%s::destroy()' % cls] = s_destroy_c(cls)
    pre = [('std::chrono::', clock), ('long long std::chrono::', clock),
           ('std::common_type<std::chrono', clock), ('bool std::chrono', clock)]
    md['*prefix'] = pre
    return md


VEC = re.compile(r'std::vector<.*>::(push_back|emplace_back|resize|pop_back|clear|erase|reserve|insert)\b')


def has_loops(module, fn, memo):
    r = memo.get(fn.name)
    if r is None:
        memo[fn.name] = False
        fn.analyse()
        r = bool(fn.loops) or any(has_loops(module, g, memo) for g in callees(module, fn, range(len(fn.blocks))))
        memo[fn.name] = r
    return r


def callees(module, fn, blocks):
    for b in blocks:
        for x in fn.blocks[b]:
            if x['op'] in ('call', 'invoke') and x['callee']['k'] == 'glob':
                g = module.funcs.get(x['callee']['v'])
                if g is not None and not g.decl:
                    yield g


def not_matrix(eng, fn, L):
    """loops of the matrix classes are summarised, never cut"""
    return not any('::Matrix::' in f.dem.split('(')[0] or 'SparseMatrix' in f.dem.split('(')[0]
                   or f.dem.startswith('contract::') for f in eng.where)


def with_inner_loops(eng, fn, L):
    if not not_matrix(eng, fn, L):
        return False
    if any(h in L.blocks for h in fn.loops if h != L.header):
        return True
    memo = {}
    return any(has_loops(eng.m, g, memo) for g in callees(eng.m, fn, L.blocks))


# --- contracts of the block-sparse operations, over the dense matrix each stands for -----------

def dense_of(S):
    d = var('dense of %d' % S.id, ptr=True)
    _dense[d.id] = S
    return d


_dense = {}


def _contract(name, shape):
    def h(eng, i, args, mem, ctx):
        f = [g for g in eng.m.funcs.values() if g.dem.startswith('contract::%s(' % name)][0]
        v = V(mem)
        S = args[0]
        if any(isinstance(a, Ite) for a in args):
            raise interp.Unsupported('which matrix an operation works on is not known')
        w, hh = v.sw(S), v.sh(S)
        if shape == 'S':
            W, T = args[1:]
            mem = st_i(mem, fld(SPARSE, 'm_width', T), w)
            mem = st_i(mem, fld(SPARSE, 'm_height', T), hh)
            a = [dense_of(S), w, hh, W, dense_of(T)]
        elif shape == 'B':
            B, T = args[1:]
            a = [dense_of(S), w, hh, dense_of(B), v.sh(B), T]
        else:
            b, T = args[1:]
            a = [dense_of(S), w, hh, b, T]
        r = eng.run(f, a, mem, ctx + (('contract', i['id']),))
        return None, r.mem
    return h


def contracts(module):
    md = {}
    for f in module.funcs.values():
        for nm, sh in (('rightScale', 'S'), ('leftScale', 'S'), ('multiplyTranspose', 'B'), ('multiply', 'M'),
                       ('transposeMultiplyVector', 'M')):
            if f.dem.startswith('atg_scs::SparseMatrix<3, 2>::%s(' % nm):
                md[f.dem] = _contract(nm, sh)
    return md


class Eng(Engine):
    """engine with the library's models"""

    def __init__(self, module, models=None, virt=None, raw=False, extra=None, cut=None, select=None, nan=False, clocks=None):
        md = {} if raw else base_models()
        if raw:
            md['*prefix'] = [('std::chrono::', clock), ('long long std::chrono::', clock)]
        md.update(models or {})
        if clocks is not None:
            md.pop('*prefix', None)
        self.clocks = clocks
        self.stages = (clocks or {}).get('stages')
        super().__init__(module, md, virt or default_virt)
        self.events = []
        if cut:
            self.cut = (cut, select or not_matrix, M.init('m0'))
        self.nan = nan

    def model_for(self, dem, name):
        h = super().model_for(dem, name)
        if h:
            return h
        if 'chrono' in dem and 'atg_scs' not in dem:
            if self.clocks is None:
                return clock
            return clock_read if '::now(' in dem else clock_cast(dem) if ' std::chrono::duration_cast<' in dem else None
        if dem.startswith('std::vector<') or ' std::vector<' in dem:
            m = VEC.search(dem)
            if m and 'iterator' not in dem.split('::' + m.group(1))[0].split('>::')[-1]:
                return {'push_back': v_push, 'emplace_back': v_push, 'resize': v_resize, 'pop_back': v_pop,
                        'clear': v_clear, 'erase': v_erase, 'insert': v_erase,
                        'reserve': ctor_skip}[m.group(1)]
        return None

    def unroll_atom(self, a):
        if a.kind == 'ld' and a.isint and is_constraint_field(a) == 'm_bodyCount':
            return 2
        if a.kind == 'fn' and False:
            return None
        return None


def method_of(module, cls, slot):
    """_ZTSxxx class name + slot -> (simple method name, demangled, mangled)"""
    c = cls[4:] if cls.startswith('_ZTS') else cls
    vt = module.vtable(c)
    name = vt[slot] if vt and slot is not None and slot < len(vt) else None
    if name and name in module.funcs and name != '__cxa_pure_virtual':
        dem = module.funcs[name].dem
    else:
        dem = None
        base = re.sub(r'\d+', lambda m: m.group(0), c)
        for g in module.globals:
            if g.startswith('_ZTV'):
                v2 = module.vtable(g[4:])
                if v2 and slot is not None and slot < len(v2) and v2[slot] in module.funcs and \
                        v2[slot] != '__cxa_pure_virtual':
                    cn = module.funcs[v2[slot]].dem.split('(')[0].rsplit('::', 1)[0]
                    bn = cls_dem(c)
                    if bn and cn in [x for x in module.derived(bn)]:
                        dem = module.funcs[v2[slot]].dem
                        name = v2[slot]
                        break
    if dem is None:
        return None, None, None
    return dem.split('(')[0].rsplit('::', 1)[-1].split(' ')[-1], dem, name


def cls_dem(c):
    m = re.match(r'N7atg_scs(\d+)(\w+)E$', c)
    if not m:
        return None
    return NS + m.group(2)[:int(m.group(1))]


def default_virt(eng, fn, i, cls, slot, args, mem, ctx):
    meth, dem, name = method_of(eng.m, cls, slot)
    if meth is None:
        raise Unsupported('virtual call %s slot %s' % (cls, slot))
    h = VIRT.get(meth)
    if h is None:
        raise Unsupported('virtual method ' + meth)
    return h(eng, i, args, mem, ctx)


def ktok(eng):
    return tuple(pa(k) for k in eng.kappas)


def vc_calculate(eng, i, args, mem, ctx):
    this, out, state = args
    mem = M.event(mem, 'calculate', (this, out, state), (const(i['id']),))
    sz = size('Constraint::Output')
    return None, M.mite_val(out, lambda o: M.region(mem, ('range', o, const(sz), ONE), ('hv', 'calc', (this,))))


def vc_apply(eng, i, args, mem, ctx):
    this, state = args
    mem = M.event(mem, 'apply', (this, state), (const(i['id']),))
    v = V(mem)
    for f in ('f_x', 'f_y', 't'):
        mem = M.region(mem, ('arr', v.fp('SystemState', f, state), ONE), ('hv', 'applied_' + f, (this, state)))
    return None, mem


def vc_solve(eng, i, args, mem, ctx):
    this, J, W, right = args[:4]
    lim = len(args) == 7
    res = args[5]
    v = V(mem)
    n = v.h(right)
    mem0 = mem
    mem = M.event(mem, 'solveWithLimits' if lim else 'solve', tuple(args), (const(i['id']), mem0))
    mem = M.region(mem, ('row', fld('Matrix', 'm_matrix', res), ONE), ('hv', 'lambda', ktok(eng)))
    mem = st_i(mem, fld('Matrix', 'm_width', res), ONE)
    mem = st_i(mem, fld('Matrix', 'm_height', res), n)
    return ONE, mem


ODE_WRITES = ['v_theta', 'theta', 'v_x', 'v_y', 'p_x', 'p_y'] + REACTIONS


def ode_model(meth, writes):
    def h(eng, i, args, mem, ctx):
        mem = M.event(mem, meth, tuple(args), (const(i['id']), mem))
        if writes:
            v = V(mem)
            st = args[1]
            for f in ODE_WRITES:
                mem = M.region(mem, ('arr', v.fp('SystemState', f, st), ONE),
                               ('hv', meth + '_' + f, (const(i['id']),) + ktok(eng)))
            mem = M.store(mem, fld('SystemState', 'dt', st), 8, pa(atom('hv', meth + '_dt', 'd', const(i['id']), *ktok(eng))))
        r = None
        if meth == 'step':
            n = getattr(eng, 'stages', None)
            r = sym.boolatom('bfn', 'done', const(i['id']), *ktok(eng)) if n is None else \
                veq(pa(eng.kappas[-1]), const(n - 1)) if eng.kappas else ONE
        return r, mem
    return h


VIRT = {
    'calculate': vc_calculate,
    'apply': vc_apply,
    'solve': lambda eng, i, args, mem, ctx: (vc_solve if len(args) >= 6 else ode_model('odesolve', True))(
        eng, i, args, mem, ctx),
    'solveWithLimits': vc_solve,
    'start': ode_model('start', False),
    'step': ode_model('step', True),
    'end': ode_model('end', False),
}


# --- common symbolic environments ---------------------------------------------------

class Sys:
    """a rigid body system with arbitrary contents"""

    def __init__(self, module, cls, shape=None, gens=None):
        """shape: (number of bodies, [(rows, (body index or -1, ...)), ...]) fixes the topology"""
        setup(module)
        self.cls = cls
        self.this = var('sys', ptr=True)
        self.m0 = M.init('m0')
        for f in ('m_rigidBodies', 'm_constraints', 'm_forceGenerators'):
            register_vector(fld(cls, f, self.this), f)
        self.bodies = fld(cls, 'm_rigidBodies', self.this)
        self.cons = fld(cls, 'm_constraints', self.this)
        self.gens = fld(cls, 'm_forceGenerators', self.this)
        self.state = fld(cls, 'm_state', self.this)
        register_members(cls, self.this)
        self.shape = shape
        if shape is not None:
            nb, cons = shape
            _pins['size', self.bodies.id] = const(nb)
            _pins['size', self.cons.id] = const(len(cons))
            _pins['size', self.gens.id] = const(1 if gens is None else gens)
            v = V(self.m0)
            for i in range(nb):
                b = v.vec(self.bodies, const(i))
                _pins[fld('RigidBody', 'index', b).id] = const(i)
            for j, (rows, bods) in enumerate(cons):
                q = v.vec(self.cons, const(j))
                _pins[fld('Constraint', 'm_constraintCount', q).id] = const(rows)
                _pins[fld('Constraint', 'm_bodyCount', q).id] = const(len(bods))
                for k, x in enumerate(bods):
                    at = add(fld('Constraint', 'm_bodies', q), const(8 * k))
                    if x >= 0:
                        _pins[at.id] = v.vec(self.bodies, const(x))
                    else:
                        _pins[fld('RigidBody', 'index', v.p(at)).id] = const(-1)
        elif gens is not None:
            _pins['size', self.gens.id] = const(gens)
        self.n = vec_size(self.bodies)
        self.m = vec_size(self.cons)
        self.g = vec_size(self.gens)
        nonneg(fld('SystemState', 'n', self.state))
        nonneg(fld('SystemState', 'n_c', self.state))
        set_bodycount(self.n)

    def rowfacts(self, J, K=None):
        """J is a constraint number, K one of its rows"""
        r = [J, psub(psub(self.m, J), ONE)]
        r.append(psub(psub(self.PS(self.m), self.PS(J)), self.nf(J)))
        if K is not None:
            r += [K, psub(psub(self.nf(J), K), ONE)]
        return r

    def f(self, field):
        return fld(self.cls, field, self.this)

    def con(self, j):
        return V(self.m0).vec(self.cons, j)

    def nf(self, j):
        return V(self.m0).fi('Constraint', 'm_constraintCount', self.con(j))

    def PS(self, j):
        t = sym.fresh()
        return sym.psum(t, self.nf(pa(t)), j)

    def bodyidx(self, j, k):
        v = V(self.m0)
        b = v.p(add(fld('Constraint', 'm_bodies', self.con(j)), mul(const(8), k)))
        return v.fi('RigidBody', 'index', b)

    def bc(self, j):
        return V(self.m0).fi('Constraint', 'm_bodyCount', self.con(j))


def with_division(eng, fn, L):
    """loops that divide somewhere inside"""
    if not not_matrix(eng, fn, L):
        return False
    return any(_divides(eng.m, fn, b) for b in L.blocks) or any(divides(eng.m, g) for g in callees(eng.m, fn, L.blocks))


def _divides(module, fn, b):
    return any(x['op'] == 'fdiv' for x in fn.blocks[b])


def divides(module, fn, seen=()):
    if fn.name in seen or 'SparseMatrix' in fn.dem:
        return False
    return any(_divides(module, fn, b) for b in range(len(fn.blocks))) or \
        any(divides(module, g, seen + (fn.name,)) for g in callees(module, fn, range(len(fn.blocks))))


def with_division_then_all(eng, fn, L):
    if eng.open_cuts:
        return not_matrix(eng, fn, L)
    return with_division(eng, fn, L)
