"""Interprocedural effect analysis over the IR: for every function, which memory reachable
from its arguments it may write or free, where pointers may end up, what it may return, and
which of its writes carry values derived from the clock, from addresses or from chance.

A location is (root, path): root is an argument, a global, a local or an allocation site, path
is one offset per dereference, the last one not yet dereferenced.  An offset is an int, or
'N+' for N plus an unknown multiple of something.  Flow-insensitive, context-sensitive through
summaries, field-sensitive, depth-limited."""
import scs

DEPTH = 8
PURE = ('cos', 'sin', 'sqrt', 'tan', 'atan2', 'atan', 'acos', 'asin', 'exp', 'log', 'pow', 'fabs', 'floor', 'ceil',
        'fmin', 'fmax', 'hypot', 'abs', 'fmod', 'round', 'std::isnan', 'std::isfinite')
SILENT = ('__assert_fail', 'std::__throw', 'llvm.assume', 'llvm.type.test', 'llvm.trap', 'llvm.lifetime',
          'llvm.dbg', 'abort', '__cxa_', '__gxx_', 'std::terminate', '__clang_call_terminate')
CLOCK = ('std::chrono', 'clock', 'time', 'gettimeofday', 'rand', 'random', 'std::random', 'getenv', 'getpid',
         'clock_gettime', 'srand', 'drand48', 'pthread_self', 'std::this_thread', 'std::time', 'std::rand')


def short(dem):
    return dem.split('(')[0].split(' ')[-1]


def addo(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    x = a if isinstance(a, int) else int(a[:-1])
    y = b if isinstance(b, int) else int(b[:-1])
    return open_from(x + y)


def open_from(lo):
    """all offsets from lo on; pointers that move down have no lower end"""
    return '%d+' % (lo if lo >= -64 else -10 ** 9)


def may_overlap(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return abs(a - b) < 8
    if isinstance(a, str) and isinstance(b, str):
        return True
    if isinstance(a, str):
        a, b = b, a
    return a + 8 > int(b[:-1])


def path_overlap(p, q):
    return len(p) == len(q) and all(may_overlap(x, y) for x, y in zip(p, q))


def widen(v):
    """pointers that move in a loop: a few offsets stay apart, more become one open range"""
    g = {}
    for r, p in v:
        g.setdefault((r, p[:-1]), set()).add(p[-1])
    out = set()
    for (r, q), os_ in g.items():
        ints = sorted(x for x in os_ if isinstance(x, int))
        opens = sorted(int(x[:-1]) for x in os_ if isinstance(x, str))
        if len(ints) > 4 or opens:
            lo = min(ints + opens) if len(ints) > 4 else min(opens)
            out.add((r, q + (open_from(lo),)))
            ints = [x for x in ints if x < lo]
        for x in ints:
            out.add((r, q + (x,)))
    return frozenset(out)


class Sum:
    def __init__(self):
        self.mods = {}           # loc -> (fn, line, what, tainted)
        self.heap = {}           # loc -> set(loc)
        self.ret = frozenset()
        self.taint_ret = frozenset()
        self.tainted = {}        # loc -> (fn, line, source)
        self.entry = {}          # loc -> labels, what callers may pass in
        self.branch = {}         # (fn, line) -> source
        self.unk = {}            # reason -> (fn, line)
        self.sources = set()

    def size(self):
        return (len(self.mods), hash(frozenset((k, frozenset(x)) for k, x in self.heap.items())), len(self.heap), len(self.ret), hash(frozenset((k, w[2]) for k, w in self.tainted.items())),
                len(self.taint_ret), hash(frozenset(self.branch.items())), len(self.unk))


class Effects:
    def __init__(self, module, mutable=()):
        self.m = module
        self.mutable = mutable
        self.sum = {}
        self.funcs = {}
        for f in module.funcs.values():
            if not f.decl:
                self.funcs[f.name] = f
        self.vt = {}
        self.run()

    # --- call graph ---------------------------------------------------------------------
    def targets(self, fn, i):
        """names of the functions a call may reach; None if it cannot be told"""
        c = i['callee']
        if c['k'] == 'glob':
            n = c['v']
            f = self.m.funcs.get(n)
            return [f.name if f is not None else n]
        if c['k'] != 'v':
            return None
        ld = next((x for b in fn.blocks for x in b if x.get('id') == c['v']), None)
        if ld is None or ld['op'] != 'load':
            return None
        p = ld['ops'][0]
        slot, vt = 0, p.get('v')
        for b in fn.blocks:
            for x in b:
                if x.get('id') == p.get('v') and x['op'] == 'getelementptr':
                    slot, vt = x['off'] // 8, x['base'].get('v')
        cls = None
        for b in fn.blocks:
            for x in b:
                if x['op'] == 'call' and x['callee'].get('v') == 'llvm.type.test' and \
                        x['args'][0].get('v') == vt:
                    cls = x['args'][1].get('v')
        if cls is None:
            return None
        return self.overrides(cls, slot)

    def overrides(self, cls, slot):
        k = (cls, slot)
        if k in self.vt:
            return self.vt[k]
        base = cls[4:] if cls.startswith('_ZTS') else cls
        bn = scs.cls_dem(base)
        out = []
        ds = self.m.derived(bn) if bn else []
        for g in self.m.globals:
            if g.startswith('_ZTV'):
                cn = scs.cls_dem(g[4:])
                if cn in ds:
                    v = self.m.vtable(g[4:])
                    if v and slot < len(v) and v[slot] and v[slot] != '__cxa_pure_virtual':
                        f = self.m.funcs.get(v[slot])
                        n = f.name if f is not None else v[slot]
                        if n not in out:
                            out.append(n)
        self.vt[k] = out or None
        return self.vt[k]

    def run(self):
        self.final = False
        for f in self.funcs.values():
            f.ef_in = {}
        self.solve()
        self.final = True
        self.solve()

    def solve(self):
        for n, f in self.funcs.items():
            self.sum.setdefault(n, Sum())
            if not self.final:
                f.ef_env = None
        callers = {}
        for n, f in self.funcs.items():
            for b in f.blocks:
                for i in b:
                    if i['op'] in ('call', 'invoke'):
                        for t in self.targets(f, i) or []:
                            callers.setdefault(t, set()).add(n)
        work = self.work = list(self.funcs)
        seen = self.seen = set(work)
        steps = 0
        while work:
            n = work.pop(0)
            seen.discard(n)
            steps += 1
            if steps > 40 * len(self.funcs) + 1000:
                raise RuntimeError('effect analysis does not converge')
            if self.one(self.funcs[n]):
                for c in callers.get(n, ()):
                    if c not in seen:
                        seen.add(c)
                        work.append(c)

    # --- one function --------------------------------------------------------------------
    def one(self, f):
        S = self.sum[f.name]
        before = S.size()
        env = getattr(f, 'ef_env', None)
        if env is None:
            env = f.ef_env = {}
            f.ef_taint = {}
            for k, a in enumerate(f.args):
                if a['t'] == 'ptr':
                    env[a['id']] = frozenset([(('arg', k), (0,))])
            f.ef_live = self.live(f)
            f.ef_eq = self.selfstores(f)
        for k, a in enumerate(f.args):
            if k in f.ef_in:
                f.ef_taint[a['id']] = f.ef_in[k]
        for turn in range(1000):
            if turn == 999:
                raise RuntimeError('effect analysis does not converge in ' + f.dem)
            sz = (S.size(), hash(frozenset(env.items())), sum(len(x) for x in f.ef_taint.values()))
            for b, insts in enumerate(f.blocks):
                if b not in f.ef_live:
                    continue
                for i in insts:
                    self.inst(f, S, env, i)
            if sz == (S.size(), hash(frozenset(env.items())), sum(len(x) for x in f.ef_taint.values())):
                break
        return S.size() != before

    def live(self, f):
        f.analyse()
        return set(f.rpo)

    def selfstores(self, f):
        """stores that put back what the same address holds"""
        defs = {i['id']: i for b in f.blocks for i in b if 'id' in i}

        def shape(o, d=0):
            if o['k'] != 'v':
                return (o['k'], str(o.get('v')))
            i = defs.get(o['v'])
            if i is not None and d < 6 and i['op'] == 'getelementptr':
                return ('gep', shape(i['base'], d + 1), i['off'], tuple((shape(x, d + 1), sc) for x, sc in i['var']))
            return ('v', o['v'])
        out = set()
        for b in f.blocks:
            last = {}
            for i in b:
                if i['op'] == 'load':
                    last[i['id']] = shape(i['ops'][0])
                elif i['op'] == 'store':
                    v = i['ops'][0]
                    if v['k'] == 'v' and v['v'] in last and last[v['v']] == shape(i['ops'][1]):
                        out.add(i['id'])
                    else:
                        last = {}
                elif i['op'] == 'call' and not self.harmless(f, i):
                    last = {}
        return out

    def harmless(self, f, i):
        c = i['callee']
        return c['k'] == 'glob' and (c['v'].startswith('llvm.') or c['v'] in PURE)

    def val(self, f, env, o):
        k = o['k']
        if k == 'v':
            return env.get(o['v'], frozenset())
        if k == 'glob':
            return frozenset([(('glob', o['v']), (0,))])
        if k == 'cgep':
            return frozenset((r, p[:-1] + (addo(p[-1], o.get('off', 0)),)) for r, p in self.val(f, env, o['base']))
        return frozenset()

    def tnt(self, f, o):
        return f.ef_taint.get(o['v'], frozenset()) if o['k'] == 'v' else frozenset()

    # --- types along an access path --------------------------------------------------------
    def argtypes(self, f):
        r = getattr(f, 'ef_types', None)
        if r is None:
            r = f.ef_types = [None] * len(f.args)
            if '(' in f.dem:
                head, rest = f.dem.split('(', 1)
                ps, cur, d = [], '', 0
                for x in rest:
                    if x == ')' and not d:
                        break
                    if x in '<(':
                        d += 1
                    elif x in '>)':
                        d -= 1
                    if x == ',' and not d:
                        ps.append(cur.strip())
                        cur = ''
                    else:
                        cur += x
                if cur.strip():
                    ps.append(cur.strip())
                ps = [x.replace(' const', '').replace(' *', '*').replace(' &', '&') for x in ps]
                if len(f.args) == len(ps) + 1:
                    d, k = 0, -1
                    for n, x in enumerate(head):
                        d += (x == '<') - (x == '>')
                        if not d and head[n:n + 2] == '::':
                            k = n
                    h = head[:k] if k > 0 else ''
                    ps = [h.split(' ')[-1] + '*' if '<' not in h else h + '*'] + ps
                if len(f.args) == len(ps):
                    r[:] = ps
        return r

    def member(self, cls, off):
        """type of the scalar at an offset of a class, None if not known"""
        for _ in range(12):
            T = self.m.types.get(cls)
            if T is None or 'm' not in T or not isinstance(off, int):
                return None
            for x in T['m']:
                if x['o'] <= off < x['o'] + max(x['s'], 1):
                    t, off = x['t'], off - x['o']
                    break
            else:
                return None
            if '[' in t:
                return None
            if t in self.m.types:
                cls = t
                continue
            return t if off == 0 else None
        return None

    def plain(self, f, loc):
        """the memory at this place holds numbers, not pointers"""
        r, p = loc
        if r[0] != 'arg':
            return False
        ts = self.argtypes(f)
        t = ts[r[1]] if r[1] < len(ts) else None
        for k, o in enumerate(p):
            if not t or t[-1] not in '*&':
                return False
            e = t[:-1]
            if e in ('double', 'int', 'float', 'bool', 'char', 'unsignedint', 'longlong', 'long'):
                return k == len(p) - 1
            if e[-1:] == '*':
                t = e
            elif e in self.m.types:
                t = self.member(e, o)
            else:
                return False
        return False

    def load(self, S, loc):
        r, p = loc
        out = set()
        if r[0] not in ('loc', 'new'):
            out.add((r, (p + (0,)) if len(p) < DEPTH else p[:-1] + ('0+',)))
        for (r2, p2), vs in S.heap.items():
            if r2 == r and path_overlap(p, p2):
                out |= vs
        return out

    def subst(self, f, S, loc, actual):
        """a location of a callee in terms of the caller"""
        r, q = loc
        if r[0] == 'arg':
            cur = actual[r[1]] if r[1] < len(actual) else frozenset()
        elif r[0] == 'loc':
            return frozenset()
        else:
            cur = frozenset([(r, (0,))])
        cur = frozenset((a, p[:-1] + (addo(p[-1], q[0]),)) for a, p in cur)
        for t in q[1:]:
            nxt = set()
            for l in cur:
                for a, p in self.load(S, l):
                    nxt.add((a, p[:-1] + (addo(p[-1], t),)))
            cur = frozenset(nxt)
        return cur

    def smear(self, S, loc, where, t):
        if t:
            w = S.tainted.get(loc)
            S.tainted[loc] = (w[0], w[1], w[2] | frozenset(t)) if w else where + (frozenset(t),)

    def enter(self, g, k, t):
        """values of a caller that reach a parameter"""
        old = g.ef_in.get(k, frozenset())
        if not t <= old:
            g.ef_in[k] = old | frozenset(t)
            self.queue(g.name)

    def enter_mem(self, g, S, args):
        """memory of a caller that a callee can reach, as far as it is marked"""
        for (r, q), w in list(S.tainted.items()) + [(l, (None, 0, x)) for l, x in S.entry.items()]:
            for k, vs in enumerate(args):
                for r2, p in vs:
                    n = len(p)
                    if r2 != r or len(q) < n or not path_overlap(p[:-1], q[:n - 1]):
                        continue
                    if isinstance(p[-1], int) and isinstance(q[n - 1], int):
                        d = q[n - 1] - p[-1]
                        if d < 0:
                            continue
                    else:
                        d = '0+'
                    T = self.sum[g.name].entry
                    loc = (('arg', k), (d,) + q[n:])
                    if not w[2] <= T.get(loc, frozenset()):
                        T[loc] = T.get(loc, frozenset()) | w[2]
                        self.queue(g.name)

    def queue(self, n):
        if n not in self.seen:
            self.seen.add(n)
            self.work.append(n)

    def mod(self, S, loc, w):
        if loc[0][0] in ('loc', 'new'):
            return
        S.mods.setdefault(loc, w)

    def put(self, S, loc, vals):
        if vals:
            S.heap[loc] = set(widen(S.heap.get(loc, set()) | set(vals)))

    def mem_taint(self, S, loc):
        t = set()
        if loc[0][0] == 'glob' and loc[0][1] in self.mutable:
            t.add('global ' + loc[0][1])
        for (r2, p2), w in S.tainted.items():
            if r2 == loc[0] and path_overlap(loc[1], p2):
                t |= w[2]
        for (r2, p2), w in S.entry.items():
            if r2 == loc[0] and path_overlap(loc[1], p2):
                t |= w
        return t

    def inst(self, f, S, env, i):
        op = i['op']

        def setv(v):
            if v:
                x = env.get(i['id'], frozenset())
                if not v <= x:
                    env[i['id']] = widen(x | frozenset(v))

        def sett(t):
            if t:
                x = f.ef_taint.get(i['id'], frozenset())
                if not t <= x:
                    f.ef_taint[i['id']] = x | frozenset(t)
        where = (f.name, i.get('l', 0))
        if op == 'alloca':
            setv(frozenset([(('loc', f.name, i['id']), (0,))]))
        elif op == 'getelementptr':
            v = set()
            for r, p in self.val(f, env, i['base']):
                o = addo(p[-1], i['off'])
                if i['var']:
                    o = o if isinstance(o, str) else '%d+' % o
                v.add((r, p[:-1] + (o,)))
            setv(frozenset(v))
        elif op == 'load':
            a = self.val(f, env, i['ops'][0])
            if i['t'] == 'ptr':
                v = set()
                for l in a:
                    v |= self.load(S, l)
                setv(frozenset(v))
            t = set(self.tnt(f, i['ops'][0]))
            for l in a:
                t |= self.mem_taint(S, l)
            sett(t)
        elif op == 'store':
            v, a = i['ops'][0], i['ops'][1]
            al = self.val(f, env, a)
            if not al and a['k'] != 'null' and self.final:
                S.unk.setdefault('store through an address of unknown origin', where)
            t = self.tnt(f, v)
            for l in al:
                if i['id'] not in f.ef_eq:
                    self.mod(S, l, where + ('store',))
                self.put(S, l, self.val(f, env, v))
                self.smear(S, l, where, t)
        elif op == 'phi':
            v = set(env.get(i['id'], ()))
            t = set()
            for o, _ in i['in']:
                v |= self.val(f, env, o)
                t |= self.tnt(f, o)
            if v:
                env[i['id']] = widen(v)
            sett(frozenset(t))
        elif op == 'select':
            v = set()
            t = set()
            for o in i['ops'][-2:]:
                v |= self.val(f, env, o)
                t |= self.tnt(f, o)
            t |= self.tnt(f, i['ops'][0])
            setv(frozenset(v))
            sett(t)
        elif op in ('extractvalue', 'insertvalue', 'bitcast', 'freeze', 'addrspacecast'):
            v, t = set(), set()
            for o in i['ops']:
                v |= self.val(f, env, o)
                t |= self.tnt(f, o)
            setv(frozenset(v))
            sett(t)
        elif op == 'inttoptr':
            S.unk.setdefault('pointer made from an integer', where)
        elif op == 'ptrtoint':
            sett(frozenset(['address']))
        elif op in ('call', 'invoke'):
            self.call(f, S, env, i, setv, sett, where)
        elif op == 'ret':
            for o in i['ops']:
                S.ret = S.ret | self.val(f, env, o)
                S.taint_ret = S.taint_ret | self.tnt(f, o)
        elif op in ('br', 'switch'):
            if 'cond' in i:
                t = self.tnt(f, i['cond'])
                if t:
                    S.branch[where] = S.branch.get(where, frozenset()) | t
        elif op == 'icmp' and i.get('pred') not in ('eq', 'ne') and any(self.val(f, env, o) for o in i['ops']):
            sett(frozenset(['address']))
        else:
            t = set()
            for o in i.get('ops', []):
                t |= self.tnt(f, o)
            if op == 'sub' and len(i['ops']) == 2 and all('address' in self.tnt(f, o) for o in i['ops']):
                t.discard('address')
            sett(t)

    def call(self, f, S, env, i, setv, sett, where):
        args = [self.val(f, env, o) for o in i['args'] if o['k'] != 'md']
        ts = self.targets(f, i)
        if ts is None:
            if self.final:
                S.unk.setdefault('indirect call not resolved', where)
            return
        for n in ts:
            g = self.m.funcs.get(n)
            if g is not None and not g.decl:
                C = self.sum[g.name]
                for loc, w in list(C.mods.items()):
                    for l in self.subst(f, S, loc, args):
                        self.mod(S, l, w)
                for loc, vs in list(C.heap.items()):
                    tgt = self.subst(f, S, loc, args)
                    if tgt:
                        nv = set()
                        for v in vs:
                            nv |= self.subst(f, S, v, args)
                        for l in tgt:
                            self.put(S, l, nv)
                rv = set()
                for v in C.ret:
                    rv |= self.subst(f, S, v, args)
                setv(frozenset(rv))
                for k, o in enumerate(x for x in i['args'] if x['k'] != 'md'):
                    if self.tnt(f, o):
                        self.enter(g, k, self.tnt(f, o))
                if S.tainted or S.entry:
                    self.enter_mem(g, S, args)
                sett(C.taint_ret)
                for loc, w in list(C.tainted.items()):
                    t = w[2]
                    if t:
                        for l in self.subst(f, S, loc, args):
                            self.smear(S, l, w[:2], t)
                for k, v in list(C.branch.items()):
                    t = v
                    if t:
                        S.branch[k] = S.branch.get(k, frozenset()) | t
                for k, v in C.unk.items():
                    S.unk.setdefault(k, v)
                continue
            dem = g.dem if g is not None else n
            b = dem.split('(')[0]
            if b.startswith('operator new') or b in ('malloc', 'calloc'):
                setv(frozenset([(('new', f.name, i['id']), (0,))]))
            elif b.startswith('operator delete') or b == 'free':
                for r, p in args[0]:
                    self.mod(S, (r, p[:-1] + ('0+',)), where + ('free',))
            elif b.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or b in ('memcpy', 'memmove', 'memset'):
                t = set()
                vs = set()
                if 'memset' not in b:
                    for r, p in args[1]:
                        l = (r, p[:-1] + (p[-1] if isinstance(p[-1], str) else '%d+' % p[-1],))
                        if not self.plain(f, l):
                            vs |= {(x, q) for x, q in self.load(S, l)}
                        t |= self.mem_taint(S, l)
                t |= self.tnt(f, i['args'][1])
                for r, p in args[0]:
                    l = (r, p[:-1] + (p[-1] if isinstance(p[-1], str) else '%d+' % p[-1],))
                    self.mod(S, l, where + ('block write',))
                    self.put(S, l, vs)
                    self.smear(S, l, where, t)
            elif any(dem.startswith(x) for x in SILENT):
                pass
            elif b in CLOCK or any(b.startswith(x) for x in ('std::chrono', 'std::random', 'std::this_thread')):
                S.sources.add((b,) + where)
                sett(frozenset([b]))
                for l in (args[0] if args else ()):
                    self.smear(S, l, where, (b,))
            elif b in PURE or b.startswith(('llvm.maxnum', 'llvm.minnum', 'llvm.fabs', 'llvm.umul', 'llvm.is.fpclass', 'llvm.sqrt',
                                            'llvm.fmuladd', 'llvm.abs', 'llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin',
                                            'llvm.floor', 'llvm.ceil', 'llvm.copysign', 'llvm.pow')):
                t = set()
                for o in i['args']:
                    t |= self.tnt(f, o)
                sett(frozenset(t))
            else:
                self.final and S.unk.setdefault('call of %s' % b, where)
                sett(frozenset(['extern ' + b]))


def field_of(module, cls, p):
    """a readable name of the first component of a path relative to a class"""
    try:
        lay = module.layout(cls)
    except KeyError:
        return str(p)
    o = p if isinstance(p, int) else int(p[:-1])
    best = None
    for k, (fo, sz, t) in lay.items():
        if fo <= o < fo + max(sz, 1):
            best = k
    return best or str(p)


def show(loc):
    return '%s%s' % (loc[0][1] if loc[0][0] != 'arg' else 'arg%d' % loc[0][1], ''.join('[%s]' % x for x in loc[1]))
