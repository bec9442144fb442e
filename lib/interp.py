"""Gated-SSA dataflow evaluation of IR functions over the value and memory
domains.  Loops are summarised in closed form over their iteration number."""
from fractions import Fraction
import sys

import sym
import memory as M
from sym import (Poly, Ite, ZERO, ONE, const, pa, atom, var, psub, padd, pmul, pscale, lt0, eq0, ite,
                 band, bnot, bor, subst, distrib, FACTS)

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


def brestrict(f, c, memo=None):
    """generalised cofactor: agrees with f wherever c holds"""
    if memo is None:
        memo = {}
    if not isinstance(f, Ite) or c is ONE or c is ZERO:
        return f
    key = (f.id, c.id)
    r = memo.get(key)
    if r is not None:
        return r
    tf, tc = sym.top(f), sym.top(c)
    if tc < tf:
        if c.hi is ZERO:
            r = brestrict(f, c.lo, memo)
        elif c.lo is ZERO:
            r = brestrict(f, c.hi, memo)
        else:
            r = brestrict(f, bor(c.hi, c.lo), memo)
    elif tc == tf:
        if c.hi is ZERO:
            r = brestrict(f.lo, c.lo, memo)
        elif c.lo is ZERO:
            r = brestrict(f.hi, c.hi, memo)
        else:
            r = sym.ite_atom(f.c, brestrict(f.hi, c.hi, memo), brestrict(f.lo, c.lo, memo))
    else:
        r = sym.ite_atom(f.c, brestrict(f.hi, c, memo), brestrict(f.lo, c, memo))
    memo[key] = r
    return r


class Edge:
    __slots__ = ('src', 'dst', 'cond', 'mem', 'env')

    def __init__(self, src, dst, cond, mem, env):
        self.src, self.dst, self.cond, self.mem, self.env = src, dst, cond, mem, env


class Result:
    def __init__(self, ret, mem, care=ONE):
        self.ret, self.mem = ret, mem
        self.care = care                    # when a return is reached


def nanof(v):
    """boolean: the floating-point value v is undefined"""
    if isinstance(v, Ite):
        return sym.ite_atom(v.c, nanof(v.hi), nanof(v.lo))
    r = ZERO
    for a in sorted(v.atoms(), key=lambda x: x.id):
        r = bor(r, nanatom(a))
    return r


def nanatom(a):
    if a.isint or a.kind in ('ind',):
        return ZERO
    if a.kind in ('abs', 'inv', 'sqrt', 'sin', 'cos'):
        return nanof(a.args[0])
    return sym.boolatom('bfn', 'nan', pa(a))


def infof(v):
    if isinstance(v, Ite):
        return sym.ite_atom(v.c, infof(v.hi), infof(v.lo))
    if v.is_const():
        return ZERO
    return sym.boolatom('bfn', 'inf', v)


class Step:
    """one iteration of a loop"""

    def __init__(self, cond, mem, before, after, exits):
        self.cond, self.mem, self.before, self.after, self.exits = cond, mem, before, after, exits


class Engine:
    def __init__(self, module, models=None, virt=None, max_depth=40):
        self.m = module
        self.models = models or {}          # demangled-name predicate handled in call()
        self.virt = virt                    # handler for virtual calls
        self.max_depth = max_depth
        self.kappas = []                    # enclosing loop variables
        self.slots = {}
        self.assumptions = set()
        self.log = []                       # analysed functions
        self.funcs_seen = {}
        self.changed = False
        self.uid = 0
        self.opaque_calls = set()
        self.asserted = []
        self.where = []
        self.nan = False                    # undefined numbers are told apart in comparisons
        self.cut = None                     # (levels, predicate, heap): loops to be cut
        self.cuts = []
        self.open_cuts = []
        self.frames = []         # condition of the block each active function is in
        self.cutters = set()

    # --- operands -----------------------------------------------------------
    def opnd(self, o, env):
        k = o['k']
        if k == 'v':
            v = env.get(o['v'])
            if v is None:
                raise Unsupported('undefined ssa value %s' % o['v'])
            return v
        if k == 'int':
            return const(int(o['v']) if o['b'] > 1 else abs(int(o['v'])))
        if k == 'fp':
            x = o['v']
            if 'inf' in x or 'nan' in x:
                return pa(atom('fn', 'fp' + x))
            return const(Fraction(float.fromhex(x)))
        if k == 'null':
            return ZERO
        if k == 'zero':
            return ZERO
        if k == 'undef':
            return pa(atom('fn', 'undefv'))
        if k == 'glob':
            return pa(atom('glob', o['v'], ptr=True))
        if k == 'cgep':
            return sym.add(self.opnd(o['base'], env), const(o['off']))
        return pa(atom('fn', 'opnd_' + str(o.get('v'))))

    def assume(self, s):
        self.assumptions.add(s)

    # --- function -------------------------------------------------------------
    def run(self, fn, args, mem, ctx=()):
        fn.analyse()
        if len(self.where) > self.max_depth:
            raise Unsupported('call depth in ' + fn.dem)
        if fn.irreducible:
            raise Unsupported('irreducible control flow in ' + fn.dem)
        self.funcs_seen[fn.name] = fn
        self.where.append(fn)
        env = {}
        for a, v in zip(fn.args, args):
            env[a['id']] = v
        # loops cut in here begin and end under the condition of the call
        cond = self.frames[-1] if fn.name in self.cutters and self.frames else ONE
        depth, mark = len(self.open_cuts), len(self.cuts)
        self.frames.append(cond)
        try:
            outs = self.region(fn, None, 0, cond, mem, dict(env), ctx)
            if any(k.depth == depth for k in self.cuts[mark:]) and len(self.frames) > 1 and fn.name not in self.cutters:
                self.cutters.add(fn.name)
                cond = self.frames[-2]
                if cond is not ONE:
                    del self.cuts[mark:]
                    outs = self.region(fn, None, 0, cond, mem, dict(env), ctx)
        finally:
            self.where.pop()
            self.frames.pop()
        rets = [e for e in outs if e.dst == 'ret']
        if not rets:
            raise Unsupported('no return in ' + fn.dem)
        care, mem, vals = self.merge(rets, lambda e: [e.env['ret']])
        if self.frames and any(k.depth == depth for k in self.cuts[mark:]):
            self.frames[-1] = care
        return Result(vals[0], mem, care)

    def merge(self, edges, getvals):
        """combine edges (cond, mem, values) -> (cond, mem, values)"""
        care = ZERO
        for e in edges:
            care = bor(care, e.cond)
        last = edges[-1]
        mem = last.mem
        vals = list(getvals(last))
        for e in reversed(edges[:-1]):
            c = brestrict(e.cond, care)
            mem = M.mite(c, e.mem, mem)
            ev = getvals(e)
            for i in range(len(vals)):
                vals[i] = self.vite(c, ev[i], vals[i])
        return care, mem, vals

    def vite(self, c, a, b):
        if a is b or b is None:
            return a
        if a is None:
            return b
        if isinstance(a, tuple) or isinstance(b, tuple):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    def region(self, fn, loop, entry, cond, mem, env, ctx, unroll=None, state=None):
        """evaluates blocks of `loop` (or the whole function) starting at entry,
        inner loops collapsed.  Returns edges leaving the region / back edges / rets."""
        blocks = loop.blocks if loop else set(fn.rpo)
        order = [b for b in fn.rpo if b in blocks]
        inc = {entry: [Edge(None, entry, cond, mem, None)]}
        outs = []
        done = set()
        bpush = 0
        try:
            for b in order:
                if b in done:
                    continue
                es = inc.get(b)
                if not es:
                    continue
                L = fn.loops.get(b)
                if L is not None and L is not loop and (loop is None or b != entry):
                    # collapse inner loop
                    done |= L.blocks
                    for e in self.loop(fn, L, es, env, ctx):
                        if e.dst == 'ret':
                            outs.append(e)
                        elif e.dst in blocks and e.dst != entry:
                            inc.setdefault(e.dst, []).append(e)
                        elif e.dst == entry and loop is not None:
                            outs.append(e)
                        else:
                            outs.append(e)
                    continue
                done.add(b)
                phis = [i for i in fn.blocks[b] if i['op'] == 'phi'] if es[0].src is not None else []
                if phis:
                    def pv(e):
                        r = []
                        for p in phis:
                            for o, pb in p['in']:
                                if pb == e.src:
                                    r.append(self.opnd(o, e.env))
                                    break
                            else:
                                r.append(None)
                        return r
                    bc, bm, vals = self.merge(es, pv)
                    for p, v in zip(phis, vals):
                        env[p['id']] = v
                else:
                    bc, bm, _ = self.merge(es, lambda e: [])
                self.frames[-1] = bc
                bm = self.block(fn, b, env, bm, ctx)
                bc = self.frames[-1]
                bes = self.branch(fn, b, bc, bm, env)
                if unroll is None and loop is not None:
                    for e in bes:
                        if e.dst not in blocks and e.dst != 'ret' and self.on_exit(state, e, b, bc):
                            T = state['trip']
                            if not isinstance(T, Ite):
                                FACTS.push([psub(psub(T, pa(state['kappa'])), ONE)])
                                bpush += 1
                            # below, iterations run: the continue condition holds
                            nc = bnot(e.cond)
                            for o in bes:
                                if o is not e:
                                    o.cond = brestrict(o.cond, nc)
                            break
                for e in bes:
                    if e.dst == 'ret' or e.dst not in blocks or (loop is not None and e.dst == entry):
                        outs.append(e)
                    else:
                        inc.setdefault(e.dst, []).append(e)
        finally:
            for _ in range(bpush):
                FACTS.pop()
        return outs

    def on_exit(self, st, e, b, bc):
        """counted exit facts"""
        if st is None or st.get('trip') is not None or bc is not ONE:
            return False
        T = self.counted(bnot(e.cond), st['kappa'])
        if T is None:
            return False
        st['trip'] = T
        st['tedge'] = (e.src, e.dst)
        return True

    def counted(self, cont, k):
        """continue condition as function of the iteration number -> trip count"""
        if not isinstance(cont, Ite) or cont.hi not in (ONE, ZERO) or cont.lo not in (ONE, ZERO):
            if isinstance(cont, Ite):
                inv = [c for c in sym.conds(cont) if k not in c.fv]
                if inv:
                    c = min(inv, key=lambda x: x.id)
                    a = self.counted(sym.restrict(cont, c, 1), k)
                    b = self.counted(sym.restrict(cont, c, 0), k)
                    if a is not None and b is not None:
                        return sym.ite_atom(c, a, b)
                return None
            return ZERO if cont is ZERO else None
        c = cont.c
        pos = cont.hi is ONE
        if k not in c.fv:
            return None
        if c.kind == 'lt0' and c.args[1] == 'i':
            p = c.args[0] if pos else psub(sym.pneg(c.args[0]), ONE)     # continue while p < 0
            s = sym.solve_linear(p, k)
            co = M._coef(p, k)
            if s is None or co <= 0:
                return None
            if co != 1:
                # k < s : ceil
                cd = Fraction(1) / co
                if cd.denominator != 1 and not sym.int_coefs(s):
                    return None
            if not sym.int_coefs(s):
                return None
            self.note_nonneg(s)
            return self.clamp(s)
        if c.kind == 'eq0' and not pos:
            s = sym.solve_linear(c.args[0], k)
            if s is None or not sym.int_coefs(s):
                return None
            self.note_nonneg(s)
            return self.clamp(s)
        return None

    def clamp(self, s):
        if s.is_const() and s.const() < 0:
            return ZERO
        return s

    def note_nonneg(self, s):
        if not sym.entails_nonneg(s):
            self.assume('trip count %s is not negative' % sym.show(s))

    # --- blocks -------------------------------------------------------------------
    def branch(self, fn, b, bc, mem, env):
        t = fn.blocks[b][-1]
        op = t['op']
        live = fn.succ[b]
        if op == 'ret':
            e2 = dict(ret=self.opnd(t['ops'][0], env) if t.get('ops') else ZERO)
            return [Edge(b, 'ret', bc, mem, e2)]
        if op == 'br':
            ss = t['succ']
            if len(ss) == 1 or ss[0] == ss[1]:
                return [Edge(b, ss[0], bc, mem, env)] if ss[0] in live else []
            if len(live) == 1:
                c = self.opnd(t['cond'], env)
                self.asserted.append((fn, t, c if live[0] == ss[0] else bnot(c)))
                return [Edge(b, live[0], bc, mem, env)]
            if not live:
                return []
            c = self.opnd(t['cond'], env)
            out = []
            for s, cc in ((ss[0], c), (ss[1], bnot(c))):
                x = band(bc, cc)
                if x is not ZERO:
                    out.append(Edge(b, s, x, mem, env))
            return out
        if op == 'switch':
            v = self.opnd(t['cond'], env)
            out = {}
            rest = bc
            for val, s in t['cases']:
                c = sym.veq(v, const(val))
                x = band(rest, c)
                rest = band(rest, bnot(c))
                if s in live:
                    out[s] = bor(out.get(s, ZERO), x)
            if t['def'] in live:
                out[t['def']] = bor(out.get(t['def'], ZERO), rest)
            return [Edge(b, s, x, mem, env) for s, x in out.items() if x is not ZERO]
        if op == 'unreachable':
            return []
        raise Unsupported('terminator ' + op)

    def ty(self, t):
        if t == 'ptr':
            return 'p'
        if t.startswith('i'):
            return 'i'
        return 'd'

    def block(self, fn, b, env, mem, ctx):
        for i in fn.blocks[b]:
            op = i['op']
            if op == 'phi' or op in ('br', 'switch', 'ret', 'unreachable'):
                continue
            if op == 'call':
                mem = self.call(fn, i, env, mem, ctx)
                continue
            if op == 'load':
                a = self.opnd(i['ops'][0], env)
                if i['t'].startswith('{') or i['t'].startswith('['):
                    raise Unsupported('aggregate load')
                v = M.read(mem, a, i['asz'], self.ty(i['t']))
                env[i['id']] = v
                continue
            if op == 'store':
                v = self.opnd(i['ops'][0], env)
                a = self.opnd(i['ops'][1], env)
                mem = M.store(mem, a, i['asz'], v)
                continue
            env[i['id']] = self.inst(fn, i, env, ctx)
        return mem

    def inst(self, fn, i, env, ctx):
        op = i['op']
        if op == 'getelementptr':
            v = sym.add(self.opnd(i['base'], env), const(i['off']))
            for o, sc in i['var']:
                v = sym.add(v, sym.mul(self.opnd(o, env), const(sc)))
            return v
        if op == 'alloca':
            return pa(atom('alloc', ctx, i['id'], ptr=True))
        ops = [self.opnd(o, env) for o in i.get('ops', [])]
        if op == 'add' or op == 'fadd':
            return sym.add(*ops)
        if op == 'sub' or op == 'fsub':
            return sym.sub(*ops)
        if op == 'mul' or op == 'fmul':
            return sym.mul(*ops)
        if op == 'fdiv':
            return sym.div(*ops)
        if op == 'fneg':
            return sym.neg(ops[0])
        if op in ('sdiv', 'udiv'):
            return sym.apply2('idiv%d' % FACTS.version, sym.idiv, *ops)
        if op in ('srem', 'urem'):
            return sym.apply2('imod%d' % FACTS.version, sym.imod, *ops)
        if op == 'shl' and ops[1] and isinstance(ops[1], Poly) and ops[1].is_const():
            return sym.mul(ops[0], const(2 ** int(ops[1].const())))
        if op in ('lshr', 'ashr') and isinstance(ops[1], Poly) and ops[1].is_const():
            return distrib(ops[0], lambda l: sym.idiv(l, const(2 ** int(ops[1].const()))))
        if op in ('and', 'or', 'xor'):
            if i['t'] == 'i1':
                x, y = self.tobool(ops[0]), self.tobool(ops[1])
                if op == 'and':
                    return band(x, y)
                if op == 'or':
                    return bor(x, y)
                return ite(x, bnot(y), y)
            if sym.is_bool(ops[0]) and sym.is_bool(ops[1]):
                x, y = ops
                return band(x, y) if op == 'and' else bor(x, y) if op == 'or' else ite(x, bnot(y), y)
            if op == 'and' and isinstance(ops[1], Poly) and ops[1].is_const():
                k = int(ops[1].const())
                if k > 0 and (k & (k + 1)) == 0:
                    return distrib(ops[0], lambda l: sym.imod(l, const(k + 1)))
            if op == 'xor' and ops[1] is const(-1):
                return sym.sub(const(-1), ops[0])
            return sym.ufn('i' + op, *ops, isint=True)
        if op == 'icmp':
            p = i['pred']
            a, b = ops
            if p == 'eq':
                return sym.veq(a, b)
            if p == 'ne':
                return bnot(sym.veq(a, b))
            p = p[1:]
            if p == 'lt':
                return sym.vlt(a, b, True)
            if p == 'gt':
                return sym.vlt(b, a, True)
            if p == 'le':
                return bnot(sym.vlt(b, a, True))
            return bnot(sym.vlt(a, b, True))
        if op == 'fcmp':
            p = i['pred']
            a, b = ops
            if p in ('ord', 'true'):
                return ONE if p == 'true' else bnot(self.isnan(a, b))
            if p in ('uno', 'false'):
                # x != x : NaN test; exact arithmetic has no NaN
                return ZERO if p == 'false' else self.isnan(a, b)
            if self.nan:
                u = self.isnan(a, b)
                if u is not ZERO:
                    self.nan = False
                    try:
                        r = self.inst(fn, i, env, ctx)
                    finally:
                        self.nan = True
                    return ite(u, ONE if p[0] == 'u' else ZERO, r)
            q = p[1:]
            if q == 'eq':
                return sym.veq(a, b)
            if q == 'ne':
                return bnot(sym.veq(a, b))
            if q == 'lt':
                return sym.vlt(a, b, False)
            if q == 'gt':
                return sym.vlt(b, a, False)
            if q == 'le':
                return bnot(sym.vlt(b, a, False))
            return bnot(sym.vlt(a, b, False))
        if op == 'select':
            return self.vite(self.tobool(ops[0]), ops[1], ops[2])
        if op == 'zext' or op == 'sext':
            if i['st'] == 'i1' and op == 'sext':
                return sym.neg(ops[0])
            return ops[0]
        if op == 'trunc':
            if i['t'] == 'i1':
                return self.tobool(ops[0])
            if i['t'] == 'i8' and not sym.is_bool(ops[0]):
                if not (isinstance(ops[0], Poly) and ops[0].is_const() and -128 <= ops[0].const() < 256):
                    return sym.ufn('trunc8', ops[0], isint=True)
            return ops[0]
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'fpext', 'sitofp', 'uitofp', 'addrspacecast'):
            return ops[0]
        if op == 'fptrunc':
            if isinstance(ops[0], Poly) and ops[0].is_const():
                return ops[0]
            return sym.ufn('f32', ops[0])
        if op in ('fptosi', 'fptoui'):
            return sym.ufn('ftoi', ops[0], isint=True)
        if op == 'extractvalue':
            v = ops[0]
            for x in i['idx']:
                if not isinstance(v, tuple):
                    raise Unsupported('extractvalue')
                v = v[x]
            return v
        if op == 'insertvalue':
            base = ops[0] if isinstance(ops[0], tuple) else (ZERO,) * 4
            if len(i['idx']) != 1:
                raise Unsupported('insertvalue')
            b = list(base)
            b[i['idx'][0]] = ops[1]
            return tuple(b)
        if op == 'frem':
            return sym.ufn('frem', *ops)
        raise Unsupported('instruction ' + op)

    def isnan(self, a, b):
        if not self.nan:
            return ZERO
        return bor(nanof(a), nanof(b))

    def tobool(self, v):
        if sym.is_bool(v):
            return v
        return bnot(sym.veq(v, ZERO))

    # --- calls -----------------------------------------------------------------------
    MATHFN = dict({k: 1 for k in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'tan', 'atan', 'asin', 'acos',
                                  'exp', 'log', 'log10', 'cbrt', 'tanh', 'sinh', 'cosh')}, fmod=2, remainder=2, atan2=2, pow=2)
    MATH1 = {'cos': 'cos', 'sin': 'sin', 'sqrt': 'sqrt', 'fabs': 'abs', 'abs': 'abs',
             'llvm.fabs.f64': 'abs', 'llvm.sqrt.f64': 'sqrt', 'llvm.cos.f64': 'cos', 'llvm.sin.f64': 'sin',
             'llvm.abs.i32': 'abs', 'llvm.abs.i64': 'abs'}

    def call(self, fn, i, env, mem, ctx):
        cal = i['callee']
        if cal['k'] == 'glob':
            name = cal['v']
            if name.startswith('llvm.'):
                if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name == 'llvm.assume' \
                        or name.startswith('llvm.experimental.noalias'):
                    return mem
                if name == 'llvm.type.test':
                    # remember the static class of the vtable pointer
                    env[i['id']] = ONE
                    cls = i['args'][1].get('v', '')
                    if i['args'][0]['k'] == 'v':
                        env.setdefault('vt', {})[i['args'][0]['v']] = cls
                    return mem
            args = [self.opnd(a, env) for a in i['args'] if a['k'] != 'md']
            r, mem = self.do_call(fn, i, name, args, mem, ctx)
            env[i['id']] = r if r is not None else ZERO
            return mem
        if cal['k'] == 'v':
            args = [self.opnd(a, env) for a in i['args']]
            target = self.opnd(cal, env)
            r, mem = self.indirect(fn, i, target, cal, args, env, mem, ctx)
            env[i['id']] = r if r is not None else ZERO
            return mem
        raise Unsupported('call of ' + str(cal))

    def do_call(self, fn, i, name, args, mem, ctx):
        m1 = self.MATH1.get(name)
        if m1:
            f = {'cos': sym.vcos, 'sin': sym.vsin, 'sqrt': sym.vsqrt, 'abs': sym.vabs}[m1]
            return f(args[0]), mem
        if self.nan and name in ('fmax', 'llvm.maxnum.f64', 'fmin', 'llvm.minnum.f64'):
            f = sym.vmax if 'max' in name else sym.vmin
            return ite(nanof(args[0]), args[1], ite(nanof(args[1]), args[0], f(args[0], args[1]))), mem
        if name in ('fmax', 'llvm.maxnum.f64'):
            return sym.vmax(args[0], args[1]), mem
        if name in ('fmin', 'llvm.minnum.f64'):
            return sym.vmin(args[0], args[1]), mem
        if name in ('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma'):
            return sym.add(sym.mul(args[0], args[1]), args[2]), mem
        if name == 'hypot':
            return sym.vsqrt(sym.add(sym.mul(args[0], args[0]), sym.mul(args[1], args[1]))), mem
        if name == 'pow' and isinstance(args[1], Poly) and args[1].is_const() \
                and args[1].const().denominator == 1 and 0 <= args[1].const() <= 4:
            r = ONE
            for _ in range(int(args[1].const())):
                r = sym.mul(r, args[0])
            return r, mem
        if name in ('llvm.copysign.f64', 'copysign'):
            m = sym.vabs(args[0])
            return ite(sym.vlt(args[1], ZERO, False), sym.neg(m), m), mem
        mf = self.MATHFN.get(name[5:-4] if name.startswith('llvm.') and name.endswith('.f64') else name)
        if mf == len(args) and all(isinstance(x, (Poly, Ite)) for x in args):
            # a pure function of its arguments: equal arguments give equal results
            fnm = name[5:-4] if name.startswith('llvm.') else name
            if mf == 1:
                return sym.apply1('mfn' + fnm, lambda x: pa(atom('mfn', fnm, x)), args[0]), mem
            return sym.apply2('mfn' + fnm, lambda x, y: pa(atom('mfn', fnm, x, y)), args[0], args[1]), mem
        if name.startswith('llvm.is.fpclass'):
            k = int(args[1].const())
            fin = k & 0x1f8
            if fin not in (0, 0x1f8) or (k & 0x204) not in (0, 0x204):
                raise Unsupported('floating-point class test %d' % k)
            if fin:
                k ^= 0x3ff
            r = ZERO
            if self.nan and k & 3:
                r = bor(r, nanof(args[0]))
            if self.nan and k & 0x204:
                r = bor(r, infof(args[0]))
            return (bnot(r) if fin else r), mem
        if name.startswith('llvm.memset'):
            g = ('byte', self.norm8(args[1]))
            return None, self.add_region(mem, args[0], args[2], g)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            return args[0], self.memcopy(mem, args[0], args[1], args[2])
        if name == 'memset':
            return args[0], self.add_region(mem, args[0], args[2], ('byte', self.norm8(args[1])))
        if name.startswith('llvm.umul.with.overflow'):
            return (sym.mul(args[0], args[1]), ZERO), mem
        if name.startswith('llvm.uadd.with.overflow'):
            return (sym.add(args[0], args[1]), ZERO), mem
        if name.startswith('llvm.smax') or name.startswith('llvm.umax'):
            return ite(sym.vlt(args[0], args[1], True), args[1], args[0]), mem
        if name.startswith('llvm.smin') or name.startswith('llvm.umin'):
            return ite(sym.vlt(args[0], args[1], True), args[0], args[1]), mem
        if name in ('_Znam', '_Znwm', 'malloc', 'calloc'):
            a = atom('alloc', ('new',) + ctx, i['id'], *[pa(k) for k in self.kappas], ptr=True)
            return pa(a), M.event(mem, 'new', (pa(a), args[0]), (name,))
        if name in ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm', 'free'):
            return None, M.event(mem, 'delete', (args[0],), (name,))
        f = self.m.funcs.get(name)
        dem = f.dem if f else name
        h = self.model_for(dem, name)
        if h is not None:
            r = h(self, i, args, mem, ctx)
            if r is not NotImplemented:
                return r
        if f is not None and not f.decl:
            res = self.run(f, args, mem, ctx + ((fn.name, i['id']),))
            return res.ret, res.mem
        return self.unknown(dem, i, args, mem, ctx)

    def norm8(self, v):
        if isinstance(v, Poly) and v.is_const():
            return const(int(v.const()) % 256)
        return v

    def model_for(self, dem, name):
        h = self.models.get(dem)
        if h is not None:
            return h
        for p, h in self.models.get('*prefix', ()):
            if dem.startswith(p):
                return h
        return None

    def unknown(self, dem, i, args, mem, ctx):
        self.opaque_calls.add(dem)
        self.uid += 1
        ty = i['t']
        r = None
        if ty != 'void':
            r = pa(atom('fn', 'ext:' + dem, *[a for a in args if isinstance(a, Poly)],
                        isint=self.ty(ty) == 'i', ptr=self.ty(ty) == 'p', flag='ext'))
        return r, mem

    def add_region(self, mem, ptr, ln, gen):
        def f(p):
            return M.region(mem, ('range', p, ln, ONE), gen)
        return M.mite_val(ptr, f)

    def memcopy(self, mem, dst, src, ln):
        return M.mite_val(dst, lambda d: M.mite_val(src, lambda s: M.region(
            mem, ('range', d, ln, ONE), ('copy', mem, s))))

    def indirect(self, fn, i, target, cal, args, env, mem, ctx):
        # devirtualise through llvm.type.test metadata: target = load(vtable + slot)
        slot = cls = None
        if isinstance(target, Poly):
            a = target.single_atom()
            if a is not None and a.kind == 'glob':
                return self.do_call(fn, i, a.args[0], args, mem, ctx)
        for b in fn.blocks:
            for x in b:
                if x.get('id') == cal['v'] and x['op'] == 'load':
                    p = x['ops'][0]
                    slot, vt = self.vslot(fn, p)
                    if vt is not None:
                        cls = env.get('vt', {}).get(vt)
        if self.virt is None or cls is None:
            raise Unsupported('indirect call in %s' % fn.dem)
        return self.virt(self, fn, i, cls, slot, args, mem, ctx)

    def vslot(self, fn, p):
        """operand of the function-pointer load -> (slot index, ssa id of the vtable pointer)"""
        if p['k'] != 'v':
            return None, None
        for b in fn.blocks:
            for x in b:
                if x.get('id') == p['v']:
                    if x['op'] == 'getelementptr':
                        return x['off'] // 8, x['base'].get('v')
                    return 0, p['v']
        return 0, p['v']

    # --- loops --------------------------------------------------------------------------
    UNROLL = 12

    def loop(self, fn, L, es, env, ctx):
        hdr = L.header
        phis = [p for p in fn.blocks[hdr] if p['op'] == 'phi']

        def pv(e):
            r = []
            for p in phis:
                for o, pb in p['in']:
                    if pb == e.src:
                        r.append(self.opnd(o, e.env if e.env is not None else env))
                        break
                else:
                    r.append(None)
            return r
        cond, mem, inits = self.merge(es, pv)
        key = (ctx, fn.name, hdr)
        slot = self.slots.get(key)
        params = tuple(self.kappas)
        if slot is None or slot.params != params:
            kap = atom('var', 'k%d_%s' % (len(self.slots), fn.dem.split('(')[0].split('::')[-1]), isint=True)
            slot = M.Slot(key, kap, params, mem)
            slot.where = '%s:%s' % (fn.dem, fn.blocks[hdr][0].get('l', ''))
            self.slots[key] = slot
        if slot.prev is not mem:
            slot.prev = mem
            slot.body = None
            slot.phis = {}
            slot.cells = {}
            slot.badcells = set()
            M.clear_memo()
            self.changed = True
        kap = slot.kappa
        kp = pa(kap)
        sig = tuple(pa(x) for x in params)
        slot.entry = (fn, L, phis, inits, dict(env), ctx, list(self.where))
        if self.cut and not self.kappas and len(self.open_cuts) < self.cut[0] and self.cut[1](self, fn, L):
            return self.cut_loop(fn, L, hdr, phis, inits, mem, cond, env, ctx, slot)
        # unrolling
        u = self.try_unroll(fn, L, phis, inits, mem, env, ctx)
        if u is not None:
            for e in u:
                e.cond = band(cond, e.cond)
            return u
        forms = {k: v for k, v in slot.phis.items() if k != 'bad'}
        for p, v0 in zip(phis, inits):
            # a counter or a pointer advanced by a constant along every back edge: known before the body is seen
            if p['id'] not in forms and v0 is not None and not isinstance(v0, tuple):
                c = self.step_of(fn, p, L)
                if c is not None:
                    f = sym.add(v0, sym.mul(const(c), kp))
                    if (p['id'], f.id) not in slot.phis.get('bad', ()):
                        forms[p['id']] = f
        musym = {}
        outer_changed = self.changed
        final = None
        for it in range(14):
            self.changed = False
            env2 = dict(env)
            for p, v0 in zip(phis, inits):
                f = forms.get(p['id'])
                if f is None:
                    ms = musym.get(p['id'])
                    if ms is None:
                        t = p['t']
                        ms = pa(atom('mu', slot.id, p['id'], kp, *sig, isint=self.ty(t) == 'i',
                                     ptr=self.ty(t) == 'p', flag='mu'))
                        musym[p['id']] = ms
                    env2[p['id']] = ms
                else:
                    env2[p['id']] = f
            hm = M.mloop(slot, sig, kp)
            st = {'kappa': kap, 'trip': None}
            self.kappas.append(kap)
            FACTS.push([kp])
            M.OPEN[slot] = True
            slot.wanted = {}
            try:
                outs = self.region(fn, L, hdr, ONE, hm, env2, ctx, state=st)
            finally:
                FACTS.pop()
                self.kappas.pop()
                del M.OPEN[slot]
            back = [e for e in outs if e.dst == hdr]
            exits = [e for e in outs if e.dst != hdr]
            if not back:
                # not really a loop
                for e in exits:
                    e.cond = subst(e.cond, {kap: ZERO})
                    e.mem = M.msubst(e.mem, {kap: ZERO})
                    e.env = self.esub(e.env, {kap: ZERO}, fn, e)
                return exits

            def lv(e):
                r = []
                for p in phis:
                    for o, pb in p['in']:
                        if pb == e.src:
                            r.append(self.opnd(o, e.env))
                            break
                    else:
                        r.append(None)
                return r
            bc, bm, nexts = self.merge(back, lv)
            stable = not self.changed
            if slot.body is not bm:
                slot.body = bm
                M.clear_memo()
                stable = False
                self.changed = True
            newforms = {}
            for p, v0, nx in zip(phis, inits, nexts):
                f = self.classify(p, v0, nx, forms, musym, kap, phis, inits, nexts)
                if f is not None:
                    newforms[p['id']] = f
            # forms accepted earlier must be re-derivable: check v(k+1) == next(k), v(0) == init
            for p, v0, nx in zip(phis, inits, nexts):
                f = forms.get(p['id'])
                if f is None:
                    continue
                if self.inductive(f, v0, nx, kap):
                    newforms[p['id']] = f
                else:
                    g = newforms.get(p['id'])
                    if g is f:
                        newforms.pop(p['id'])
                    slot.phis.setdefault('bad', set()).add((p['id'], f.id))
            if self.cells(slot, hm, bm, sig, it < 7):
                M.clear_memo()
                stable = False
                self.changed = True
            bad = slot.phis.get('bad', set())
            newforms = {k: v for k, v in newforms.items() if (k, v.id) not in bad}
            if newforms != forms:
                stable = False
                self.changed = True
            forms = newforms
            final = (st, exits, bc)
            if stable:
                break
        else:
            raise Unsupported('loop summary does not stabilise in %s' % slot.where)
        b = slot.phis.get('bad')
        slot.phis = dict(forms)
        if b:
            slot.phis['bad'] = b
        self.changed = outer_changed or (it > 0)
        st, exits, bc = final
        slot.trip = st['trip']
        return self.exits(fn, L, slot, st, exits, cond, env)

    def step(self, slot, mem, t, given=None):
        """one iteration of the loop, number t, from an arbitrary heap `mem`: carried values have
        their closed forms where they have one, else the names in `given` or fresh ones"""
        fn, L, phis, inits, env, ctx, where = slot.entry
        env2 = dict(env)
        cur = {}
        given = dict(given or {})
        for p, v0 in zip(phis, inits):
            f = slot.phis.get(p['id']) if p['id'] not in given else given[p['id']]
            if f is None:
                ty = self.ty(p['t'])
                f = pa(atom('var', 'phi%d_%d' % (slot.id, p['id']), isint=ty == 'i', ptr=ty == 'p'))
            elif p['id'] not in given:
                f = subst(f, {slot.kappa: t})
            env2[p['id']] = f
            cur[p['id']] = f
        saved = self.where, self.kappas
        self.where, self.kappas = list(where), list(slot.params)
        try:
            outs = self.region(fn, L, L.header, ONE, mem, env2, ctx + (('step', slot.id, t.id, mem.id),))
        finally:
            self.where, self.kappas = saved
        back = [e for e in outs if e.dst == L.header]
        exits = [e for e in outs if e.dst != L.header]

        def lv(e):
            r = []
            for p in phis:
                for o, pb in p['in']:
                    if pb == e.src:
                        r.append(self.opnd(o, e.env))
                        break
                else:
                    r.append(None)
            return r
        if not back:
            raise Unsupported('no iteration in ' + slot.where)
        bc, bm, nexts = self.merge(back, lv)
        return Step(bc, bm, cur, dict(zip([p['id'] for p in phis], nexts)), exits)

    def cut_loop(self, fn, L, hdr, phis, inits, mem, cond, env, ctx, slot):
        """the loop is replaced by one arbitrary iteration: number t, fresh heap, carried values in
        closed form where they are plain counters and fresh otherwise"""
        heap = self.cut[2]
        n = len(self.cuts)
        t = pa(atom('var', 't%d' % n, isint=True))
        cur = {}
        for p in phis:
            ty = self.ty(p['t'])
            cur[p['id']] = pa(atom('var', 'c%d_%d' % (n, phis.index(p)), isint=ty == 'i', ptr=ty == 'p'))
        rec = Step(ONE, None, cur, {}, [])
        rec.slot, rec.t, rec.entry, rec.entrycond, rec.fn = slot, t, mem, cond, fn
        rec.depth = len(self.open_cuts)
        rec.phis, rec.inits = phis, dict(zip([p['id'] for p in phis], inits))
        self.cuts.append(rec)
        mark = len(self.cuts)
        self.open_cuts.append(rec)
        try:
            for rnd in range(2):
                del self.cuts[mark:]
                env2 = dict(env)
                env2.update(cur)
                FACTS.push([t])
                try:
                    outs = self.region(fn, L, hdr, ONE, heap, env2, ctx + (('cut', n, rnd),))
                finally:
                    FACTS.pop()
                back = [e for e in outs if e.dst == hdr]
                exits = [e for e in outs if e.dst != hdr]

                def lv(e):
                    r = []
                    for p in phis:
                        for o, pb in p['in']:
                            if pb == e.src:
                                r.append(self.opnd(o, e.env))
                                break
                        else:
                            r.append(None)
                    return r
                if not back:
                    raise Unsupported('no iteration in ' + slot.where)
                bc, bm, nexts = self.merge(back, lv)
                if rnd:
                    break
                again = False
                for p, v0, nx in zip(phis, inits, nexts):
                    c = cur[p['id']]
                    if nx is None or isinstance(nx, tuple):
                        continue
                    d = sym.sub(nx, c)
                    if self.ty(p['t']) == 'i' and not c.is_const():
                        # a flag that has one value whenever an iteration begins
                        i0, n1 = self.only(cond, v0), self.only(bc, nx)
                        if i0 is not None and i0.is_const() and i0 is n1:
                            cur[p['id']] = i0
                            again = True
                            continue
                    if isinstance(d, Poly) and d.is_const() and self.ty(p['t']) == 'i':
                        cur[p['id']] = sym.add(v0, sym.mul(d, t))
                        again = True
                if not again:
                    break
        finally:
            self.open_cuts.pop()
        rec.cond, rec.mem, rec.before, rec.exits = bc, bm, cur, exits
        rec.after = dict(zip([p['id'] for p in phis], nexts))
        return exits

    def only(self, cond, v):
        """the one value v has where the condition holds"""
        none = const(-987654321)
        got = {}

        def go(x):
            if isinstance(x, Ite):
                go(x.hi)
                go(x.lo)
            elif x is not none:
                got[x.id] = x
        try:
            go(ite(cond, v, none))
        except sym.TooBig:
            return None
        return next(iter(got.values())) if len(got) == 1 else None

    def cells(self, slot, hm, bm, sig, more=True):
        """closed forms for memory cells carried around the loop; True when they changed"""
        kap = slot.kappa
        kp = pa(kap)
        ch = False
        FACTS.push([kp])
        try:
            for k, (a, size, ty, form) in list(slot.cells.items()):
                nx = M.read(bm, a, size, ty)
                v0 = M.read(slot.prev, a, size, ty)
                if not self.inductive(form, v0, nx, kap):
                    del slot.cells[k]
                    slot.badcells.add((k, form.id))
                    ch = True
            for k, (a, size, ty) in list(slot.wanted.items()):
                if k in slot.cells or kap in a.fv or not more:
                    continue
                n, phi, t = M.iterate(hm, a, size, ty)
                if n is None or n is pa(phi):
                    continue
                bad = []

                def opq():
                    bad.append(1)
                    return ZERO
                form = M.solve_rec(n, phi, t, kp, lambda: M.read(slot.prev, a, size, ty), opq)
                if bad or (k, form.id) in slot.badcells or 'rd' in form.flags:
                    continue
                slot.cells[k] = (a, size, ty, form)
                ch = True
        finally:
            FACTS.pop()
        return ch

    def inductive(self, f, v0, nx, kap):
        if f is None or nx is None:
            return False
        a = subst(f, {kap: ZERO})
        if a is not v0 and not sym.equal(a, v0).ok:
            return False
        b = subst(f, {kap: padd(pa(kap), ONE)})
        if b is nx:
            return True
        FACTS.push([pa(kap)])
        try:
            return sym.equal(b, nx).ok
        finally:
            FACTS.pop()

    def classify(self, p, v0, nx, forms, musym, kap, phis, inits, nexts):
        ms = musym.get(p['id'])
        kp = pa(kap)
        if forms.get(p['id']) is not None or ms is None or nx is None or isinstance(nx, tuple):
            return forms.get(p['id'])
        a = ms.single_atom()
        mus = {m.single_atom() for m in musym.values()}

        def has(v, at):
            return bool(at & self.atoms_of(v))
        if nx is ms:
            return v0
        d = sym.sub(nx, ms)
        if not has(d, mus):
            if not isinstance(d, Ite) and kap not in d.fv:
                return sym.add(v0, sym.mul(d, kp))
            return sym.add(v0, self.psum(kap, d, kp))
        if not has(nx, mus):
            # last value
            prevv = subst(nx, {kap: psub(kp, ONE)})
            return ite(sym.veq(kp, ZERO), v0, prevv)
        # max reduction
        if isinstance(nx, Poly):
            for x in nx.atoms():
                if x.kind == 'abs' and a in self.atoms_of(x.args[0]):
                    q = x.args[0]
                    c = q.t.get(((a, 1),))
                    if c in (1, -1):
                        g = psub(ms, q) if c == 1 else padd(ms, q)
                        if not has(g, mus) and sym.max_(ms, g) is nx:
                            t = sym.fresh()
                            gt = subst(g, {kap: pa(t)})
                            return M.mxred(t, gt, kp, v0)
        return None

    def psum(self, kap, d, kp):
        t = sym.fresh()
        return sym.psum(t, subst(d, {kap: pa(t)}), kp)

    def atoms_of(self, v):
        return sym.all_atoms(v) if not isinstance(v, tuple) else set()

    def esub(self, env, mp, fn, e):
        """substituted environment: only values used by phis at the destination or returned"""
        if e.dst == 'ret':
            v = env['ret']
            return {'ret': self.vsub(v, mp)}
        out = dict(env)
        for p in fn.blocks[e.dst]:
            if p['op'] != 'phi':
                break
            for o, pb in p['in']:
                if pb == e.src and o['k'] == 'v':
                    out[o['v']] = self.vsub(env[o['v']], mp)
        return out

    def vsub(self, v, mp):
        if isinstance(v, tuple):
            return tuple(self.vsub(x, mp) for x in v)
        if isinstance(v, (Poly, Ite)):
            return subst(v, mp)
        return v

    def exits(self, fn, L, slot, st, exits, cond, env):
        kap = slot.kappa
        T = st['trip']
        te = st.get('tedge')
        main = [e for e in exits if T is not None and (e.src, e.dst) == te]
        others = [e for e in exits if e not in main]
        out = []
        if T is not None:
            if not others:
                for e in main:
                    mp = {kap: T}
                    out.append(self.leave(fn, e, T, kap, cond))
                return out
            stop = ZERO
            for e in others:
                stop = bor(stop, e.cond)
            t = sym.fresh()
            st2 = subst(stop, {kap: pa(t)})
            ex = M.exists(t, st2, T)
            fi = M.first_index(t, st2) if kap in stop.fv else ZERO
            for e in others:
                c = subst(e.cond, {kap: fi}) if len(others) > 1 else ONE
                x = self.leave(fn, e, fi, kap, ONE)
                x.cond = band(cond, band(ex, c))
                out.append(x)
            for e in main:
                x = self.leave(fn, e, T, kap, cond)
                x.cond = band(cond, bnot(ex))
                out.append(x)
            return out
        stop = ZERO
        for e in others:
            stop = bor(stop, e.cond)
        t = sym.fresh()
        fi = M.first_index(t, subst(stop, {kap: pa(t)}))
        for e in others:
            c = subst(e.cond, {kap: fi}) if len(others) > 1 else ONE
            x = self.leave(fn, e, fi, kap, ONE)
            x.cond = band(cond, c)
            out.append(x)
        return out

    def leave(self, fn, e, K, kap, cond):
        mp = {kap: K}
        if isinstance(K, Ite):
            mem = M.mite_val(K, lambda l: M.msubst(e.mem, {kap: l}))

            class D(dict):
                pass
            env = dict(e.env)
            ids = []
            if e.dst == 'ret':
                ids = ['ret']
            else:
                for p in fn.blocks[e.dst]:
                    if p['op'] != 'phi':
                        break
                    ids += [o['v'] for o, pb in p['in'] if pb == e.src and o['k'] == 'v']
            for x in ids:
                v = env[x]
                env[x] = distrib(K, lambda l: subst(v, {kap: l}))
        else:
            mem = M.msubst(e.mem, mp)
            env = self.esub(e.env, mp, fn, e)
        return Edge(e.src, e.dst, cond, mem, env)

    # --- unrolling -----------------------------------------------------------------
    def unroll_bound(self, T):
        if isinstance(T, Ite):
            bs = [self.unroll_bound(l) for l in sym.leaves(T)]
            return None if None in bs else max(bs)
        if T.is_const():
            n = T.const()
            return int(n) if n.denominator == 1 and 0 <= n <= self.UNROLL else None
        hi = T.const()
        for m, c in T.t.items():
            if not m:
                continue
            if len(m) != 1 or m[0][1] != 1 or c < 0:
                return None
            a = m[0][0]
            b = self.unroll_atom(a)
            if b is None:
                return None
            hi += c * b
        return int(hi) if hi <= self.UNROLL else None

    def unroll_atom(self, a):
        return None

    def try_unroll(self, fn, L, phis, inits, mem, env, ctx):
        """bounded, header-controlled loops"""
        hdr = L.header
        t = fn.blocks[hdr][-1]
        if t['op'] != 'br' or len(t['succ']) != 2 or len(fn.succ[hdr]) != 2:
            return None
        ins = [s for s in t['succ'] if s in L.blocks]
        if len(ins) != 1:
            return None
        # symbolic induction probe: evaluate the header with phi = init + step*k
        probe = atom('var', 'unroll_probe', isint=True)
        env2 = dict(env)
        ok = False
        for p, v0 in zip(phis, inits):
            stp = self.step_of(fn, p, L)
            if stp is not None and v0 is not None and not isinstance(v0, tuple):
                env2[p['id']] = sym.add(v0, pscale(pa(probe), stp))
                ok = True
            else:
                env2[p['id']] = pa(atom('fn', 'probe_phi', const(p['id']), isint=True, flag='mu'))
        if not ok:
            return None
        FACTS.push([pa(probe)])
        save = set(self.assumptions)
        nas = len(self.asserted)
        try:
            if self.block(fn, hdr, env2, mem, ctx) is not mem:
                return None
            c = self.opnd(t['cond'], env2)
            cont = c if t['succ'][0] in L.blocks else bnot(c)
            T = self.counted(cont, probe)
        except Unsupported:
            T = None
        finally:
            FACTS.pop()
            self.assumptions = save
            del self.asserted[nas:]
        if T is None:
            return None
        if probe in T.fv:
            return None
        ub = self.unroll_bound(T)
        if ub is None:
            return None
        out = []
        cond = ONE
        vals = list(inits)
        for it in range(ub + 1):
            env2 = dict(env)
            for p, v in zip(phis, vals):
                env2[p['id']] = v
            octx = ctx + (('u', hdr, it),)
            outs = self.region(fn, L, hdr, cond, mem, env2, octx, unroll=True)
            back = [e for e in outs if e.dst == hdr]
            out += [e for e in outs if e.dst != hdr]
            if it == ub:
                # the continue condition is false here by the bound
                break
            if not back:
                break

            def lv(e):
                r = []
                for p in phis:
                    for o, pb in p['in']:
                        if pb == e.src:
                            r.append(self.opnd(o, e.env))
                            break
                    else:
                        r.append(None)
                return r
            cond, mem, vals = self.merge(back, lv)
            if cond is ZERO:
                break
        return out

    def step_of(self, fn, p, L):
        """phi + constant along every back edge -> constant"""
        steps = set()
        for o, pb in p['in']:
            if pb not in L.blocks:
                continue
            if o['k'] != 'v':
                return None
            d = self.defof(fn, o['v'])
            if d is None:
                return None
            if d['op'] == 'add' or d['op'] == 'sub':
                x, y = d['ops']
                if x.get('v') == p['id'] and x['k'] == 'v' and y['k'] == 'int':
                    steps.add(int(y['v']) if d['op'] == 'add' else -int(y['v']))
                    continue
                if y.get('v') == p['id'] and y['k'] == 'v' and x['k'] == 'int' and d['op'] == 'add':
                    steps.add(int(x['v']))
                    continue
            if d['op'] == 'getelementptr' and d['base'].get('v') == p['id'] and d['base']['k'] == 'v' and not d['var']:
                steps.add(int(d['off']))
                continue
            return None
        return steps.pop() if len(steps) == 1 else None

    def defof(self, fn, vid):
        dm = getattr(fn, '_defs', None)
        if dm is None:
            dm = fn._defs = {i['id']: i for b in fn.blocks for i in b}
        return dm.get(vid)
