"""C29, C30, C37: effects of every operation, dependence on ambient state."""
import os
import re

import ck
import common
import effects
import memory as M
import scs
import sym
from ck import Broken
from sym import var

NS = 'atg_scs::'


def eff(c):
    c.E = None
    MOD[0] = c.m
    c.E = E = effects.Effects(c.m, mutable(c))
    for f in E.funcs.values():
        c.funcs[f.name] = f
    return E


def wtext(c, w):
    f = c.m.funcs.get(w[0])
    return '%s at %s (%s:%d)' % (w[2], f.dem.split('(')[0] if f else w[0], os.path.basename(f.file or '') if f else '', w[1])


def layout_name(c, cls, o):
    return effects.field_of(c.m, cls, o)


def impls(c, E, cls, meth):
    """every implementation of a virtual method below a class, the abstract default left out"""
    out = []
    for d in c.m.derived(NS + cls):
        f = c.fn(d + '::' + meth, need=False)
        if f is not None and f.name in E.sum and f not in out:
            out.append(f)
    return out


def mods(E, f):
    return [(l, w) for l, w in E.sum[f.name].mods.items()]


def rootname(l):
    r = l[0]
    return 'argument %d' % r[1] if r[0] == 'arg' else 'global %s' % r[1] if r[0] == 'glob' else r[0]


def discipline(c, E, f, ok, what):
    """every write of f satisfies ok(loc)"""
    S = E.sum[f.name]
    bad = [(l, w) for l, w in S.mods.items() if l[0][0] != 'glob' and not ok(l)]
    if bad:
        bad.sort(key=lambda x: (x[1][1], str(x[0])))
        l, w = bad[0]
        c.rule('%s: %s' % (sig(f), what), False, 'writes %s of %s: %s%s' % (
            ''.join('[%s]' % x for x in l[1]), rootname(l), wtext(c, w),
            ', and %d more places' % (len(bad) - 1) if len(bad) > 1 else ''), where=f)
    elif S.unk:
        k, w = sorted(S.unk.items())[0]
        c.rule('%s: %s' % (sig(f), what), None, '%s in %s line %d' % (k, w[0], w[1]), where=f)
    else:
        c.rule('%s: %s' % (sig(f), what), True, where=f)
    c.sites += len(S.mods)


def sig(f):
    d = f.dem.replace(NS, '')
    return d if len(d) < 90 else d[:87] + '...'


def qual(f):
    """qualified name without return type and parameters"""
    out, depth = '', 0
    for ch in f.dem:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if depth == 0 and ch == '(':
            break
        out = '' if depth == 0 and ch == ' ' else out + ch
    return out


def params(f):
    """parameter types of a method, `this` first, from its demangled name"""
    d = f.dem
    a = d.index('(')
    b = d.rindex(')')
    txt = d[a + 1:b]
    out, depth, cur = [], 0, ''
    for ch in txt:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def isconst(f):
    return f.dem.rstrip().endswith(') const')


def is_static(f):
    return len(f.args) == len(params(f))


def arg(l):
    return l[0][1] if l[0][0] == 'arg' else None


def ints(o):
    return o if isinstance(o, int) else int(o[:-1])


def c29(c):
    E = eff(c)
    lay = lambda cls, f: c.m.off(NS + cls, f)
    # 1. constraints write their output only
    ci = impls(c, E, 'Constraint', 'calculate')
    if not ci:
        raise ck.Anchor('no Constraint::calculate')
    osz = c.m.types[NS + 'Constraint::Output'].get('size')
    for f in ci:
        discipline(c, E, f, lambda l: arg(l) == 1 and len(l[1]) == 1 and (osz is None or ints(l[1][0]) + 8 <= osz),
                   'writes nothing but its output')
    # 2. generators write accumulated force and torque only
    acc = {lay('SystemState', x) for x in ('f_x', 'f_y', 't')}
    gi = impls(c, E, 'ForceGenerator', 'apply')
    if not gi:
        raise ck.Anchor('no ForceGenerator::apply')
    for f in gi:
        discipline(c, E, f, lambda l: arg(l) == 1 and len(l[1]) == 2 and l[1][0] in acc,
                   'writes nothing but accumulated force and torque')
    discipline(c, E, c.fn('SystemState::applyForce'), lambda l: arg(l) == 0 and len(l[1]) == 2 and l[1][0] in acc,
               'writes nothing but accumulated force and torque')
    # 3. linear solvers write themselves and the result, and never their settings
    n = 0
    for meth, k in (('solve', 5), ('solveWithLimits', 5)):
        for f in impls(c, E, 'SleSolver', meth):
            n += 1
            cls = qual(f).rsplit('::', 1)[0]
            conf = set()
            for g in E.funcs.values():
                m_ = g.dem.split('(')[0]
                if m_.startswith(cls + '::set') and not isconst(g) and not g.new:
                    conf |= {l[1] for l in E.sum[g.name].mods if arg(l) == 0 and len(l[1]) == 1}
            sup = c.m.off(NS + 'SleSolver', 'm_supportsLimits')
            conf |= {(sup,), (0,)}
            # solve(J, W, right, previous, result), solveWithLimits(J, W, right, limits, result, previous)
            discipline(c, E, f, lambda l: arg(l) == k or (arg(l) == 0 and l[1] not in conf),
                       'changes neither its inputs nor its settings')
    if n < 3:
        raise ck.Anchor('no implementations of SleSolver::solve')
    # 4. integrators never touch what they are not meant to integrate
    upd = {lay('SystemState', x) for x in ('p_x', 'p_y', 'theta', 'v_x', 'v_y', 'v_theta', 'r_x', 'r_y', 'r_t')}
    dt = lay('SystemState', 'dt')
    n = 0
    for meth in ('start', 'step', 'solve', 'end'):
        for f in impls(c, E, 'OdeSolver', meth):
            n += 1
            if meth == 'start':
                discipline(c, E, f, lambda l: arg(l) == 0, 'changes the integrator only')
            else:
                discipline(c, E, f, lambda l: arg(l) == 0 or (arg(l) == 1 and (
                    l[1] == (dt,) or (len(l[1]) == 2 and l[1][0] in upd))),
                    'changes motion and step size only, never masses, accelerations, forces or tables')
    if not n:
        raise ck.Anchor('no OdeSolver implementations')
    # 5. matrix operations: operands by reference and const receivers stay as they are
    n = 0
    readers = ('get', 'multiply', 'transposeMultiply', 'leftScale', 'rightScale', 'subtract', 'negate', 'transpose', 'dot',
               'componentMultiply', 'equals', 'expand', 'expandTransposed', 'scale', 'vectorMagnitudeSquared',
               'multiplyTranspose', 'transposeMultiplyVector', 'getWidth', 'getHeight', 'getEnds', 'energy')
    for f in sorted(E.funcs.values(), key=lambda f: f.dem):
        d = qual(f)
        if not d.startswith((NS + 'Matrix::', NS + 'SparseMatrix<3, 2>::')) or f.new:
            continue
        meth = d.rsplit('::', 1)[1]
        if meth.startswith('~') or meth in ('Matrix', 'SparseMatrix') or meth.startswith('SparseMatrix'):
            continue
        ps = params(f)
        st = is_static(f)
        target = [i for i, p in enumerate(ps) if p.endswith('*')]
        ro = set()
        if not st and (isconst(f) or meth in readers or (meth == 'add' and target)):
            ro.add(0)
        for i, p in enumerate(ps):
            if p.endswith('&') or p.endswith('const*') or (meth == 'set' and p.endswith('*')):
                ro.add(i + (0 if st else 1))
        if not ro:
            continue
        n += 1
        discipline(c, E, f, lambda l: arg(l) is not None and arg(l) not in ro, 'leaves its operands alone')
    if n < 10:
        raise ck.Anchor('matrix operations not found')
    # 6. queries
    n = 0
    for f in sorted(E.funcs.values(), key=lambda f: f.dem):
        d = qual(f)
        if not d.startswith(NS) or '<' in d or d.startswith((NS + 'Matrix::', NS + 'SparseMatrix')) or f.new:
            continue
        meth = d.rsplit('::', 1)[1]
        if not (isconst(f) or meth.startswith(('get', 'find', 'is')) or meth in (
                'energy', 'localToWorld', 'worldToLocal', 'velocityAtPoint', 'state', 'supportsLimits')):
            continue
        n += 1
        st = is_static(f)
        ps = params(f)
        outs = {i + (0 if st else 1) for i, p in enumerate(ps) if p.endswith('*') and p.split('*')[0].strip() in (
            'double', 'int', 'float')} if meth not in ('findAverage',) else set()
        discipline(c, E, f, lambda l: arg(l) in outs and len(l[1]) == 1, 'changes nothing but its outputs')
    if n < 8:
        raise ck.Anchor('queries not found')
    # 7. stepping and registering: bodies keep their parameters, constraints and generators their settings
    kin = {lay('RigidBody', x) for x in ('p_x', 'p_y', 'v_x', 'v_y', 'theta', 'v_theta')}
    bodies = lay('RigidBodySystem', 'm_rigidBodies')
    cons = lay('RigidBodySystem', 'm_constraints')
    gens = lay('RigidBodySystem', 'm_forceGenerators')
    arrs = []
    for x in ('F_x', 'F_y', 'F_t'):
        o, s, _ = c.m.layout(NS + 'Constraint')[x]
        arrs.append((o, o + s))

    def during_step(l):
        if arg(l) != 0:
            return False
        p = l[1]
        for lst in (bodies, cons, gens):
            if lst <= ints(p[0]) < lst + 24:
                if len(p) != 3 or p[0] != lst:
                    return False         # the lists themselves and anything further away
                if lst == bodies:
                    return p[2] in kin
                if lst == cons:
                    return any(a <= ints(p[2]) < b for a, b in arrs)
                return False
        return True
    pi = impls(c, E, 'RigidBodySystem', 'process')
    if len(pi) < 2:
        raise ck.Anchor('no process')
    for f in pi:
        discipline(c, E, f, during_step, 'changes only motion of bodies, reactions of constraints and its own storage')
    for meth, cls, fld_ in (('addRigidBody', 'RigidBody', 'index'), ('removeRigidBody', 'RigidBody', 'index'),
                            ('addConstraint', 'Constraint', 'm_index'), ('removeConstraint', 'Constraint', 'm_index'),
                            ('addForceGenerator', 'ForceGenerator', 'm_index'),
                            ('removeForceGenerator', 'ForceGenerator', 'm_index')):
        f = c.fn('RigidBodySystem::' + meth)
        o = lay(cls, fld_)
        own = {'RigidBody': bodies, 'Constraint': cons, 'ForceGenerator': gens}[cls]

        def registering(l, o=o, own=own):
            p = l[1]
            if arg(l) == 1:
                return p == (o,)
            if arg(l) != 0 or not own <= ints(p[0]) < own + 24:
                return False
            # the list, its buffer, or the index of a listed object
            return len(p) <= 2 or (len(p) == 3 and p[2] == o)
        discipline(c, E, f, registering, 'changes only its list and the index of what is listed')
    f = c.fn('RigidBodySystem::populateSystemState')
    st0 = lay('RigidBodySystem', 'm_state')
    ssz = c.m.types[NS + 'SystemState'].get('size') or 152
    discipline(c, E, f, lambda l: arg(l) == 0 and st0 <= ints(l[1][0]) < st0 + ssz, 'changes the state only')
    # 8. nothing anywhere writes global state
    globs(c, E)


def globs(c, E):
    seen = {}
    for f in E.funcs.values():
        for l, w in E.sum[f.name].mods.items():
            if l[0][0] == 'glob' and not guarded(c, l[0][1], w):
                seen.setdefault((l[0][1], w[0], w[1]), w)
    for k, w in sorted(seen.items()):
        c.rule('global state is written: %s in %s' % (k[0], effects.short(c.m.funcs[w[0]].dem)), False,
               'writes global %s: %s' % (k[0], wtext(c, w)), where=c.m.funcs.get(w[0]))
    if not seen:
        unk = [f for f in E.funcs.values() if E.sum[f.name].unk]
        c.rule('no function writes global state', None if unk else True,
               'unresolved effects in ' + ', '.join(sig(f) for f in unk[:3]))


def guarded(c, g, w):
    """the one-time initialisation of a constant: only reached through its guard, and from constants only"""
    f = c.m.funcs.get(w[0])
    if f is None:
        return False
    if f.dem.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I')):
        return True
    if g.startswith('_ZGV'):
        return True
    if ('_ZGV' + g[2:]) not in c.m.globals:
        return False
    # the function that holds the guard
    for f in c.m.funcs.values():
        if f.decl:
            continue
        acq = [b for b, insts in enumerate(f.blocks) for i in insts
               if i['op'] == 'call' and i['callee'].get('v') == '__cxa_guard_acquire']
        if not acq and not any(o.get('v') == g for b in f.blocks for i in b for o in operands(i) if o['k'] == 'glob'):
            continue
        f.analyse()
        defs = {i['id']: i for b in f.blocks for i in b if 'id' in i}
        for b, insts in enumerate(f.blocks):
            if b not in f.rpoidx:
                continue
            for i in insts:
                hit = i['op'] == 'store' and names(i['ops'][1], g, defs) or \
                    i['op'] == 'call' and any(names(o, g, defs) for o in i['args'])
                if not hit or i['op'] == 'call' and i['callee'].get('v') in ('__cxa_atexit', '__cxa_guard_release'):
                    continue
                if not any(a != b and f.dominates(a, b) for a in acq):
                    if i['op'] == 'call' and not writes_arg(c, i, g, defs):
                        continue
                    return False
                if not all(constant(o, defs) for o in (i['ops'][:1] if i['op'] == 'store' else i['args'])):
                    return False
    return True


def names(o, g, defs, d=0):
    if o.get('k') == 'glob':
        return o['v'] == g
    if o.get('k') == 'cgep':
        return names(o['base'], g, defs)
    if o.get('k') == 'v' and d < 8:
        i = defs.get(o['v'])
        return i is not None and i['op'] == 'getelementptr' and names(i['base'], g, defs, d + 1)
    return False


def writes_arg(c, i, g, defs):
    t = c.m.funcs.get(i['callee'].get('v'))
    if t is None or t.decl or c.E is None:
        return True
    ks = [k for k, o in enumerate(i['args']) if names(o, g, defs)]
    return any(l[0] == ('arg', k) for l in c.E.sum[t.name].mods for k in ks)


MOD = [None]


def purecall(i, d=0):
    """a call whose result depends on its arguments alone"""
    if i['callee']['k'] != 'glob' or d > 4:
        return False
    n = i['callee']['v']
    if n in effects.PURE or n.startswith('llvm.'):
        return True
    t = MOD[0].funcs.get(n)
    if t is None or t.decl:
        return False
    defs = {x['id']: x for b in t.blocks for x in b if 'id' in x}

    def local(o):
        while o.get('k') == 'v':
            x = defs.get(o['v'])
            if x is None:
                return False
            if x['op'] == 'alloca':
                return True
            if x['op'] != 'getelementptr':
                return False
            o = x['base']
        return False
    for b in t.blocks:
        for x in b:
            if x['op'] == 'load' and not local(x['ops'][0]) or x['op'] == 'store' and not local(x['ops'][1]):
                return False
            if x['op'] == 'call' and not purecall(x, d + 1):
                return False
    return True


def constant(o, defs, d=0):
    if o.get('k') != 'v':
        return True
    i = defs.get(o['v'])
    if i is None or d > 12:
        return False
    if i['op'] == 'call':
        return purecall(i) and all(constant(x, defs, d + 1) for x in i['args'])
    if i['op'] in ('load', 'phi', 'alloca'):
        return False
    return all(constant(x, defs, d + 1) for x in operands(i))


def operands(i):
    for k in ('ops', 'args'):
        for o in i.get(k, []):
            yield o
    for k in ('base', 'cond', 'callee'):
        if k in i and isinstance(i[k], dict):
            yield i[k]
    for o in i.get('in', []):
        yield o[0]


def mutable(c):
    """globals that may change after start-up"""
    E = effects.Effects(c.m)
    c.E = E
    out = set()
    c.frozen = set()
    for n in mutable_globals(c):
        ws = [w for f in E.funcs.values() for l, w in E.sum[f.name].mods.items() if l[0] == ('glob', n)]
        if n.startswith('_ZGV') or ws and all(guarded(c, n, w) for w in ws) and ('_ZGV' + n[2:]) in c.m.globals:
            c.frozen.add(n)
        else:
            out.add(n)
    return out


def mutable_globals(c):
    """globals that can change while the program runs, with the places that mention them"""
    out = {}
    for f in c.m.funcs.values():
        if f.decl:
            continue
        for b in f.blocks:
            for i in b:
                for o in operands(i):
                    while o.get('k') == 'cgep':
                        o = o['base']
                    if o.get('k') != 'glob':
                        continue
                    n = o['v']
                    g = c.m.globals.get(n)
                    if n in c.m.funcs or g is None or g.get('const') or n.startswith(('_ZTV', '_ZTS', '_ZTI', '.str', 'llvm.')):
                        continue
                    out.setdefault(n, []).append((f.name, i.get('l', 0), i['op']))
    return out


def c30(c):
    import life
    E = eff(c)
    # 1. ambient influences
    prof = [c.m.off(NS + 'RigidBodySystem', x) for x in (
        'm_odeSolveMicroseconds', 'm_constraintSolveMicroseconds', 'm_forceEvalMicroseconds', 'm_constraintEvalMicroseconds')]
    for f in sorted(set(E.funcs.values()), key=lambda f: f.dem):
        if not qual(f).startswith(NS):
            continue
        S = E.sum[f.name]
        amb = ambient_of(f)
        bad = []
        for l, w in S.tainted.items():
            r, p = l
            if r[0] in ('loc', 'new', 'glob'):
                continue
            if r[0] == 'arg' and is_profile(c, f, l, prof):
                continue
            bad.append('%s reaches %s (line %d)' % ('/'.join(sorted(w[2])), effects.show(l), w[1]))
        for (fn, line), labels in S.branch.items():
            g = c.m.funcs.get(fn)
            bad.append('%s decides a branch in %s line %d' % ('/'.join(sorted(labels)),
                                                             effects.short(g.dem) if g else fn, line))
        if S.taint_ret and not returns_time(f):
            bad.append('%s decides the returned value' % '/'.join(sorted(S.taint_ret)))
        if bad or amb or S.tainted or public(f):
            c.rule('%s: nothing ambient decides its results' % sig(f), not bad, '; '.join(sorted(bad)[:3]), where=f)
    # 2. changing global state that is read
    for n, u in sorted(mutable_globals(c).items()):
        if n in c.frozen or not any(x[2] not in ('load',) for x in u):
            continue
        rd = [x for x in u if x[2] == 'load' and influences(c.m.funcs[x[0]], n)]
        if rd:
            g = c.m.funcs[rd[0][0]]
            c.rule('no result depends on changing global state: %s' % n, False, 'read in %s line %d' % (
                effects.short(g.dem), rd[0][1]), where=g)
    # 3. no value is used that was never defined
    undefined(c)
    # 4. construction defines every field
    constructors(c)


def influences(f, g):
    """a value loaded from global g reaches anything but g itself"""
    val = set()
    for _ in range(30):
        n = len(val)
        for b in f.blocks:
            for i in b:
                ops = list(operands(i))
                if i['op'] == 'load' and any(o.get('v') == g for o in ops):
                    val.add(i['id'])
                elif any(o.get('k') == 'v' and o.get('v') in val for o in ops):
                    if i['op'] == 'store' and i['ops'][1].get('v') == g:
                        continue
                    if i['op'] in ('store', 'call', 'invoke', 'ret', 'br', 'switch') or 'id' not in i:
                        return True
                    val.add(i['id'])
        if len(val) == n:
            return False
    return True


def undefined(c):
    """arithmetic, stores, branches and returns of values no path has defined"""
    n = 0
    for f in sorted(c.m.funcs.values(), key=lambda f: f.dem):
        if f.decl or not qual(f).startswith(NS):
            continue
        bad, un = [], ('undef', 'poison')
        ins = [i for b in f.blocks for i in b]
        # values that are undefined on every path: the greatest set closed under its definitions
        au = {i['id'] for i in ins if 'id' in i and i['op'] not in ('alloca', 'load', 'call', 'invoke', 'freeze', 'landingpad',
              'insertvalue', 'extractvalue', 'insertelement', 'shufflevector')}

        def hit(o):
            return o.get('k') in un or o.get('k') == 'v' and o.get('v') in au
        ch = True
        while ch:
            ch = False
            for i in ins:
                if i.get('id') in au:
                    ops = list(operands(i))
                    if not (all if i['op'] in ('phi', 'select') else any)(hit(o) for o in (ops[1:] if i['op'] == 'select' else ops)):
                        au.discard(i['id'])
                        ch = True
        for i in ins:
            n += 1
            if i['op'] in ('store', 'ret', 'br', 'switch', 'call', 'invoke', 'load') and any(
                    hit(o) for o in operands(i)) and not str(i.get('callee', {}).get('v', '')).startswith('llvm.'):
                bad.append(i.get('l', 0))
        if bad:
            c.rule('%s: uses no undefined value' % sig(f), False, 'line %d uses a local variable that may not have a value'
                   % max(bad), where=f)
    c.sites += n
    c.rule('local variables have a value where they are used', True, '%d instructions' % n)


def public(f):
    d = qual(f)
    return d.rsplit('::', 1)[-1] in ('calculate', 'apply', 'solve', 'solveWithLimits', 'process', 'step', 'start')


def ambient_of(f):
    return ()


def returns_time(f):
    d = f.dem.split('(')[0]
    return d.startswith(('std::', 'bool std::', 'void std::')) or 'chrono' in f.dem or '::get' in d and 'Microseconds' in d \
        or d.endswith('findAverage')


def is_profile(c, f, l, prof):
    r, p = l
    ps = params(f)
    k = r[1] - (0 if is_static(f) else 1)
    if k < 0:
        return (p[0] in prof) and len(p) == 2
    # out-parameters that carry elapsed time
    return len(p) == 1 and k < len(ps) and ps[k] in ('long long*', 'long*', 'unsigned long*', 'long long&', 'long&') \
        or 'chrono' in ps[k]


def cells(m, cls, base=0, pre=''):
    """(name, offset, kind) of every scalar inside an object"""
    for f, (o, sz, t) in sorted(m.layout(cls).items(), key=lambda x: x[1][0]):
        yield from cell(m, t, base + o, sz, pre + f)


def cell(m, t, o, sz, name):
    if t in m.types and 'm' in m.types[t]:
        if not t.startswith('std::'):
            yield from cells(m, t, o, name + '.')
            return
    if t.startswith('std::vector'):
        for k, n in enumerate(('begin', 'end', 'capacity')):
            yield name + '.' + n, o + 8 * k, 'p'
        return
    a = re.match(r'(.*?)((\[\d+\])+)$', t)
    if a:
        el = a.group(1)
        n = 1
        for d in re.findall(r'\[(\d+)\]', a.group(2)):
            n *= int(d)
        for k in range(n):
            yield from cell(m, el, o + k * (sz // max(n, 1)), sz // max(n, 1), '%s[%d]' % (name, k))
        return
    if t.endswith('*'):
        yield name, o, 'p'
    elif t in ('double', 'float'):
        yield name, o, 'd'
    elif sz in (1, 2, 4, 8):
        yield name, o, 'i%d' % sz


def constructors(c):
    m = c.m
    n = 0
    for cls in sorted(m.types):
        if not cls.startswith(NS) or 'm' not in m.types[cls] or '<' in cls and cls != NS + 'SparseMatrix<3, 2>':
            continue
        short = cls.rsplit('::', 1)[-1]
        ctors = [f for f in m.funcs.values() if not f.decl and
                 re.match(re.escape(cls + '::' + short.split('<')[0]) + r'(<[^(]*>)?\(', f.dem)]
        ctors = sorted({f.name: f for f in ctors}.values(), key=lambda f: f.name)
        done = set()
        for f in ctors:
            if f.dem in done or 'C1E' in f.name and f.name.replace('C1E', 'C2E') in m.funcs:
                continue
            done.add(f.dem)
            ps = params(f)
            if any(short + '&' in p or short + ' const&' in p for p in ps):
                continue         # copies are decided with ownership
            n += 1
            c.ob('%s defines every field' % sig(f), lambda f=f, cls=cls: built(c, f, cls), where=f)
    if n < 10:
        raise ck.Anchor('constructors not found')


def built(c, f, cls):
    scs.setup(c.m)
    this = var('this', ptr=True)
    args = [this]
    for k, a in enumerate(f.args[1:]):
        args.append(var('x%d' % k, isint=a['t'] not in ('double', 'float'), ptr=a['t'] == 'ptr'))
    r = c.run(f, args, M.init('m0'), raw=True)
    for name, o, kind in cells(c.m, cls):
        a = sym.add(this, sym.const(o))
        v = M.read(r.mem, a, 8, kind) if kind in 'pd' else M.read(r.mem, a, int(kind[1]), 'i')

        def own(x):
            if x.kind != 'ld':
                return False
            b, _ = M.split(x.args[0])
            return b is not None and any(y is this.single_atom() for y in sym.all_atoms(x.args[0])) if isinstance(
                x.args[0], sym.Poly) else False
        dep = common.depends(v, own)
        if dep:
            raise Broken('%s is left as it was in storage' % name)


def c37(c):
    E = eff(c)
    globs(c, E)
    mg = mutable_globals(c)
    for n, u in sorted(mg.items()):
        if n in c.frozen or all(x[2] == 'load' for x in u):
            continue
        c.rule('no mutable storage is shared between systems: %s' % n, False, 'used in %s line %d' % (
            effects.short(c.m.funcs[u[0][0]].dem), u[0][1]), where=c.m.funcs[u[0][0]])
    safe = effects.PURE + ('operator new', 'operator new[]', 'operator delete', 'operator delete[]', 'std::chrono::_V2::steady_clock::now',
                           'std::chrono::_V2::system_clock::now', 'malloc', 'free', 'memcpy', 'memmove', 'memset', 'calloc')
    for f in sorted(E.funcs.values(), key=lambda f: f.dem):
        if not qual(f).startswith(NS):
            continue
        bad, n = [], 0
        for b in f.blocks:
            for i in b:
                if i['op'] not in ('call', 'invoke'):
                    continue
                n += 1
                ts = E.targets(f, i)
                if ts is None:
                    bad.append((None, 'line %d: call target unknown' % i.get('l', 0)))
                for t in ts or []:
                    g = c.m.funcs.get(t)
                    if g is not None and not g.decl or t.startswith('llvm.'):
                        continue
                    b_ = (g.dem if g is not None else t).split('(')[0]
                    if b_ in safe or any((g.dem if g is not None else t).startswith(x) for x in effects.SILENT):
                        continue
                    bad.append((False if b_ in effects.CLOCK or b_ in UNSAFE else None, 'line %d calls %s' % (i.get('l', 0), b_)))
        c.sites += n
        if n or bad:
            st = True if not bad else False if any(x[0] is False for x in bad) else None
            c.rule('%s: calls only functions that keep no state' % sig(f), st, '; '.join(x[1] for x in bad[:3]), where=f)


UNSAFE = ('strtok', 'rand', 'srand', 'random', 'drand48', 'localtime', 'gmtime', 'asctime', 'setlocale', 'lgamma', 'strerror',
          'getenv', 'setenv', 'tmpnam', 'printf', 'fprintf')
