"""C31: the ring of timing samples and the averages taken from it"""
import ck
import common
import effects
import life
import memory as M
import scs
import sym
import witness
from ck import Broken, Undecided
from scs import V, fld
from sym import FACTS, ONE, ZERO, Poly, add, band, bnot, const, ite, mul, pa, psub, sub, var, veq
from p_system import GENERIC, NSV, process_run

RB = 'RigidBodySystem'
KINDS = {'m_odeSolveMicroseconds': 'getOdeSolveMicroseconds',
         'm_constraintSolveMicroseconds': 'getConstraintSolveMicroseconds',
         'm_forceEvalMicroseconds': 'getForceEvalMicroseconds',
         'm_constraintEvalMicroseconds': 'getConstraintEvalMicroseconds'}


def read_int(m, a, size):
    return M.read(m, a, size, 'i')


def frame(c):
    lay = c.m.layout(scs.NS + RB)
    if 'm_frameIndex' not in lay or any(k not in lay for k in KINDS):
        raise ck.Anchor('profiling fields not found in ' + RB)
    return lay['m_frameIndex'][1]


def elem(c):
    t = c.m.layout(scs.NS + RB)['m_odeSolveMicroseconds'][2]
    return {'long long': 8, 'long': 8, 'int': 4}.get(t.replace('*', '').strip(), 8)


def c31(c):
    scs.setup(c.m)
    fs = frame(c)
    es = elem(c)
    N = c.ob('the ring is built empty, with room for a fixed number of samples', lambda: ring(c, fs, es), c.fn(RB + '::RigidBodySystem'))
    if N is None:
        return
    R = []
    for cls in (GENERIC, NSV):
        c.sections(lambda cls=cls: step(c, cls, N, fs, es, R))
    c.sections(lambda: average(c, N, max(R) if R else N, es))


def ring(c, fs, es):
    """size of the ring: the constructor, un-modelled"""
    f = c.fn(RB + '::RigidBodySystem')
    this = var('sys', ptr=True)
    r = c.run(f, [this], M.init('m0'), raw=True)
    sizes = {a[0]: a[1] for _, nm, a, _ in life.events(r.mem) if nm == 'new'}
    v = V(r.mem)
    N = None
    ptrs = []
    for k in KINDS:
        p = v.fp(RB, k, this)
        if p not in sizes or not sizes[p].is_const():
            raise Undecided('%s is not one block of fixed size' % k)
        n = int(sizes[p].const()) // es
        N = n if N is None else min(N, n)
        if p in ptrs:
            raise Broken('%s shares its samples with another kind' % k)
        ptrs.append(p)
    c.require_equal(read_int(r.mem, fld(RB, 'm_frameIndex', this), fs), ZERO, what='the first slot')
    i = var('i', True)
    for k in KINDS:
        fc = [i, psub(const(N - 1), i)]
        FACTS.push(fc)
        try:
            c.require_equal(read_int(r.mem, add(v.fp(RB, k, this), mul(const(es), i)), es), const(-1), fc, what='%s before any step' % k)
        finally:
            FACTS.pop()
    return N


def step(c, cls, N, fs, es, R):
    f = c.fn(cls + '::process')
    clocks = {}
    r0 = c.ob('%s: process analysed' % cls, lambda: process_run(c, cls, var('steps', True), clocks=clocks), f)
    if r0 is None:
        return
    S, f, r, dt = r0
    a = fld(RB, 'm_frameIndex', S.this)
    fi = read_int(S.m0, a, fs)
    after = read_int(r.mem, a, fs)

    def orbit():
        for n in (1, 2, 7):
            walk(n)

    def walk(n):
        seen = []
        x = 0
        fa = fi.single_atom()
        while x not in seen:
            seen.append(x)
            y = sym.replace_atoms(after, {fa: const(x), var('steps', True).single_atom(): const(n)})
            if not isinstance(y, Poly) or not y.is_const():
                raise Undecided('the next slot is not a function of the slot alone')
            y = int(y.const())
            if not 0 <= y < N:
                raise Broken('slot %d is followed by %d, outside the ring of %d' % (x, y, N))
            if y != x + 1 and y != 0:
                raise Broken('slot %d is followed by %d' % (x, y))
            x = y
        if x != 0 or len(seen) < 2:
            raise Broken('the slot does not advance after %d' % seen[-1])
        R.append(len(seen))
    c.ob('%s: every step moves on by one slot, back to the first at the end, inside the ring' % cls, orbit, f)
    k = var('k', True)
    v0 = V(S.m0)
    fc = [k, psub(const(N - 1), k), fi, psub(const(N - 1), fi)]
    src = {}
    for arr in KINDS:
        base = v0.fp(RB, arr, S.this)

        def others():
            FACTS.push(fc)
            try:
                at = add(base, mul(const(es), k))
                c.require_equal(read_int(r.mem, at, es), read_int(S.m0, at, es), fc, assume=bnot(veq(k, fi)),
                                what='a sample of another step')
                c.require_equal(V(r.mem).fp(RB, arr, S.this), base, what='the ring')
            finally:
                FACTS.pop()
        c.ob('%s: %s keeps the samples of the other slots' % (cls, arr), others, f)

        def fresh():
            FACTS.push(fc)
            try:
                x = read_int(r.mem, add(base, mul(const(es), fi)), es)
            finally:
                FACTS.pop()
            ats = common_atoms(x)
            dec = [y for y in ats if y.kind == 'fn' and y.args[0] == 'now' or y.kind == 'hv' and str(y.args[0]).startswith('constraints_t')]
            if not dec:
                old = common.depends(x, lambda y: y.kind in ('ld', 'rd'))
                if x is ZERO or isinstance(x, Poly) and x.is_const():
                    raise Broken('the slot gets %s, no time is recorded' % sym.show(x))
                if not old and not x.flags:
                    raise Broken('no time of this step is recorded')
                if isinstance(x, Poly) and x.single_atom() is not None and x.single_atom().kind == 'ld':
                    raise Broken('the slot keeps its old sample')
                raise Undecided('what is recorded is not understood')
            src[arr] = x
        c.ob('%s: %s records this step in the current slot' % (cls, arr), fresh, f)

        def stale():
            FACTS.push(fc)
            try:
                at = add(base, mul(const(es), fi))
                x, old = read_int(r.mem, at, es), read_int(S.m0, at, es).single_atom()
                if old is None or old not in sym.all_atoms(x):
                    return
                y = sym.subst(x, {S.this.single_atom(): S.this, old: var('another old sample', True)})
                c.require_equal(x, y, fc, what='the sample of this step compared with that over another old sample')
            finally:
                FACTS.pop()
        c.ob('%s: %s replaces the old sample of the slot' % (cls, arr), stale, f)
    counted(c, cls, f, es, fs)
    timed(c, cls, f, src, clocks)


def counted(c, cls, f, es, fs):
    """with every span and every reported time read as 1, a slot holds the number of evaluations"""
    cells = {k: var('count_' + k, ptr=True) for k in ('forces', 'constraints')}
    r0 = c.ob('%s: process analysed with unit times' % cls, lambda: process_run(
        c, cls, var('steps', True), facts=[psub(var('steps', True), ONE)], unit=cells, clocks={'unit': True, 'stages': 3}), f)
    if r0 is None:
        return
    S, f, r, dt = r0
    v0 = V(S.m0)
    fi = read_int(S.m0, fld(RB, 'm_frameIndex', S.this), fs)
    for arr in KINDS:
        def total():
            kind = 'forces' if 'force' in arr else 'constraints'
            n = psub(M.read(r.mem, cells[kind], 8, 'i'), M.read(S.m0, cells[kind], 8, 'i'))
            c.require_equal(read_int(r.mem, add(v0.fp(RB, arr, S.this), mul(const(es), fi)), es), n,
                            [psub(var('steps', True), ONE)], what='times added up per evaluation')
        c.ob('%s: %s adds up every evaluation of the step' % (cls, arr), total, f)


def common_atoms(x):
    return sym.all_atoms(x)


# --- which work a recorded time brackets ------------------------------------------------------------

def site(clocks, n):
    for q, k in clocks.items():
        if k == n:
            return q[1], q[2]
    return None


def brackets(x, clocks):
    """[(fn, from instruction, to instruction)] of the clock pairs the value is made of; None unknown"""
    out = set()
    ats = common_atoms(x)
    for y in ats:
        if y.kind != 'fn' or not y.args[0].startswith('span:'):
            continue
        u = y.args[0][5:]
        if u == '?':
            return None
        if u != '1/1000000':
            raise Broken('the time is recorded in units of %s second' % u)
        p = y.args[1]
        if not isinstance(p, Poly):
            return None
        pl, mi = [], []
        for mono, co in p.t.items():
            if len(mono) != 1 or mono[0][1] != 1 or mono[0][0].kind != 'fn' or mono[0][0].args[0] != 'now' or abs(co) != 1:
                return None
            (pl if co > 0 else mi).append(site(clocks, int(mono[0][0].args[1].const())))
        if len(pl) != len(mi):
            return None
        out |= {('+', s) for s in pl} | {('-', s) for s in mi}
    return out


def calls_between(fn, a, b):
    """(calls on some path, calls on every path) from instruction a to instruction b, not through a again"""
    pos = {}
    for bi, blk in enumerate(fn.blocks):
        for k, i in enumerate(blk):
            pos[i['id']] = (bi, k)
    succ = fn.succ
    A, B = pos[a], pos[b]

    def reach(avoid=None):
        """instructions reachable after A before B"""
        seen, got, st = set(), [], [(A[0], A[1] + 1)]
        hit = False
        while st:
            p = st.pop()
            if p in seen:
                continue
            seen.add(p)
            bi, k = p
            blk = fn.blocks[bi]
            while k < len(blk):
                i = blk[k]
                if (bi, k) == B:
                    hit = True
                    break
                if (bi, k) == A or i['id'] == avoid:
                    break
                got.append(i)
                k += 1
            else:
                st += [(s, 0) for s in succ[bi]]
        return hit, got
    hit, got = reach()
    if not hit:
        return None
    # only those from which B is still reachable
    calls = [i for i in got if i['op'] in ('call', 'invoke')]
    return calls, [i for i in calls if not reach(i['id'])[0]]


def work(c, f, i):
    """names of the library functions a call may run, through any depth"""
    E = common.__dict__.get('_eff')
    if E is None or E[0] is not c.m:
        E = (c.m, effects.Effects(c.m))
        common._eff = E
    E = E[1]
    out, st = set(), list(E.targets(f, i) or [])
    while st:
        t = st.pop()
        if t in out:
            continue
        out.add(t)
        g = c.m.funcs.get(t)
        if g is None or g.decl:
            continue
        for b in g.blocks:
            for x in b:
                if x['op'] in ('call', 'invoke'):
                    st += list(E.targets(g, x) or [])
    return {c.m.funcs[t].dem for t in out if t in c.m.funcs}


def is_ode(d):
    return 'OdeSolver::solve(' in d


def is_sle(d):
    return 'SleSolver::solve(' in d or 'SleSolver::solveWithLimits(' in d


def is_force(d):
    return 'ForceGenerator::apply(' in d or '::processForces(' in d


WORK = {'odesolve': is_ode, 'slesolve': is_sle, 'forces': is_force}


def judge(c, f, x, clocks, want, never):
    b = brackets(x, clocks)
    if not b:
        raise Undecided('the time is not a difference of clock readings: ' + sym.show(x)[:1500])
    if any(s is None for _, s in b) or len({s[0].name for _, s in b}) != 1:
        raise Undecided('the clock is read in several functions')
    f = next(iter(b))[1][0]
    st = sorted({s[1] for sg, s in b if sg == '-'})
    en = sorted({s[1] for sg, s in b if sg == '+'})
    if set(st) & set(en):
        raise Undecided('one reading ends and begins a span')
    # pair every end with the latest start before it
    spans = []
    left = list(st)
    for e in en:
        cand = [s for s in left if calls_between(f, s, e) is not None]
        if not cand:
            raise Broken('a span ends at a reading that no start precedes')
        # the nearest one: no other candidate lies between
        best = min(cand, key=lambda s: len(calls_between(f, s, e)[0]))
        left.remove(best)
        spans.append((best, e))
    some, every = set(), set()
    for s, e in spans:
        a, m = calls_between(f, s, e)
        for i in a:
            w = work(c, f, i)
            for k, t in WORK.items():
                if any(t(d) for d in w):
                    some.add(k)
        for i in m:
            w = work(c, f, i)
            for k, t in WORK.items():
                if any(t(d) for d in w):
                    every.add(k)
    for k in want:
        if k not in some:
            raise Broken('the recorded span does not include the %s work' % k)
    for k in never:
        if k in every:
            raise Broken('the recorded span includes the %s work' % k)
        if k in some:
            raise Undecided('the recorded span may include the %s work' % k)


def timed(c, cls, f, src, clocks):
    for arr, want, never in (('m_odeSolveMicroseconds', ['odesolve'], ['slesolve', 'forces']),
                             ('m_forceEvalMicroseconds', ['forces'], ['slesolve', 'odesolve'])):
        if arr in src:
            c.ob('%s: %s times its own kind of work' % (cls, arr),
                 lambda: judge(c, f, src[arr], clocks, want, never), f)
    outs = {}
    for arr in ('m_constraintSolveMicroseconds', 'm_constraintEvalMicroseconds'):
        if arr not in src:
            continue
        hv = {y.args[0] for y in common_atoms(src[arr]) if y.kind == 'hv'}
        if len(hv) == 1:
            outs[arr] = int(str(min(hv)).rsplit('t', 1)[1])
    if len(outs) < 2:
        c.rule('%s: times of the constraint evaluation are those it reports' % cls, None, 'not reported through its arguments', where=f)
        return
    g = c.fn(cls + '::processConstraints')
    ck2 = {}

    def run():
        S = scs.Sys(c.m, cls)
        args = [S.this]
        for k, a in enumerate(g.args[1:], 1):
            args.append(var('pc%d' % k, ptr=a['t'] == 'ptr'))
        r = c.run(g, args, S.m0, clocks=ck2)
        return args, r.mem
    R = c.ob('%s: constraint evaluation analysed' % cls, run, g)
    if R is None:
        return
    args, m = R
    for arr, want, never in (('m_constraintSolveMicroseconds', ['slesolve'], []),
                             ('m_constraintEvalMicroseconds', [], ['slesolve'])):
        def one():
            x = read_int(m, args[outs[arr]], 8)
            if isinstance(x, Poly) and x.is_const():
                raise Broken('the constraint evaluation reports the constant %s' % sym.show(x))
            judge(c, g, x, ck2, want, never)
        c.ob('%s: %s times its own kind of work' % (cls, arr), one, g)


# --- averages ---------------------------------------------------------------------------------------

def sample(ev, a, key, env):
    """values of samples in counterexamples: not recorded, zero or a time"""
    if a.kind == 'ld':
        return witness._h(ev.seed, key) % 5 - 1
    return None


def average(c, N, R, es):
    witness.FIELD.append(sample)
    f = c.fn(RB + '::findAverage')
    s = var('samples', ptr=True)
    fa = c.ob('the average of one kind analysed', lambda: c.run(f, [s] if len(f.args) == 1 else [var('sys', ptr=True), s], M.init('m0')).ret, f)
    if fa is None:
        return
    m0 = M.init('m0')

    def mean(base, n):
        t = sym.fresh()
        x = read_int(m0, add(base, mul(const(es), pa(t))), es)
        none = veq(x, const(-1))
        num = sym.psum(t, ite(none, ZERO, x), const(n))
        cnt = sym.psum(t, ite(none, ZERO, ONE), const(n))
        return ite(veq(cnt, ZERO), ZERO, sym.div(num, cnt))

    def eq():
        for n in sorted({R, N}):
            if sym.equal(fa, mean(s, n), []).ok:
                return
        c.require_equal(fa, mean(s, R), what='the average')
    c.ob('the average is the mean of the recorded samples, zero without any', eq, f)
    for arr, get in KINDS.items():
        g = c.fn(RB + '::' + get)

        def own():
            this = var('sys', ptr=True)
            base = V(m0).fp(RB, arr, this)
            got = c.run(g, [this], m0).ret
            want = c.run(f, [base] if len(f.args) == 1 else [this, base], m0).ret
            c.require_equal(got, want, what='%s' % get)
        c.ob('%s averages the samples of its own kind' % get, own, g)
