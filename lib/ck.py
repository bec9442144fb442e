"""Obligation bookkeeping shared by all checks: anchors, verdicts, evidence."""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

import build
import interp
import ir
import memory as M
import scs
import sym
import witness
from sym import ONE, ZERO, Ite, Poly


class Anchor(Exception):
    """a public entry point the property is stated over is gone"""


class Undecided(Exception):
    pass


class Late(Exception):
    pass


class Broken(Exception):
    """raised inside an obligation to report a violation"""

    def __init__(self, what, fn=None):
        super().__init__(what)
        self.fn = fn


def _alarm(sig, frm):
    raise Late()


BENIGN = ('std::chrono', 'clock')


class Ck:
    BUDGET = {'quick': 620, 'thorough': 840}
    EACH = {'quick': 150, 'thorough': 400}

    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obs = []            # (name, status, detail, seconds, where)
        self.viol = []
        self.funcs = {}
        self.notes = []
        self.sites = 0
        self.m = ir.Module(build.model())
        scs.setup(self.m)
        self.eng = None
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        signal.signal(signal.SIGALRM, _alarm)

    # --- anchors ------------------------------------------------------------------
    def fn(self, name, pick=None, need=True):
        """the defined function with this qualified name (and matching parameter text)"""
        if not name.startswith('atg_scs::') and '::' in name:
            name = 'atg_scs::' + name
        c = []
        for f in self.m.funcs.values():
            d = f.dem
            if f.decl:
                continue
            if d.startswith(name + '(') or (' ' + name + '(') in d:
                if pick is None or pick in d:
                    if f not in c:
                        c.append(f)
        if not c:
            if need:
                raise Anchor('no definition of %s%s' % (name, ' with ' + pick if pick else ''))
            return None
        # complete-object constructors and destructors before base-object ones
        c.sort(key=lambda f: (('C2E' in f.name or 'D2E' in f.name), 'D0E' in f.name, f.name))
        f = c[0]
        self.funcs[f.name] = f
        return f

    def method(self, cls, meth):
        """mangled virtual/non-virtual method of a class, looking through the bases"""
        f = self.fn('%s::%s' % (cls, meth), need=False)
        return f

    def engine(self, **kw):
        e = scs.Eng(self.m, **kw)
        self.eng = e
        return e

    def run(self, f, args, mem, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        if len(f.args) != len(args):
            raise Undecided('%s takes %d arguments' % (f.dem, len(f.args)))
        e = self.engine(**kw)
        r = e.run(f, args, mem)
        self.funcs.update(e.funcs_seen)
        bad = [x for x in sorted(e.opaque_calls) if not any(b in x for b in BENIGN)]
        if bad:
            raise Undecided('calls outside the analysed module: ' + ', '.join(bad[:3]))
        return r

    # --- obligations ----------------------------------------------------------------
    def ob(self, name, thunk, where=None, small=()):
        """one obligation; small: instances of it that are looked at when it is not decided in general"""
        ret = self._ob(name, thunk, where)
        if small and self.obs and self.obs[-1][0] == name and self.obs[-1][1] == 'undecided':
            kept = self.obs.pop()
            for th in small:
                self._ob(name, th, where)
                if self.obs[-1][1] == 'violated':
                    o = self.obs.pop()
                    self.obs.append(o[:2] + ('in an instance of small size: ' + o[2],) + o[3:])
                    return ret
                self.obs.pop()
            self.obs.append(kept)
        return ret

    def _ob(self, name, thunk, where=None):
        left = self.BUDGET[self.tier] - (time.time() - self.t0)
        t = time.time()
        if left < 5:
            self._rec(name, 'undecided', 'time budget used up', t, where)
            return None
        depth = len(sym.FACTS.stack)
        ret = None
        try:
            signal.setitimer(signal.ITIMER_REAL, min(left, self.EACH[self.tier]))
            try:
                ret = thunk()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            self._rec(name, 'discharged', '', t, where)
        except Anchor:
            raise
        except Late:
            self._rec(name, 'undecided', 'time limit of one obligation', t, where)
        except Undecided as e:
            self._rec(name, 'undecided', str(e), t, where)
        except Broken as e:
            self._rec(name, 'violated', str(e), t, e.fn or where)
        except (interp.Unsupported, sym.TooBig, RecursionError) as e:
            self._rec(name, 'undecided', '%s: %s' % (type(e).__name__, str(e)[:300]), t, where)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self._rec(name, 'undecided', 'engine: %s %s (%s:%d)' % (
                type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno), t, where)
        while len(sym.FACTS.stack) > depth:
            sym.FACTS.pop()
        return ret

    def _rec(self, name, st, detail, t, where):
        if where is not None and not isinstance(where, str):
            where = '%s (%s:%s)' % (where.dem.split('(')[0], os.path.basename(where.file or ''), where.line)
        self.obs.append((name, st, detail, round(time.time() - t, 2), where or ''))
        if os.environ.get('VERIF_TRACE'):
            print('  [%s] %s %.1fs %s' % (st, name, time.time() - t, detail[:300]), flush=True)

    def eq(self, name, got, want, facts=(), assume=ONE, where=None, lazy=False):
        """obligation: two closed forms agree for every heap and parameter"""
        def go():
            g = got() if callable(got) else got
            w = want() if callable(want) else want
            self.require_equal(g, w, facts, assume)
        return self.ob(name, go, where)

    def require_equal(self, g, w, facts=(), assume=ONE, what=''):
        if isinstance(g, tuple) or isinstance(w, tuple):
            raise Undecided('aggregate value')
        v = sym.equal(g, w, facts, assume=assume)
        self.judge(v, g, w, what)

    def require(self, cond, facts=(), what=''):
        """a boolean closed form holds"""
        v = sym.equal(cond, ONE, facts)
        self.judge(v, cond, ONE, what)

    def judge(self, v, g, w, what=''):
        if v.ok:
            return
        if not v.bads:
            raise Undecided((what + ' ' if what else '') + 'difference depends on unmodelled values (%s): ' % ','.join(sorted(str(x) for x in v.flags)) + v.why[:400])
        for lits, leaf, xf in v.bads[:16]:
            r = witness.refute(leaf, list(v.facts) + list(xf), lits, seed=self.seed, sides=(g, w))
            if r is not None:
                why = 'computed %s ; required %s' % (sym.show(g)[:700], sym.show(w)[:700])
                if lits:
                    why += ' ; they differ when ' + ' and '.join(sym.show_lit(c, s) for c, s in lits)[:600]
                raise Broken((what + ': ' if what else '') + why)
        raise Undecided((what + ' ' if what else '') + 'not shown equal, no separating valuation: ' + v.why[:400])

    # --- sections -----------------------------------------------------------------
    def sections(self, *thunks):
        """run groups of obligations side by side, each in a process of its own (fresh tables)"""
        import pickle
        import select
        kids = []
        sys.stdout.flush()
        for t in thunks:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                n0 = len(self.obs)
                out = {'anchor': None}
                try:
                    t()
                except Anchor as e:
                    out['anchor'] = str(e)
                except BaseException as e:
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
                    self._rec('section', 'undecided', 'engine: %s %s' % (type(e).__name__, str(e)[:200]),
                              time.time(), None)
                out['obs'] = self.obs[n0:]
                out['funcs'] = list(self.funcs)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                sys.stdout.flush()
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        lost = None
        got = {}
        end = self.t0 + self.BUDGET[self.tier] + 60
        bufs = {r: b'' for _, r in kids}
        live = set(bufs)
        while live:
            rd, _, _ = select.select(list(live), [], [], max(0.1, end - time.time()))
            if not rd:
                break
            for r in rd:
                b = os.read(r, 1 << 16)
                if not b:
                    live.discard(r)
                else:
                    bufs[r] += b
        for pid, r in kids:
            if r in live:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            os.close(r)
            try:
                out = pickle.loads(bufs[r])
            except Exception:
                self._rec('section', 'undecided', 'gave no answer', time.time(), None)
                continue
            self.obs += out['obs']
            for n in out['funcs']:
                if n in self.m.funcs:
                    self.funcs[n] = self.m.funcs[n]
            lost = lost or out['anchor']
        if lost:
            raise Anchor(lost)

    # --- simple facts -------------------------------------------------------------
    def rule(self, name, ok, detail='', where=None):
        """an obligation decided by a classical rule: ok is True, False or None"""
        t = time.time()
        self._rec(name, 'discharged' if ok else 'undecided' if ok is None else 'violated', detail if not ok else '',
                  t, where)

    # --- results --------------------------------------------------------------------
    def finish(self, level_note, assumptions):
        known = load_known(self.pid)
        viol, kn = [], []
        for o in self.obs:
            if o[1] == 'violated':
                k = next((x for x in known if x[0] == o[0]), None)
                (kn if k else viol).append(o)
        n = len(self.obs)
        dis = sum(1 for o in self.obs if o[1] == 'discharged')
        und = [o for o in self.obs if o[1] == 'undecided']
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': level_note,
                'obligations': n, 'discharged': dis,
                'undecided': [{'name': o[0], 'why': o[2][:300]} for o in und][:40],
                'undecided_count': len(und),
                'functions_analysed': sorted(set(f.dem.split('(')[0][-90:] for f in self.funcs.values()
                                                 if 'atg_scs' in f.dem))[:120],
                'functions_count': len(self.funcs),
                'samples': [{'obligation': o[0], 'status': o[1], 'where': o[4], 's': o[3]} for o in self.obs][:120],
            },
            'assumptions': assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', self.pid + '.json')
        txt = json.dumps(ev, indent=1)
        if len(txt) > 60000:
            ev['coverage']['samples'] = ev['coverage']['samples'][:20]
            ev['coverage']['functions_analysed'] = ev['coverage']['functions_analysed'][:30]
            ev['coverage']['undecided'] = ev['coverage']['undecided'][:10]
            txt = json.dumps(ev, indent=1)
        with open(path, 'w') as f:
            f.write(txt)
        for o in kn:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, o[0]))
        if viol:
            rp = os.path.join(ROOT, 'evidence', self.pid + '.replay.txt')
            with open(rp, 'w') as f:
                f.write('property %s: %d broken obligations (re-run: ./check.py %s --tier %s)\n' % (
                    self.pid, len(viol), self.pid, self.tier))
                for o in viol:
                    f.write('\n[%s] in %s\n  %s\n' % (o[0], o[4], o[2]))
            for o in viol[:8]:
                print('  broken: %s in %s: %s' % (o[0], o[4], o[2][:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if dis == 0 and not kn:
            print('ERROR property=%s nothing was decided (%d obligations)' % (self.pid, n))
            for o in und[:8]:
                print('  undecided: %s: %s' % (o[0], o[2][:300]))
            return 2
        print('OK property=%s obligations=%d discharged=%d undecided=%d %.1fs' % (
            self.pid, n, dis, len(und), time.time() - self.t0))
        for o in und[:20]:
            print('  undecided: %s: %s' % (o[0], o[2][:200]))
        return 0


def load_known(pid):
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key = rest.split(' | ')[0]
                out.append((key, rest))
    return out
