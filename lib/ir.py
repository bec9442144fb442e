"""Loads the irdump JSON: functions, control-flow graphs, loop nests, layouts."""
import json

import vocab


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = []
        self.parent = None
        self.children = []
        self.exits = []          # (from, to)


class Function:
    def __init__(self, j):
        self.name = j['n']
        self.dem = j['d']
        self.new = j.get('new', False)      # not in the recorded vocabulary
        self.decl = j['decl']
        self.noret = j['noret']
        self.args = j['args']
        self.ret = j['ret']
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        self.blocks = j.get('blocks', [])
        self._an = False

    def analyse(self):
        if self._an:
            return
        self._an = True
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for b, insts in enumerate(self.blocks):
            t = insts[-1]
            if t['op'] == 'br':
                self.succ[b] = list(t['succ'])
            elif t['op'] == 'switch':
                self.succ[b] = [t['def']] + [c[1] for c in t['cases']]
        # dead blocks: every path reaches unreachable / a noreturn call
        dead = set()
        for b, insts in enumerate(self.blocks):
            if insts[-1]['op'] == 'unreachable' or any(i['op'] == 'call' and i.get('noret') for i in insts):
                dead.add(b)
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if b not in dead and self.succ[b] and all(s in dead for s in self.succ[b]):
                    dead.add(b)
                    ch = True
        self.dead = dead
        self.asserted = {}       # block -> index kept
        for b in range(n):
            self.succ[b] = [s for s in self.succ[b] if s not in dead] if b not in dead else []
        self.pred = [[] for _ in range(n)]
        order, seen = [], set()

        def dfs(b):
            st = [(b, iter(self.succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        self.rpo = order[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        # dominators (iterative)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.rpoidx[x] > self.rpoidx[y]:
                            x = idom[x]
                        while self.rpoidx[y] > self.rpoidx[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dominates = dom
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    L = loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L.blocks:
                            continue
                        L.blocks.add(x)
                        st.extend(self.pred[x])
        self.loops = loops
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.blocks and l is not m:
                    l.parent = m
                    m.children.append(l)
                    break
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rpoidx[s] <= self.rpoidx[b] and not dom(s, b):
                    self.irreducible = True
        for l in ls:
            for b in sorted(l.blocks):
                for s in self.succ[b]:
                    if s not in l.blocks:
                        l.exits.append((b, s))
        self.inner = {}
        for b in self.rpo:
            best = None
            for l in ls:
                if b in l.blocks and (best is None or len(l.blocks) < len(best.blocks)):
                    best = l
            self.inner[b] = best


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.renamed = vocab.translate(j)
        self.types = j['types']
        self.globals = j['globals']
        self.funcs = {}
        self.bydem = {}
        for f in j['functions']:
            fn = Function(f)
            self.funcs[fn.name] = fn
            if not fn.decl:
                self.bydem.setdefault(fn.dem, []).append(fn)
        # complete-object variants that are mere aliases of the base-object ones
        for fn in list(self.funcs.values()):
            for x, y in (('C2E', 'C1E'), ('D2E', 'D1E')):
                if not fn.decl and x in fn.name and fn.name.replace(x, y) not in self.funcs:
                    self.funcs[fn.name.replace(x, y)] = fn
        self._lay = {}

    def find(self, dem):
        fs = self.bydem.get(dem) or []
        return fs[0] if fs else None

    def layout(self, cls):
        """flattened {field: (offset, size, type)} including bases (prefix-free)"""
        if cls in self._lay:
            return self._lay[cls]
        t = self.types.get(cls)
        if t is None:
            raise KeyError(cls)
        r = {}
        for m in t['m']:
            if m['inh']:
                for k, v in self.layout(m['t']).items() if m['t'] in self.types else []:
                    r[k] = (v[0] + m['o'],) + v[1:]
            else:
                r[m['n']] = (m['o'], m['s'], m['t'])
        self._lay[cls] = r
        return r

    def off(self, cls, field):
        return self.layout(cls)[field][0]

    def vtable(self, cls_mangled):
        g = self.globals.get('_ZTV' + cls_mangled)
        if not g or 'i' not in g:
            return None
        a = g['i']['e'][0]
        return [x.get('v') for x in a['e']][2:]

    def derived(self, cls):
        """all classes inheriting from cls (transitively, incl. itself)"""
        out = [cls]
        ch = True
        while ch:
            ch = False
            for n, t in self.types.items():
                if 'm' in t and n not in out and any(m['inh'] and m['t'] in out for m in t['m']):
                    out.append(n)
                    ch = True
        return out
