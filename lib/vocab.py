"""Names of private fields and functions are vocabulary of the checks, not behaviour.

vocab.json records the private vocabulary of the tree the checks were written against.  When a private name of it is
gone from the current tree and a new name of the same class and type (fields) or of the same class, signature and shape
(functions) has appeared, the loaded module is translated back, so that a renaming changes nothing in what is decided.
Everything else (new fields, new helpers, removed functions) is left alone."""
import json
import math
import os
import re

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vocab.json')
NS = 'atg_scs::'


def sig(f):
    """(class, name, rest) of a demangled function of the library"""
    m = re.match(r'^(?:[\w:<>,\* ]+ )?(' + NS + r'(?:[\w]+(?:<[^()]*>)?::)*)([\w~]+)\((.*)$', f['d'])
    return m.groups() if m else None


def name(s, f):
    return ' '.join((s[0].replace(' ', ''),) + s[1:]) + ' ' + f['ret']


def shape(f):
    r = {}
    for b in f['blocks']:
        for i in b:
            k = i['op']
            if k == 'call':
                c = i.get('callee') or {}
                k = 'call ' + (c.get('v') if c.get('k') == 'glob' else 'indirect')
            r[k] = r.get(k, 0) + 1
    return r


def near(a, b):
    dot = sum(v * b.get(k, 0) for k, v in a.items())
    n = math.sqrt(sum(v * v for v in a.values()) * sum(v * v for v in b.values()))
    return dot / n if n else 0.0


def collect(j):
    types, funcs = {}, {}
    for n, t in j['types'].items():
        if n.startswith(NS) and 'm' in t:
            types[n] = [[m['n'], m['t'], m.get('acc', 0)] for m in t['m'] if not m['inh']]
    for f in j['functions']:
        s = None if f['decl'] else sig(f)
        if s:
            k = name(s, f)
            funcs.setdefault(k, shape(f))
    return {'types': types, 'funcs': funcs}


def translate(j):
    """rename private fields and functions of the loaded module back to the recorded vocabulary"""
    if not os.path.exists(PATH):
        return []
    ref, cur, done = json.load(open(PATH)), collect(j), []
    for n, want in ref['types'].items():
        have = cur['types'].get(n)
        if have is None:
            continue
        hn, wn = {m[0] for m in have}, {m[0] for m in want}
        lost = [m for m in want if m[0] not in hn and m[2] != 3]
        new = [m for m in have if m[0] not in wn and m[2] != 3]
        for t in {m[1] for m in lost}:
            a, b = [m[0] for m in lost if m[1] == t], [m[0] for m in new if m[1] == t]
            if len(a) == len(b):
                to = dict(zip(b, a))
                for m in j['types'][n]['m']:
                    if not m['inh'] and m['n'] in to:
                        done.append('%s::%s read as %s' % (n, m['n'], to[m['n']]))
                        m['n'] = to[m['n']]
    lost = {k: v for k, v in ref['funcs'].items() if k not in cur['funcs']}
    new = {k: v for k, v in cur['funcs'].items() if k not in ref['funcs']}

    def key(k):
        c, n, rest = k.split(' ', 2)
        return c, rest
    pairs = []
    for k, v in lost.items():
        c = sorted(((near(v, w), q) for q, w in new.items() if key(q) == key(k)), reverse=True)
        if c and c[0][0] >= 0.8 and (len(c) == 1 or c[0][0] > c[1][0] + 0.05 or c[0][0] > 0.999 and c[1][0] < 0.999):
            pairs.append((c[0][0], k, c[0][1]))
    known = {tuple(k.split(' ', 2)[:2]) for k in ref['funcs']}
    used = {}
    for s, k, q in sorted(pairs, reverse=True):
        used.setdefault(q, k)
    for f in j['functions']:
        s = sig(f)
        q = used.get(name(s, f)) if s else None
        if s and not f['decl'] and q is None and tuple(name(s, f).split(' ', 2)[:2]) not in known:
            f['new'] = True
        if q is None and s and f['decl']:
            continue
        if q is not None:
            old = q.split(' ', 2)[1]
            done.append('%s%s read as %s' % (s[0], s[1], old))
            f['d'] = f['d'].replace(s[0] + s[1] + '(', s[0] + old + '(')
    return done


if __name__ == '__main__':
    import sys
    import build
    d = collect(json.load(open(build.model())))
    json.dump(d, open(PATH, 'w'), indent=0, sort_keys=True)
    print(len(d['types']), 'classes', len(d['funcs']), 'functions')
