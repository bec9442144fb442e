"""Queries over closed forms and memory chains."""
import memory as M
import sym
from sym import Ite


def depends(v, pred):
    """atoms of a closed form (also inside its decisions) for which pred holds"""
    return sorted([a for a in sym.all_atoms(v) if pred(a)], key=lambda a: a.id)


def base_of(a):
    if a.kind != 'ld':
        return None
    b, o = M.split(a.args[0])
    return b, o


def x_flags(x):
    fl = set()
    for l in sym.leaves(x):
        fl |= set(l.flags)
    for cc in sym.conds(x):
        fl |= set(cc.flags)
    return fl


def written(mem, stop=None):
    """(kind, address, size) of every definition in a memory chain, loops included"""
    out = []
    seen = set()
    st = [mem]
    while st:
        m = M.head(st.pop())
        if m is stop or m.id in seen:
            continue
        seen.add(m.id)
        k, a = m.k, m.a
        if k == 'store':
            for leaf in sym.leaves(a[1]):
                out.append(('store', leaf, a[2]))
        elif k == 'region':
            reg = a[1]
            n = None
            if reg[0] == 'range' and isinstance(reg[2], sym.Poly) and reg[2].is_const():
                n = int(reg[2].const())
            for leaf in sym.leaves(reg[1]):
                out.append((reg[0], leaf, n))
        elif k == 'loop':
            st.append(M.loop_prev(a[0], a[1]))
            st.append(a[0].body)
            continue
        st += [x for x in a if isinstance(x, M.Mem)]
    return out
