import numpy as np


def lookup(n, p, present, absent):
    from edpyt.sector import generate_states
    from edpyt.lookup import binsearch
    s = generate_states(n, p)
    u = np.uint32
    return [[int(binsearch(s, u(x))) for x in present], [int(binsearch(s, u(x))) for x in absent]]


def empty_sector(n, qns):
    from edpyt.espace import build_empty_sector
    from ops.mb import sector_states
    s = build_empty_sector(n, *qns)
    return dict(d=int(s.d), states=sector_states(s))


def chains(n, s, chain_list, cdgc_list):
    """Apply sequences of ('c'|'cdg', pos), first element first.  Refused -> None."""
    from edpyt import operators as o
    fn = {'c': o.c, 'cdg': o.cdg}
    out = []
    for ch in chain_list:
        sg, t = 1, np.uint32(s)
        for k, pos in ch:
            try:
                a, t = fn[k](t, pos, n)
            except Exception:
                sg = None
                break
            sg *= int(a)
        out.append(None if sg is None else (sg, int(t)))
    hops = []
    for i, j in cdgc_list:
        a, t = o.cdgc(np.uint32(s), i, j)
        hops.append((int(a), int(t)))
    bits = [(int(o.check_full(np.uint32(s), k)), int(o.check_empty(np.uint32(s), k)), int(o.n_op(np.uint32(s), k)),
             int(o.ndg_op(np.uint32(s), k)), int(o.flip(np.uint32(s), k))) for k in range(n)]
    return out, hops, bits


def indices(n, nup, ndw, idx):
    from edpyt import lookup as l
    from edpyt.sector import generate_states
    dup, dwn = generate_states(n, nup).size, generate_states(n, ndw).size
    isct = l.get_sector_index(n, nup, ndw)
    back = l.get_num_spins(isct, n)
    out = []
    for f in idx:
        i = int(f * dup * dwn)
        u, d = l.get_spin_indices(i, dup, dwn)
        out.append((i, int(u), int(d), int(l.get_state_index(u, d, dup))))
    return dict(dup=int(dup), dwn=int(dwn), isct=int(isct), back=[int(x) for x in back], idx=out)


def bin_round(i, n):
    from edpyt import lookup as l
    arr = l.binrep(i, n)
    txt = l.binrep(i, n, 'string')
    r = dict(arr=[int(x) for x in arr], txt=str(txt), arr2=[int(x) for x in l.binrep(i, n, 'array')], txt2=str(l.binrep(i, n, 'str')))
    for k, v in (('iarr', arr), ('itxt', txt), ('ilist', list(arr))):
        r[k] = int(l.intrep(v))
    try:
        l.binrep(i, n, 'nonsense')
        r['bad'] = False
    except ValueError:
        r['bad'] = True
    return r


def neighbours(n, nup, ndw, ispin):
    from edpyt import sector as s
    out = []
    for f, a in ((s.get_cdg_sector, (n, nup, ndw, ispin)), (s.get_c_sector, (nup, ndw, ispin))):
        try:
            out.append(tuple(int(x) for x in f(*a)))
        except s.OutOfHilbertError:
            out.append('out')
        except RuntimeError:
            out.append('usage')
    return out


def espace_dim(n, neig_max, sym):
    from edpyt.espace import get_espace_dim
    try:
        return [int(x) for x in get_espace_dim(n, neig_max, symmetry=sym)]
    except NotImplementedError:
        return 'unsupported'
