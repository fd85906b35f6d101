"""Contracts of the inner steps of the public transforms used for discrete spectra."""
from cp10 import *


def ids(l): return tuple((x.re.id, x.im.id) for x in l)


def tagof(q): return q[0].re.a[0].split('_')[0] if q[0].re.op == 'v' else '?'


def bstates_contract(kd):
    """*_scatter_bound_states(D,q,r,T,K,lambda,a,a',b,W,disc,skip_b): a, a' (scaled by 2^-W) and b at each lambda [P04]"""
    def f(e, st, a):
        D, q, r, T, K, lam, pa, pd, pb, W, disc, skip = a
        if not isinstance(K, int): raise Unsupported('symbolic list length')
        qs = carr(e, st, q, D) + carr(e, st, r, D); need(e, st, qs, 'scatter_bound_states')
        ls = carr(e, st, lam, K); need(e, st, ls, 'scatter_bound_states')
        tag = tagof(qs); log = st.ghost.get('bs', ()); i = len(log)
        for k in range(K):
            if kd == 'kdv' and ls[k].re is ZERO:
                # real signals: a and b are real, a' is imaginary on the imaginary axis
                e.putc(st, pa, k, C(X.cvar('a%d_%d' % (i, k)).re)); e.putc(st, pd, k, C(ZERO, X.cvar('d%d_%d' % (i, k)).im))
                if not skip: e.putc(st, pb, k, C(X.cvar('b%d_%d' % (i, k)).re))
                if W != 0: e.store(st, Ptr(W.o, W.off + 4 * k), e.newint(st, 'V%d_%d' % (i, k), -1000, 1000), I32)
                continue
            e.putc(st, pa, k, X.cvar('a%d_%d' % (i, k))); e.putc(st, pd, k, X.cvar('d%d_%d' % (i, k)))
            if not skip: e.putc(st, pb, k, X.cvar('b%d_%d' % (i, k)))
            if W != 0: e.store(st, Ptr(W.o, W.off + 4 * k), e.newint(st, 'V%d_%d' % (i, k), -1000, 1000), I32)
        st.ghost['bs'] = log + ((tag, D, ids(qs), (e.getd(st, T, 0), e.getd(st, T, 1)), tuple(ls), disc, int(bool(skip)), W != 0),)
        return 0
    return f


def roots_contract(e, st, a):
    """poly_roots_fasteigen(deg, p, roots): all roots of p, external solver (trusted)"""
    deg, p, out = a
    co = carr(e, st, p, deg + 1); need(e, st, co, 'poly_roots_fasteigen')
    i = len(st.ghost.get('roots', ()))
    for k in range(deg): e.putc(st, out, k, X.cvar('z%d_%d' % (i, k)))
    st.ghost['roots'] = st.ghost.get('roots', ()) + ((deg, ids(co)),)
    return 0


def filter_contract(e, st, a):
    """misc_filter(N*, vals, companion, box): keeps the elements inside the box [P23]; here: any prefix-preserving subset"""
    pn, v, comp, box = a
    n = e.load(st, pn, I64)
    if not isinstance(n, int): raise Unsupported('symbolic list length')
    vs = carr(e, st, v, n); need(e, st, vs, 'misc_filter')
    b = tuple(e.getd(st, box, k) for k in range(4))
    st.ghost['filt'] = st.ghost.get('filt', ()) + ((n, tuple(vs), b),)
    l = []
    # all elements kept; only the last one kept; none kept
    alts = sorted({tuple(range(n)), tuple(range(n))[-1:], ()})
    for j, keep in enumerate(alts):
        s = st.fork() if j + 1 < len(alts) else st
        for i, k in enumerate(keep): e.putc(s, v, i, vs[k])
        for i in range(len(keep), n): e.putc(s, v, i, C(X.UNDEF, X.UNDEF))
        e.store(s, pn, len(keep), I64); s.ghost['keep'] = s.ghost.get('keep', ()) + (keep,)
        l.append((s, 0))
    return Alts(l)


def merge_contract(e, st, a):
    """misc_merge(N*, vals, tol): no element is dropped when all are further apart than tol [P23]"""
    pn, v, tr = a
    n = e.load(st, pn, I64)
    if isinstance(n, int) and n: need(e, st, carr(e, st, v, n), 'misc_merge')
    st.ghost['merge'] = st.ghost.get('merge', ()) + ((n, tr),)
    return 0


BSC = {'fnft__nse_scatter_bound_states': bstates_contract('nse'), 'fnft__kdv_scatter_bound_states': bstates_contract('kdv'), 'fnft__poly_roots_fasteigen': roots_contract,
       'fnft__misc_filter': filter_contract, 'fnft__misc_merge': merge_contract}
