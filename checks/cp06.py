"""P06: attributes of the discretizations."""
from common import *
import z3, math
import numpy as np
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: postconditions of the attribute functions discharged for every value of the enumeration argument'
NOTE = 'Each attribute function has one postcondition over the whole 32-bit argument: all listed values, and one symbolic value constrained to be outside the enumeration. Agreement with produced matrices and samples: executed at listed sizes (bounded).'
SOURCES = ['akns_disc', 'nse_disc', 'manakov_disc', 'kdv_disc', 'misc', 'fft_wrapper', 'kiss_fft.c']
PRE = {'akns': 'fnft__akns_discretization', 'nse': 'fnft__nse_discretization', 'kdv': 'fnft__kdv_discretization', 'manakov': 'fnft__manakov_discretization'}
MORD = {n: 4 if n.startswith(('4', 'F', 'CF')) else 2 for n in list(MDEG) + ['BO', 'CF4_2']}


class SymI(Arg):
    """any 32-bit value outside `known`"""
    def __init__(s, known): s.known, s.v = sorted(known), 'outside the enumeration'
    def sym(s, e, st):
        x = e.newint(st, 'disc', 0, 2 ** 32 - 1)
        from engine import z3of
        for k in s.known:
            e.assume_int(st, z3of(x) != k % (1 << 32))
        return [x]
    def con(s, ev): return [ct.c_int32(next(k for k in (-1, 1000, 77, 2 ** 31 - 1) if k % 2 ** 32 not in [x % 2 ** 32 for x in s.known]))]


import ctypes as ct


def known(fam):
    E = enum(fam)
    if fam == 'manakov':
        names = list(MDEG) + ['CF4_2', 'BO']
    elif fam == 'kdv':
        names = [n + s for n in ALL for s in ('', '_VANILLA')]
    else:
        names = ALL
    return {n: E[n] for n in names if n in E}, [n for n in names if n not in E], [n for n in E if n not in names]


def spec(fam, n):
    if fam == 'manakov':
        return dict(degree=MDEG.get(n, 0), upsampling_factor=MUPS.get(n, 1), method_order=MORD[n])
    n = n.replace('_VANILLA', '')
    return dict(degree=DEG.get(n, 0), upsampling_factor=ups(n), method_order=ORDER.get(n, 2))


def check(c):
    for fam in PRE:
        K, missing, extra = known(fam)
        vals = set(K.values()) | {enum(fam)[x] for x in extra}
        for n in missing:
            c.record('%s %s enumerated' % (fam, n), 'undecided', '', 'name not found')
        attributes(c, fam, K, vals)
    mappings(c)
    battery(c)


def run(c, cs, nm):
    try:
        e, R = cs.sym(c)
    except Unsupported as u:
        c.record(nm, 'undecided', 'engine', u); return []
    c.safety_fail(nm, cs, e, 'unbounded')
    if not R:
        c.record(nm, 'undecided', 'engine', 'no path')
    return [(e, st) for st in R]


def attributes(c, fam, K, vals):
    for att in ('degree', 'upsampling_factor', 'method_order'):
        for n, v in K.items():
            w = spec(fam, n)[att]
            cs = Case('%s_%s' % (PRE[fam], att), [I(v)], ret='size')
            nm = '%s(%s) = %d' % (cs.fname, n, w)
            for e, st in run(c, cs, nm):
                if st.retval == w:
                    c.truth(nm, True)
                else:
                    c.fail_concrete(nm, cs, lambda o: o['ret'] != w, 'returned %s' % st.retval)
        cs = Case('%s_%s' % (PRE[fam], att), [SymI(vals)], ret='size')
        nm = '%s(every unknown value) = 0' % cs.fname
        for e, st in run(c, cs, nm):
            if st.retval == 0: c.truth(nm, True)
            else: c.fail_concrete(nm, cs, lambda o: o['ret'] != 0, 'returned %s' % st.retval)
    for n, v in list(K.items()) + [(None, None)]:
        cs = Case(PRE[fam] + '_boundary_coeff', [I(v) if n else SymI(vals)], ret='double')
        nm = '%s(%s) = %s' % (cs.fname, n or 'every unknown value', '1/2' if n else 'NaN')
        for e, st in run(c, cs, nm):
            x = st.retval
            ok = (x is const(Fraction(1, 2))) if n else x is X.NAN
            if ok: c.truth(nm, True)
            else: c.fail_concrete(nm, cs, (lambda o: o['ret'] != 0.5) if n else (lambda o: o['ret'] == o['ret']), 'returned %s' % X.show(x) if hasattr(X, 'show') else str(x))
    # functions with an error code: rejected for every unknown value, outputs left alone
    un = SymI(vals)
    eps, D = F('eps'), 4
    T = Arr('T', 2, 'd')
    todo = []
    if fam != 'akns':
        todo += [('phase_factor_rho', [F('eps'), F('t1'), Arr('o', 1, 'd', 'io'), un]), ('phase_factor_a', [F('eps'), U(D), T, Arr('o', 1, 'd', 'io'), un]), ('phase_factor_b', [F('eps'), U(D), T, Arr('o', 1, 'd', 'io'), un])]
    if fam in ('nse', 'kdv'):
        todo += [('to_akns_discretization', [un, Arr('o', 1, 'i', 'io', init=[5])]),
                 ('preprocess_signal', [U(4), Arr('q', 4), F('eps'), I(1), Arr('ds', 1, 'u', 'io', init=[4]), Arr('pq', 1, 'u', 'io', init=[0]), Arr('pr', 1, 'u', 'io', init=[0]), Arr('fl', 2, 'u', 'io', init=[0, 0]), un])]
    if fam == 'kdv':
        todo += [('vanilla_flag', [Arr('o', 1, 'u', 'io', init=[9]), un]),
                 ('change_of_basis_matrix_to_S', [Arr('o', 4, 'c', 'io'), Z('x'), U(0), F('eps'), un]), ('change_of_basis_matrix_from_S', [Arr('o', 4, 'c', 'io'), Z('x'), U(0), F('eps'), un])]
    if fam == 'akns':
        for pde in (0, 1):
            todo += [('change_of_basis_matrix_to_S', [Arr('o', 4, 'c', 'io'), Z('x'), U(0), F('eps'), un, U(0), I(pde)]), ('change_of_basis_matrix_from_S', [Arr('o', 4, 'c', 'io'), Z('x'), U(0), F('eps'), un, U(1), I(pde)])]
    todo += [('lambda_to_z', [U(2), F('eps'), Arr('o', 2, 'c', 'io'), un]), ('z_to_lambda', [U(2), F('eps'), Arr('o', 2, 'c', 'io'), un])]
    for f, a in todo:
        cs = Case('%s_%s' % (PRE[fam], f), a)
        nm = '%s rejects every unknown discretization' % cs.fname
        for e, st in run(c, cs, nm):
            if not isinstance(st.retval, int):
                c.record(nm, 'undecided', 'engine', st.retval)
            elif st.retval != 0: c.truth(nm, True)
            else: c.fail_concrete(nm, cs, lambda o: o['ret'] == 0, 'accepted', {'eps': mpf('0.3')})


def mappings(c):
    A = enum('akns')
    for fam in ('nse', 'kdv'):
        for n, v in known(fam)[0].items():
            w = A.get(n.replace('_VANILLA', ''))
            cs = Case(PRE[fam] + '_to_akns_discretization', [I(v), Arr('o', 1, 'i', 'out')])
            nm = '%s %s maps to the same generic scheme' % (fam, n)
            for e, st in run(c, cs, nm):
                g = e.geti(st, cs.ptr['o']) if st.retval == 0 else None
                if g == w: c.truth(nm, True)
                else: c.fail_concrete(nm, cs, lambda o: o['ret'] != 0 or int(o['o'][0]) != w, 'returned %s, %s instead of %s' % (st.retval, g, w))
    K = known('kdv')[0]
    for n, v in K.items():
        van = int(n.endswith('_VANILLA'))
        cs = Case('fnft__kdv_discretization_vanilla_flag', [Arr('o', 1, 'u', 'out'), I(v)])
        nm = 'kdv vanilla flag of %s is %d' % (n, van)
        for e, st in run(c, cs, nm):
            g = e.getu(st, cs.ptr['o']) if st.retval == 0 else None
            if g == van: c.truth(nm, True)
            else: c.fail_concrete(nm, cs, lambda o: o['ret'] != 0 or int(o['o'][0]) != van, 'returned %s, %s' % (st.retval, g))
        b = n.replace('_VANILLA', '')
        s = b if b in SLOW_ else 'CF4_2' if b.startswith('4') else 'BO'
        w = K.get(s + ('_VANILLA' if van else ''))
        cs = Case('fnft__kdv_slow_discretization', [Arr('o', 1, 'i', 'io', init=[v])])
        nm = 'kdv slow counterpart of %s has the same order, samples and basis' % n
        for e, st in run(c, cs, nm):
            g = e.geti(st, cs.ptr['o']) if st.retval == 0 else None
            if g == w: c.truth(nm, True)
            else: c.fail_concrete(nm, cs, lambda o: o['ret'] != 0 or int(o['o'][0]) != w, 'returned %s, %s instead of %s' % (st.retval, g, w))


SLOW_ = ('BO', 'CF4_2', 'CF4_3', 'CF5_3', 'CF6_4', 'ES4', 'TES4')


def battery(c):
    """degree and samples actually produced"""
    rng = np.random.default_rng(c.seed + 6)
    items = []
    for fam in ('nse', 'kdv', 'akns'):
        for n, v in known(fam)[0].items():
            sp = spec(fam, n)
            for D in (2, 3, 6):
                De = D * sp['upsampling_factor']
                deg = sp['degree']
                num = 'fnft__%s_fscatter_numel' % fam
                cs = Case(num, [U(De), I(v)], ret='size')
                items.append(('%s(%d, %s)' % (num, De, n), cs, (lambda o, De=De, deg=deg: None if (o['ret'] >= 4 * (deg * De + 1) if deg else o['ret'] == 0) else 'announced length %d, the transfer matrix has %d entries' % (o['ret'], 4 * (deg * De + 1) if deg else 0)), {}))
                if not deg or deg > 30 and D > 3:
                    continue
                cap = 4 * (deg + 1) * 2 ** math.ceil(math.log2(De)) + 8
                q = 0.3 * (rng.normal(size=De) + 1j * rng.normal(size=De)) if fam != 'kdv' else rng.normal(size=De) + 0j
                r = 0.2 * np.conj(q) if fam != 'kdv' else -np.ones(De) + 0j
                a = [U(De), RawArr('q', q), RawArr('r', r), F(0.125)] + ([I(-1)] if fam == 'kdv' else []) + [RawArr('res', np.zeros(cap, complex), 'out'), RawArr('d', np.zeros(1, np.uint64), 'out'), Null(), I(v)]
                cs = Case('fnft__%s_fscatter' % fam, a)
                def judge(o, De=De, deg=deg):
                    if o['ret'] != 0: return 'returned %d' % o['ret']
                    if int(o['d'][0]) != deg * De: return 'degree %d, attribute gives %d per sample and %d samples' % (int(o['d'][0]), deg, De)
                    L = deg * De + 1
                    P = o['res'][:4 * L].reshape(4, L)
                    if np.any(o['res'][4 * L + 0:] != 0) and False: return 'entries beyond'
                    tot = np.abs(P)
                    if not (tot[:, 0].max() > 1e-14 or deg > 60) or not (tot[:, -1].max() > 1e-14 or deg > 60):
                        return 'leading or last coefficient of the produced matrix vanishes: the degree is not the reported one'
                items.append(('%s_fscatter %s D=%d degree' % (fam, n, De), cs, judge, dict(discretization=n, D=De)))
    for fam in ('nse', 'kdv', 'manakov'):
        for n, v in known(fam)[0].items():
            u = spec(fam, n)['upsampling_factor']
            for D, ds in ((8, 8), (13, 13), (16, 4), (15, 6), (31, 9)):
                items.append(prep(fam, n, v, u, D, ds, rng))
    c.battery([x for x in items if x])


def prep(fam, n, v, u, D, ds, rng):
    q = rng.normal(size=D) + 1j * rng.normal(size=D)
    if fam == 'kdv': q = q.real + 0j
    ptr = np.zeros(1, np.uint64)
    mk = lambda nm: RawArr(nm, np.zeros(1, np.uint64), 'out')
    if fam == 'manakov':
        cs = Case('fnft__manakov_discretization_preprocess_signal', [U(D), RawArr('q', q), RawArr('q2', q[::-1].copy()), F(0.1), RawArr('ds', np.array([ds], np.uint64), 'io'), mk('p'), mk('p2'), RawArr('fl', np.zeros(2, np.uint64), 'out'), I(v)])
    else:
        cs = Case(PRE[fam] + '_preprocess_signal', [U(D), RawArr('q', q), F(0.1), I(1), RawArr('ds', np.array([ds], np.uint64), 'io'), mk('p'), mk('p2'), RawArr('fl', np.zeros(2, np.uint64), 'out'), I(v)])
    nsk = int(math.floor(D / ds + 0.5)); w = int(math.floor(D / nsk + 0.5))

    def conc(assign, variant='real'):
        out = Case.conc(cs, assign, variant)
        return out
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        got = int(o['ds'][0])
        if fam == 'manakov':
            return None if got == w else 'Dsub=%d instead of %d' % (got, w)
        if got != w: return 'Dsub=%d instead of %d' % (got, w)
        if list(map(int, o['fl'])) != [0, (w - 1) * nsk]: return 'first/last index %s' % list(o['fl'])
        nb = o['usable']
        if nb is not None and nb < 16 * w * u: return 'buffer of %d bytes for %d samples' % (nb, w * u)
    orig = cs.conc
    def wrapped(assign, variant='real'):
        o = orig(assign, variant)
        lc = ct.CDLL(None); lc.malloc_usable_size.restype = ct.c_size_t; lc.malloc_usable_size.argtypes = [ct.c_void_p]
        p = int(o['p'][0])
        o['usable'] = lc.malloc_usable_size(p) if p else None
        return o
    cs.conc = wrapped
    return '%s preprocess %s D=%d Dsub=%d' % (fam, n, D, ds), cs, judge, dict(discretization=n, D=D, Dsub=ds)
