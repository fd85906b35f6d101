"""P12: spectra of the vanishing-boundary Korteweg-de Vries transform."""
import re
from pubsym import *
from cp10 import _pow2
from specs import nstep, nbasis, basis_to_S, basis_from_S, mm, Du
from cp04 import nwave
from cp11 import base
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of fnft_kdvv over the contracts of preprocessing (P22), scattering (P02, P03, P04) and chirp transform (P09); compiled transform against the definition'
NOTE = 'Polynomial coefficients, scattering coefficients, potentials, interval, range and guesses symbolic; number of samples, grid points, bound states and Newton steps bounded. The compiled transform is compared with an independent product of matrix exponentials.'
SOURCES = ['fnft_kdvv.c', 'kdv_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c']
KALL = [(n, v) for n in ALL for v in (0, 1)]


def full(n, van): return n + ('_VANILLA' if van else '')


def check(c):
    warm('kdvv')
    jobs = []
    for n, van in KALL:
        if full(n, van) not in enum('kdv'): continue
        for D, M in (((2, 2), (3, 3)) if DEG.get(n, 0) < 13 else ((2, 2),)):
            for ct_ in ('REFLECTION_COEFFICIENT', 'AB', 'BOTH') if D == 2 else ('BOTH',):
                for nf in ((1, 0) if D == 2 and ct_ == 'BOTH' else (1,)):
                    if DEG.get(n, 0) > 24 and ct_ != 'BOTH': continue
                    jobs.append((cont, n, van, D, M, ct_, nf))
        for ds in ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'):
            jobs.append((newt, n, van, ds, 1, 1, 1))
        jobs += [(newt, n, van, 'BOTH', 0, 2, 1), (newt, n, van, 'RESIDUES', 1, 1, 2)]
        for pat in ('+-++', '-0+-', '----', '0++0', '-+-+', '++--', '+++0') if n in ('BO', '2SPLIT4B', 'CF4_2', 'ES4', '2SPLIT2A', 'CF5_3') else (('+-++', '-0+-')[van], '++--'):
            for nf in (0, 1): jobs.append((grid, n, van, pat, nf))
        jobs.append((nobound, n, van))
    c.parallel(disp, jobs)
    battery(c)


def disp(c, f, *a):
    if c.viol: return
    f(c, *a)


def rarr(nm, n, **k): return Arr(nm, n, init=[C(var('%s[%d]' % (nm, i))) for i in range(n)], **k)


KCON = {'fnft__kdv_discretization_preprocess_signal': prep_contract('kdv'), 'fnft__poly_chirpz': chirpz_contract, 'fnft__kdv_scatter_matrix': smat_contract, 'fnft__kdv_fscatter': fscatter_contract('kdv', 4)}


def cont(c, n, van, D, M, ct_, nf):
    T0, T1, X0, X1 = (var(x) for x in ('T0', 'T1', 'X0', 'X1'))
    m = {'REFLECTION_COEFFICIENT': 1, 'AB': 2, 'BOTH': 3}[ct_]
    cs = Case('fnft_kdvv', [U(D), rarr('q', D), Arr('T', 2, 'd', init=[T0, T1]), U(M), Arr('cs', m * M, role='out'), Arr('XI', 2, 'd', init=[X0, X1]), Null(), Null(), Null(),
                            Opts('kdvv', discretization=full(n, van), contspec_type=ct_, normalization_flag=nf)])
    nm = 'fnft_kdvv contspec %s D=%d M=%d %s norm=%d' % (full(n, van), D, M, ct_, nf)
    def pre(e, st, cs): gt(st, T1, T0); gt(st, X1, X0); gt(st, X0, ZERO)
    con = dict(KCON)
    con['fnft__kdv_fscatter'] = fscatter_contract('kdv', 4, None if DEG.get(n, 0) < 13 else 17)
    e, R = cs.sym(c, contracts=con, pre=pre)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D - 1)); dxi = div(sub(X1, X0), const(M - 1))
    xi = [add(X0, mul(const(k), dxi)) for k in range(M)]
    good = 0
    for st in R:
        if st.retval != 0 and any(p[0] == 'f' and set(p[1]) == {'='} for p in st.path) and abs(sret(st.retval)) in (2, 3): continue
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        good += 1
        kcalls(c, nm, st, n, van, D, eps, xi)
        want = spec(n, van, D, M, eps, T0, T1, xi, ct_, scaled(st, 'q%d' % D), 'q%d' % D)
        it = []
        for k in range(m * M): it += cpairs('cs', k, e.getc(st, cs.ptr['cs'], k), want[k])
        c.eq(nm, None, st, it, scope='bounded', sampler=samp)
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def samp(k, rng):
    k = str(k)
    if k == 'T0': return mpf(rng.uniform(-2, -.5))
    if k == 'T1': return mpf(rng.uniform(.5, 2))
    if k == 'X0': return mpf(rng.uniform(.2, 1))
    if k == 'X1': return mpf(rng.uniform(1.1, 2))
    if k[:1] == 'y': return mpf(rng.uniform(.1, 2))
    if k.startswith('int:'): return mpf(rng.randrange(-3, 4))
    v = mpf(rng.uniform(-1.2, 1.2))
    if k[:1] == 'a' and k[1:2].isdigit(): v = v * rng.choice([1, mpf(10) ** -16, mpf(10) ** -14])
    if k[:1] == 'q' and '_' in k and k.endswith('.re'): v = v * rng.choice([1, 1, 20])
    return v


def spec(n, van, D, M, eps, T0, T1, xi, ct_, nf, tag):
    h = const(Fraction(1, 2))
    L, Rb = sub(T0, mul(h, eps)), add(T1, mul(h, eps))
    fast = n in DEG
    fr = mul(const(-D), eps) if fast else ZERO
    pr, pa, pb = mul(const(-2), Rb), add(fr, sub(Rb, L)), sub(sub(fr, Rb), L)
    rho, A, B = [], [], []
    for k in range(M):
        if fast:
            deg = DEG[n] * ups(n) * D
            z = cexp(IU * C(mul(xi[k], mul(eps, const(Fraction(2, DEG[n] * ups(n)))))))
            H = []
            for ent in range(4):
                s = C.of(0)
                for j in range(deg + 1):
                    if DEG[n] >= 13 and not (j in (0, deg) or j % 17 == 1): s = s * z; continue
                    s = s * z + X.cvar('H%s_%d_%d' % (tag, ent, j))
                H.append(Du(s))
            S = mm(mm(basis_to_S('KdV', n, van, C(xi[k]), eps), [[H[0], H[1]], [H[2], H[3]]]), basis_from_S('KdV', n, van, C(xi[k]), eps))
            h1, h2 = S[0][0].v, S[1][0].v
            sc = _pow2('W' + tag) if nf else ONE
        else:
            h1, h2 = X.cvar('S%s_%d_0' % (tag, k)), X.cvar('S%s_%d_2' % (tag, k))
            sc = _pow2('W%s_%d' % (tag, k)) if nf else ONE
        ph = lambda p: cexp(IU * C(mul(xi[k], p)))
        rho.append(h2 * ph(pr) / h1); A.append(h1 * ph(pa) * C(sc)); B.append(h2 * ph(pb) * C(sc))
    return {'REFLECTION_COEFFICIENT': rho, 'AB': A + B, 'BOTH': rho + A + B}[ct_]


def differ(a, b): return 99 if len(a) != len(b) else sum(x != y for x, y in zip(a, b))


def rids(nm, n): return tuple((var('%s[%d]' % (nm, k)).id, ZERO.id) for k in range(n))


def kcalls(c, nm, st, n, van, D, eps, xi, conc=0):
    g = st.ghost; u = ups(n); v = enum('kdv')[full(n, van)]
    ok, why = True, ''
    for (ds, e2, k2, disc, DD, q) in g.get('prep', ())[:1]:
        if disc != v or DD != D or ds != D or q != rids('q', D): ok, why = False, 'preprocessing called with other data'
        c.eq(nm + ': step size handed to preprocessing', None, st, [(None, e2, eps)], scope='bounded', sampler=samp)
    P = tuple((X.cvar('%s%d_%d' % (a, D, k)).re.id, X.cvar('%s%d_%d' % (a, D, k)).im.id) for a in 'qr' for k in range(D * u))
    for x in g.get('fsc', ())[:1]:
        if x[1] != D * u or differ(x[6], P) > conc or x[5] != v: ok, why = False, 'fast scattering called with other samples or scheme'
        c.eq(nm + ': step size handed to scattering', None, st, [(None, x[2], eps)], scope='bounded', sampler=samp)
    for x in g.get('slow', ())[:1]:
        if x[1] != D * u or differ(x[5], P) > conc or (n not in DEG and x[4] != v): ok, why = False, 'scattering called with other samples or scheme'
        c.eq(nm + ': step size handed to scattering', None, st, [(None, x[2], eps)], scope='bounded', sampler=samp)
        if xi is not None:
            if len(x[6]) != len(xi): ok, why = False, 'grid of %d points' % len(x[6])
            else: c.eq(nm + ': grid handed to scattering', None, st, [y for k in range(len(xi)) for y in ((None, x[6][k].re, C.of(xi[k]).re), (None, x[6][k].im, C.of(xi[k]).im))], scope='bounded', sampler=samp)
    c.truth(nm + ': inner calls', ok, scope='bounded') or c.fail_concrete(nm + ': inner calls', None, None, why)


# ------------------------------------------------------------------ discrete spectrum
def relevant(n, k): return n not in ('ES4', 'TES4') or k % 3 == 0


def bprep(n, D, top):
    """preprocessed potential whose largest relevant sample is the last one (top: its value, or None for a symbolic positive one)"""
    f = prep_contract('kdv')
    N_ = D * ups(n); last = max(k for k in range(N_) if relevant(n, k))
    def g(e, st, a):
        r = f(e, st, a)
        if r != 0: return r
        tag = 'q%d' % e.load(st, a[4], I64)
        for k in range(N_):
            if relevant(n, k) and (k != last or top == 'none'): gt(st, ZERO, X.cvar('%s_%d' % (tag, k)).re)
        p = e.load(st, a[5], PTR)
        if top is None: gt(st, X.cvar('%s_%d' % (tag, last)).re, ZERO)
        elif top != 'none': e.putc(st, p, last, C(const(top), X.cvar('%s_%d' % (tag, last)).im))
        return r
    return g


def discjob(c, nm, cs, n, van, D, con, T0, T1, ds, nf, start, mode):
    """common part: Newton refinement of the values in start(st), constants at the reported values"""
    e, R = cs.sym(c, contracts=con, pre=lambda e, st, cs: (gt(st, T1, T0), [gt(st, var('y%d' % k), ZERO) for k in range(3)]), generic=True)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D - 1)); u = ups(n); good = 0
    nit = cs.nit
    for st in R:
        g = st.ghost
        if st.retval != 0 and abs(sret(st.retval)) == 3 and any(p[0] == 'f' and set(p[1]) == {'='} for p in st.path): continue
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1
        kcalls(c, nm, st, n, van, D, eps, None, int(mode == 'grid'))
        lam = start(e, st)
        if lam is None: return
        bl = list(g.get('bs', ())); j = 0
        P = tuple(ids([X.cvar('%s%d_%d' % (a, D, k)) for a in 'qr' for k in range(D * u)]))
        for i, x in enumerate(bl):
            ok = x[1] == D * u and differ(x[2], P) <= (mode == 'grid') and x[5] == enum('kdv')[full(base(n), van)]
            c.truth(nm + ': scattering of the preprocessed signal with the base scheme', ok, scope='bounded') or c.fail_concrete(nm + ': scattering data', None, None, 'call %d uses other data or scheme' % i)
            c.eq(nm + ': interval', None, st, [(None, x[3][0], T0), (None, x[3][1], T1)], scope='bounded', sampler=samp)
        for k in range(len(lam)):
            for it in range(nit):
                if j < len(bl) and bl[j][6] == 1:
                    if lam[k] is None: lam[k] = bl[j][4][0]
                    c.eq(nm + ': point of Newton step', None, st, [(None, bl[j][4][0].re, lam[k].re), (None, bl[j][4][0].im, lam[k].im)], scope='bounded', sampler=samp)
                    a, d = C(X.cvar('a%d_0' % j).re), C(ZERO, X.cvar('d%d_0' % j).im)
                    lam[k] = lam[k] - a / d; j += 1
                    # continues with this value, or stops: the next call is for a different value
                    if it + 1 < nit and not (j < len(bl) and bl[j][6] == 1): break
                elif it == 0: c.truth(nm + ': Newton steps taken', False); c.fail_concrete(nm + ': Newton steps taken', None, None, 'no step'); return
        ks = e.getu(st, cs.ptr['K'])
        c.truth(nm + ': count', ks == len(lam), scope='bounded') or c.fail_concrete(nm + ': count', None, None, 'K=%s instead of %d' % (ks, len(lam)))
        if ks != len(lam): return
        if ks: c.eq(nm + ': reported values', None, st, [x for k in range(ks) for x in cpairs('bs', k, e.getc(st, cs.ptr['bs'], k), lam[k])], scope='bounded', sampler=samp)
        last = [(i, x) for i, x in enumerate(bl) if x[6] == 0]
        if ks:
            ok = len(last) == 1
            c.truth(nm + ': norming constants computed once', ok, scope='bounded') or c.fail_concrete(nm + ': norming constants', None, None, '%d calls' % len(last))
            if not ok: return
            i, x = last[0]
            c.eq(nm + ': constants at the reported values', None, st, [y for k in range(ks) for y in cpairs('bs', k, x[4][k], e.getc(st, cs.ptr['bs'], k))], scope='bounded', sampler=samp)
            it = []
            real = lambda k: x[4][k].re is ZERO
            for k in range(ks):
                b = X.cvar('b%d_%d' % (i, k)); d = X.cvar('d%d_%d' % (i, k)); sc = _pow2('V%d_%d' % (i, k)) if x[7] else ONE
                if real(k): b, d = C(b.re), C(ZERO, d.im)
                r = b / (d * C(sc))
                if ds != 'RESIDUES': it += cpairs('nc', k, e.getc(st, cs.ptr['nc'], k), b)
                if ds != 'NORMING_CONSTANTS': it += cpairs('nc', k + (ks if ds == 'BOTH' else 0), e.getc(st, cs.ptr['nc'], k + (ks if ds == 'BOTH' else 0)), r)
            c.eq(nm + ': norming constants and residues', None, st, it, scope='bounded', sampler=samp)
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def kcase(n, van, D, K, ds, init, T0, T1, **kw):
    cs = Case('fnft_kdvv', [U(D), rarr('q', D), Arr('T', 2, 'd', init=[T0, T1]), U(0), Null(), Null(), Arr('K', 1, 'u', 'io', init=[K]),
                            Arr('bs', K, role='io', init=init) if init else Arr('bs', K, role='io'), Arr('nc', (2 if ds == 'BOTH' else 1) * K, role='out'), Opts('kdvv', discretization=full(n, van), discspec_type=ds, **kw)])
    cs.nit = kw['niter']
    return cs


def newt(c, n, van, ds, nf, K, nit):
    T0, T1 = var('T0'), var('T1'); D = 2
    cs = kcase(n, van, D, K, ds, [C(ZERO, var('y%d' % k)) for k in range(K)], T0, T1, bound_state_localization='NEWTON', normalization_flag=nf, niter=nit)
    nm = 'fnft_kdvv bound states %s NEWTON %s norm=%d K=%d niter=%d' % (full(n, van), ds, nf, K, nit)
    con = dict(KCON, **BSC); con['fnft__kdv_discretization_preprocess_signal'] = bprep(n, D, None)
    discjob(c, nm, cs, n, van, D, con, T0, T1, ds, nf, lambda e, st: [C(ZERO, var('y%d' % k)) for k in range(K)], 'newton')


def nobound(c, n, van):
    T0, T1 = var('T0'), var('T1'); D = 2
    nm = 'fnft_kdvv %s potential without positive samples' % full(n, van)
    for loc in ('NEWTON', 'GRIDSEARCH_AND_REFINE'):
        cs = kcase(n, van, D, 2, 'BOTH', [C(ZERO, var('y%d' % k)) for k in range(2)], T0, T1, bound_state_localization=loc, niter=1, grid_spacing=.1)
        con = dict(KCON, **BSC); con['fnft__kdv_discretization_preprocess_signal'] = bprep(n, D, 'none')
        e, R = cs.sym(c, contracts=con, pre=lambda e, st, cs: (gt(st, T1, T0), [gt(st, var('y%d' % k), ZERO) for k in range(3)]))
        c.safety_fail(nm, cs, e)
        for st in R:
            if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
            ks = e.getu(st, cs.ptr['K'])
            c.truth(nm + ': count', ks == 0, scope='bounded') or c.fail_concrete(nm + ': count', None, None, 'K=%s' % ks)
            c.truth(nm + ' releases its memory', not st.live_heap(), scope='bounded') or c.fail_concrete(nm + ' memory', None, None, '')


def smat_pattern(pat):
    def f(e, st, a):
        D, q, r, eps, kappa, K, lam, res, W, disc, der = a
        i = len(st.ghost.get('slow', ()))
        x = smat_contract(e, st, a)
        if K != len(pat) or i: return x
        for k, s in enumerate(pat):
            v = e.getc(st, res, 4 * k).re
            if W != 0: e.store(st, Ptr(W.o, W.off + 4 * k), [2, 5, 3, -3][k], I32)
            if s == '0': e.putc(st, res, 4 * k, C.of(0))
            else:
                e.putc(st, res, 4 * k, C(v))
                gt(st, v, ZERO) if s == '+' else gt(st, ZERO, v)
        return x
    return f


def grid(c, n, van, pat, nf):
    T0, T1 = var('T0'), var('T1'); D, M = 2, len(pat)
    nit = int(pat in ('++--', '+++0'))
    sf = ups(n) > 2
    top = 2 if sf else 4          # the bound is the square root (with a safety factor of two for interpolated potentials)
    nm = 'fnft_kdvv bound states %s GRIDSEARCH pattern %s norm=%d' % (full(n, van), pat, nf)
    cs = kcase(n, van, D, 4, 'BOTH', None, T0, T1, bound_state_localization='GRIDSEARCH_AND_REFINE', normalization_flag=nf, niter=nit, grid_spacing=0.5)
    con = dict(KCON, **BSC); con['fnft__kdv_discretization_preprocess_signal'] = bprep(n, D, top); con['fnft__kdv_scatter_matrix'] = smat_pattern(pat)
    step = Fraction(2, M - 1)
    def start(e, st):
        sl = st.ghost.get('slow', ())
        ok = len(sl) == 1 and sl[0][1] == D * ups(n) and len(sl[0][6]) == M and sl[0][4] == enum('kdv')[full(base(n), van)]
        c.truth(nm + ': a evaluated on the search grid', ok, scope='bounded') or c.fail_concrete(nm + ': a evaluated on the search grid', None, None, '%d calls' % len(sl))
        if not ok: return None
        xs = sl[0][6]
        c.eq(nm + ': step size of the search', None, st, [(None, sl[0][2], sub(T1, T0))], scope='bounded', sampler=samp)
        ok = all(xs[k].re is ZERO and xs[k].im.op == 'c' and abs(xs[k].im.a[0] - step * k) < 1e-12 for k in range(M))
        c.truth(nm + ': search grid', ok, scope='bounded') or c.fail_concrete(nm + ': search grid', None, None, 'grid %s' % (xs,))
        lo, hi = xs[0].im, xs[-1].im
        for t, ok in (('first', lo.op == 'c' and 0 < lo.a[0]), ('last', hi.op == 'c' and hi.a[0] <= 2)):
            c.truth(nm + ': %s point of the search grid inside the box' % t, ok, scope='bounded') or c.fail_concrete(nm + ': search grid', None, None, '%s point on the boundary' % t)
        bs = st.ghost.get('bs', ())
        bl = [x[4][0] for x in bs if x[6] == 1] if nit else list(bs[0][4]) if bs else []
        lam = []
        for k in range(M):
            if pat[k] == '0': lam.append(xs[k])
            elif k and pat[k - 1] != '0' and pat[k] != pat[k - 1]:
                i = len(lam)
                lam.append(bl[i] if i < len(bl) else None)
                if i < len(bl):
                    w = bl[i]
                    c.eq(nm + ': guess on the imaginary axis', None, st, [(None, w.re, ZERO)], scope='bounded', sampler=samp)
                    between(c, nm + ': guess between the grid points', pat, w.im, step * (k - 1), step * k)
        return lam
    discjob(c, nm, cs, n, van, D, con, T0, T1, 'BOTH', nf, start, 'grid')


def between(c, nm, pat, w, lo, hi):
    """w lies between lo and hi for all values of a with the given signs"""
    import random
    rng = random.Random(c.seed)
    for _ in range(6):
        M = X.MpEval(Sm(rng, pat))
        v = M.ev([w])[0]
        v = v.real
        if not (float(lo) - 1e-9 <= v <= float(hi) + 1e-9):
            c.record(nm, 'violated', '', str(v)); c.fail_concrete(nm, None, None, 'guess %s not in [%s, %s]' % (v, lo, hi)); return
    c.record(nm, 'bounded', 'sampled', '6 samples')


class Sm(dict):
    def __init__(s, rng, pat): s.rng, s.pat = rng, pat
    def __contains__(s, k):
        k_ = str(k)
        if k not in s.keys():
            v = mpf(rng_mag(s.rng))
            m = re.match(r'Sq\d+_(\d+)_0\.re', k_)
            if m and s.pat[int(m.group(1))] == '-': v = -v
            s[k] = v
        return True


def rng_mag(rng): return 10 ** rng.uniform(-3, 3)


# ------------------------------------------------------------------ execution
def battery(c):
    rng = np.random.default_rng(c.seed + 12)
    items = []
    for n, van in KALL:
        if full(n, van) not in enum('kdv'): continue
        items.append(contitem(n, van, 3, 'BOTH', 1, rng, True))
        for typ in range(6 if DEG.get(n, 0) < 24 else 4):
            for ct_ in ('BOTH', 'AB', 'REFLECTION_COEFFICIENT') if typ == 5 or n in ('BO', '2SPLIT4B', '2SPLIT2A') else (('BOTH', 'AB', 'REFLECTION_COEFFICIENT')[(typ + van) % 3],):
                for nf in (0, 1) if typ < 3 else (1,):
                    items.append(contitem(n, van, typ, ct_, nf, rng))
    from harness import run_many
    prep = {}
    key = lambda n, van, typ: (base(n), van, typ, n in DEG or ups(n) == 1)
    todo = sorted({key(n, van, typ): (n, van, typ) for n, van in KALL if full(n, van) in enum('kdv') for typ in range(4)}.items())
    for (k, _), r in zip(todo, run_many([lambda a=a: signal(*a) for _, a in todo])): prep[k] = r
    for n, van in KALL:
        if full(n, van) not in enum('kdv'): continue
        for typ in range(4):
            x = prep[key(n, van, typ)]
            if not isinstance(x, tuple): continue
            for loc in ('NEWTON', 'GRIDSEARCH_AND_REFINE'):
                ds = ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH')[(typ + van + len(loc)) % 3]
                items.append(discitem(n, van, typ, loc, ds, (typ + van) % 2 if typ < 2 else 1, x))
            if typ < 2 and len(x[7]) > 1: items.append(capacity(n, van, x))
    c.battery([i for i in items if i])


def contitem(n, van, typ, ct_, nf, rng, M1=False):
    D, M = [(2, 2), (3, 7), (8, 3), (13, 16), (64, 5), (150, 32)][typ]
    if M1: M = 1   # the documented grid has one point, XI[0]
    if DEG.get(n, 0) > 12: D = min(D, 13)
    T = [(-1.0, 1.5), (0.0, 2.0), (3.0, 5.0), (-7.0, -2.0), (-10.0, 10.0), (-9.0, 12.0)][typ]
    XI = [(-1.0, 2.0), (0.5, 0.75), (-3.0, -1.0), (-0.2, 0.93), (-1.5, 1.3), (-2.0, 0.55)][typ]
    if typ >= 4: t = np.linspace(*T, D); q = .8 / np.cosh(t) ** 2 - .3 * np.exp(-(t - 1) ** 2)
    else: q = rng.normal(size=D)
    if typ == 2: q[3] = 0
    if n == '2SPLIT2_MODAL': q = q * .8 / max(.8, np.abs(q).max() * max(1, ((T[1] - T[0]) / (D - 1)) ** 2))
    cs = kdvv_case(q, T, M, XI, discretization=full(n, van), contspec_type=ct_, normalization_flag=nf)
    lam = XI[0] + (XI[1] - XI[0]) / max(M - 1, 1) * np.arange(M)
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        rho, a, b, *_ = kdv_ab(n, van, q, T, lam)
        w = {'REFLECTION_COEFFICIENT': [rho], 'AB': [a, b], 'BOTH': [rho, a, b]}[ct_]
        for k, x in enumerate(w):
            g = o['cs'][k * M:(k + 1) * M]
            tol = (1e-8 if DEG.get(n, 0) < 100 else 1e-6) * max(1.0, np.abs(b / a).max()) * max(np.abs(x).max(), np.abs(a).max() if ct_ != 'REFLECTION_COEFFICIENT' else 0)
            if DEG.get(n, 0) * D > 800: tol *= 100
            i = int(np.nanargmax(np.where(np.isfinite(g), np.abs(g - x), np.inf)))
            if not abs(g[i] - x[i]) <= tol: return '%s at xi=%s is %s, discretized problem gives %s' % (['rho', 'a', 'b'][k + (ct_ == 'AB')], lam[i], g[i], x[i])
    return ('kdvv %s %s D=%d M=%d norm=%d executed' % (full(n, van), ct_, D, M, nf), cs, judge, dict(discretization=full(n, van), T=T, XI=XI, q=[str(x) for x in q[:64]]))


def avals(n, van, qp, rp, e, T, D, y):
    """real a and imaginary part of da/dlambda at i*y (common positive scale)"""
    qe, re_ = (qp, rp) if van else (rp, qp)
    (a0, ad, lg), _ = nwave('KdV', n, van, qe, re_, 1j * y, T[0], T[1], D)
    return a0.real, ad.imag, lg


def signal(n, van, typ):
    """potential, discretized problem, bound on the eigenvalues and sign changes of the discretized a on the imaginary axis"""
    D = [60, 120, 81, 40][typ] if n in DEG or ups(n) == 1 else [48, 80, 61, 40][typ]
    T = [(-12.0, 12.0), (-11.0, 13.0), (-9.0, 10.0), (-8.0, 8.0)][typ]
    t = np.linspace(*T, D); e = (T[1] - T[0]) / (D - 1)
    q = [5.3 / np.cosh(t) ** 2, 2.6 / np.cosh((t + 3)) ** 2 + 1.5 / np.cosh((t - 3)) ** 2 - .3 * np.exp(-t * t), 3.1 * np.exp(-(t - .5) ** 2 / 3), -.7 / np.cosh(t)][typ]
    b = base(n)
    qp, rp, w, _ = nprep('kdv', n, q, D, e)
    s = qp.real[::3] if n in ('ES4', 'TES4') else qp.real
    bd = math.sqrt(max(0, s.max()) * (2 if ups(n) > 2 else 1))
    cr = []
    if bd > 0:
        h = .05; ys = np.linspace(h / 2, bd, max(3, int(bd / h)))
        v = [avals(b, van, qp, rp, e, T, D, y)[0] for y in ys]
        cr = [(ys[i - 1], ys[i]) for i in range(1, len(ys)) if v[i - 1] * v[i] < 0]
    return D, T, e, q, qp, rp, bd, cr


def discitem(n, van, typ, loc, ds, nf, x):
    D, T, e, q, qp, rp, bd, cr = x; b = base(n); K = 6
    if n in DEG: qp, rp, *_ = nprep('kdv', n, q, D, e)
    kw = dict(discretization=full(n, van), bound_state_localization=loc, discspec_type=ds, normalization_flag=nf, niter=30)
    if loc != 'NEWTON': kw['grid_spacing'] = .05; g = True
    else:
        g = np.array([1j * (x + y) / 2 for x, y in cr] or [.4j]); K = len(g)
    cs = kdvv_case(q, T, K=K, bs=g, contspec=False, **kw)
    # with complex substeps a is not real on the imaginary axis: only the location can be judged
    cplx = ups(b) > 2 and b not in ('ES4', 'TES4')
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        k = int(o['K'][0]); bs = o['bs'][:k]
        if k > K: return '%d bound states with room for %d' % (k, K)
        if bd == 0: return None if k == 0 else '%d bound states of a negative potential' % k
        for z in bs:
            if z.real != 0: return 'bound state %s not on the imaginary axis' % z
            if not 0 < z.imag <= bd * (1 + 1e-9) and loc != 'NEWTON': return 'bound state %s outside the bound %s' % (z, bd)
        if cplx: return None
        if k != len(cr) and (loc != 'NEWTON' or cr): return '%d bound states, the discretized a has %d zeros on the imaginary axis (%s)' % (k, len(cr), bs)
        if not cr: return None
        m = 2 if ds == 'BOTH' else 1
        for i, z in enumerate(bs):
            a, d, lg = avals(b, van, qp, rp, e, T, D, z.imag)
            if not abs(a / d) < 1e-8: return 'reported %s is not a zero of a: a/a_prime = %s' % (z, a / d)
            if not any(x - 1e-9 <= z.imag <= y + 1e-9 for x, y in cr): return 'reported %s is not near a sign change of a' % z
            qe, re_ = (qp, rp) if van else (rp, qp)
            (a0, ad0, lg), cand = nwave('KdV', b, van, qe, re_, z, T[0], T[1], D)
            if not cand: continue
            mn = min(x[0] for x in cand)
            ok = [x[1] * np.exp(x[2]) for x in cand if x[0] <= mn + 1e-5]
            ap = 1j * ad0.imag * np.exp(lg)
            if ds != 'RESIDUES' and not any(abs(o['nc'][i] - x) < 1e-4 * abs(x) for x in ok): return 'norming constant at %s is %s, b of the discretized problem %s' % (z, o['nc'][i], ok[0])
            if ds != 'NORMING_CONSTANTS':
                g_ = o['nc'][i + (k if m == 2 else 0)]
                if not any(abs(g_ - x / ap) < 1e-4 * abs(x / ap) for x in ok): return 'residue at %s is %s, b/a_prime %s' % (z, g_, ok[0] / ap)
        for x, y in cr:
            if not any(x - 1e-9 <= z.imag <= y + 1e-9 for z in bs): return 'zero of a between %s and %s is not reported (%s)' % (x, y, bs)
    return ('kdvv bound states %s %s %s norm=%d signal %d executed' % (full(n, van), loc, ds, nf, typ), cs, judge, dict(discretization=full(n, van), signal=typ, D=D, T=T, K=K, guesses=str(g), q=[str(x) for x in q[:64]]))


def capacity(n, van, x):
    """room for fewer bound states than there are: as many as fit, nothing written behind the arrays"""
    D, T, e, q, qp, rp, bd, cr = x
    cs = kdvv_case(q, T, K=len(cr) - 1, bs=True, contspec=False, discretization=full(n, van), bound_state_localization='GRIDSEARCH_AND_REFINE', grid_spacing=.05, discspec_type='BOTH')
    def judge(o):
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        if o['ret'] == 0 and int(o['K'][0]) > len(cr) - 1: return '%d bound states with room for %d' % (o['K'][0], len(cr) - 1)
        if o['ret'] == 0 and int(o['K'][0]) != len(cr) - 1 and ups(base(n)) < 3: return 'room for %d of %d bound states, %d returned' % (len(cr) - 1, len(cr), o['K'][0])
    return ('kdvv %s capacity executed' % full(n, van), cs, judge, dict(discretization=full(n, van), D=D, T=T, q=[str(z) for z in q[:64]]))
