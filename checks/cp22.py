"""P22: preprocessing, subsampling and extrapolation."""
from contracts import *
from cp09 import NP
from cp06 import PRE, known
import math, ctypes as ct
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification: resampling, downsampling, scheme weights and signal preprocessing under contracts, identities in all samples; compiled instances against the defining formulas'
NOTE = 'All samples and the step size symbolic; number of samples and requested subsample counts range over the listed grid (bounded in size, unbounded in data). Exact arithmetic; FFT replaced by its contract (P09).'
SOURCES = ['akns_disc', 'nse_disc', 'kdv_disc', 'manakov_disc', 'fnft__misc', 'fft_wrapper', 'kiss_fft.c', 'fnft_nsev.c', 'fnft_kdvv.c', 'nse_', 'akns_', 'poly_']



def rnd(x): return int(math.floor(x + 0.5))


def subs(D, ds):
    """documented subsampling: stride, number of samples"""
    ds = min(max(ds, 2), D)
    nsk = rnd(D / ds)
    return nsk, rnd(D / nsk)


def wtab(disc, num=False):
    """(node offsets in steps, rows of averaging weights, step weights) of the exponential scheme"""
    R = (lambda a, b: math.sqrt(a / b)) if num else (lambda a, b: fn('sqrt', const(Fraction(a, b))))
    K = (lambda a, b=1: a / b) if num else (lambda a, b=1: const(Fraction(a, b)))
    Cx = (lambda a, b: complex(a, b)) if num else (lambda a, b: C(a, b))
    mul_ = (lambda a, b: a * b) if num else mul
    add_ = (lambda a, b: a + b) if num else add
    neg = lambda a: mul_(K(-1), a)
    Z0 = K(0)
    if disc in ('CF4_2', '4SPLIT4A', '4SPLIT4B'):
        s = R(3, 36)     # sqrt(3)/6
        a, b = add_(K(1, 4), s), add_(K(1, 4), neg(s))
        rows = [[Cx(a, Z0), Cx(b, Z0)], [Cx(b, Z0), Cx(a, Z0)]]
        off = [neg(s), s]
    elif disc == 'CF4_3':
        # 3 exponentials, 4th order: integrals of Legendre polynomials with Gauss-Legendre nodes
        f = [[(11, 40), (20, 87), (7, 50)], [(9, 20), (0, 1), (-7, 25)], [(11, 40), (-20, 87), (7, 50)]]
        w = [(5, 18), (4, 9), (5, 18)]
        x = R(12, 20)    # 2*sqrt(3/20)
        rows = []
        for i in range(3):
            row = []
            for m in range(3):
                sg = (1, 0, -1)[m]
                P = [K(1), mul_(K(sg), x), K(-1, 2) if sg == 0 else add_(K(-1, 2), mul_(K(3, 2), mul_(x, x)))]
                t = Z0
                for n in range(3):
                    t = add_(t, mul_(mul_(K(2 * n + 1), P[n]), K(*f[i][n])))
                row.append(Cx(mul_(t, K(*w[m])), Z0))
            rows.append(row)
        off = [neg(R(3, 20)), Z0, R(3, 20)]
    elif disc == 'CF5_3':
        r = R(15, 1)
        a0 = Cx(mul_(K(1, 900), add_(K(145), mul_(K(37), r))), mul_(K(1, 300), add_(K(5), mul_(K(3), r))))
        a1 = Cx(K(-1, 45), K(1, 15))
        a2 = Cx(mul_(K(1, 900), add_(K(145), mul_(K(-37), r))), mul_(K(1, 300), add_(K(5), mul_(K(-3), r))))
        b0 = Cx(K(-2, 45), mul_(K(-1, 50), r)); b1 = Cx(K(22, 45), Z0)
        cj = (lambda z: z.conjugate()) if num else (lambda z: C(z.re, neg(z.im)))
        rows = [[a0, a1, a2], [b0, b1, cj(b0)], [cj(a2), cj(a1), cj(a0)]]
        off = [neg(R(15, 100)), Z0, R(15, 100)]
    elif disc == 'CF6_4':
        d = lambda re, im: Cx(K(int(round(re * 10 ** 15)), 10 ** 15), K(int(round(im * 10 ** 15)), 10 ** 15))
        A = [d(0.245985577298764, 0.038734389227165), d(-0.046806149832549, 0.012442141491185), d(0.010894359342569, -0.004575808769067)]
        B = [d(0.062868370946917, -0.048761268117765), d(0.269028372054771, -0.012442141491185), d(-0.041970529810473, 0.014602687659668)]
        rows = [A, B, B[::-1], A[::-1]]
        off = [neg(R(15, 100)), Z0, R(15, 100)]
    else:
        rows = [[Cx(K(1), Z0)]]; off = [Z0]
    eps = []
    for r in rows:
        t = r[0]
        for z in r[1:]: t = t + z
        eps.append(t)
    return off, [[z / e for z in r] for r, e in zip(rows, eps)], eps


def check(c):
    c.parallel(job, [('w', n, 0, 0) for n in ALL] + [('rs', 'misc', D, 0) for D in (2, 3, 4, 5, 6)] + [('ds', 'misc', D, s) for D in range(2, 12) for s in sorted({0, 1, 2, 3, 4, D // 2, D - 1, D, D + 3})] +
               [('pp', (fam, n), D, s) for fam in ('nse', 'kdv') for n in ALL for D, s in (((4, 4), (5, 2), (7, 4)) if n in ('BO', '2SPLIT4B', 'ES4', 'TES4') else ((4, 2), (3, 3)) if ups(n) > 1 else ((4, 4), (7, 4)))] +
               [('pm', n, D, s) for n in list(MDEG) + ['BO', 'CF4_2'] for D, s in (((4, 4), (7, 4)) if MUPS.get(n, 1) == 1 else ((3, 3), (6, 3)))])
    from api import warm
    warm('nsev')
    c.parallel(rich, [(n, D, ct_, nf) for n in ALL if DEG.get(n, 0) <= 12 for D in (4, 5) for ct_, nf in (('REFLECTION_COEFFICIENT', 1), ('BOTH', 1), ('AB', 0)) if D == 4 or n in ('2SPLIT4B', 'BO', '2SPLIT2A', 'CF4_2', '2SPLIT3S', '4SPLIT4B')])
    c.parallel(richbs, [(n, ds) for n in ALL for ds in ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH')])
    battery(c)




def order(n):
    from common import ORDER
    return ORDER.get(n, 2)


def rich(c, n, D, ct_, nf):
    """continuous spectrum with Richardson extrapolation over the contracts of the inner steps"""
    if c.viol: return
    from cp10 import INNER, gt, spectrum, samp
    from api import Opts, sret
    T0, T1, X0, X1 = (var(x) for x in ('T0', 'T1', 'X0', 'X1')); M = 2
    m = {'REFLECTION_COEFFICIENT': 1, 'AB': 2, 'BOTH': 3}[ct_]
    cs = Case('fnft_nsev', [U(D), Arr('q', D), Arr('T', 2, 'd', init=[T0, T1]), U(M), Arr('cs', m * M, role='out'), Arr('XI', 2, 'd', init=[X0, X1]), Null(), Null(), Null(), I(1),
                            Opts('nsev', discretization=n, contspec_type=ct_, normalization_flag=nf, richardson_extrapolation_flag=1)])
    nm = 'fnft_nsev Richardson contspec %s D=%d %s norm=%d' % (n, D, ct_, nf)
    def pre(e, st, cs): gt(st, T1, T0); gt(st, X1, X0)
    e, R = cs.sym(c, contracts=INNER, pre=pre, generic=True)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D - 1)); xi = [add(X0, mul(const(k), sub(X1, X0))) for k in range(M)]
    nsk, w = subs(D, D // 2)
    es = mul(const(nsk), eps); T1s = add(T0, mul(const(w - 1), es))
    lim = div(mul(const(Fraction(9, 10)), var('pi')), mul(const(2), es))
    k_ = nsk ** order(n); good = 0
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        good += 1
        fine = spectrum(e, st, n, D, M, eps, T0, T1, xi, ct_, nf, 'q%d' % D)
        coarse = spectrum(e, st, n, w, M, es, T0, T1s, xi, ct_, nf, 'q%d' % (D // 2))
        ext = [C.of(Fraction(k_, k_ - 1)) * a - C.of(Fraction(1, k_ - 1)) * b for a, b in zip(fine, coarse)]
        it, reg = [], []
        for k in range(M):
            g = e.getc(st, cs.ptr['cs'], k)
            # which of the two values does this path deliver? the region is checked below
            inside = not X.identical([(g.re, fine[k].re)], c.seed)[0]
            reg.append((k, inside))
            for j in range(m):
                i = j * M + k
                it += cpairs('cs', i, e.getc(st, cs.ptr['cs'], i), ext[i] if inside else fine[i])
        c.eq(nm, None, st, it, scope='bounded', sampler=samp)
        c.truth(nm + ' region', *region(st, xi, lim, reg, samp, c.seed), scope='bounded') or c.fail_concrete(nm + ' region', None, None, 'extrapolated outside, or not extrapolated inside, of the resolved strip')
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def region(st, xi, lim, reg, samp, seed):
    """sampled: on this path exactly the grid points with |xi| < lim are extrapolated"""
    import random
    from harness import path_conds
    rng = random.Random(seed); n = 0
    wide = lambda k, r: samp(k, r) * r.choice([1, 1, 4, 10]) if str(k)[0] == 'X' else samp(k, r)
    conds = [x for x in path_conds(st) if not any('H' in str(y) or 'S' in str(y) for y in x[1:])]
    for _ in range(400):
        E = X.MpEval({}, None); E.default = lambda k: wide(k, rng)
        if not all(X.evalcond(p, *E.ev([a, b])) for p, a, b in conds): continue
        n += 1
        v = E.ev(xi + [lim])
        if any((abs(v[k]) < v[-1]) != ins for k, ins in reg): return False, 'sampled'
        if n >= 8: break
    return True, 'sampled %d points' % n


def richbs(c, n, ds):
    """one bound state with Richardson extrapolation over the contracts of the inner steps"""
    if c.viol: return
    from pubsym import BSC
    from cp10 import INNER, gt
    from cp11 import samp, base
    from api import Opts
    T0, T1 = var('T0'), var('T1'); D = 4; m = 2 if ds == 'BOTH' else 1
    cs = Case('fnft_nsev', [U(D), Arr('q', D), Arr('T', 2, 'd', init=[T0, T1]), U(0), Null(), Null(), Arr('K', 1, 'u', 'io', init=[1]), Arr('bs', 1, role='io'), Arr('nc', m, role='out'), I(1),
                            Opts('nsev', discretization=n, bound_state_localization='NEWTON', bound_state_filtering='NONE', discspec_type=ds, normalization_flag=0, niter=1, richardson_extrapolation_flag=1)])
    nm = 'fnft_nsev Richardson bound states %s %s' % (n, ds)
    con = dict(INNER); con.update(BSC)
    e, R = cs.sym(c, contracts=con, pre=lambda e, st, cs: gt(st, T1, T0), generic=True)
    c.safety_fail(nm, cs, e)
    k_ = 2 ** order(n); good = 0; kinds = set(); u = ups(n)
    ex = lambda a, b: C.of(Fraction(k_, k_ - 1)) * a - C.of(Fraction(1, k_ - 1)) * b
    eps = div(sub(T1, T0), const(3)); T1s = add(T0, mul(const(2), eps))
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        good += 1
        bl = st.ghost.get('bs', ())
        st1 = [i for i, x in enumerate(bl) if x[6] == 1]; fin = [i for i, x in enumerate(bl) if x[6] == 0]
        ok = len(st1) == 2 and len(fin) == 2 and [bl[i][1] for i in st1 + fin] == [D * u, 2 * u] * 2 and all(x[5] == enum('nse')[base(n)] for x in bl)
        c.truth(nm + ': one fine and one coarse pass', ok, scope='bounded') or c.fail_concrete(nm + ': passes', None, None, str([(x[1], x[6]) for x in bl]))
        if not ok: return
        c.eq(nm + ': interval of the coarse pass', None, st, [(None, bl[i][3][j], w) for i in (st1[1], fin[1]) for j, w in ((0, T0), (1, T1s))], scope='bounded', sampler=samp)
        A = lambda i: X.cvar('a%d_0' % i) / X.cvar('d%d_0' % i)
        f = cvar('bs[0]') - A(st1[0]); g = bl[st1[1]][4][0]
        c.eq(nm + ': coarse pass starts at the fine result', None, st, cpairs('bs', 0, g, f), scope='bounded', sampler=samp)
        co = f - A(st1[1])
        got = e.getc(st, cs.ptr['bs'], 0)
        matched = not X.identical([(got.re, f.re)], c.seed)[0]
        kinds.add(matched)
        it = cpairs('bs', 0, got, ex(f, co) if matched else f)
        b, d, b2, d2 = X.cvar('b%d_0' % fin[0]), X.cvar('d%d_0' % fin[0]), X.cvar('b%d_0' % fin[1]), X.cvar('d%d_0' % fin[1])
        if ds != 'RESIDUES': it += cpairs('nc', 0, e.getc(st, cs.ptr['nc'], 0), b)
        if ds != 'NORMING_CONSTANTS': it += cpairs('nc', m - 1, e.getc(st, cs.ptr['nc'], m - 1), b / ex(d, d2) if matched else b / d)
        c.eq(nm, None, st, it, scope='bounded', sampler=samp)
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    c.truth(nm + ': both matched and unmatched values occur', kinds == {True, False}, scope='bounded') or c.record(nm, 'undecided', '', 'only %s' % kinds)


def job(c, k, f, D, s):
    if c.viol: return
    {'w': lambda: weights(c, f), 'rs': lambda: resample(c, D), 'ds': lambda: down(c, D, s), 'pp': lambda: prep(c, f[0], f[1], D, s), 'pm': lambda: prepm(c, f, D, s)}[k]()


class PtrOut(Arg):
    """T** output"""
    def __init__(s, name): s.name = name
    def sym(s, e, st):
        o = st.new(8, 'arg', s.name)
        return [Ptr(o.id, 0)]
    def con(s, ev):
        s.buf = np.zeros(1, np.uint64)
        return [ct.c_void_p(s.buf.ctypes.data)]
    def out(s):
        """address of the allocated block"""
        return int(s.buf[0])


def fetch(o, k, n):
    """n complex values of the block returned in output k"""
    a = o[k]
    return np.ctypeslib.as_array((ct.c_double * (2 * n)).from_address(a)).copy().view(complex) if a else None


def weights(c, n):
    v = enum('akns').get(n)
    if v is None: c.record('weights ' + n, 'undecided', '', 'name not found'); return
    cs = Case('fnft__akns_discretization_method_weights', [PtrOut('a'), PtrOut('b'), I(v)])
    nm = 'method_weights ' + n
    if n in ('ES4', 'TES4'): return
    off, rows, eps = wtab(n)
    m = len(rows); k = len(rows[0])
    wrap(cs, {'a': m * k, 'b': m})
    e, R = cs.sym(c)
    c.safety_fail(nm, cs, e)
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        pa, pb = e.load(st, cs.ptr['a'], PTR), e.load(st, cs.ptr['b'], PTR)
        it = []
        for i in range(m):
            it += cpairs('b', i, e.getc(st, pb, i), eps[i])
            for j in range(k):
                it += cpairs('a', i * k + j, e.getc(st, pa, i * k + j), rows[i][j])
        c.eq(nm, cs, st, it, tol=1e-12)
        c.truth(nm + ' leaves only the two results allocated', len(st.live_heap()) == 2) or c.fail_concrete(nm + ' memory', None, None, '')


def wrap(cs, sizes):
    """after a concrete run replace returned pointers by their contents"""
    orig = cs.conc
    def conc(a, variant='real'):
        o = orig(a, variant)
        for k, n in sizes.items():
            nn = n(o) if callable(n) else n
            o[k] = fetch(o, k, nn) if o['ret'] == 0 else None
        return o
    cs.conc = conc
    return cs


def resample_spec(D, eps, q, delta):
    X_ = []
    for k in range(D):
        s = C.of(0)
        for j in range(D):
            s = s + q[j] * omega(D, j * k, -1)
        f = k if k < (D + 1) // 2 else k - D
        if f:
            s = s * cexp(IU * C(mul(mul(const(Fraction(2 * f, D)), var('pi')), div(delta, eps))))
        X_.append(s)
    return [sum((X_[k] * omega(D, j * k, 1) for k in range(D)), C.of(0)) * C.of(Fraction(1, D)) for j in range(D)]


def resample(c, D):
    cs = Case('fnft__misc_resample', [U(D), F('eps'), Arr('q', D), F('delta'), Arr('o', D, role='out')])
    nm = 'misc_resample D=%d' % D
    e, R = cs.sym(c, contracts=FFT)
    c.safety_fail(nm, cs, e)
    w = resample_spec(D, var('eps'), [cvar('q[%d]' % k) for k in range(D)], var('delta'))
    for st in R:
        if st.retval != 0 and zero_eps(st): continue
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        it = []
        for k in range(D):
            it += cpairs('o', k, e.getc(st, cs.ptr['o'], k), w[k])
        c.eq(nm, cs, st, it, scope='bounded')
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))


def zero_eps(st):
    return any(p[0] == 'f' and set(p[1]) <= {'='} for p in st.path)


def down(c, D, ds):
    nsk, w = subs(D, ds)
    cs = Case('fnft__misc_downsample', [U(D), Arr('q', D), Arr('s', 1, 'u', 'io', init=[ds]), PtrOut('o'), Arr('fl', 2, 'u', 'out')])
    wrap(cs, {'o': w})
    nm = 'misc_downsample D=%d Dsub=%d' % (D, ds)
    e, R = cs.sym(c)
    c.safety_fail(nm, cs, e)
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        sizes(c, nm, cs, e, st, w, nsk)
        p = e.load(st, cs.ptr['o'], PTR)
        it = []
        for k in range(w):
            it += cpairs('o', k, e.getc(st, p, k), cvar('q[%d]' % (k * nsk)))
        c.eq(nm, cs, st, it, scope='bounded')


def sizes(c, nm, cs, e, st, w, nsk):
    g = (e.getu(st, cs.ptr['s']), e.getu(st, cs.ptr['fl'], 0), e.getu(st, cs.ptr['fl'], 1))
    if g != (w, 0, (w - 1) * nsk):
        c.fail_concrete(nm + ' sizes', cs, lambda o: (int(o['s'][0]), int(o['fl'][0]), int(o['fl'][1])) != (w, 0, (w - 1) * nsk), 'samples, first, last = %s, contract %s' % (g, (w, 0, (w - 1) * nsk)))
    else:
        c.truth(nm + ' sizes', True, scope='bounded')


def prep_spec(fam, n, D, ds, q, eps, kappa):
    nsk, w = subs(D, ds)
    rq = (lambda z: C(mul(const(-kappa), z.re), mul(const(kappa), z.im))) if fam == 'nse' else (lambda z: C.of(-1))
    Q, R = [], []
    if n in ('ES4', 'TES4'):
        h = mul(const(nsk), eps)
        s = [q[i * nsk] for i in range(w)]
        g = lambda i: s[i] if 0 <= i < w else C.of(0)
        for i in range(w):
            d1 = (g(i + 1) - g(i - 1)) / C(mul(const(2), h)); d2 = (g(i + 1) - C.of(2) * g(i) + g(i - 1)) / C(mul(h, h))
            Q += [s[i], d1, d2]
            if fam == 'nse': R += [rq(s[i]), rq(d1), rq(d2)]
            else: R += [C.of(-1), C.of(0), C.of(0)]
        return Q, R
    off, rows, _ = wtab(n)
    nodes = [q if o is ZERO or o == ZERO else resample_spec(D, eps, q, mul(mul(const(nsk), eps), o)) for o in off]
    for i in range(w):
        for row in rows:
            z = C.of(0); r = C.of(0)
            for a, b in zip(row, nodes):
                z = z + a * b[i * nsk]; r = r + a * rq(b[i * nsk])
            Q.append(z); R.append(r)
    return Q, R


def prep(c, fam, n, D, ds):
    u = ups(n); nsk, w = subs(D, ds)
    for van in (('', '_VANILLA') if fam == 'kdv' else ('',)):
        v = enum(fam).get(n + van)
        if v is None: continue
        for kappa in ((1, -1) if fam == 'nse' and D <= 4 else (1,)):
            q = Arr('q', D, init=None if fam == 'nse' else [C(var('q[%d]' % k)) for k in range(D)])
            cs = Case(PRE[fam] + '_preprocess_signal', [U(D), q, F('eps'), I(kappa), Arr('s', 1, 'u', 'io', init=[ds]), PtrOut('p'), PtrOut('r'), Arr('fl', 2, 'u', 'out'), I(v)])
            wrap(cs, {'p': w * u, 'r': w * u})
            nm = '%s preprocess %s D=%d Dsub=%d kappa=%d' % (fam, n + van, D, ds, kappa)
            e, R = cs.sym(c, contracts=FFT)
            c.safety_fail(nm, cs, e)
            qs = [cvar('q[%d]' % k) if fam == 'nse' else C(var('q[%d]' % k)) for k in range(D)]
            Q, Rr = prep_spec(fam, n, D, ds, qs, var('eps'), kappa)
            ok = False
            for st in R:
                if st.retval != 0 and any(p[0] == 'f' for p in st.path) and not ok and neg_eps(e, st): continue
                if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
                ok = True
                sizes(c, nm, cs, e, st, w, nsk)
                p, r = e.load(st, cs.ptr['p'], PTR), e.load(st, cs.ptr['r'], PTR)
                it = []
                for k in range(w * u):
                    it += cpairs('p', k, e.getc(st, p, k), Q[k])
                    # for the vanilla/non-vanilla KdV problem r (or q, when flipped) is the constant function
                    it += cpairs('r', k, e.getc(st, r, k), Rr[k])
                c.eq(nm, cs, st, it, scope='bounded', tol=1e-11, sampler=lambda kk, rng: mpf(rng.uniform(.1, .6)) if kk == 'eps' else mpf(rng.uniform(-1.2, 1.2)))
                c.truth(nm + ' leaves only the two results allocated', len(st.live_heap()) == 2, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str([o.name for o in st.live_heap()]))


def neg_eps(e, st):
    return not (e.frel(st, var('eps'), ZERO) & {'>'})


def prepm_spec(n, D, ds, q, eps):
    nsk, w = subs(D, ds)
    s = [q[i * nsk] for i in range(w)]
    if MUPS.get(n, 1) == 1: return s
    s3 = fn('sqrt', const(3))
    c1 = resample_spec(w, ONE, s, add(const(Fraction(1, 2)), mul(const(Fraction(-1, 6)), s3)))
    c2 = resample_spec(w, ONE, s, add(const(Fraction(1, 2)), mul(const(Fraction(1, 6)), s3)))
    a1 = C(add(const(Fraction(1, 4)), mul(const(Fraction(1, 6)), s3))); a2 = C(add(const(Fraction(1, 4)), mul(const(Fraction(-1, 6)), s3)))
    out = []
    for i in range(w): out += [a1 * c1[i] + a2 * c2[i], a2 * c1[i] + a1 * c2[i]]
    return out


def prepm(c, n, D, ds):
    u = MUPS.get(n, 1); nsk, w = subs(D, ds)
    v = enum('manakov').get(n)
    if v is None: return
    cs = Case('fnft__manakov_discretization_preprocess_signal', [U(D), Arr('q', D), Arr('q2', D), F('eps'), Arr('s', 1, 'u', 'io', init=[ds]), PtrOut('p'), PtrOut('r'), Arr('fl', 2, 'u', 'out'), I(v)])
    wrap(cs, {'p': w * u, 'r': w * u})
    nm = 'manakov preprocess %s D=%d Dsub=%d' % (n, D, ds)
    e, R = cs.sym(c, contracts=FFT)
    c.safety_fail(nm, cs, e)
    A = prepm_spec(n, D, ds, [cvar('q[%d]' % k) for k in range(D)], var('eps')); B = prepm_spec(n, D, ds, [cvar('q2[%d]' % k) for k in range(D)], var('eps'))
    for st in R:
        if st.retval != 0 and neg_eps(e, st): continue
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        sizes(c, nm, cs, e, st, w, nsk)
        p, r = e.load(st, cs.ptr['p'], PTR), e.load(st, cs.ptr['r'], PTR)
        it = []
        for k in range(w * u):
            it += cpairs('p', k, e.getc(st, p, k), A[k]) + cpairs('r', k, e.getc(st, r, k), B[k])
        c.eq(nm, cs, st, it, scope='bounded', tol=1e-11, sampler=lambda kk, rng: mpf(rng.uniform(.1, .6)) if kk == 'eps' else mpf(rng.uniform(-1.2, 1.2)))
        c.truth(nm + ' leaves only the two results allocated', len(st.live_heap()) == 2, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str([o.name for o in st.live_heap()]))


from ir import PTR


def nprepm(n, D, ds, q):
    nsk, w = subs(D, ds); s = np.asarray(q)[::nsk][:w]
    if MUPS.get(n, 1) == 1: return s, w, nsk
    from api import nresample
    r = math.sqrt(3)
    c1, c2 = nresample(s, 1.0, .5 - r / 6), nresample(s, 1.0, .5 + r / 6)
    a1, a2 = .25 + r / 6, .25 - r / 6
    return np.stack([a1 * c1 + a2 * c2, a2 * c1 + a1 * c2], 1).reshape(-1), w, nsk


def battery(c):
    from api import nprep, nresample, nse_ab, nsev_case, RawArr
    from cp04 import nwave
    from cp11 import newton, base
    rng = np.random.default_rng(c.seed + 22)
    items = []
    cr = lambda n: rng.normal(size=n) + 1j * rng.normal(size=n)
    close = lambda g, w, t=1e-9: g is not None and len(g) == len(w) and np.all(np.abs(g - w) <= t * (1 + np.abs(w).max()))
    for D in (2, 3, 8, 17, 64, 100, 243):
        q = cr(D); eps = float(rng.uniform(.05, .5)); dl = float(rng.uniform(-1, 1)) * eps
        cs = Case('fnft__misc_resample', [U(D), F(eps), RawArr('q', q), F(dl), RawArr('o', np.zeros(D, complex), 'out')])
        items.append(('misc_resample D=%d executed' % D, cs, lambda o, w=nresample(q, eps, dl): None if o['ret'] == 0 and close(o['o'], w) else 'returned %d, %s instead of %s' % (o['ret'], o['o'][:4], w[:4]), dict(D=D, eps=eps, delta=dl, q=[str(x) for x in q[:32]])))
    for fam in ('nse', 'kdv'):
        for n in ALL:
            for van in (('', '_VANILLA') if fam == 'kdv' else ('',)):
                v = enum(fam).get(n + van)
                if v is None: continue
                for D, ds in ((2, 2), (8, 8), (64, 20), (33, 11), (100, 37), (50, 49), (31, 2)):
                    if van and D != 33: continue
                    q = cr(D) if fam == 'nse' else rng.normal(size=D) + 0j; eps = float(rng.uniform(.05, .5)); kap = int(rng.choice((-1, 1)))
                    Q, R, w, nsk = nprep(fam, n, q, ds, eps, kap); u = ups(n)
                    cs = Case(PRE[fam] + '_preprocess_signal', [U(D), RawArr('q', q), F(eps), I(kap), RawArr('s', np.array([ds], np.uint64), 'io'), PtrOut('p'), PtrOut('r'), RawArr('fl', np.zeros(2, np.uint64), 'out'), I(v)])
                    wrap(cs, {'p': w * u, 'r': w * u})
                    def judge(o, Q=Q, R=R, w=w, nsk=nsk):
                        if o['ret'] != 0: return 'returned %d' % o['ret']
                        g = (int(o['s'][0]), int(o['fl'][0]), int(o['fl'][1]))
                        if g != (w, 0, (w - 1) * nsk): return 'samples, first, last = %s instead of %s' % (g, (w, 0, (w - 1) * nsk))
                        if not close(o['p'], Q): return 'effective samples q %s instead of %s' % (o['p'][:6], Q[:6])
                        if not close(o['r'], R): return 'effective samples r %s instead of %s' % (o['r'][:6], R[:6])
                    items.append(('%s preprocess %s D=%d Dsub=%d executed' % (fam, n + van, D, ds), cs, judge, dict(D=D, Dsub=ds, eps=eps, kappa=kap, q=[str(x) for x in q[:32]])))
    for n in list(MDEG) + ['BO', 'CF4_2']:
        v = enum('manakov').get(n)
        if v is None: continue
        for D, ds in ((2, 2), (8, 8), (64, 20), (33, 11), (50, 49)):
            q, q2 = cr(D), cr(D); u = MUPS.get(n, 1)
            Q, w, nsk = nprepm(n, D, ds, q); R = nprepm(n, D, ds, q2)[0]
            if w < 2: continue
            cs = Case('fnft__manakov_discretization_preprocess_signal', [U(D), RawArr('q', q), RawArr('q2', q2), F(.1), RawArr('s', np.array([ds], np.uint64), 'io'), PtrOut('p'), PtrOut('r'), RawArr('fl', np.zeros(2, np.uint64), 'out'), I(v)])
            wrap(cs, {'p': w * u, 'r': w * u})
            def judge(o, Q=Q, R=R, w=w, nsk=nsk):
                if o['ret'] != 0: return 'returned %d' % o['ret']
                g = (int(o['s'][0]), int(o['fl'][0]), int(o['fl'][1]))
                if g != (w, 0, (w - 1) * nsk): return 'samples, first, last = %s instead of %s' % (g, (w, 0, (w - 1) * nsk))
                if not close(o['p'], Q) or not close(o['r'], R): return 'effective samples %s instead of %s' % (o['p'][:6], Q[:6])
            items.append(('manakov preprocess %s D=%d Dsub=%d executed' % (n, D, ds), cs, judge, dict(D=D, Dsub=ds, q=[str(x) for x in q[:32]])))
    # extrapolation on the compiled transform
    for n in ALL:
        if DEG.get(n, 0) > 12: continue
        for D, kap, ct_ in ((32, 1, 'BOTH'), (21, -1, 'REFLECTION_COEFFICIENT'), (6, -1, 'AB'), (5, 1, 'BOTH')):
            T = (-5.0, 6.0) if D > 20 else (-1.0, 1.0); t = np.linspace(*T, D); M = 9
            q = .8 / np.cosh(t) * np.exp(.5j * t) + .02 * cr(D); e = (T[1] - T[0]) / (D - 1)
            lim = .9 * np.pi / (2 * e * subs(D, D // 2)[0])
            XI = (-1.7 * lim, 1.3 * lim)
            cs = nsev_case(q, T, M, XI, kappa=kap, discretization=n, contspec_type=ct_, richardson_extrapolation_flag=1)
            lam = np.linspace(*XI, M)
            f = nse_ab(n, q, T, kap, lam); g = nse_ab(n, q, T, kap, lam, D // 2)
            k_ = (g[3] / f[3]) ** order(n)
            want = []
            for a, b in zip(f[:3], g[:3]):
                x = (k_ * a - b) / (k_ - 1); want.append(np.where(np.abs(lam) < lim, x, a))
            want = {'BOTH': want, 'AB': want[1:], 'REFLECTION_COEFFICIENT': want[:1]}[ct_]
            def judge(o, want=want, M=M, lam=lam):
                if o['ret'] != 0: return 'returned %d' % o['ret']
                if not o['guards']: return 'memory outside the buffers or an input was modified'
                for i, w in enumerate(want):
                    d = np.abs(o['cs'][i * M:(i + 1) * M] - w) / (1 + np.abs(w).max())
                    if not np.all(d < 1e-7): return 'part %d at xi=%s is %s, extrapolation of the two discretized spectra gives %s' % (i, lam[int(np.argmax(d))], o['cs'][i * M + int(np.argmax(d))], w[int(np.argmax(d))])
            items.append(('Richardson contspec %s D=%d kappa=%d %s executed' % (n, D, kap, ct_), cs, judge, dict(discretization=n, D=D, T=T, XI=XI, q=[str(x) for x in q])))
    for n in ALL:
        for ds in ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'):
            D = 60; T = (-9.0, 10.0); t = np.linspace(*T, D); e = (T[1] - T[0]) / (D - 1)
            q = 2.3 / np.cosh(t) * np.exp(-.4j * t) if n != '2SPLIT2_MODAL' else 2.2 / np.cosh(t)
            gs = np.array([.2 + 1.8j, .2 + .8j]) if n != '2SPLIT2_MODAL' else np.array([1.7j, .7j])
            cs = nsev_case(q, T, K=2, bs=gs, contspec=False, discretization=n, bound_state_localization='NEWTON', bound_state_filtering='BASIC', discspec_type=ds, richardson_extrapolation_flag=1, niter=40)
            def judge(o, n=n, ds=ds, q=q, T=T, D=D, e=e, gs=gs):
                if o['ret'] != 0: return 'returned %d' % o['ret']
                if not o['guards']: return 'memory outside the buffers or an input was modified'
                if int(o['K'][0]) != 2: return '%d bound states instead of 2' % o['K'][0]
                qf, rf, w, nsk = nprep('nse', n, q, D, e); qc, rc, wc, nc = nprep('nse', n, q, D // 2, e); T1 = T[0] + (wc - 1) * nc * e
                k_ = nc ** order(n); b = base(n)
                for i, z0 in enumerate(gs):
                    zf = newton(b, qf, rf, e, z0); zc = newton(b, qc, rc, nc * e, zf)
                    (a0, ad, lg), cand = nwave('NSE', b, 0, qf, rf, zf, T[0], T[1], D); (_, adc, lgc), _ = nwave('NSE', b, 0, qc, rc, zc, T[0], T1, wc)
                    mn = min(x[0] for x in cand); bs_ = [x[1] * np.exp(x[2]) for x in cand if x[0] <= mn + 1e-5]
                    ap, apc = ad * np.exp(lg), adc * np.exp(lgc)
                    ex = abs(zf - zc) / abs(zf) < e * .98; no = abs(zf - zc) / abs(zf) > e * 1.02
                    if not ex and not no: continue
                    z = (k_ * zf - zc) / (k_ - 1) if ex else zf; a = (k_ * ap - apc) / (k_ - 1) if ex else ap
                    j = int(np.argmin(np.abs(o['bs'] - z)))
                    if not abs(o['bs'][j] - z) < 1e-7: return 'bound state %s, extrapolation of the two discretized values %s and %s gives %s' % (o['bs'][j], zf, zc, z)
                    if ds != 'RESIDUES' and not any(abs(o['nc'][j] - x) < 1e-4 * abs(x) for x in bs_): return 'norming constant %s instead of %s' % (o['nc'][j], bs_[0])
                    if ds != 'NORMING_CONSTANTS' and not any(abs(o['nc'][j + (2 if ds == 'BOTH' else 0)] - x / a) < 1e-4 * abs(x / a) for x in bs_): return 'residue %s instead of %s' % (o['nc'][j + (2 if ds == 'BOTH' else 0)], bs_[0] / a)
            if ds == 'RESIDUES' and n in ('BO', '2SPLIT4B', 'CF4_2', 'ES4', '2SPLIT2A', '4SPLIT4B', '2SPLIT3S'): items += dropped(n, q, T, gs)
            items.append(('Richardson bound states %s %s executed' % (n, ds), cs, judge, dict(discretization=n, D=D, T=T, q=[str(x) for x in q])))
    items += kdvrich(rng)
    c.battery(items)


def kdvrich(rng):
    from api import kdv_ab, kdvv_case, nprep
    from cp12 import full, signal
    from cp11 import base
    from cp04 import nwave
    items = []
    for n in ALL:
        for van in (0, 1):
            if full(n, van) not in enum('kdv') or DEG.get(n, 0) > 24: continue
            for D, ct_ in ((32, 'BOTH'), (21, 'REFLECTION_COEFFICIENT'), (6, 'AB')):
                T = (-5.0, 6.0) if D > 20 else (-1.0, 1.0); t = np.linspace(*T, D); M = 8
                q = .8 / np.cosh(t) ** 2 + .02 * rng.normal(size=D); e = (T[1] - T[0]) / (D - 1)
                if n == '2SPLIT2_MODAL': q = q * .5
                lim = .9 * np.pi / (2 * e * subs(D, D // 2)[0])
                XI = (-1.7 * lim, 1.37 * lim); lam = np.linspace(*XI, M)
                cs = kdvv_case(q, T, M, XI, discretization=full(n, van), contspec_type=ct_, richardson_extrapolation_flag=1)
                def judge(o, n=n, van=van, q=q, T=T, lam=lam, lim=lim, M=M, D=D, ct_=ct_):
                    if o['ret'] != 0: return 'returned %d' % o['ret']
                    if not o['guards']: return 'memory outside the buffers or an input was modified'
                    f = kdv_ab(n, van, q, T, lam); g = kdv_ab(n, van, q, T, lam, D // 2)
                    k_ = (g[3] / f[3]) ** order(n)
                    want = [np.where(np.abs(lam) < lim, (k_ * a - b) / (k_ - 1), a) for a, b in zip(f[:3], g[:3])]
                    want = {'BOTH': want, 'AB': want[1:], 'REFLECTION_COEFFICIENT': want[:1]}[ct_]
                    for i, w in enumerate(want):
                        d = np.abs(o['cs'][i * M:(i + 1) * M] - w) / (1 + np.abs(w).max())
                        if not np.all(d < 1e-7): return 'part %d at xi=%s is %s, extrapolation of the two discretized spectra gives %s' % (i, lam[int(np.argmax(d))], o['cs'][i * M + int(np.argmax(d))], w[int(np.argmax(d))])
                items.append(('kdvv Richardson contspec %s D=%d %s executed' % (full(n, van), D, ct_), cs, judge, dict(discretization=full(n, van), D=D, T=T, XI=XI, q=[str(x) for x in q])))
            b = base(n)
            if ups(b) > 2 and b not in ('ES4', 'TES4'): continue
            for ds in ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'):
                D = 60; T = (-9.0, 10.0); t = np.linspace(*T, D); e = (T[1] - T[0]) / (D - 1)
                q = 5.5 / np.cosh(t) ** 2; gs = np.array([1.8j, .9j])
                cs = kdvv_case(q, T, K=2, bs=gs, contspec=False, discretization=full(n, van), bound_state_localization='NEWTON', discspec_type=ds, richardson_extrapolation_flag=1, niter=40)
                def judge(o, n=n, b=b, van=van, ds=ds, q=q, T=T, D=D, e=e, gs=gs):
                    if o['ret'] != 0: return 'returned %d' % o['ret']
                    if not o['guards']: return 'memory outside the buffers or an input was modified'
                    if int(o['K'][0]) != 2: return '%d bound states instead of 2' % o['K'][0]
                    qf, rf, w, nsk = nprep('kdv', n, q, D, e); qc, rc, wc, nc = nprep('kdv', n, q, D // 2, e); T1 = T[0] + (wc - 1) * nc * e
                    def wave(q_, r_, z, t1, d): return nwave('KdV', b, van, *((q_, r_) if van else (r_, q_)), z, T[0], t1, d)
                    def root(q_, r_, z, t1, d):
                        for _ in range(30):
                            (a, ad, lg), _c = wave(q_, r_, z, t1, d)
                            st = a.real / (1j * ad.imag); z = z - st
                            if abs(st) < 1e-12: break
                        return z
                    k_ = nc ** order(n)
                    for i, z0 in enumerate(gs):
                        zf = root(qf, rf, z0, T[1], D); zc = root(qc, rc, zf, T1, wc)
                        (a0, ad, lg), cand = wave(qf, rf, zf, T[1], D); (_, adc, lgc), _ = wave(qc, rc, zc, T1, wc)
                        mn = min(x[0] for x in cand); bs_ = [x[1] * np.exp(x[2]) for x in cand if x[0] <= mn + 1e-5]
                        ap, apc = 1j * (ad * np.exp(lg)).imag, 1j * (adc * np.exp(lgc)).imag
                        ex = abs(zf - zc) / abs(zf) < e * .98; no = abs(zf - zc) / abs(zf) > e * 1.02
                        if not ex and not no: continue
                        z = (k_ * zf - zc) / (k_ - 1) if ex else zf; a = (k_ * ap - apc) / (k_ - 1) if ex else ap
                        j = int(np.argmin(np.abs(o['bs'] - z)))
                        if not abs(o['bs'][j] - z) < 1e-7: return 'bound state %s, extrapolation of the two discretized values %s and %s gives %s' % (o['bs'][j], zf, zc, z)
                        if ds != 'RESIDUES' and not any(abs(o['nc'][j] - x) < 1e-4 * abs(x) for x in bs_): return 'norming constant %s instead of %s' % (o['nc'][j], bs_[0])
                        if ds != 'NORMING_CONSTANTS' and not any(abs(o['nc'][j + (2 if ds == 'BOTH' else 0)] - x / a) < 1e-4 * abs(x / a) for x in bs_): return 'residue %s instead of %s' % (o['nc'][j + (2 if ds == 'BOTH' else 0)], bs_[0] / a)
                items.append(('kdvv Richardson bound states %s %s executed' % (full(n, van), ds), cs, judge, dict(discretization=full(n, van), D=D, T=T, q=[str(x) for x in q])))
    return items


def dropped(n, q, T, gs):
    """a bound state that the filter removes in the coarse pass only: the other one must still be combined with its own counterpart"""
    from api import nprep, nsev_case
    from cp11 import newton, base
    D = len(q); e = (T[1] - T[0]) / (D - 1); b = base(n)
    qf, rf, *_ = nprep('nse', n, q, D, e); qc, rc, wc, nc = nprep('nse', n, q, D // 2, e)
    q = q / np.abs(q).max() * 3.3; gs = [gs[0].real + 1j * y for y in (2.8, 1.8, .8)]
    qf, rf, *_ = nprep('nse', n, q, D, e); qc, rc, wc, nc = nprep('nse', n, q, D // 2, e)
    zf = [newton(b, qf, rf, e, z) for z in gs]
    if any(z is None for z in zf): return []
    zc = [newton(b, qc, rc, nc * e, z) for z in zf]
    if any(z is None for z in zc) or any(abs(x - y) > .98 * abs(x) * e for x, y in zip(zf[1:], zc[1:])): return []
    out = []
    for lo in (0, 1):
        # drop the outermost one (index 0) through the upper bound, or the lowest one through the lower bound
        a = 2 if lo else 0; mid = (zf[a].imag + zc[a].imag) / 2
        if abs(zf[a].imag - zc[a].imag) < 1e-6 or (zc[a].imag < zf[a].imag) != bool(lo): continue
        bx = [-9.0, 9.0, mid if lo else .1, 9.0 if lo else mid]
        od = [a] + [i for i in range(3) if i != a]; k_ = nc ** order(n)
        if not all(bx[2] < z.imag < bx[3] for i in od[1:] for z in (zf[i], zc[i])): continue
        ok = lambda i: abs(zf[i] - zc[i]) < .98 * e * abs(zf[i])
        if not all(ok(i) for i in od[1:]): continue
        want = [zf[a]] + [(k_ * zf[i] - zc[i]) / (k_ - 1) for i in od[1:]]
        cs = nsev_case(q, T, K=3, bs=np.array([zf[i] for i in od]), contspec=False, discretization=n, bound_state_localization='NEWTON', bound_state_filtering='MANUAL', bounding_box=bx, discspec_type='BOTH', richardson_extrapolation_flag=1, niter=40)
        def judge(o, want=want):
            if o['ret'] != 0: return 'returned %d' % o['ret']
            if int(o['K'][0]) != 3: return '%d bound states instead of 3' % o['K'][0]
            for i in range(3):
                if not abs(o['bs'][i] - want[i]) < 1e-7: return 'bound states %s instead of %s (the first one has no coarse counterpart)' % (o['bs'], want)
        out.append(('Richardson bound states %s, one filtered in the coarse pass executed' % n, cs, judge, dict(discretization=n, D=D, T=T, box=bx, q=[str(x) for x in q])))
    return out
