"""P14: main and auxiliary spectrum of the periodic Schroedinger transform."""
from pubsym import *
from schemes import factor2, topoly
from specs import nexp
from cp22 import subs
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of fnft_nsep over the contracts of preprocessing (P22), scattering (P02, P03, P04), root search (P24) and filters (P23); compiled transform against the definition'
NOTE = 'Polynomial coefficients, monodromy matrices, roots, guesses, interval, phase shift and box symbolic; number of samples, roots and Newton steps bounded. The compiled transform is compared with an independent product of matrix exponentials: a zero of the monodromy function must lie next to every reported point (winding number).'
SOURCES = ['fnft_nsep.c', 'nse_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c']
FAST = [n for n in ALL if n in DEG]
SLOW = {1: 'BO', 2: 'CF4_2'}
HALF = const(Fraction(1, 2))


# ------------------------------------------------------------------ contracts of the inner steps
def pprep(e, st, a):
    D, q = a[0], a[1]
    st.ghost['pq'] = st.ghost.get('pq', ()) + ((D, tuple(carr(e, st, q, D))),)
    return prep_contract('nse')(e, st, a)


def pfs(nz):
    """nse_fscatter for signals with r = -kappa conj(q): H22 and H21 are the reversed conjugates of H11 and H12 [P02, lemma 'symmetry']"""
    def f(e, st, a):
        D, q, r, eps, res, dp, W, disc = a
        deg = DEG.get(nameof('nse', disc), 0)
        if not deg: return (-2) % (1 << 32)
        L = deg * D + 1
        qs = carr(e, st, q, D) + carr(e, st, r, D); need(e, st, qs, 'fscatter')
        tag = tagof(qs)
        for k in range(L):
            for i in (0, 1): e.putc(st, res, i * L + k, Hc(tag, i, k, L, nz))
            for i, j in ((3, 0), (2, 1)):
                x = Hc(tag, j, L - 1 - k, L, nz)
                e.putc(st, res, i * L + k, C(x.re, X.neg(x.im)) if i == 3 else C(mul(var('kap'), x.re), X.neg(mul(var('kap'), x.im))))
        e.store(st, dp, deg * D, I64)
        if W != 0: e.store(st, W, e.newint(st, 'W' + tag, -1000, 1000), I32)
        st.ghost['fsc'] = st.ghost.get('fsc', ()) + ((tag, D, eps, disc, W != 0, deg * D, ids(qs)),)
        return 0
    return f


def Hc(tag, i, k, L, nz):
    return X.cvar('H%s_%d_%d' % (tag, i, k)) if nz is None or k in (0, L - 1, (L - 1) // 2) or k % nz == 1 else C.of(0)


def proots(e, st, a):
    """poly_roots_fasteigen(deg, p, roots): all roots, external solver (trusted)"""
    deg, p, out = a
    co = carr(e, st, p, deg + 1); need(e, st, co, 'poly_roots_fasteigen')
    i = len(st.ghost.get('rts', ()))
    for k in range(deg): e.putc(st, out, k, X.cvar('z%d_%d' % (i, k)))
    st.ghost['rts'] = st.ghost.get('rts', ()) + (('e', tuple(co), deg, None),)
    return 0


def pgrid(e, st, a):
    """poly_roots_fftgridsearch(deg, p, M*, PHI, roots): some roots on the arc [P24]"""
    deg, p, pm, phi, out = a
    co = carr(e, st, p, deg + 1); need(e, st, co, 'poly_roots_fftgridsearch')
    M = e.load(st, pm, I64)
    if not isinstance(M, int) or M < deg: raise Unsupported('grid size')
    i = len(st.ghost.get('rts', ()))
    e.putc(st, out, M - 1, C(X.UNDEF, X.UNDEF))
    n = min(deg, 2)
    for k in range(n): e.putc(st, out, k, X.cvar('z%d_%d' % (i, k)))
    e.store(st, pm, n, I64)
    st.ghost['rts'] = st.ghost.get('rts', ()) + (('g', tuple(co), n, (e.getd(st, phi, 0), e.getd(st, phi, 1))),)
    return 0


def pfilt(kind, few):
    """misc_filter / misc_filter_nonreal: keep a subset, order preserved [P23]"""
    def f(e, st, a):
        pn, v = a[0], a[1]
        n = e.load(st, pn, I64)
        if not isinstance(n, int): raise Unsupported('symbolic list length')
        vs = carr(e, st, v, n); need(e, st, vs, 'filter')
        if kind == 'f':
            if a[2] != 0: raise Unsupported('companion')
            b = tuple(e.getd(st, a[3], k) for k in range(4))
        else: b = a[2]
        l = []
        alts = [tuple(range(n)), tuple(range(n))[-1:]] if few else [tuple(range(n)), tuple(range(n))[-1:], ()]
        if few == 'last': alts = alts[1:2] or alts
        alts = list(dict.fromkeys(alts))
        co = st.ghost['rts'][-1][1][0].re if st.ghost.get('rts') else None
        if few == 'aux' and co is not None and not (co.op == 'v' and '_1_' in co.a[0]): alts = alts[:1]   # branch on the auxiliary points only
        for j, keep in enumerate(alts):
            s = st.fork() if j + 1 < len(alts) else st
            for i, k in enumerate(keep): e.putc(s, v, i, vs[k])
            for i in range(len(keep), n): e.putc(s, v, i, C(X.UNDEF, X.UNDEF))
            e.store(s, pn, len(keep), I64)
            s.ghost['flt'] = s.ghost.get('flt', ()) + ((kind, tuple(vs), b, keep),)
            l.append((s, 0))
        return Alts(l)
    return f


def pmat(e, st, a):
    """nse_scatter_matrix with derivatives: monodromy matrix and its derivative, scaled by 2^-W [P03, P04]"""
    D, q, r, eps, kappa, K, lam, res, W, disc, der = a
    if not isinstance(K, int): raise Unsupported('symbolic list length')
    qs = carr(e, st, q, D) + carr(e, st, r, D); need(e, st, qs, 'scatter_matrix')
    ls = carr(e, st, lam, K); need(e, st, ls, 'scatter_matrix')
    w = 8 if der else 4
    for k in range(K):
        i = len(st.ghost.get('mat', ()))
        for j in range(w): e.putc(st, res, w * k + j, X.cvar('m%d_%d' % (i, j)))
        if W != 0: e.store(st, Ptr(W.o, W.off + 4 * k), e.newint(st, 'V%d' % i, -1000, 1000), I32)
        st.ghost['mat'] = st.ghost.get('mat', ()) + ((tagof(qs), D, eps, kappa, disc, ids(qs), ls[k], W != 0),)
    return 0


def con(nz, few=False):
    return {'fnft__nse_discretization_preprocess_signal': pprep, 'fnft__nse_fscatter': pfs(nz), 'fnft__poly_roots_fasteigen': proots, 'fnft__poly_roots_fftgridsearch': pgrid,
            'fnft__misc_filter': pfilt('f', few), 'fnft__misc_filter_nonreal': pfilt('n', few), 'fnft__nse_scatter_matrix': pmat}


# ------------------------------------------------------------------ symbolic instances
class FPR:
    """recognises equal terms by their values at a random field point"""
    def __init__(s, c): s.E = X.FpEval((c.seed, 14)); s.m = {}
    def __call__(s, z):
        k = (z.re.id, z.im.id)
        if k not in s.m:
            try: s.m[k] = tuple(s.E.ev([z.re, z.im]))
            except (X.Opaque, X.Retry): s.m[k] = ('id',) + k
        return s.m[k]


def pow2(nm, inv=False):
    from engine import _pow
    return _pow(const(2), X.neg(var('int:' + nm)) if inv else var('int:' + nm))


def check(c):
    warm('nsep')
    jobs = [(lemma, n) for n in FAST]
    for n in FAST:
        small = DEG[n] * ups(n) <= 4
        for loc in ('SUBSAMPLE_AND_REFINE', 'GRIDSEARCH'):
            for filt in (('MANUAL', 'AUTO') if small else ('MANUAL',)):
                for what in ('m', 'ma'):
                    jobs.append((spec, n, loc, filt, what, 1, 1, 99, 99))
            if small:
                jobs += [(spec, n, loc, 'MANUAL', 'm', -1, 0, 3, 9), (spec, n, loc, 'MANUAL', 'ma', -1, 0, 9, 1), (spec, n, loc, 'NONE', 'ma', 1, 1, 99, 99), (spec, n, loc, 'NONE', 'ma', -1, 0, 1, 1), (spec, n, loc, 'NONE', 'ma', -1, 1, 0, 0)]
        if DEG[n] * ups(n) == 1:
            jobs += [(spec, n, 'SUBSAMPLE_AND_REFINE', 'NONE', w, 1, nf, 99, 99, 1) for w in 'm-a' for nf in (0, 1)]
        elif small: jobs += [(spec, n, 'MIXED', 'NONE', w, 1, 1, 99, 99, 1) for w in 'm-']
        if small:
            jobs += [(spec, n, 'MIXED', 'NONE', w, k, 1, 99, 99) for w in ('m', 'a') for k in (1, -1)] + [(spec, n, 'MIXED', 'MANUAL', w, 1, 1, cap, cap) for w in ('m', 'ma') for cap in (99, 3)]
    for n in [x for x in ALL if x not in DEG]:
        for nev in (1, 2, 4):
            for nf in (0, 1):
                jobs += [(newt, n, 'm', nev, nf, 1, 1, 'NONE'), (newt, n, 'a', nev, nf, -1, 1, 'NONE')]
        jobs += [(newt, n, 'm', 1, 1, 1, 2, 'NONE'), (newt, n, 'm', 1, 1, -1, 1, 'MANUAL'), (newt, n, 'm', 1, 1, 1, 3, 'NONE')]
    c.parallel(disp, jobs)
    battery(c)


def disp(c, f, *a):
    if c.viol: return
    f(c, *a)


def lemma(c, n):
    """per-sample factors with r = -kappa conj(q): H22 = reversed conjugate of H11, H21 = -kappa reversed conjugate of H12 (closed under products)"""
    deg = DEG[n]
    q = cvar('q'); k = var('kap')
    r = C(X.neg(mul(k, q.re)), mul(k, q.im))
    cnt = {}
    def eB(q, r, h):
        i = cnt.setdefault(h.id, len(cnt))
        return [[C(var('co%d' % i)), q * C(var('si%d' % i))], [r * C(var('si%d' % i)), C(var('co%d' % i))]]
    F = factor2(n, q, r, var('eps'), deg, eB)
    if n == '2SPLIT2_MODAL':
        s = C(var('s')); F = [[{0: s}, {1: s * C(var('eps')) * q}], [{0: s * C(var('eps')) * r}, {1: s}]]
    P = [[topoly(x, deg) for x in row] for row in F]
    it = []
    for j in range(deg + 1):
        a, b = P[0][0][deg - j], P[0][1][deg - j]
        it += [(None, P[1][1][j].re, a.re), (None, P[1][1][j].im, X.neg(a.im)), (None, P[1][0][j].re, X.neg(mul(k, b.re))), (None, P[1][0][j].im, mul(k, b.im))]
    c.eq('symmetry of the transfer matrix %s' % n, None, None, it, sampler=samp)


def samp(k, rng):
    k = str(k)
    if k == 'T0': return mpf(rng.uniform(-2, -.5))
    if k == 'T1': return mpf(rng.uniform(.5, 2))
    if k == 'kap': return mpf(1)
    if k.startswith('int:'): return mpf(rng.randrange(-3, 4))
    if k == 'pi': return mpf(str(math.pi))
    return mpf(rng.uniform(-1.2, 1.2))


MBOX = [-1e9, 1.25e9, -1.5e9, 2e9]      # wider than the full circle
SBOX = [-.25, .5, -.75, 1.]             # arc shorter than the full circle for all sampled intervals


def box(kap): return MBOX if kap == -1 else SBOX


def outside(st, kap):
    """path on which the box of the instance is wider (small box) or narrower (wide box) than the circle: not this instance"""
    tp = fconst(2 * math.pi)
    for f in st.path:
        if f[0] == 'f' and (f[2] is tp or f[3] is tp):
            rel = set(f[1]) if f[3] is tp else {dict(zip('<>=u', '><=u'))[x] for x in f[1]}
            if '>' in rel and '<' not in rel and kap == 1: return True
            if '<' in rel and '>' not in rel and kap == -1: return True
    return False


def inst(n, loc, filt, what, kap, nf, K, M, D, **kw):
    T0, T1 = var('T0'), var('T1')
    kw = dict(discretization=n, localization=loc, filtering=filt, normalization_flag=nf, **kw)
    if filt == 'MANUAL': kw['bounding_box'] = box(kap)
    if loc != 'NEWTON': kw['Dsub'] = 2
    P = kw.get('points_per_spine', 2) if loc == 'NEWTON' else 1
    role = 'io' if loc == 'NEWTON' else 'out'
    return Case('fnft_nsep', [U(D), Arr('q', D), Arr('T', 2, 'd', init=[T0, T1]), F('ps'), Arr('K', 1, 'u', 'io', init=[K]), Arr('main', K * P, role=role) if 'm' in what else Null(),
                              Arr('M', 1, 'u', 'io', init=[M]), Arr('aux', M, role=role) if 'a' in what else Null(), Null(), I(kap), Opts('nsep', **kw)])


def common(c, nm, cs, e, st, n, D, kap, eps, sh, T0):
    """preprocessing of the signal with the phase rotation removed"""
    g = st.ghost
    for (ds, e2, k2, disc, DD, q), (_, qs) in zip(g.get('prep', ()), g.get('pq', ())):
        ok = (k2 - (1 << 32) if k2 >= 1 << 31 else k2) == kap and disc == enum('nse')[n] and DD == D and ds in (2, D)
        c.truth(nm + ': preprocessing', ok, scope='bounded') or c.fail_concrete(nm + ': preprocessing', None, None, 'other data')
        it = [(None, e2, eps)]
        for k in range(D):
            w = cvar('q[%d]' % k) * cexp(C(ZERO, mul(const(2), mul(sh, add(T0, mul(const(k), eps))))))
            it += [(None, qs[k].re, w.re), (None, qs[k].im, w.im)]
        c.eq(nm + ': signal without phase rotation, step size', None, st, it, scope='bounded', sampler=samp)
    if len(g.get('prep', ())) == 0: c.truth(nm + ': preprocessing', False); c.fail_concrete(nm + ': preprocessing', None, None, 'not called')


def spec(c, n, loc, filt, what, kap, nf, K, M, nev=0):
    T0, T1 = var('T0'), var('T1')
    u = ups(n); D = 4 if loc == 'SUBSAMPLE_AND_REFINE' else 2
    deg = DEG[n] * u * 2
    K, M = (min(K, 2 * deg * 2), min(M, 2 * deg))
    kw = dict(max_evals=nev)
    if filt == 'NONE' and loc != 'SUBSAMPLE_AND_REFINE': kw['bounding_box'] = box(kap)
    signs = (1, -1)
    if nev and what != 'a':
        signs = (1,) if what == 'm' else (-1,); what = 'm'
        kw.update(points_per_spine=1, floquet_range=[signs[0]] * 2)
    cs = inst(n, loc, filt, what, kap, nf, K, M, D, **kw)
    nm = 'fnft_nsep %s %s %s %s kappa=%d norm=%d capacities %d,%d evals %d' % (n, loc, filt, {'m': 'main', 'a': 'aux', 'ma': 'both'}[what], kap, nf, K, M, nev)
    nz = None if DEG[n] * u < 13 else 17
    e, R = cs.sym(c, contracts=con(nz, few='aux' if what == 'ma' else 'last' if nev else loc == 'MIXED' or n not in ('2SPLIT2A', '4SPLIT4B') or filt == 'AUTO'), pre=lambda e, st, cs: gt(st, T1, T0), generic='tiny' if nev else True)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D)); sh = div(var('ps'), mul(const(-2), sub(T1, T0)))
    good = 0; fp = FPR(c)
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1
        if loc[0] in 'GM' and outside(st, kap): continue
        g = st.ghost
        common(c, nm, cs, e, st, n, D, kap, eps, sh, T0)
        # polynomials handed to the root finders
        rts = g.get('rts', ()); grp = []
        for i, (kind, co, num, phi) in enumerate(rts):
            e2 = eps if kind == 'g' else mul(const(D // 2), eps); tag = 'q%d' % (2 if kind == 'e' else D)
            sc = pow2('W' + tag, True) if scaled(st, tag) else ONE
            want = {}
            L = deg + 1 if kind == 'e' else DEG[n] * u * D + 1
            for s in (1, -1):
                p = []
                for k in range(L):
                    a, b = Hc(tag, 0, k, L, nz), Hc(tag, 0, L - 1 - k, L, nz)
                    p.append(C(add(a.re, b.re), sub(a.im, b.im)))
                p[L // 2] = p[L // 2] - C(mul(const(2 * s), sc))
                want[s] = p
            want['a'] = [Hc(tag, 1, k, L, nz) for k in range(L)]
            got = tuple(fp(x) for x in co)
            m = [s for s in want if tuple(fp(x) for x in want[s]) == got]
            if not m:
                best = max(want, key=lambda s: sum(fp(x) == y for x, y in zip(want[s], got)) if len(want[s]) == len(got) else -1)
                if len(want[best]) != len(co): c.truth(nm + ': polynomial', False); c.fail_concrete(nm + ': polynomial', None, None, 'degree %d' % (len(co) - 1)); return
                c.eq(nm + ': polynomial for %s' % (best,), None, st, [y for x, w in zip(co, want[best]) for y in ((None, x.re, w.re), (None, x.im, w.im))], scope='bounded', sampler=samp)
                if c.viol: return
                m = [best]
            grp.append((kind, m[0]))
            c.truth(nm + ': polynomial for %s' % (m[0],), True, scope='bounded')
            fs = [x for x in g.get('fsc', ()) if x[0] == tag]
            ok = bool(fs) and all(x[3] == enum('nse')[n] for x in fs)
            c.truth(nm + ': scattering', ok, scope='bounded') or c.fail_concrete(nm + ': scattering', None, None, tag)
            c.eq(nm + ': step size', None, st, [(None, x[2], e2) for x in fs], scope='bounded', sampler=samp)
            if phi and filt == 'MANUAL':
                k = div(mul(const(2), eps), const(DEG[n] * u))
                w = [mul(k, sub(fconst(box(kap)[j]), sh)) for j in (0, 1)]
                circle = [X.neg(fconst(math.pi)), fconst(math.pi)]
                if kap == -1 and fp(C(phi[0])) == fp(C(circle[0])): w = circle
                if fp(C(phi[0])) == fp(C(w[1])): w = w[::-1]   # ends exchanged on a path where they are in the wrong order
                c.eq(nm + ': arc', None, st, [(None, phi[j], w[j]) for j in (0, 1)], scope='bounded', sampler=samp)
        need_ = []
        ks = ('e', 'g') if loc == 'MIXED' else ('e',) if loc[0] == 'S' else ('g',)
        for kd in ks:
            if 'm' in what and not (kd == 'e' and loc == 'MIXED' and kap == -1): need_ += [(kd, x) for x in (signs if kd == 'e' else (1, -1))]
            if 'a' in what: need_.append((kd, 'a'))
        full = not (set(need_) - set(grp)) or K < 2 * deg or M < deg
        c.truth(nm + ': searches', full, scope='bounded') or c.fail_concrete(nm + ': searches', None, None, '%s instead of %s' % (grp, need_))
        # survivors of the filters
        mats = list(g.get('mat', ())); mi = 0
        exp = {'m': [], 'a': []}
        flt = [(k, [fp(x) for x in v], b, keep) for k, v, b, keep in g.get('flt', ())]
        lams = []
        cands = {}
        steps = []
        for i, (kind, co, num, phi) in enumerate(rts):
            e2 = eps if kind == 'g' else mul(const(D // 2), eps)
            for k in range(num):
                l = cf('clog', X.cvar('z%d_%d' % (i, k))) / (IU * C(mul(const(Fraction(2, DEG[n] * u)), e2)))
                r = l
                if nev and kind == 'e' and not any(fp(l) == f and j not in keep for _, vs, _, keep in flt for j, f in enumerate(vs)):
                    r = newton_path(c, nm, cs, e, st, fp, l, grp[i][1], nev)
                    if r is None: return
                lams.append((i, k, kind, r))
        P = ids([X.cvar('q%d_%d' % (D, k)) for k in range(D * u)] + [X.cvar('r%d_%d' % (D, k)) for k in range(D * u)])
        for x in mats:
            ok = x[1] == D * u and x[5] == P and x[4] == enum('nse')[SLOW[u]] and (x[3] - (1 << 32) if x[3] >= 1 << 31 else x[3]) == kap
            c.truth(nm + ': monodromy matrix of the full signal', ok, scope='bounded') or c.fail_concrete(nm + ': monodromy matrix', None, None, 'other data')
            c.eq(nm + ': step size of the monodromy matrix', None, st, [(None, x[2], eps)], scope='bounded', sampler=samp)
        out = {'m': [], 'a': []}
        for i, k, kind, r in lams:
            C_ = r if isinstance(r, list) else [r]
            fps = [f for x in C_ for f in (fp(x), fp(x + C(sh)))]
            seen = drop = False; nr = False
            for kd, vs, b, keep in flt:
                for j, f in enumerate(vs):
                    if f in fps:
                        if kd == 'n': nr = True
                        else: seen = True
                        if j not in keep: drop = True
            if filt != 'NONE' and not seen:
                c.truth(nm + ': filtered', False); c.fail_concrete(nm + ': filtered', None, None, 'root %d of search %d never filtered' % (k, i)); return
            if loc == 'MIXED' and kind == 'e' and not nr and not drop:
                c.truth(nm + ': non-real points', False); c.fail_concrete(nm + ': non-real points', None, None, 'root %d of search %d not tested' % (k, i)); return
            if not drop: out['a' if grp[i][1] == 'a' else 'm'].append((i, C_))
        for kd, v, b, keep in g.get('flt', ()):
            if kd == 'f' and filt == 'MANUAL':
                it = []
                for x in v[:1]:
                    hit = [l for _, _, _, r in lams for l in (r if isinstance(r, list) else [r]) if fp(l) == fp(x) or fp(l + C(sh)) == fp(x)]
                    if not hit: c.truth(nm + ': filtered values', False); c.fail_concrete(nm + ': filtered values', None, None, 'unknown value'); return
                    t = hit[0] + C(sh)
                    it += [(None, sub(x.re, b[0]), sub(t.re, fconst(box(kap)[0]))), (None, sub(x.re, b[1]), sub(t.re, fconst(box(kap)[1]))), (None, sub(x.im, b[2]), sub(t.im, fconst(box(kap)[2]))), (None, sub(x.im, b[3]), sub(t.im, fconst(box(kap)[3])))]
                c.eq(nm + ': filter region', None, st, it, scope='bounded', sampler=samp, tol=1e-12)
        for w, ar, pc, cap in (('m', 'main', 'K', K), ('a', 'aux', 'M', M)):
            if w not in what: continue
            cnt = e.getu(st, cs.ptr[pc])
            exp = out[w]
            ok = cnt == min(len(exp), cap)
            c.truth(nm + ': count', ok, scope='bounded') or c.fail_concrete(nm + ': count', None, None, '%s=%s, %d points remain, capacity %d' % (pc, cnt, len(exp), cap))
            if not ok: return
            left = list(exp)
            for k in range(cnt):
                z = e.getc(st, cs.ptr[ar], k)
                if z.re is X.UNDEF: c.truth(nm + ': point', False); c.fail_concrete(nm + ': point', None, None, 'entry %d not written' % k); return
                j = next((j for j, (_, C_) in enumerate(left) if any(fp(x + C(sh)) == fp(z) for x in C_)), None)
                if j is None:
                    c.eq(nm + ': reported point', None, st, cpairs(ar, k, z, left[0][1][0] + C(sh)), scope='bounded', sampler=samp)
                    return
                c.truth(nm + ': reported point', True, scope='bounded'); del left[j]
            for k in range(cnt, cap):
                z = e.getc(st, cs.ptr[ar], k)
                c.truth(nm + ': entries beyond the count', z.re is X.UNDEF and z.im is X.UNDEF, scope='bounded') or c.fail_concrete(nm + ': entries beyond the count', None, None, '%s[%d] written' % (ar, k))
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def newton_path(c, nm, cs, e, st, fp, guess, sgn, nev):
    """values the Newton iteration started at guess may return: points reached by (multiple-root) Newton steps for the right function"""
    mats = st.ghost.get('mat', ())
    byl = {}
    for i, x in enumerate(mats): byl.setdefault(fp(x[6]), i)
    if fp(guess) not in byl:
        c.truth(nm + ': Newton iteration', False); c.fail_concrete(nm + ': Newton iteration', None, None, 'monodromy matrix not evaluated at the guess'); return None
    res, todo, seen = [], [guess], set()
    for depth in range(nev + 1):
        nxt = []
        for z in todo:
            if fp(z) in seen or fp(z) not in byl: continue
            seen.add(fp(z)); i = byl[fp(z)]
            sc = C(pow2('V%d' % i)) if mats[i][7] else C.of(1)
            m = lambda j: X.cvar('m%d_%d' % (i, j))
            if sgn == 'a': s = m(1) / m(5)
            else: s = (sc * (m(0) + m(3)) - C(const(2 * sgn) if not isinstance(sgn, N) else mul(const(2), sgn))) / (sc * (m(4) + m(7)))
            for f in (1, 2) if sgn != 'a' else (1,): nxt.append(z - C(const(f)) * s)
        res += nxt; todo = nxt
    return res


def newt(c, n, what, nev, nf, kap, pps, filt):
    T0, T1 = var('T0'), var('T1')
    D = 2; u = ups(n); G = 1
    rng_ = [-1, 1] if pps > 1 else [1, 1]
    if pps == 3: rng_ = [-1, .5]
    cs = inst(n, 'NEWTON', filt, what, kap, nf, G, G, D, max_evals=nev, points_per_spine=pps, floquet_range=rng_)
    nm = 'fnft_nsep %s NEWTON %s %s evals=%d norm=%d kappa=%d points=%d' % (n, filt, what, nev, nf, kap, pps)
    e, R = cs.sym(c, contracts=con(None), pre=lambda e, st, cs: gt(st, T1, T0), generic='tiny' if pps > 1 or filt != 'NONE' else True, max_states=20000)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D)); sh = div(var('ps'), mul(const(-2), sub(T1, T0)))
    good = 0; fp = FPR(c)
    ar, pc = ('main', 'K') if what == 'm' else ('aux', 'M')
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1; g = st.ghost
        common(c, nm, cs, e, st, n, D, kap, eps, sh, T0)
        P = ids([X.cvar('q%d_%d' % (D, k)) for k in range(D * u)] + [X.cvar('r%d_%d' % (D, k)) for k in range(D * u)])
        for x in g.get('mat', ()):
            ok = x[1] == D * u and x[5] == P and x[4] == enum('nse')[n] and (x[3] - (1 << 32) if x[3] >= 1 << 31 else x[3]) == kap
            c.truth(nm + ': monodromy matrix', ok, scope='bounded') or c.fail_concrete(nm + ': monodromy matrix', None, None, 'other data')
            c.eq(nm + ': step size', None, st, [(None, x[2], eps)], scope='bounded', sampler=samp)
        N_ = pps if what == 'm' else 1
        cand = []
        for k in range(N_):
            rhs = fconst(rng_[0] + (rng_[1] - rng_[0]) * k / max(pps - 1, 1)) if what == 'm' else 'a'
            cand.append(newton_path(c, nm, cs, e, st, fp, cvar('%s[%d]' % (ar, k)), rhs, nev))
            if cand[-1] is None: return
        keep = list(range(N_))
        if filt != 'NONE':
            fl = g.get('flt', ())
            ok = len(fl) >= 1 and len(fl[-1][1]) == N_
            c.truth(nm + ': filter', ok, scope='bounded') or c.fail_concrete(nm + ': filter', None, None, str(len(fl)))
            if not ok: return
            keep = fl[-1][3]; b = fl[-1][2]
            if filt == 'MANUAL':
                it = []
                x = fl[-1][1][0]
                hit = [l for l in cand[0] if fp(l) == fp(x) or fp(l + C(sh)) == fp(x)]
                if not hit: c.truth(nm + ': filtered values', False); c.fail_concrete(nm + ': filtered values', None, None, 'not a Newton iterate'); return
                t = hit[0] + C(sh)
                for j in range(4): p, q_ = (x.re, t.re) if j < 2 else (x.im, t.im); it.append((None, sub(p, b[j]), sub(q_, fconst(box(kap)[j]))))
                c.eq(nm + ': filter region', None, st, it, scope='bounded', sampler=samp, tol=1e-12)
        cnt = e.getu(st, cs.ptr[pc])
        c.truth(nm + ': count', cnt == len(keep), scope='bounded') or c.fail_concrete(nm + ': count', None, None, '%s instead of %d' % (cnt, len(keep)))
        if cnt != len(keep): return
        for i, k in enumerate(keep):
            z = e.getc(st, cs.ptr[ar], i)
            if any(fp(x + C(sh)) == fp(z) for x in cand[k]): c.truth(nm + ': refined point', True, scope='bounded'); continue
            c.eq(nm + ': refined point', None, st, cpairs(ar, i, z, cand[k][0] + C(sh)), scope='bounded', sampler=samp)
            return
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


# ------------------------------------------------------------------ the compiled transform
def ncase(q, T, ps, K, M, main=True, aux=True, kappa=1, **kw):
    def arr(nm, init, n):
        if init is None: return Null()
        b = np.full(max(n, 1), SENT)
        if init is not True: b[:len(init)] = init
        return RawArr(nm, b, 'io')
    P = kw.get('points_per_spine', 2) if kw.get('localization') == 'NEWTON' else 1
    return Case('fnft_nsep', [U(len(q)), RawArr('q', np.asarray(q, complex)), RawArr('T', np.array(T, float)), F(ps), RawArr('K', np.array([K], np.uint64), 'io'), arr('main', main, K * P),
                              RawArr('M', np.array([M], np.uint64), 'io'), arr('aux', aux, M), Null(), I(kappa), Opts('nsep', **kw)])


def mono(n, qp, rp, e, lam):
    """(half trace, upper right entry, largest entry) of the monodromy matrix at the points lam"""
    lam = np.asarray(lam, complex); I2 = np.eye(2, dtype=complex)[:, :, None]
    P = I2 * np.ones(lam.shape); u = ups(n)
    mm = lambda A, B: np.einsum('ijk,jlk->ilk', A, B)
    if n in DEG:
        z = np.exp(2j * lam * e / (DEG[n] * u))
        for k in range(len(qp) // u): P = mm(np.asarray(nfactor_at(n, qp, rp, k, e, z)), P)
        P = P * z ** (-DEG[n] * len(qp) / 2)
    else:
        for k in range(len(qp) // u):
            for M0, dM in nexp(n, k, qp, rp, 0, e):
                M = np.asarray(M0, complex)[:, :, None] + np.asarray(dM, complex)[:, :, None] * lam   # exponents are affine in lambda
                s = np.sqrt(M[0, 0] ** 2 + M[0, 1] * M[1, 0])
                f = np.where(abs(s) > 1e-8, np.sinh(s) / np.where(abs(s) > 1e-8, s, 1), 1)
                P = mm(np.cosh(s) * I2 + f * M, P)
    return (P[0, 0] + P[1, 1]) / 2, P[0, 1], abs(P).max(axis=(0, 1))


def wind(n, qp, rp, e, z, rad, f, m=24):
    """number of zeros of f(mono) around each z (argument principle on a circle)"""
    z = np.asarray(z, complex)
    if not len(z): return np.zeros(0)
    t = np.exp(2j * np.pi * np.arange(m) / m)
    with np.errstate(all='ignore'): v = f(mono(n, qp, rp, e, (z[:, None] + rad * t).ravel())).reshape(len(z), m)
    return np.round(np.angle(v[:, np.r_[1:m, 0]] / v).sum(1) / 2 / np.pi)


MAINF = lambda m: (m[0] - 1) * (m[0] + 1)
AUXF = lambda m: m[1]


def nsig(typ, D, rng):
    T = [(0.0, 2 * np.pi), (-1.0, 2.0), (3.0, 7.0), (-2.0, 1.5)][typ]; L = T[1] - T[0]
    t = (np.arange(D)) / D
    if typ < 3: q = (1.2 * np.exp(2j * np.pi * t) + .4 * np.exp(-4j * np.pi * t) + .3j) * [.8, 1.1, .7][typ]
    else: q = sum((rng.normal() + 1j * rng.normal()) * np.exp(2j * np.pi * k * t) for k in range(-2, 3)) * .35
    return T, q


def boxcount(n, qp, rp, e, box, f, m=400):
    """zeros inside a box, or None if one is too close to its boundary"""
    c_ = [box[0] + 1j * box[2], box[1] + 1j * box[2], box[1] + 1j * box[3], box[0] + 1j * box[3], box[0] + 1j * box[2]]
    p = np.concatenate([a + (b - a) * np.arange(m) / m for a, b in zip(c_, c_[1:])])
    v = f(mono(n, qp, rp, e, p)); d = np.angle(np.r_[v[1:], v[:1]] / v)
    if abs(d).max() > 1 or abs(v).min() < .05: return None
    return int(round(d.sum() / 2 / np.pi))


def one(c, n, loc, filt, typ, kap, ps, rng, K=400, M=400, sub=0, nf=1, what='ma', rf=None):
    u = ups(n); dg = DEG.get(n, 1) * u
    D = 16 if loc == 'NEWTON' or dg > 6 else 32
    T, q0 = nsig(typ, D, rng); L = T[1] - T[0]; e = L / D; sh = -ps / (2 * L); t = T[0] + e * np.arange(D)
    q = q0 * np.exp(-2j * sh * t)
    kw = dict(discretization=n, localization=loc, filtering=filt, max_evals=100, normalization_flag=nf)
    if sub: kw['Dsub'] = D // 2
    R = .95 * np.pi * dg / (2 * e)
    box = [max(-2.7, -R), min(1.9, .8 * R), -1.6, 1.3]
    mybox = filt == 'MANUAL'
    if mybox: kw['bounding_box'] = [box[0] + sh, box[1] + sh, box[2], box[3]]
    ref = n if loc == 'GRIDSEARCH' or loc == 'NEWTON' else SLOW[u]
    qp, rp, w, *_ = nprep('nse', n, q0, D, e, kap)
    main = aux = True
    if 'm' not in what: main = None
    if 'a' not in what: aux = None
    pps = 1; rhs = [1.0, -1.0]
    if rf:
        kw['floquet_range'] = rf[0]; kw['points_per_spine'] = pps = rf[1]
        rhs = list(np.linspace(rf[0][0], rf[0][1], pps)) if pps > 1 else [rf[0][0]]
    if loc == 'NEWTON':
        kw.setdefault('points_per_spine', 2); pps = kw['points_per_spine']
        if not rf: kw['floquet_range'] = [-1, 1]; rhs = [-1.0, 1.0]
        K = M = 2
        # zeros of the reference near which the iteration is started
        def find(f, df=1e-6, off=.003):
            for _ in range(5):
                z = rng.uniform(*box[:2], size=16) + 1j * rng.uniform(*box[2:], size=16)
                with np.errstate(all='ignore'):
                    for _ in range(10): v = f(mono(ref, qp, rp, e, np.r_[z, z + df])); z = z - v[:16] / (v[16:] - v[:16]) * df
                    z = z[np.isfinite(z)]; z = z[(abs(f(mono(ref, qp, rp, e, z))) < 1e-9) & (z.real > box[0]) & (z.real < box[1]) & (z.imag > box[2]) & (z.imag < box[3])]
                    z = z[wind(ref, qp, rp, e, z, .2, f) == 1]
                if len(z): return z[rng.integers(len(z))] + off * np.exp(1j * rng.uniform(0, 6.3))
        gm = [find(lambda m, r=r: m[0] - r) for r in rhs for _ in range(K)]
        ga = [find(AUXF) for _ in range(M)]
        if None in gm or None in ga: return None
        if main is not None: main = np.array(gm) + sh
        if aux is not None: aux = np.array(ga) + sh
    cs = ncase(q, T, ps, K, M, main, aux, kap, **kw)
    small = K < 20 or M < 20
    fam = [lambda m, r=r: m[0] - r for r in rhs]
    Fm = (lambda m: np.prod([m[0] - r for r in rhs], axis=0))

    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the arrays or an input modified'
        k, m = int(o['K'][0]), int(o['M'][0])
        for nm, cnt, cap, f, on in (('main', k, K * (pps if loc == 'NEWTON' else 1), Fm, main is not None), ('aux', m, M, AUXF, aux is not None)):
            if not on: continue
            if cnt > cap: return '%s: %d points, capacity %d' % (nm, cnt, cap)
            z = o[nm][:cnt] - sh
            if np.any(o[nm][:cnt] == SENT): return '%s: entry below the count not written' % nm
            if loc != 'NEWTON' and not np.all(o[nm][cnt:] == SENT): return '%s: entries beyond the count written' % nm
            tol = 1e-7
            if filt == 'MANUAL' and not np.all((z.real >= box[0] - tol) & (z.real <= box[1] + tol) & (z.imag >= box[2] - tol) & (z.imag <= box[3] + tol)): return '%s: %s outside the bounding box' % (nm, [complex(x) + sh for x in z if not (box[0] - tol <= x.real <= box[1] + tol and box[2] - tol <= x.imag <= box[3] + tol)][:2])
            if loc in ('SUBSAMPLE_AND_REFINE', 'MIXED'): z = z[(z.real > box[0]) & (z.real < box[1]) & (z.imag > box[2]) & (z.imag < box[3])]   # points elsewhere may be reported unconverged (with a warning)
            if not np.isfinite(z).all(): return '%s: not finite' % nm
            if loc == 'GRIDSEARCH':
                rad = 2.5 * 2 * np.pi / (32 * DEG[n] * u * D / u - 1) / (2 * e / dg) if filt != 'MANUAL' else 2.5 * (box[1] - box[0]) / (32 * dg * D - 1)
                rad = max(rad, .02); g = f
            else: rad, g = .05, f
            if loc == 'MIXED':
                bad = (wind(SLOW[u], qp, rp, e, z, .05, g) < 1) & (wind(n, qp, rp, e, z, .05, g) < 1)
            else: bad = wind(ref, qp, rp, e, z, rad, g) < 1
            bad &= ~(abs(f(mono(ref, qp, rp, e, z))) < 2e-2)
            if bad.sum() > (loc in ('SUBSAMPLE_AND_REFINE', 'MIXED')) * (1 + cnt // 10): return '%s: no zero of the monodromy condition near the reported point %s (%d of %d)' % (nm, complex(z[bad][0]) + sh, bad.sum(), cnt)
            if loc == 'NEWTON' and filt == 'NONE' and typ != 2:
                if cnt != cap: return '%s: %d points for %d guesses' % (nm, cnt, cap)
                for i in range(cnt):
                    g = (main if nm == 'main' else aux)[i] - sh; h = fam[i // K] if nm == 'main' else f
                    if abs(z[i] - g) > .02: return '%s[%d]: %s far from the guess %s' % (nm, i, complex(z[i]), complex(g))
                    if wind(ref, qp, rp, e, z[i:i + 1], 1e-4, h)[0] != 1: return '%s[%d]: %s is not the zero next to the guess' % (nm, i, complex(z[i]))
            if loc[0] == 'S' and filt == 'MANUAL' and not small and not sub and n in DEG and not rf:
                a, b = boxcount(ref, qp, rp, e, box, f), boxcount(n, qp, rp, e, box, f)
                if a is not None and a == b and cnt < .7 * a: return '%s: %d points in the box, %d zeros' % (nm, cnt, a)
    return ('fnft_nsep %s %s %s typ=%d kappa=%d shift=%.2g capacities %d,%d %s%s executed' % (n, loc, filt, typ, kap, ps, K, M, what, ' %s' % (rf,) if rf else ''), cs, judge, dict(discretization=n, localization=loc, filtering=filt, D=D, T=T, phase_shift=ps, kappa=kap, q=[str(x) for x in q], **{k: str(v) for k, v in kw.items() if k not in ('discretization', 'localization', 'filtering')}))


def battery(c):
    rng = np.random.default_rng(c.seed + 14)
    items = [x for n in ALL for x in items_of(c, n, rng)]
    c.battery(items)


def items_of(c, n, rng):
    items = []
    for j, loc in enumerate(('SUBSAMPLE_AND_REFINE', 'GRIDSEARCH', 'MIXED', 'NEWTON')):
        if (loc != 'NEWTON') != (n in DEG): continue
        for filt in ('AUTO', 'MANUAL', 'NONE'):
            for typ in range(4):
                dg = DEG.get(n, 1) * ups(n)
                if dg > 12 and (typ % 2 or filt == 'AUTO'): continue
                kap = 1 if (typ + j + len(filt)) % 3 else -1
                if loc == 'NEWTON' and kap == -1 and filt == 'NONE': kap = 1
                ps = (0, 1.1, -2.5)[(typ + j) % 3]
                it = one(c, n, loc, filt, typ, kap, ps, rng, nf=typ % 2, sub=loc != 'GRIDSEARCH' and typ == 3)
                if it: items.append(it)
                if dg <= 4 and loc != 'NEWTON':
                    if filt == 'MANUAL':
                        for cap in ((0, 3), (3, 1), (1, 0)):
                            it = one(c, n, loc, filt, typ, 1, 1.1, rng, K=cap[0], M=cap[1])
                            if it: items.append(it)
                    if filt != 'AUTO' and typ == 0 and loc[0] == 'S': items.append(one(c, n, loc, filt, typ, 1, -.7, rng, what='m', rf=([-.9, .6], 3)))
                if filt == 'NONE' and typ < 2 and loc != 'MIXED':
                    it = one(c, n, loc, filt, typ, 1, .9, rng, what='a')
                    if it: items.append(it)
                if loc == 'NEWTON' and typ < 2:
                    it = one(c, n, loc, filt, typ, 1, .9, rng, what='m', rf=([-.8, .7], 3))
                    if it: items.append(it)
    return items
