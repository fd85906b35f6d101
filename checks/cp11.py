"""P11: bound states of the vanishing-boundary Schroedinger transform."""
from pubsym import *
from specs import nstep, nbasis, nscatter
from cp04 import nwave
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of the bound-state part of fnft_nsev over the contracts of scattering (P02, P04), filtering and merging (P23); compiled transform against zeros of the discretized a'
NOTE = 'Roots, scattering coefficients, guesses, interval and samples symbolic; list lengths and iteration counts bounded; the external eigenvalue solver is trusted symbolically and checked by execution.'
SOURCES = ['fnft_nsev.c', 'nse_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c']
EPSM = 2.220446049250313e-16


def base(n):
    if n in DEG: return 'BO' if ups(n) == 1 else 'CF4_2'
    return n


def samp(k, rng, _s=samp):
    # paths on which Newton has converged need tiny values of a
    v = _s(k, rng); k = str(k)
    if k[:1] == 'a' and k[1:2].isdigit(): v = v * rng.choice([1, mpf(10) ** -16, mpf(10) ** -14])
    if k[:2] == 'bs' and k.endswith('.re'): v = v * rng.choice([1, 1, 60])
    return v


def check(c):
    warm('nsev')
    jobs = []
    for n in ALL:
        for ds in ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'):
            jobs.append((n, 'NEWTON', 'BASIC', ds, 1, 1))
        jobs += [(n, 'NEWTON', 'FULL', 'BOTH', 0, 1), (n, 'NEWTON', 'MANUAL', 'BOTH', 1, 2), (n, 'NEWTON', 'NONE', 'BOTH', 1, 1)]
        if n in DEG and DEG[n] * ups(n) <= 4:
            jobs += [(n, 'FAST_EIGENVALUE', f, 'BOTH', 1, 0) for f in ('BASIC', 'FULL', 'NONE')]
    for n in ('2SPLIT4B', '2SPLIT2_MODAL', '2SPLIT2A'):
        jobs += [(n, 'SUBSAMPLE_AND_REFINE', 'BASIC', 'BOTH', 1, 1)]
    c.parallel(job, jobs)
    battery(c)


def job(c, n, loc, filt, ds, nf, nit):
    if c.viol: return
    T0, T1 = var('T0'), var('T1')
    D = 2 if loc != 'SUBSAMPLE_AND_REFINE' else 4
    K = DEG[n] * D * ups(n) if loc != 'NEWTON' else 2 if nit == 1 and filt == 'BASIC' and ds == 'BOTH' else 1
    if loc == 'SUBSAMPLE_AND_REFINE': K = DEG[n] * 2 * ups(n)
    m = 2 if ds == 'BOTH' else 1
    kw = dict(discretization=n, bound_state_localization=loc, bound_state_filtering=filt, discspec_type=ds, normalization_flag=nf, niter=nit)
    if filt == 'MANUAL': kw['bounding_box'] = [-1e9, 1.25e9, -1.5e9, 2e9]
    if loc == 'SUBSAMPLE_AND_REFINE': kw['Dsub'] = 2
    cs = Case('fnft_nsev', [U(D), Arr('q', D), Arr('T', 2, 'd', init=[T0, T1]), U(0), Null(), Null(), Arr('K', 1, 'u', 'io', init=[K]),
                            Arr('bs', K, role='io'), Arr('nc', m * K, role='out'), I(1), Opts('nsev', **kw)])
    nm = 'fnft_nsev bound states %s %s %s %s norm=%d niter=%d' % (n, loc, filt, ds, nf, nit)
    con = dict(INNER); con.update(BSC)
    e, R = cs.sym(c, contracts=con, pre=lambda e, st, cs: gt(st, T1, T0), generic=True)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D - 1)); u = ups(n)
    good = 0
    for st in R:
        g = st.ghost
        if st.retval != 0:
            if loc == 'FAST_EIGENVALUE' and st.retval != 0: pass
            if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1
        ks = e.getu(st, cs.ptr['K'])
        box = bbox(n, filt, D, eps, T0, T1, kw, 'q%d' % D)
        lam = None
        tagD = 'q%d' % D
        P = [X.cvar('%s_%d' % (tagD, k)) for k in range(D * u)] + [X.cvar('%s_%d' % (tagD.replace('q', 'r'), k)) for k in range(D * u)]
        bl = list(g.get('bs', ()))
        if loc == 'FAST_EIGENVALUE':
            rt = g.get('roots', ())
            ok = len(rt) == 1 and rt[0][0] == K and rt[0][1] == tuple((X.cvar('H%s_0_%d' % (tagD, k)).re.id, X.cvar('H%s_0_%d' % (tagD, k)).im.id) for k in range(K + 1))
            c.truth(nm + ': roots of the polynomial of a', ok, scope='bounded') or c.fail_concrete(nm + ': roots of the polynomial of a', None, None, 'root finder called on something else')
            if not ok: return
            lam = [cf('clog', X.cvar('z0_%d' % k)) / (IU * C(mul(const(Fraction(2, DEG[n] * u)), eps))) for k in range(K)]
        elif loc == 'NEWTON':
            lam = [cvar('bs[%d]' % k) for k in range(K)]
            j = 0; n2 = [lam]
            # each Newton step: lambda - a/a'
            for k in range(K):
                for it in range(nit):
                    if j < len(bl) and bl[j][6] == 1:
                        want = lam[k]
                        c.eq(nm + ': point of Newton step', None, st, [(None, bl[j][4][0].re, want.re), (None, bl[j][4][0].im, want.im)], scope='bounded', sampler=samp)
                        lam[k] = lam[k] - X.cvar('a%d_0' % j) / X.cvar('d%d_0' % j); j += 1
                        if it + 1 < nit and not (j < len(bl) and bl[j][6] == 1): break
            if not nit == 0 and j == 0: c.truth(nm + ': Newton steps taken', False); c.fail_concrete(nm + ': Newton steps taken', None, None, 'no step'); return
        if loc != 'SUBSAMPLE_AND_REFINE':
            fl = g.get('filt', ())
            if filt != 'NONE':
                ok = len(fl) == 1 and fl[0][0] == K and len(g.get('merge', ())) == 1
                c.truth(nm + ': one filter and one merge', ok, scope='bounded') or c.fail_concrete(nm + ': filter', None, None, str(len(fl)))
                if not ok: return
                c.eq(nm + ': filter region', None, st, [(None, fl[0][2][i], box[i]) for i in range(4) if box[i] is not None and fl[0][2][i].op != 'sp'], scope='bounded', sampler=samp, tol=1e-12)
                for i in range(4):
                    b = fl[0][2][i]
                    if b.op == 'sp' or box[i] is None or box[i].op == 'sp':
                        c.truth(nm + ': filter region unbounded', b is box[i], scope='bounded') or c.fail_concrete(nm + ': filter region', None, None, 'bound %d is %s' % (i, b))
                c.eq(nm + ': filtered values', None, st, [x for k in range(K) for x in cpairs('bs', k, fl[0][1][k], lam[k])], scope='bounded', sampler=samp)
                tr = g['merge'][0][1]
                c.truth(nm + ': merge tolerance', tr.op == 'c' and 0 < float(tr.a[0]) <= 1e-4 or tr.op != 'c', scope='bounded')
                keep = g['keep'][0]
            else:
                ok = not fl
                c.truth(nm + ': no filter', ok, scope='bounded') or c.fail_concrete(nm + ': no filter', None, None, '')
                keep = tuple(range(K))
            c.truth(nm + ': count', ks == len(keep), scope='bounded') or c.fail_concrete(nm + ': count', None, None, 'K=%s, %d survived' % (ks, len(keep)))
            if ks != len(keep): return
            c.eq(nm + ': reported values', None, st, [x for i, k in enumerate(keep) for x in cpairs('bs', i, e.getc(st, cs.ptr['bs'], i), lam[k])], scope='bounded', sampler=samp) if keep else None
        else:
            # guesses: zeros of the polynomial of the subsampled signal (every second sample, doubled step size)
            e2 = mul(const(2), eps); tg = 'q2'
            rt = g.get('roots', ()); fl = g.get('filt', ()); fs = [x for x in g.get('fsc', ()) if x[1] == 2 * u]
            ok = len(rt) == 1 and rt[0] == (K, tuple((X.cvar('H%s_0_%d' % (tg, k)).re.id, X.cvar('H%s_0_%d' % (tg, k)).im.id) for k in range(K + 1))) and len(fs) == 1 and fl and fl[0][0] == K
            c.truth(nm + ': roots of the polynomial of the subsampled signal', ok, scope='bounded') or c.fail_concrete(nm + ': roots of the polynomial of the subsampled signal', None, None, 'root finder called on something else')
            if not ok: return
            c.eq(nm + ': step size of the subsampled signal', None, st, [(None, fs[0][2], e2)], scope='bounded', sampler=samp)
            c.eq(nm + ': guesses', None, st, [x for k in range(K) for x in cpairs('bs', k, fl[0][1][k], cf('clog', X.cvar('z0_%d' % k)) / (IU * C(mul(const(Fraction(2, DEG[n] * u)), e2))))], scope='bounded', sampler=samp)
        if not isinstance(ks, int): raise Unsupported('symbolic count')
        last = [(i, x) for i, x in enumerate(bl) if x[6] == 0]
        if ks:
            ok = len(last) == 1
            c.truth(nm + ': norming constants computed once', ok, scope='bounded') or c.fail_concrete(nm + ': norming constants', None, None, '%d calls' % len(last))
            if not ok: return
        for i, x in enumerate(bl):
            ok = x[1] == D * u and x[2] == ids(P) and x[5] == enum('nse')[base(n)]
            c.truth(nm + ': scattering of the preprocessed signal with the base scheme', ok, scope='bounded') or c.fail_concrete(nm + ': scattering data', None, None, 'call %d uses other data or scheme' % i)
            c.eq(nm + ': interval', None, st, [(None, x[3][0], T0), (None, x[3][1], T1)], scope='bounded', sampler=samp)
        if ks:
            i, x = last[0]
            c.eq(nm + ': constants at the reported values', None, st, [y for k in range(ks) for y in cpairs('bs', k, x[4][k], e.getc(st, cs.ptr['bs'], k))], scope='bounded', sampler=samp)
            it = []
            for k in range(ks):
                b = X.cvar('b%d_%d' % (i, k)); sc = _pw('V%d_%d' % (i, k)) if x[7] else ONE
                r = b / (X.cvar('d%d_%d' % (i, k)) * C(sc))
                if ds != 'RESIDUES': it += cpairs('nc', k, e.getc(st, cs.ptr['nc'], k), b)
                if ds != 'NORMING_CONSTANTS': it += cpairs('nc', k + (ks if ds == 'BOTH' else 0), e.getc(st, cs.ptr['nc'], k + (ks if ds == 'BOTH' else 0)), r)
            c.eq(nm + ': norming constants and residues', None, st, it, scope='bounded', sampler=samp)
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def _pw(nm):
    from engine import _pow
    return _pow(const(2), var('int:' + nm))


def bbox(n, filt, D, eps, T0, T1, kw, tag):
    inf, ninf = X.INF if hasattr(X, 'INF') else None, X.NINF if hasattr(X, 'NINF') else None
    if filt == 'BASIC': return [X.neg(inf), inf, ZERO, inf]
    if filt == 'NONE': return [X.neg(inf), inf, X.neg(inf), inf]
    if filt == 'MANUAL': return [fconst(x) for x in kw['bounding_box']]
    u = ups(n)
    mc = Fraction(2, DEG[n]) if n in DEG else Fraction(2)
    # real part: 0.9 pi/|map_coeff*eps| (half the resolved strip, safety margin)
    re = div(mul(const(Fraction(9, 10)), var('pi')), mul(const(mc), eps))
    idx = range(0, D * u, 3) if n in ('ES4', 'TES4') else range(D * u)
    s = ZERO
    for k in idx:
        z = X.cvar('%s_%d' % (tag, k)); s = add(s, add(mul(z.re, z.re), mul(z.im, z.im)))
    ln = add(sub(T1, T0), eps)
    im = mul(const(Fraction(3, 8)), mul(s, div(ln, const(len(list(idx))))))
    return [X.neg(re), re, ZERO, im]


# ------------------------------------------------------------------ execution
def refroots(n, qp, rp, e):
    """all zeros of the discretized a (polynomial in z) as lambda"""
    deg = DEG[n] * len(qp)
    N = deg + 1
    z = np.exp(-2j * np.pi * np.arange(N) / N)
    lam = np.log(z) / (2j * e / (DEG[n] * ups(n)))
    H, _, L = nse_H(n, qp, rp, e, lam)
    v = H * np.exp(L - L.max())
    co = np.fft.ifft(v)          # v(z) = sum_k c_k z^k
    r = np.roots(co[::-1])
    # polish in higher accuracy through the recursion
    out = np.log(r) / (2j * e / (DEG[n] * ups(n)))
    return out


def aval(n, qp, rp, e, lam):
    """(a, da/dlambda) of the discretized problem up to a common factor"""
    if n in DEG:
        h = 1e-5
        pts = np.array([lam, lam + h, lam - h, lam + 1j * h, lam - 1j * h])
        H, _, L = nse_H(n, qp, rp, e, pts)
        v = H * np.exp(L - L[0]) * np.exp(-1j * (pts - lam) * 0)
        return v[0], ((v[1] - v[2]) - 1j * (v[3] - v[4])) / (4 * h)
    P = np.eye(4, dtype=complex)
    for k in range(len(qp) // ups(n)):
        P = nstep(n, k, qp, rp, lam, e) @ P; P /= np.abs(P).max()
    return P[0, 0], P[2, 0]


def nbox(n, filt, qp, e, T, man):
    if filt == 'BASIC': return (-np.inf, np.inf, 0, np.inf)
    if filt == 'NONE': return (-np.inf, np.inf, -np.inf, np.inf)
    if filt == 'MANUAL': return man
    mc = 2 / DEG[n] if n in DEG else 2.0
    re = 0.9 * np.pi / abs(mc * e)
    s = qp[::3] if n in ('ES4', 'TES4') else qp
    return (-re, re, 0, 0.375 * np.mean(np.abs(s) ** 2) * (T[1] - T[0] + e))


def signal(typ, D, rng):
    T = [(-12.0, 12.0), (-8.0, 10.0), (-14.0, 11.0)][typ % 3]
    t = np.linspace(*T, D)
    if typ == 0: return T, 2.3 / np.cosh(t), [0.8j, 1.8j]
    if typ == 1: return T, 1.8 / np.cosh(t - 0.4) * np.exp(-0.6j * t), [0.3 + 1.3j, 0.3 + 0.3j]
    return T, (1.3 / np.cosh(t + 3) * np.exp(0.8j * t) + 1.2 / np.cosh(t - 3) * np.exp(-1j * t)) * np.exp(0.3j), [0.5 + 0.7j, -0.4 + 0.8j]


def battery(c):
    rng = np.random.default_rng(c.seed + 11)
    items = []
    for n in ALL:
        for typ in range(3):
            for loc in ('FAST_EIGENVALUE', 'NEWTON', 'SUBSAMPLE_AND_REFINE'):
                for filt in ('BASIC', 'FULL', 'MANUAL', 'NONE'):
                    if loc != 'NEWTON' and n not in DEG: continue
                    if loc == 'SUBSAMPLE_AND_REFINE' and (filt == 'NONE' or DEG[n] > 15): continue
                    ds = ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH')[(typ + len(loc) + len(filt)) % 3]
                    it = one(n, typ, loc, filt, ds, (typ + len(filt)) % 2, rng)
                    if it: items.append(it)
    from harness import run_many
    ns = [n for n in ALL if DEG.get(n, 0) <= 5]
    for l in run_many([lambda n=n: edge_find(n, c.seed) for n in ns]):
        if isinstance(l, list): items += [edge_item(*x) for x in l]
    c.battery(items)


def edge_find(n, seed):
    """short signals with a zero of a just inside or just outside the bounds of the FULL filter"""
    rng = np.random.default_rng((seed, len(n), sum(map(ord, n))))
    out = {}
    for _ in range(50):
        if len(out) == 4: break
        D = int(rng.integers(3, 7)); T = (-1.0, -1.0 + float(rng.uniform(1, 4))); e = (T[1] - T[0]) / (D - 1)
        q = rng.uniform(.3, 2.5) * (rng.normal(size=D) + 1j * rng.normal(size=D))
        qp, rp, *_ = nprep('nse', n, q, D, e); b = nbox(n, 'FULL', qp, e, T, None)
        for _ in range(4):
            g = [b[1] * rng.uniform(-1.2, 1.2) + 1j * b[3] * rng.uniform(.6, 1.4), b[1] * rng.choice((-1, 1)) * rng.uniform(.9, 1.1) + 1j * b[3] * rng.uniform(0, 1)][rng.integers(2)]
            with np.errstate(all='ignore'): z = newton(base(n), qp, rp, e, g, 10)
            if z is None or z.imag < 1e-3 or z.imag > 30: continue
            i, r = z.imag / b[3], abs(z.real) / b[1]
            key = None
            if r < .98 and (1.02 < i < 1.5 or .7 < i < .98): key = ('im', bool(i < 1))
            elif i < .95 and (1.02 < r < 1.4 or .7 < r < .98): key = ('re', bool(r < 1))
            if key and key not in out: out[key] = (n, key, D, T, q, complex(z), bool(i < 1 and r < 1))
    return list(out.values())


def edge_item(n, key, D, T, q, z, ins):
    cs = nsev_case(q, T, K=1, bs=np.array([z]), contspec=False, discretization=n, bound_state_localization='NEWTON', bound_state_filtering='FULL', discspec_type='NORMING_CONSTANTS', niter=10)
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if int(o['K'][0]) != int(ins): return '%d values reported for a guess at the zero %s, which is %s the filter region' % (o['K'][0], z, 'inside' if ins else 'outside')
        if ins and not abs(o['bs'][0] - z) < 1e-6: return 'reported %s instead of %s' % (o['bs'][0], z)
    return ('%s FULL filter edge %s executed' % (n, key), cs, judge, dict(discretization=n, D=D, T=T, q=[str(x) for x in q], guess=str(z)))


def one(n, typ, loc, filt, ds, nf, rng):
    dg = DEG.get(n, 0) * ups(n)
    D = 64 if loc == 'NEWTON' else 128 if loc == 'SUBSAMPLE_AND_REFINE' else max(8, min(48, 160 // dg))
    if dg > 24 and loc != 'NEWTON' and filt not in ('BASIC', 'FULL'): return None
    T, q, guess = signal(typ, D, rng)
    man = (-0.45, 0.45, 0.05, 1.0)
    K = dg * D + 3 if loc != 'NEWTON' else 2
    small = loc == 'FAST_EIGENVALUE' and filt == 'FULL' and typ == 1
    kw = dict(discretization=n, bound_state_localization=loc, bound_state_filtering=filt, discspec_type=ds, normalization_flag=nf, niter=40)
    if filt == 'MANUAL': kw['bounding_box'] = man
    if loc == 'SUBSAMPLE_AND_REFINE' and typ: kw['Dsub'] = 40
    g = None
    if loc == 'NEWTON': g = np.array(guess) + 0.05 * (rng.normal(size=2) + 1j * rng.normal(size=2)); g = g.real + 1j * np.abs(g.imag)
    cs = nsev_case(q, T, K=K, bs=True if g is None else g, contspec=False, **kw)
    e = (T[1] - T[0]) / (D - 1)
    def judge(o):
        # spurious zeros of high-degree splittings with imaginary parts in the hundreds survive the BASIC filter;
        # a' underflows there and the transform reports a division by zero instead of bound states
        if loc == 'SUBSAMPLE_AND_REFINE' and filt == 'BASIC' and DEG[n] * ups(n) > 4 and abs(o['ret']) == 3: return None
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        k = int(o['K'][0])
        if k > K: return '%d bound states with room for %d' % (k, K)
        qp, rp, w, _ = nprep('nse', n, q, D, e)
        b = nbox(n, filt, qp, e, T, man)
        bs = o['bs'][:k]
        zn = n if loc == 'FAST_EIGENVALUE' else base(n)
        for z in bs:
            if not (b[0] <= z.real <= b[1] and b[2] <= z.imag <= b[3]): return 'bound state %s outside the region %s' % (z, b)
            if loc == 'SUBSAMPLE_AND_REFINE' and abs(z.imag) > 4: continue      # Newton may stop at the iteration limit there (reported as a warning)
            if loc == 'FAST_EIGENVALUE' and (abs(z.imag) > (2.0 if z.imag > 0 else 0.3)): continue
            a, d = aval(zn, qp, rp, e, z)
            if not abs(a / d) < (2e-4 if loc == 'FAST_EIGENVALUE' else 1e-8): return 'reported %s is not a zero of a: a/a_prime = %s' % (z, a / d)
        if filt != 'NONE':
            for i in range(k):
                for j in range(i):
                    if abs(bs[i] - bs[j]) < 1e-8: return 'bound states %s and %s coincide' % (bs[i], bs[j])
        if loc == 'NEWTON' and filt in ('BASIC', 'FULL') and k < 1: return 'all bound states lost'
        if loc == 'FAST_EIGENVALUE' and filt in ('BASIC', 'FULL', 'MANUAL') and dg * D <= 400:
            ref = [z for z in refroots(n, qp, rp, e) if b[0] + .02 < z.real < b[1] - .02 and max(b[2], 0) + .02 < z.imag < min(b[3] - .02, 2.0)]
            per = np.pi * DEG[n] * ups(n) / e          # lambda is determined up to this period only
            for z in ref:
                a, d = aval(zn, qp, rp, e, z)
                if abs(a / d) > 1e-4: continue
                if not any(abs(z + s * per - x) < 1e-3 for x in bs for s in (-1, 0, 1)): return 'zero %s of a is not reported (%s)' % (z, bs[:6])
        if loc == 'SUBSAMPLE_AND_REFINE' and filt in ('BASIC', 'FULL'):
            # zeros whose subsampled counterpart is close enough for Newton's method have to be found
            d0 = 40 if typ else int(np.sqrt(D * np.log2(D) ** 2)); nsk = int(np.floor(D / d0 + .5)); d0 = int(np.floor(D / nsk + .5))
            qs, rs, _, ns = nprep('nse', n, q, d0, e)
            co = refroots(n, qs, rs, e * nsk) if DEG[n] * d0 * ups(n) <= 400 else []
            for z in guess:
                if not any(abs(y - z) < .04 for y in co): continue
                x = newton(base(n), qp, rp, e, z)
                if x is not None and abs(x - z) < .3 and x.imag > .05 and not any(abs(x - y) < 1e-4 for y in bs): return 'bound state %s of the discretized problem is not reported (%s)' % (x, bs)
        m = 2 if ds == 'BOTH' else 1
        for i, z in enumerate(bs):
            if not 0 < z.imag < 2 or abs(z.real) > 3: continue
            (a0, ad0, lg), cand = nwave('NSE', base(n), 0, qp, rp, z, T[0], T[1], D)
            mn = min(x[0] for x in cand)
            ok = [x[1] * np.exp(x[2]) for x in cand if x[0] <= mn + 1e-5]
            ap = ad0 * np.exp(lg)
            if ds != 'RESIDUES':
                if not any(abs(o['nc'][i] - x) < 1e-4 * abs(x) for x in ok): return 'norming constant at %s is %s, b of the discretized problem %s' % (z, o['nc'][i], ok[0])
            if ds != 'NORMING_CONSTANTS':
                g = o['nc'][i + (k if m == 2 else 0)]
                if not any(abs(g - x / ap) < 1e-4 * abs(x / ap) for x in ok): return 'residue at %s is %s, b/a_prime %s' % (z, g, ok[0] / ap)
        s = o['bs'][K:] if False else None
        return None
    return ('%s %s %s %s norm=%d signal %d executed' % (n, loc, filt, ds, nf, typ), cs, judge, dict(discretization=n, signal=typ, D=D, T=T, K=K, guesses=str(g), q=[str(x) for x in q[:32]]))


def newton(n, qp, rp, e, z, it=30):
    for _ in range(it):
        a, d = aval(n, qp, rp, e, z)
        z = z - a / d
        if abs(a / d) < 1e-12: return z
    return None
