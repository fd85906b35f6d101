"""P04: bound-state scattering (AKNS, NSE, KdV): a, a' of the direct scattering matrix and b by two-sided propagation."""
from contracts import *
from specs import *
from cp03 import NV, scale_of, SOURCES
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification (function-by-function VCs from clang IR) + bounded execution of the same contracts'
NOTE = 'Samples, interval and bound states symbolic; 2 given samples and 1..2 bound states (bounded). b is the ratio of the left and right solutions at one sample; which sample is decided by execution against the documented metric.'


def case(fam, disc, van, D, K, W, skip, pde, A=None, T=None):
    m = ups(disc); n = D * m
    A = A or {}
    name = disc + ('_VANILLA' if fam == 'kdv' and van else '')
    v = enum(fam).get(name)
    if v is None:
        return None
    g = lambda nm, k, *kd: A.get(nm) or Arr(nm, k, *kd)
    a = [U(n), g('q', n), g('r', n), g('T', 2, 'd'), U(K), A.get('l') or Arr('l', K, 'c', 'io'), g('a', K, 'c', 'out'), g('ap', K, 'c', 'out'), Null() if skip else g('b', K, 'c', 'out'), g('W', K, 'i', 'out') if W else Null(), I(v)]
    if fam == 'akns':
        a += [I({'KdV': 0, 'NSE': 1}[pde]), U(van)]
    return Case(('' if fam == 'akns' else 'fnft__') + fam + '_scatter_bound_states', a + [U(skip)])


def fwdbwd(P, disc, van, q, r, lam, T0, T1, D):
    """a, a' and candidates phi_1/psi_1 for n=0..D (terms)"""
    E = mul(T1 + (ZERO - T0) if False else X.add(T1, X.neg(T0)), const(Fraction(1, D - 1)))
    hb = mul(E, const(Fraction(1, 2)))
    l = Du(lam, 1)
    tl = C.of(X.add(T0, X.neg(hb))); tr = C.of(X.add(T1, hb))
    Bs, Bf = basis_to_S(P, disc, van, lam, E), basis_from_S(P, disc, van, lam, E)
    f = dexp(-(Du(IU * tl) * l))
    phi = [[Bf[0][0] * f], [Bf[1][0] * f]]
    PH = [phi]
    for n in range(D):
        phi = mm(step_matrix(disc, n, q, r, lam, E), phi); PH.append(phi)
    g = dexp(Du(IU * tr) * l)
    psi = [[Bf[0][1] * g], [Bf[1][1] * g]]
    PS = [psi]
    for n in reversed(range(D)):
        for x, y, z in reversed(step_exponents(disc, n, q, r, lam, E)):
            psi = mm(expm2(-x, -y, -z), psi)
        PS.append(psi)
    PS.reverse()
    a = mm(Bs, PH[D])[0][0] * g
    re = lambda z: C(z.re, ZERO)
    if P == 'KdV':
        av, ad = re(a.v), C(ZERO, a.d.im)
    else:
        av, ad = a.v, a.d
    cand = []
    for n in range(D + 1):
        u, w = mm(Bs, PH[n])[0][0].v, mm(Bs, PS[n])[0][0].v
        cand.append(re(u) / re(w) if P == 'KdV' else u / w)
    return av, ad, cand


def check(c):
    jobs = []
    for disc in SLOW:
        for fam, van in (('akns', 0), ('nse', 0), ('kdv', 0), ('kdv', 1)):
            for pde in (('NSE', 'KdV') if fam == 'akns' else (None,)):
                jobs.append((fam, disc, van, 2, 1, 0, 0, pde))
                jobs.append((fam, disc, van, 2, 1, 1, 1, pde))
                if disc == 'BO':
                    jobs.append((fam, disc, van, 2, 2, 0, 1, pde))
                if fam != 'akns':
                    jobs.append((fam, disc, van, 2, 1, 1, 0, pde))
    jobs.sort(key=lambda j: (j[6], -j[4]))
    c.parallel(run, jobs)
    battery(c)


def samp(k, rng):
    k = str(k)
    if k == 'T[0]': return mpf(rng.uniform(-1, -0.1))
    if k == 'T[1]': return mpf(rng.uniform(0.1, 1))
    return mpf(rng.uniform(-1, 1))


def run(c, fam, disc, van, D, K, W, skip, pde):
    cs = case(fam, disc, van, D, K, W, skip, pde)
    nm = '%s_scatter_bound_states %s%s%s D=%d K=%d%s%s' % (fam, disc, ' vanilla' if van else '', ' ' + pde if pde else '', D, K, ' W' if W else '', '' if skip else ' b')
    if cs is None:
        c.record(nm, 'undecided', '', 'discretization not found'); return
    try:
        e, R = cs.sym(c, contracts=dict(CSINC, **NV), generic=True)
    except Unsupported as u:
        c.record(nm, 'undecided', 'engine', u); return
    c.safety_fail(nm, cs, e)
    m = ups(disc); n = D * m
    q = [cvar('q[%d]' % k) for k in range(n)]; r = [cvar('r[%d]' % k) for k in range(n)]
    if fam == 'kdv' and not van:
        q, r = r, q
    P = pde or {'nse': 'NSE', 'kdv': 'KdV'}[fam]
    spec = [fwdbwd(P, disc, van, q, r, cvar('l[%d]' % k), var('T[0]'), var('T[1]'), D) for k in range(K)]
    good = 0
    for st in R:
        if st.retval != 0:
            if P == 'KdV' and abs(sret(st.retval)) == 3:
                continue
            if st.ghost.get('nomem'):
                continue
            c.fail_concrete(nm + ' succeeds', cs, lambda o: o['ret'] != 0, 'returned %s' % st.retval, {'T[0]': mpf(-1), 'T[1]': mpf(1)}); continue
        good += 1
        items = []
        for k in range(K):
            av, ad, cand = spec[k]
            a, ap = e.getc(st, cs.ptr['a'], k), e.getc(st, cs.ptr['ap'], k)
            if W:
                s, wh = full_scale(e.geti(st, cs.ptr['W'], k))
                if s is None:
                    c.record(nm, 'undecided', '', 'exponent %s' % wh); return
                t = expscale([mul(a.re, s), mul(a.im, s), mul(ap.re, s), mul(ap.im, s)])
                a, ap = C(t[0], t[1]), C(t[2], t[3])
            items += cpairs('a', k, a, av) + cpairs('ap', k, ap, ad)
        c.eq(nm + ': a and derivative', None if W else cs, st, items, sampler=samp, scope='bounded')
        if not skip:
            for k in range(K):
                b = e.getc(st, cs.ptr['b'], k)
                if W and b.re is not X.UNDEF and b.re is not X.NAN:
                    b = C(*expscale([b.re, b.im]))
                if P == 'KdV' and (b.re is X.UNDEF or b.re is X.NAN):
                    continue       # no sample satisfied the documented criterion
                hit = None
                for j, cd_ in enumerate(spec[k][2]):
                    ok, _, note = X.identical([(b.re, cd_.re), (b.im, cd_.im)], c.seed)
                    if ok:
                        hit = j; break
                if hit is not None:
                    c.record(nm + ': b is a ratio of the two solutions', 'bounded', note, 'sample %d' % hit)
                else:
                    # not an identity with one candidate: compare at real points of this path
                    conds = path_conds(st); best = None
                    for cd_ in spec[k][2]:
                        worst, wit, used = X.numeric_compare([(b.re, cd_.re), (b.im, cd_.im)], c.seed, points=2, conds=conds, sampler=samp, maxtry=12)
                        best = (worst, used) if best is None or worst < best[0] else best
                        if used == 0: break
                    nb = nm + ': b is a ratio of the two solutions'
                    if best[1] == 0:
                        c.record(nb, 'undecided', '', 'path condition not sampled')
                    elif best[0] < 1e-9:
                        c.record(nb, 'numeric', 'multi-precision evaluation', '')
                    else:
                        c.record(nb, 'refuted', 'multi-precision evaluation', 'b matches no ratio of the two solutions')
                        c.violation(nb, dict(obligation=nb, deviation=str(best[0])), False)
    if not good:
        c.record(nm, 'undecided', 'engine', 'no successful path')


def full_scale(w):
    if isinstance(w, int):
        return const(Fraction(2) ** w), w
    s = ONE
    for mo, k in w.d.items():
        if mo == ():
            s = mul(s, const(Fraction(2) ** k)); continue
        if len(mo) != 1:
            return None, w
        for _ in range(abs(k)):
            x = X.fn('exp', var('t:' + mo[0]))
            s = mul(s, x) if k < 0 else X.div(s, x)
    return s, w


LN2 = X.fn('log', const(2))


def expscale(terms):
    """2^-k of an integer variable k is exp(t_k) and k itself is -t_k/ln 2"""
    m = {}
    for n in X.topo(terms):
        if n.op == 'v' and n.a[0].startswith('2^-'):
            m[n] = X.fn('exp', var('t:' + n.a[0][3:]))
        elif n.op == 'v' and n.a[0].startswith('int:'):
            m[n] = X.neg(X.div(var('t:' + n.a[0][4:]), LN2))
    terms = X.subst(terms, m) if m else terms
    m = {n: X.fn('exp', mul(LN2, n.a[2])) for n in X.topo(terms) if n.op == 'fn' and n.a[0] == 'pow' and n.a[1] is const(2)}
    return X.subst(terms, m) if m else terms


# ------------------------------------------------------------- execution
def nwave(P, disc, van, q, r, lam, T0, T1, D):
    """long-double-free reference with running normalisation: returns (a, a', [(phi,psi) logs])"""
    eps = (T1 - T0) / (D - 1)
    B = nbasis(P, disc, van, lam, eps); Bi = np.linalg.inv(B)
    tl, tr = T0 - eps / 2, T1 + eps / 2
    v = np.array([1, 0, -1j * tl, 0], complex)       # times exp(-i lam tl)
    v = Bi @ v
    PH, LP = [v[:2].copy()], [0.0]
    L = 0.0
    for n in range(D):
        v = nstep(disc, n, q, r, lam, eps) @ v
        s = np.max(np.abs(v)); v = v / s; L += np.log(s)
        PH.append(v[:2].copy()); LP.append(L)
    f = B @ v
    lg = L + 1j * lam * (tr - tl)
    a0, ad0 = f[0], f[2] + 1j * tr * f[0]
    w = Bi[:2, :2] @ np.array([0, 1], complex)       # times exp(i lam tr)
    PS, LS = [w], [0.0]
    L = 0.0
    for n in reversed(range(D)):
        for M, _ in reversed(nexp(disc, n, q, r, lam, eps)):
            w = sla.expm(-M) @ w
        s = np.max(np.abs(w)); w = w / s; L += np.log(s)
        PS.append(w); LS.append(L)
    PS.reverse(); LS.reverse()
    cand = []
    for n in range(D + 1):
        u = (B[:2, :2] @ PH[n]) ; z = (B[:2, :2] @ PS[n])
        e1, e2 = LP[n] - 1j * lam * tl, LS[n] + 1j * lam * tr
        if P == 'KdV':
            # the exponentials are real for imaginary lam
            u = (u * np.exp(1j * e1.imag)).real; z = (z * np.exp(1j * e2.imag)).real
            e1, e2 = e1.real, e2.real
        with np.errstate(all='ignore'):
            b = u / z
            if P == 'KdV' and not (b[0] * b[1]).real > 0:
                continue
            met = abs(0.5 * np.log(abs(b[1] / b[0])))
        cand.append((met, b[0], e1 - e2))
    return (a0, ad0, lg), cand


def battery(c):
    rng = np.random.default_rng(c.seed + 4)
    items = []
    for disc in SLOW:
        for fam, van in (('akns', 0), ('nse', 0), ('kdv', 0), ('kdv', 1)):
            for pde in (('NSE', 'KdV') if fam == 'akns' else (None,)):
                for W in (0, 1):
                    for skip in (0, 1):
                        for D in (2, 5, 24):
                            for typ in ((0, 1) if D < 24 else (0, 1, 2, 3) if W else (0, 1)):
                                it = one(fam, disc, van, D, W, skip, pde, typ, rng)
                                if it: items.append(it)
    c.battery(items)


def one(fam, disc, van, D, W, skip, pde, typ, rng):
    P = pde or {'nse': 'NSE', 'kdv': 'KdV'}[fam]
    m = ups(disc); n = D * m; K = 2
    T = [(-1.0, 1.5), (-2.0, 1.0), (-40.0, 30.0), (10.0, 400.0)][typ]
    eps = (T[1] - T[0]) / (D - 1)
    sc = 1.0 if typ < 2 else 0.3
    if P == 'NSE':
        q = sc * (rng.normal(size=n) + 1j * rng.normal(size=n)); r = -np.conj(q) if typ != 1 else np.conj(q)
        lam = np.array([0.3 + 0.4j, -0.7 + 0.9j])
        if disc in ('ES4', 'TES4'):
            for x in (q, r): x[1::3] *= 0.1; x[2::3] *= 0.1
    else:
        q = sc * rng.normal(size=n) + 0j; r = -np.ones(n) + 0j
        if fam == 'kdv' and not van: pass
        lam = np.array([0.45j, 1.1j])
        if disc in ('ES4', 'TES4'):
            q[1::3] *= 0.1; q[2::3] *= 0.1; r[1::3] = 0; r[2::3] = 0
        if disc in ('CF5_3', 'CF6_4') and False:
            return None
    if fam == 'kdv' and van == 0 or (fam == 'akns' and P == 'KdV' and typ == 1 and not van):
        pass
    qi, ri = q, r
    if P == 'KdV' and not (fam == 'kdv' and van) :
        # non vanilla AKNS: q <-> r swapped by the kdv wrapper
        qe, re_ = r, q
        if fam == 'akns':
            qi, ri = r, q
    else:
        qe, re_ = q, r
    cplx = P == 'KdV' and disc in ('CF5_3', 'CF6_4')
    arrs = dict(q=RawArr('q', qi), r=RawArr('r', ri), T=RawArr('T', np.array(T)), l=RawArr('l', lam, 'io'), a=RawArr('a', np.full(K, 7e70 + 0j), 'out'), ap=RawArr('ap', np.full(K, 7e70 + 0j), 'out'), b=RawArr('b', np.full(K, 7e70 + 0j), 'out'), W=RawArr('W', np.full(K, 77, np.int32), 'out'))
    cs = case(fam, disc, van, D, K, W, skip, pde, arrs)
    if cs is None:
        return None
    lab = '%s %s van=%d W=%d skip=%d %s compiled D=%d set %d' % (fam, disc, van, W, skip, pde, D, typ)
    def judge(o):
        if o['ret'] != 0:
            return 'returned %d' % o['ret']
        if not o['guards']:
            return 'memory outside the buffers or an input was modified'
        if not np.array_equal(o['l'], lam):
            return 'the list of bound states was modified'
        if not skip and o.get('b') is None:
            return None
        for k in range(K):
            (a0, ad0, lg), cand = nwave(P, disc, van, qe, re_, lam[k], T[0], T[1], D)
            if abs(lg.real) > 600 and not W:
                continue
            ww = int(o['W'][k]) if W else 0
            # compare a and a' after dividing by the common huge factor
            sh = np.exp(1j * lg.imag)
            wa, wd = a0 * sh, ad0 * sh
            scale = np.exp(ww * np.log(2) - lg.real)
            ga, gd = o['a'][k] * scale, o['ap'][k] * scale
            if P == 'KdV':
                wa, wd = wa.real, 1j * wd.imag
            mg = max(abs(wa), abs(wd), 1e-3)
            if not abs(ga - wa) < 1e-6 * mg or not abs(gd - wd) < 1e-6 * mg:
                return 'lambda=%s: a=%s a_prime=%s, direct scattering gives %s and %s (common factor exp(%s) removed)' % (lam[k], ga, gd, wa, wd, lg.real)
            if skip:
                continue
            if not cand:
                continue
            mn = min(x[0] for x in cand)
            if not np.isfinite(mn):
                continue           # the criterion is finite at no sample
            okc = [x for x in cand if x[0] <= mn + 1e-5]
            if any(abs(x[2].real if isinstance(x[2], complex) else x[2]) > 600 for x in okc):
                continue
            ws = [x[1] * np.exp(x[2]) for x in okc]
            if not any(abs(o['b'][k] - w) <= (1e-4 if typ < 2 else 0.02) * max(abs(w), 1e-12) for w in ws):
                return 'lambda=%s: b=%s, ratio of left and right solution at the best matching sample %s' % (lam[k], o['b'][k], ws[0])
    return lab, cs, judge, dict(discretization=disc, D=D, T=T, q=[str(x) for x in qi], r=[str(x) for x in ri], lam=[str(x) for x in lam])
