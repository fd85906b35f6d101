"""P01: fast polynomial products."""
from contracts import *
LEVEL = 'other'
NOTE = 'All coefficients symbolic; degree and number of factors range over the listed grid (bounded in size, unbounded in data). Exact arithmetic; FFT replaced by its contract (P09).'
SOURCES = ['poly_fmult', 'fnft__misc', 'fft_wrapper', 'kiss_fft.c']


def rescale_contract(m):
    """poly_rescale: every coefficient multiplied by the same power of two 2^-a, returns a"""
    def f(e, st, a):
        d, ptrs = a[0], a[1:]
        w = e.freshint(st, 'a', -1000, 1000)
        s = var('2^-' + list(w.d)[0][0])
        for p in ptrs:
            for k in range(d + 1):
                z = e.getc(st, p, k)
                e.putc(st, p, k, C(mul(z.re, s), mul(z.im, s)))
        return w
    return f


def normvec(e, st, a):
    """misc_normalize_vector(len, v): v scaled by 2^-a, returns a"""
    n, p = a
    w = e.freshint(st, 'a', -1000, 1000)
    s = var('2^-' + list(w.d)[0][0])
    for k in range(n):
        z = e.getc(st, p, k)
        e.putc(st, p, k, C(mul(z.re, s), mul(z.im, s)))
    return w


RS = {'poly_rescale2x2': rescale_contract(2), 'poly_rescale3x3': rescale_contract(3), 'poly_rescale': rescale_contract(1), 'fnft__misc_normalize_vector': normvec, 'misc_normalize_vector': normvec}


def npow2(n):
    k = 1
    while k < n:
        k *= 2
    return k


def scale_of(st, Wv):
    """2^-W as the product of the scale symbols, from the integer polynomial W"""
    if isinstance(Wv, int):
        return ONE if Wv == 0 else const(Fraction(2) ** (-Wv))
    s = ONE
    for mo, cf_ in Wv.d.items():
        if len(mo) != 1 or cf_ < 0:
            return None
        for _ in range(cf_):
            s = mul(s, var('2^-' + mo[0]))
    return s


def check(c):
    one = [(1, 1), (0, 3), (1, 2), (1, 3), (2, 4), (2, 5), (3, 2), (1, 7), (4, 3), (1, 9)]
    two = [(1, 1), (2, 1), (1, 2), (1, 3), (2, 4), (1, 5), (3, 2), (2, 6), (1, 8), (4, 3), (6, 2)]
    thr = [(1, 1), (1, 2), (1, 3), (2, 4), (1, 5), (3, 2)]
    if c.tier == 'thorough':
        two += [(1, 11), (2, 13), (5, 6), (12, 3), (15, 4), (1, 16)]
        thr += [(2, 7), (4, 4), (1, 9)]
        one += [(5, 11), (1, 17), (7, 8)]
    for withW in (0, 1):
        for deg, n in one:
            run(c, 1, deg, n, withW)
        for deg, n in two:
            run(c, 2, deg, n, withW)
        for deg, n in thr:
            run(c, 3, deg, n, withW)
    rescales(c)
    numels(c)
    battery(c)


def run(c, m, deg, n, withW):
    fn = {1: 'fnft__poly_fmult', 2: 'fnft__poly_fmult2x2', 3: 'fnft__poly_fmult3x3'}[m]
    cap = m * m * (deg + 1) * npow2(n)
    used = m * m * (deg + 1) * n
    p = Arr('p', cap, role='io', init=[cvar('p[%d]' % k) for k in range(used)] + [C.of(0)] * (cap - used))
    d = Arr('d', 1, 'u', 'io', init=[deg])
    W = Arr('W', 1, 'i', 'io', init=[0]) if withW else Null()
    args = [d, U(n), p] + ([Arr('r', cap, role='out')] if m > 1 else []) + [W]
    cs = Case(fn, args)
    nm = '%s deg=%d n=%d %s' % (fn, deg, n, 'normalised' if withW else '')
    try:
        e, R = cs.sym(c, contracts=dict(FFT, **RS))
    except Unsupported as u:
        c.record(nm, 'undecided', 'engine', u); return
    c.safety_fail(nm, cs, e)
    mats = []
    for i in range(n):
        mats.append([[[cvar('p[%d]' % (((r * m + q) * n + i) * (deg + 1) + k)) for k in range(deg + 1)] for q in range(m)] for r in range(m)])
    spec = prod_polymats(mats, m)
    L = n * deg + 1
    out = 'r' if m > 1 else 'p'
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval):
            continue
        dv = e.getu(st, cs.ptr['d'])
        if dv != L - 1:
            c.fail_concrete(nm + ' degree', cs, lambda o: int(o['d'][0]) != L - 1, 'degree %s, contract %d' % (dv, L - 1)); continue
        s = ONE
        if withW:
            Wv = e.geti(st, cs.ptr['W'])
            s = scale_of(st, Wv)
            if s is None:
                c.record(nm, 'undecided', '', 'exponent %s' % Wv); continue
        items = []
        for r in range(m):
            for q in range(m):
                for k in range(L):
                    z = spec[r][q][k]
                    items += cpairs(out, (r * m + q) * L + k, e.getc(st, cs.ptr[out], (r * m + q) * L + k), C(mul(z.re, s), mul(z.im, s)))
        c.eq(nm, None if withW else cs, st, items, scope='bounded')


def rescales(c):
    """each rescale helper scales all coefficients by one and the same power of two, which it returns"""
    for m, d in ((2, 0), (3, 0), (1, 1)):
        fn = {1: 'fnft__misc_normalize_vector', 2: 'poly_rescale2x2', 3: 'poly_rescale3x3'}[m]
        if m == 1:
            cs = Case(fn, [U(d + 1), Arr('v', d + 1, role='io')])
            names = ['v']
        else:
            names = ['a%d' % k for k in range(m * m)]
            cs = Case(fn, [U(d)] + [Arr(x, d + 1, role='io') for x in names], stem='fnft__poly_fmult')
        try:
            e, R = cs.sym(c)
        except Unsupported as u:
            c.record(fn, 'undecided', 'engine', u); continue
        for st in R:
            items = []
            # the returned integer is floor(log2(max)); scale is 2^-that: read the scale off the terms
            w = st.retval
            for x in names:
                for k in range(d + 1):
                    z = e.getc(st, cs.ptr[x], k); o = cvar('%s[%d]' % (x, k))
                    if w == 0 and z.re is o.re:
                        continue
                    f = div(z.re, o.re)
                    items.append((None, mul(z.im, o.re), mul(z.re, o.im)))
                    items.append((None, f, div(e.getc(st, cs.ptr[names[0]], 0).re, cvar(names[0] + '[0]').re)))
            if items:
                c.eq(fn + ' common factor', None, st, items, scope='bounded')


def numels(c):
    import ctypes as ct
    L = replay.lib('real')
    for fn, m in (('fnft__poly_fmult_numel', 1), ('fnft__poly_fmult2x2_numel', 2), ('fnft__poly_fmult3x3_numel', 3)):
        for deg in (0, 1, 2, 7):
            for n in list(range(1, 70)) + [127, 128, 129, 1000, 1024, 1025]:
                cs = Case(fn, [U(deg), U(n)], ret='size')
                if n < 20:
                    e, R = cs.sym(c)
                    v = R[0].retval
                    c.truth('%s(%d,%d) announces enough' % (fn, deg, n), v >= m * m * (deg + 1) * npow2(n), scope='bounded')
                v = cs.conc({})['ret']; c.evals += 1
                if v < m * m * (deg + 1) * npow2(n):
                    c.violation(fn, dict(function=fn, deg=deg, n=n, returned=v, needed=m * m * (deg + 1) * npow2(n)), True)
                    return


def battery(c):
    """bounded stand-in on the compiled code: contracts evaluated for sizes the symbolic grid does not reach"""
    import numpy as np
    rng = np.random.default_rng(c.seed)
    sizes = [(1, n) for n in (1, 2, 3, 6, 7, 9, 15, 16, 17, 31, 33, 64, 100)] + [(2, 1), (2, 12), (2, 33), (3, 5), (4, 21), (5, 3), (6, 17), (12, 5), (15, 6), (24, 9), (31, 2), (105, 3), (0, 5)]
    if c.tier == 'thorough':
        sizes += [(1, 257), (1, 1000), (4, 129), (12, 65), (105, 9)]
    for m in (1, 2, 3):
        for deg, n in sizes:
            for withW in (0, 1):
                for amp in ((1.0,) if not withW else (1.0, 37.0)):
                    if not one_battery(c, m, deg, n, withW, amp, rng):
                        return


def one_battery(c, m, deg, n, withW, amp, rng):
    import numpy as np
    fn = {1: 'fnft__poly_fmult', 2: 'fnft__poly_fmult2x2', 3: 'fnft__poly_fmult3x3'}[m]
    M = (rng.normal(size=(n, m, m, deg + 1)) + 1j * rng.normal(size=(n, m, m, deg + 1))) * amp / np.sqrt(2.0 * m * (deg + 1))
    cap = m * m * (deg + 1) * npow2(n); used = m * m * (deg + 1) * n
    flat = M.transpose(1, 2, 0, 3).reshape(-1)
    buf = np.zeros(cap, complex); buf[:used] = flat; buf[used:] = 3e5
    args = [Arr('d', 1, 'u', 'io', init=[deg]), U(n), RawArr('p', buf, 'io')] + ([RawArr('r', np.full(cap, 1e77 + 0j), 'out')] if m > 1 else []) + [RawArr('W', np.zeros(1, np.int32), 'io') if withW else Null()]
    cs = Case(fn, args)
    nm = '%s compiled deg=%d n=%d W=%d' % (fn, deg, n, withW)
    ok, out = c.run_case(cs, nm)
    if not ok:
        return False
    L = n * deg + 1
    # spec by evaluation at roots of unity
    Z = L
    F = np.fft.fft(M, n=Z, axis=3)
    acc = F[0]
    for i in range(1, n):
        acc = np.einsum('ijk,jlk->ilk', acc, F[i])
    spec = np.fft.ifft(acc, axis=2)
    got = (out['r'] if m > 1 else out['p'])[:m * m * L].reshape(m, m, L)
    sc = 2.0 ** int(out['W'][0]) if withW else 1.0
    err = np.max(np.abs(got * sc - spec)) / max(np.max(np.abs(spec)), 1e-300)
    bad = None
    if out['ret'] != 0 or int(out['d'][0]) != L - 1:
        bad = 'return %d degree %d' % (out['ret'], out['d'][0])
    elif not err < 1e-9:
        bad = 'relative error %g' % err
    elif not out['guards']:
        bad = 'memory outside the announced buffers was modified'
    elif withW and n > 1 and deg > 0 and not (0.2 < np.max(np.abs(got)) < 2.1) and np.max(np.abs(spec)) > 0:
        bad = 'not normalised: max coefficient %g' % np.max(np.abs(got))
    c.record(nm, 'bounded' if not bad else 'refuted', 'execution', bad or '')
    if bad:
        c.violation(nm, dict(function=fn, deg=deg, n=n, W=withW, seed=c.seed, observed=bad, p=[str(x) for x in flat[:12]]), True)
    return not bad
