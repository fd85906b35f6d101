"""P09: polynomial evaluation, chirp transform, FFT."""
from contracts import *
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification: evaluation, chirp transform, FFT butterflies and FFT wrapper under contracts, identities in all coefficients and points; compiled instances against the defining sums'
NOTE = 'All coefficients and evaluation points symbolic; degree, number of points and transform length range over the listed grid (bounded in size, unbounded in data). Exact arithmetic.'
SOURCES = ['poly_eval', 'poly_chirpz', 'fft_wrapper', 'kiss_fft.c', 'fnft__misc']


def check(c):
    jobs = [('ev', d, nz) for d in (0, 1, 2, 3, 5, 8) for nz in ((0, 1, 2) if d < 4 else (1,))] + [('dv', d, nz) for d in (0, 1, 2, 3, 5) for nz in ((0, 1, 2) if d < 4 else (1,))]
    jobs += [('cz', d, M) for d, M in ((0, 1), (0, 3), (1, 1), (1, 2), (2, 3), (3, 2), (4, 1), (4, 6), (7, 3))]
    ffts = list(range(1, 17)) + [18, 20, 21, 22, 25, 27, 30]
    if c.tier == 'thorough':
        ffts += [32, 35, 36, 40, 45, 49, 60, 64]
    jobs += [('ff', n, inv) for n in ffts for inv in (0, 1)]
    c.parallel(job, jobs)
    battery(c)


def job(c, kind, a, b):
    if c.viol:
        return
    {'ev': lambda: evals(c, a, b, 0), 'dv': lambda: evals(c, a, b, 1), 'cz': lambda: chirp(c, a, b), 'ff': lambda: fft(c, a, b)}[kind]()


def evals(c, deg, nz, der):
    p = Arr('p', deg + 1)
    z = Arr('z', nz, role='io')
    cs = Case('fnft__poly_evalderiv' if der else 'fnft__poly_eval', [U(deg), p, U(nz), z] + ([Arr('dz', nz, role='out')] if der else []))
    nm = '%s deg=%d points=%d' % (cs.fname, deg, nz)
    e, R = cs.sym(c)
    c.safety_fail(nm, cs, e)
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        it = []
        for k in range(nz):
            x = cvar('z[%d]' % k); v = C.of(0); d = C.of(0)
            for j in range(deg + 1):
                d = d * x + v; v = v * x + cvar('p[%d]' % j)
            it += cpairs('z', k, e.getc(st, cs.ptr['z'], k), v)
            if der:
                it += cpairs('dz', k, e.getc(st, cs.ptr['dz'], k), d)
        if it:
            c.eq(nm, cs, st, it, scope='bounded', sampler=lambda k, rng: mpf(rng.uniform(-2, 2)) if rng.random() < .6 else mpf(rng.uniform(-.6, .6)))


def cpow_log(e, st, a):
    """base^r = exp(r*log(base)) with one fixed branch of the logarithm per base"""
    if not (a[3] is ZERO):
        raise Unsupported('complex exponent')
    if a[0].op != 'v' or not str(a[0].a[0]).endswith('.re'):
        raise Unsupported('cpow of a compound term')
    n = str(a[0].a[0])[:-3]
    if n == 'A' and a[2].op == 'c' and a[2].a[0].denominator == 1:
        r = C(a[0], a[1]) ** int(a[2].a[0])
    else:
        r = X.cexp(C(a[2], ZERO) * cvar('log' + n))
    return (r.re, r.im)


def chirp(c, deg, M):
    cs = Case('fnft__poly_chirpz', [U(deg), Arr('p', deg + 1), Z('A'), Z('W'), U(M), Arr('r', M, role='out')])
    nm = 'poly_chirpz deg=%d M=%d' % (deg, M)
    e, R = cs.sym(c, contracts=dict(FFT, cpow=cpow_log))
    c.safety_fail(nm, cs, e)
    A, LW = cvar('A'), cvar('logW')
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        it = []
        for k in range(M):
            v = C.of(0)
            for j in range(deg + 1):        # coefficient of z^n, n = deg-j, at z = 1/(A W^-k)
                n = deg - j
                t = cvar('p[%d]' % j)
                if n:
                    t = t / (A ** n)
                    if k: t = t * X.cexp(C.of(n * k) * LW)
                v = v + t
            it += cpairs('r', k, e.getc(st, cs.ptr['r'], k), v)
        c.eq(nm, cs, st, it, scope='bounded', fns=None)
    leak = [o.name for st in R for o in st.live_heap()]
    c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))


def fft(c, n, inv):
    """kiss_fft_alloc followed by kiss_fft, bodies executed"""
    nm = 'kiss_fft n=%d %s' % (n, 'inverse' if inv else 'forward')
    e = c.engine({})
    st = State()
    i = st.new(16 * n, 'arg', 'x', ro=True); o = st.new(16 * n, 'arg', 'y')
    for k in range(n):
        z = cvar('x[%d]' % k)
        i.cells[16 * k] = (z.re, 8); i.cells[16 * k + 8] = (z.im, 8)
    its = 0
    for s1 in e.call('kiss_fft_alloc', [n, inv, 0, 0], st):
        plan = s1.retval
        if not isinstance(plan, Ptr):
            c.record(nm, 'undecided', 'engine', 'no plan'); return
        s1.ghost['heap0'] = [x.id for x in s1.live_heap()]
        for s2 in e.call('kiss_fft', [plan, Ptr(i.id, 0), Ptr(o.id, 0)], s1):
            it = []
            for k in range(n):
                v = C.of(0)
                for j in range(n):
                    v = v + cvar('x[%d]' % j) * omega(n, j * k, 1 if inv else -1)
                it += cpairs('y', k, e.getc(s2, Ptr(o.id, 0), k), v)
            c.eq(nm, FFTCase(n, inv), s2, it, scope='bounded'); its += 1
            left = [x.name for x in s2.live_heap() if x.id not in s1.ghost['heap0']]
            if left:
                c.fail_concrete(nm + ' releases temporary memory', None, None, str(left))
    c.note_engine(e, 'kiss_fft'); c.note_engine(e, 'kiss_fft_alloc')
    if e.fails:
        c.record(nm + ' [safety]', 'refuted', '', e.fails[0][1]); c.violation(nm, dict(detail=e.fails[0][1]), False)
    else:
        c.safety_ok(nm, e, 'bounded')


class FFTCase:
    fname = 'kiss_fft'

    def __init__(s, n, inv): s.n, s.inv = n, inv
    def __repr__(s): return 'kiss_fft(n=%d,inverse=%d)' % (s.n, s.inv)

    def conc(s, assign, variant='real'):
        L = replay.lib(variant)
        L.kiss_fft_alloc.restype = ct.c_void_p
        pl = L.kiss_fft_alloc(ct.c_size_t(s.n), ct.c_size_t(s.inv), None, None)
        x = np.array([complex(float(assign['x[%d].re' % k]), float(assign['x[%d].im' % k])) for k in range(s.n)])
        y = np.full(s.n + 8, SENT)
        L.kiss_fft(ct.c_void_p(pl), ct.c_void_p(x.ctypes.data), ct.c_void_p(y.ctypes.data))
        return dict(ret=0, y=y[:s.n], guards=bool(np.all(y[s.n:] == SENT)))


class NP:
    """any thunk as a battery case"""

    def __init__(s, fname, f, desc=''): s.fname, s.f, s.assign, s.desc = fname, f, None, desc
    def __repr__(s): return s.desc or s.fname
    def conc(s, a, variant='real'): return s.f()


def battery(c):
    rng = np.random.default_rng(c.seed + 9)
    items = []
    cr = lambda n: rng.normal(size=n) + 1j * rng.normal(size=n)
    degs = [0, 1, 2, 3, 4, 7, 10, 16, 31, 64, 100, 257]
    for deg in degs:
        for nz in (0, 1, 2, 5, 17):
            p = cr(deg + 1); z = cr(nz)
            z *= np.exp(rng.uniform(-1.5, 1.5, size=nz) / max(1, deg / 6)) / np.abs(z)
            if nz > 2: z[1] = 0; z[2] = 1j
            for der in (0, 1):
                cs = Case('fnft__poly_evalderiv' if der else 'fnft__poly_eval', [U(deg), RawArr('p', p), U(nz), RawArr('z', z, 'io')] + ([RawArr('dz', np.full(nz, 1e70 + 0j), 'out')] if der else []))
                def judge(o, p=p, z=z, der=der, deg=deg):
                    if o['ret'] != 0: return 'returned %d' % o['ret']
                    if not o['guards']: return 'memory outside the arrays modified'
                    for k in range(len(z)):
                        pw = [mpmath.mpc(z[k]) ** (deg - j) for j in range(deg + 1)]
                        v = sum(mpmath.mpc(a) * b for a, b in zip(p, pw)); s = sum(abs(a) * abs(b) for a, b in zip(p, pw))
                        if not abs(mpmath.mpc(o['z'][k]) - v) <= 1e-10 * (deg + 2) * s: return 'p(%s) = %s instead of %s' % (z[k], o['z'][k], mpmath.nstr(v, 17))
                        if der:
                            pd = [(deg - j) * (mpmath.mpc(z[k]) ** (deg - j - 1) if deg > j else 0) for j in range(deg + 1)]
                            v = sum(mpmath.mpc(a) * b for a, b in zip(p, pd)); s = sum(abs(a) * abs(b) for a, b in zip(p, pd)) + (0 if abs(z[k]) == 0 else sum(abs(a) * abs(b) for a, b in zip(p, pw)) / abs(z[k]))
                            if not abs(mpmath.mpc(o['dz'][k]) - v) <= 1e-10 * (deg + 2) * s + 1e-300: return "p'(%s) = %s instead of %s" % (z[k], o['dz'][k], mpmath.nstr(v, 17))
                items.append(('%s deg=%d nz=%d executed' % (cs.fname, deg, nz), cs, judge, dict(p=str(list(p[:4])), z=str(list(z[:5])))))
    for deg, M in [(0, 1), (0, 7), (1, 1), (1, 2), (3, 1), (3, 2), (5, 5), (2, 9), (9, 2), (16, 16), (15, 17), (31, 32), (33, 31), (64, 3), (3, 64), (100, 250), (255, 256), (256, 257), (700, 300)]:
        for shape in range(3):
            p = cr(deg + 1)
            A = np.exp((0 if shape < 2 else rng.uniform(-.3, .3) / max(1, deg)) + 1j * rng.uniform(-3, 3)); W = np.exp((0 if shape < 2 else rng.uniform(-.2, .2) / max(1, deg * M)) + 1j * rng.uniform(-3, 3) / (1 if shape == 0 else M))
            args = [U(deg), RawArr('p', p), Z(C.of(X.const(Fraction(A.real))) + IU * C.of(X.const(Fraction(A.imag)))), Z(C.of(X.const(Fraction(W.real))) + IU * C.of(X.const(Fraction(W.imag)))), U(M), RawArr('r', np.full(M, 1e70 + 0j), 'out')]
            cs = Case('fnft__poly_chirpz', args)
            def judge(o, p=p, A=A, W=W, deg=deg, M=M):
                if o['ret'] != 0: return 'returned %d' % o['ret']
                if not o['guards']: return 'memory outside the arrays modified'
                k = np.arange(M)
                x = (1 / A) * np.exp(k * np.log(W))
                want = np.polyval(p, x); s = np.polyval(np.abs(p), np.abs(x))
                bad = np.abs(o['r'] - want) > 1e-7 * s
                if bad.any() or not np.all(np.isfinite(o['r'])): return 'point %d: %s instead of %s' % (np.argmax(bad), o['r'][np.argmax(bad)], want[np.argmax(bad)])
            items.append(('poly_chirpz deg=%d M=%d executed' % (deg, M), cs, judge, dict(A=str(A), W=str(W))))
    lens = list(range(1, 130)) + [143, 169, 187, 210, 221, 243, 251, 256, 289, 343, 360, 500, 512, 625, 729, 1000, 1001, 1021, 1024, 2048, 2187, 3125, 3600, 4096]
    for n in lens:
        for inv in (0, 1):
            for inplace in ((0, 1) if n < 40 else (0,)):
                x = cr(n)
                def f(n=n, inv=inv, x=x, inplace=inplace):
                    L = replay.lib('real'); L.kiss_fft_alloc.restype = ct.c_void_p
                    pl = L.kiss_fft_alloc(ct.c_size_t(n), ct.c_size_t(inv), None, None)
                    b = np.full(n + 16, SENT); b[8:8 + n] = x
                    y = np.full(n + 16, SENT)
                    po = (b if inplace else y).ctypes.data + 128
                    L.kiss_fft(ct.c_void_p(pl), ct.c_void_p(b.ctypes.data + 128), ct.c_void_p(po))
                    r = b if inplace else y
                    return dict(y=r[8:8 + n].copy(), ok=bool(np.all(r[:8] == SENT) and np.all(r[8 + n:] == SENT)) and (inplace or bool(np.all(b[8:8 + n] == x))))
                def judge(o, x=x, n=n, inv=inv):
                    want = np.fft.ifft(x) * n if inv else np.fft.fft(x)
                    if not np.max(np.abs(o['y'] - want)) <= 1e-9 * max(1, np.sum(np.abs(x))): return 'transform differs from the defining sum'
                    if not o['ok']: return 'input or memory outside the output modified'
                items.append(('kiss_fft n=%d inverse=%d in place=%d executed' % (n, inv, inplace), NP('kiss_fft', f, 'kiss_fft(n=%d,inverse=%d,in place=%d)' % (n, inv, inplace)), judge, dict(n=n, inverse=inv)))
    for n in list(range(1, 600)) + [1023, 1025, 2049, 5001, 32767, 65537, 1000001]:
        cs = Case('kiss_fft_next_fast_size', [U(n)], ret='size')
        def judge(o, n=n):
            v = int(o['ret']); m = v
            for f in (2, 3, 5):
                while m % f == 0 and m: m //= f
            if v < n: return 'recommended %d < requested %d' % (v, n)
            if v > 2 * n: return 'recommended %d > 2*%d' % (v, n)
        items.append(('next_fast_size(%d)' % n, cs, judge, {}))
    c.battery(items)
