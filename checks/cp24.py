"""P24: root search, root solver wrapper and message forwarding."""
from api import *
from cp09 import NP
from cp10 import gt, carr, need, chirpz_contract
from harness import Arg
import ctypes as ct, mpmath
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of the grid searches over the contract of the chirp transform (P09) and of the wrapper of the root solver; compiled searches against polynomials with known roots; message forwarding under contract'
NOTE = 'Grid search: interval, roots and values symbolic, 2-6 grid points. The external eigenvalue solver (Fortran, degree >= 3) is trusted symbolically and checked by execution.'
SOURCES = ['poly_roots', 'poly_chirpz', 'poly_eval', 'errwarn', 'fnft_version', 'fft_wrapper', 'kiss_fft.c']
from engine import PathEnd, Unsupported, I32, Ptr, Alts


def check(c):
    warm('nsev')
    jobs = [(linear, M) for M in (2, 3, 4)] + [(free, M) for M in (2, 3, 4)] + [(paraherm, M, deg) for M in (2, 3, 4, 5) for deg in (2, 4)]
    jobs += [(direct, n, z) for n in (0, 1, 2) for z in (0, 1, 2)] + [(solver, n, z) for n in (3, 5) for z in (0, 1, 3)]
    jobs += [(bad, f) for f in ('', '_paraherm')] + [(messages,)]
    c.parallel(disp, jobs)
    battery(c)


def disp(c, f, *a): f(c, *a)


def same(a, b):
    return X.identical([(a.re, b.re), (a.im, b.im)], 5)[0] is True


# ------------------------------------------------------------------ grid search
def ring(e, st, a, eps, phi0):
    """which ring and which grid the transform is asked for"""
    deg, p, Ar, Ai, Wr, Wi, M, res = a
    A, W = C(Ar, Ai), C(Wr, Wi); b = cexp(C(ZERO, X.neg(phi0)))
    ok = same(W, cexp(C(ZERO, eps)))
    one = const(1)
    for r, fs in ((0, [one]), (1, [add(one, eps), div(one, sub(one, eps))]), (-1, [sub(one, eps), div(one, add(one, eps))])):
        for f in fs:
            if same(A, b * C(f)): return r, ok
    return None, ok


def gcase(M, deg, tail=''):
    return Case('fnft__poly_roots_fftgridsearch' + tail, [U(deg), Arr('p', deg + 1), Arr('M', 1, 'u', 'io', init=[M]), Arr('PHI', 2, 'd'), Arr('roots', M, role='out')])


def samp(k, rng):
    if k == 'PHI[0]': return mpf(rng.uniform(-3, 0))
    if k == 'PHI[1]': return mpf(rng.uniform(.3, 1.5))
    if k in ('u', 'v'): return mpf(rng.uniform(-.3, .3))
    return mpf(rng.uniform(.2, 1))


def pre(e, st, cs): gt(st, var('PHI[1]'), var('PHI[0]'))


def linear(c, M):
    """on data that is linear around a grid point the search returns exactly the zero of that linear function"""
    for i0 in range(1, max(M - 1, 2)):
        p0, p1 = var('PHI[0]'), var('PHI[1]'); eps = div(sub(p1, p0), const(M - 1))
        zg = lambda k, j: C(sub(const(1), mul(const(k), eps))) * cexp(C(ZERO, add(p0, mul(const(j), eps))))
        r = zg(0, i0) * (C(const(1)) + C(eps) * C(var('u'), var('v')))
        s = C(var('sr'), var('si'))
        nm = 'poly_roots_fftgridsearch M=%d, linear data with zero near point %d' % (M, i0)
        def cz(e, st, a):
            k, ok = ring(e, st, a, eps, p0)
            if k is None or not ok: e.ob('ring', False, st, 'transform on another grid'); raise PathEnd('grid')
            if a[6] != M: e.ob('ring', False, st, 'number of grid points'); raise PathEnd('grid')
            st.ghost['rings'] = st.ghost.get('rings', ()) + (k,)
            for j in range(M): e.putc(st, a[7], j, s * (zg(k, j) - r))
            return 0
        cs = gcase(M, 3)
        e, R = cs.sym(c, contracts={'fnft__poly_chirpz': cz}, pre=pre, generic=True)
        c.safety_fail(nm, cs, e)
        if not R: c.record(nm, 'undecided', 'engine', 'no path')
        miss = []
        for st in R:
            if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
            n = e.getu(st, cs.ptr['M'])
            c.truth(nm + ': number of roots', isinstance(n, int) and 0 <= n <= max(M - 2, 0)) or c.fail_concrete(nm + ': number', None, None, str(n))
            leak = st.live_heap(); c.truth(nm + ' releases its memory', not leak) or c.fail_concrete(nm + ' memory', None, None, '')
            if not isinstance(n, int): continue
            if M > 2 and n != 1: miss.append((st, n))
            for k in range(n):
                z = e.getc(st, cs.ptr['roots'], k)
                c.eq(nm + ': root %d of %d' % (k, n), None, st, [(None, z.re, r.re), (None, z.im, r.im)], scope='bounded', sampler=samp)
        # on a fine grid no path that misses the zero (or reports it twice) is feasible
        for n in taken(miss, near, 20):
            c.truth(nm + ': exactly one root', n is None, scope='bounded') or c.fail_concrete(nm + ': exactly one root', None, None, '%d roots returned' % n)


def absd(a, b): return X.sqrt(add(mul(sub(a.re, b.re), sub(a.re, b.re)), mul(sub(a.im, b.im), sub(a.im, b.im))))


def free(c, M):
    """arbitrary values on the grid: memory safety, rings examined, no more roots than interior points"""
    p0, p1 = var('PHI[0]'), var('PHI[1]'); eps = div(sub(p1, p0), const(M - 1))
    nm = 'poly_roots_fftgridsearch M=%d, arbitrary values' % M
    def cz(e, st, a):
        k, ok = ring(e, st, a, eps, p0)
        c.truth(nm + ': grid', k is not None and ok and a[6] == M, scope='bounded') or c.fail_concrete(nm + ': grid', None, None, 'ring %s' % k)
        need(e, st, carr(e, st, a[1], a[0] + 1), 'poly_chirpz')
        st.ghost['rings'] = st.ghost.get('rings', ()) + (k,)
        for j in range(M): e.putc(st, a[7], j, X.cvar('y%s_%d' % (k, j)))
        return 0
    cs = gcase(M, 2)
    e, R = cs.sym(c, contracts={'fnft__poly_chirpz': cz}, pre=pre, generic=True, max_states=3000)
    c.safety_fail(nm, cs, e)
    if not R: c.record(nm, 'undecided', 'engine', 'no path')
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        ok = sorted(st.ghost.get('rings', ())) == [-1, 0, 1]
        c.truth(nm + ': three rings', ok, scope='bounded') or c.fail_concrete(nm + ': rings', None, None, str(st.ghost.get('rings')))
        n = e.getu(st, cs.ptr['M'])
        c.truth(nm + ': number of roots', isinstance(n, int) and 0 <= n <= max(M - 2, 0), scope='bounded') or c.fail_concrete(nm + ': number', None, None, str(n))
        for k in range(n if isinstance(n, int) else 0):
            z = e.getc(st, cs.ptr['roots'], k); ok = z.re is not X.UNDEF and z.im is not X.UNDEF
            c.truth(nm + ': written', ok, scope='bounded') or c.fail_concrete(nm + ': written', None, None, '')
            if ok and M == 3:
                for v in points(st, [z.re, z.im, p0, eps], signed, 40, 6.):
                    d = abs(complex(v[0], v[1]) - np.exp(1j * float(v[2] + v[3]))) / float(v[3])
                    c.truth(nm + ': close to the grid point', d < 1.5, scope='bounded') or c.fail_concrete(nm + ': close to the grid point', None, None, '%g grid steps' % d)


def sgn(x, y): return '<' if x < y else '>' if x > y else '='


def points(st, exprs, sampler, want, secs=3.):
    """values of the expressions at sampled points that satisfy the path conditions"""
    import random, time
    rng = random.Random(24); t0 = time.time(); out = []
    conds = [(p, a, b) for k, p, a, b in [f for f in st.path if f[0] == 'f' and len(f) == 4] if p != '<>']
    while len(out) < want and time.time() - t0 < secs:
        E = X.MpEval({}, None, None); E.default = lambda k: sampler(k, rng)
        if all(sgn(*E.ev([a, b])) in p for p, a, b in conds): out.append(E.ev(exprs))
    return out


def taken(alts, sampler, want):
    """for sampled points the tag of the alternative (state, tag) whose path conditions hold, or None"""
    import random
    rng = random.Random(24); out = []
    for _ in range(want):
        E = X.MpEval({}, None, None); E.default = lambda k: sampler(k, rng)
        out.append(next((t for st, t in alts if all(sgn(*E.ev([a, b])) in p for k, p, a, b in [f for f in st.path if f[0] == 'f' and f[1] != '<>'])), None))
    return out


def signed(k, rng):
    return samp(k, rng) if 'PHI' in k else mpf(rng.uniform(-1, 1))


def near(k, rng):
    if k == 'PHI[0]': return mpf(rng.uniform(-.3, 0))
    if k == 'PHI[1]': return mpf(rng.uniform(.02, .1))
    return samp(k, rng)


def agree(a, b):
    w, _, n = X.numeric_compare([(a.re, b.re), (a.im, b.im)], 24, 3, sampler=samp)
    return n > 0 and w < mpf(10) ** -20


def paraherm(c, M, deg):
    """exactly the sign changes between consecutive grid points, located by linear interpolation"""
    p0, p1 = var('PHI[0]'), var('PHI[1]'); eps = div(sub(p1, p0), const(M - 1))
    nm = 'poly_roots_fftgridsearch_paraherm M=%d deg=%d' % (M, deg)
    y = [var('y%d' % j) for j in range(M)]; ph = [add(p0, mul(const(j), eps)) for j in range(M)]
    def cz(e, st, a):
        k, ok = ring(e, st, a, eps, p0)
        c.truth(nm + ': grid', k == 0 and ok and a[6] == M and a[0] == deg, scope='bounded') or c.fail_concrete(nm + ': grid', None, None, 'ring %s' % k)
        need(e, st, carr(e, st, a[1], a[0] + 1), 'poly_chirpz')
        for j in range(M): e.putc(st, a[7], j, C(y[j]) * cexp(C(ZERO, mul(const(deg // 2), ph[j]))))
        return 0
    cs = gcase(M, deg, '_paraherm')
    e, R = cs.sym(c, contracts={'fnft__poly_chirpz': cz}, pre=pre, generic=True, max_states=3000)
    c.safety_fail(nm, cs, e)
    if not R: c.record(nm, 'undecided', 'engine', 'no path')
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        n = e.getu(st, cs.ptr['M'])
        ok = isinstance(n, int) and 0 <= n <= M - 1
        c.truth(nm + ': number of roots', ok, scope='bounded') or c.fail_concrete(nm + ': number', None, None, str(n))
        if not ok: continue
        it = [cexp(C(ZERO, sub(ph[j - 1], div(mul(y[j - 1], eps), sub(y[j], y[j - 1]))))) for j in range(1, M)]
        got = [e.getc(st, cs.ptr['roots'], k) for k in range(n)]
        # every returned root belongs to one interval, in increasing order
        last = 0
        for k, z in enumerate(got):
            j = next((j for j in range(last, M - 1) if agree(z, it[j])), None)
            if j is None:
                c.eq(nm + ': interpolation', None, st, [(None, z.re, it[min(last, M - 2)].re), (None, z.im, it[min(last, M - 2)].im)], scope='bounded', sampler=samp); break
            c.truth(nm + ': interpolation', True, scope='bounded'); last = j + 1
        pt = points(st, y, signed, 2)
        if not pt: c.record(nm + ': sign changes', 'undecided', 'sampling', 'no point on path')
        for v in pt:
            m = sum(a * b < 0 for a, b in zip(v, v[1:]))
            c.truth(nm + ': every sign change', m == n, scope='bounded') or c.fail_concrete(nm + ': every sign change', None, None, '%d of %d for values %s' % (n, m, v))
        leak = st.live_heap(); c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, '')


def bad(c, tail):
    A = lambda **k: Case('fnft__poly_roots_fftgridsearch' + tail, [k.get('deg', U(2)), k.get('p', Arr('p', 4)), k.get('M', Arr('M', 1, 'u', init=[4])), k.get('PHI', Arr('PHI', 2, 'd')), k.get('roots', Arr('roots', 4))])
    inf = float('inf')
    cases = [('deg=%d' % d, A(deg=U(d))) for d in (0, 1)] + [('p NULL', A(p=Null())), ('M NULL', A(M=Null())), ('PHI NULL', A(PHI=Null())), ('roots NULL', A(roots=Null()))] + [('M=%d' % m, A(M=Arr('M', 1, 'u', init=[m]))) for m in (0, 1)]
    cases += [('PHI %s' % (x,), A(PHI=Arr('PHI', 2, 'd', init=x))) for x in ((1., 1.), (1., 0.), (-inf, 0.), (0., inf), (float('nan'), 1.), (0., float('nan')))]
    if tail: cases.append(('odd degree', A(deg=U(3))))
    for what, cs in cases:
        nm = 'poly_roots_fftgridsearch%s rejects %s' % (tail, what)
        e, R = cs.sym(c, pre=pre if 'PHI' not in what else None)
        c.safety_fail(nm, cs, e)
        for st in R:
            c.truth(nm, isinstance(st.retval, int) and st.retval != 0) or c.fail_concrete(nm, cs, lambda o: o['ret'] == 0, st.retval)


# ------------------------------------------------------------------ root solver
def pcase(n, z):
    return Case('fnft__poly_roots_fasteigen', [U(n + z), Arr('p', n + z + 1, init=[X.cvar('p%d' % k) if k <= n else C(ZERO, ZERO) for k in range(n + z + 1)]), Arr('roots', n + z, role='out')])


def direct(c, n, z):
    """degree at most two (after z roots at the origin): exactly the roots"""
    if n + z == 0: return
    nm = 'poly_roots_fasteigen deg=%d, %d roots at the origin' % (n + z, z)
    cs = pcase(n, z)
    def nz(e, st, cs):
        for k in range(n + 1): st.path.append(('f', '<>', var('p%d.re' % k), ZERO))
    e, R = cs.sym(c, contracts={'z_poly_roots_modified_': ext}, pre=nz, generic=True)
    c.safety_fail(nm, cs, e)
    if not R: c.record(nm, 'undecided', 'engine', 'no path')
    good = 0
    for st in R:
        if st.retval != 0:
            c.truth(nm + ': reports failure', isinstance(st.retval, int)); continue
        good += 1
        rt = [e.getc(st, cs.ptr['roots'], k) for k in range(n + z)]
        pol = [X.cvar('p0')]
        for r in rt:
            pol = [a - r * b for a, b in zip(pol + [C.of(0)], [C.of(0)] + pol)]
        want = [X.cvar('p%d' % k) if k <= n else C.of(0) for k in range(n + z + 1)]
        c.eq(nm + ': product of the linear factors', None, st, [y for a, b in zip(pol, want) for y in ((None, a.re, b.re), (None, a.im, b.im))], scope='bounded', sampler=lambda k, rng: mpf(rng.uniform(-1, 1)))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def ext(e, st, a):
    """external eigenvalue solver (N*, coeffs, roots, info*): trusted to return all roots of a polynomial with non-zero first and last coefficient"""
    pn, co, out, info = a
    n = e.load(st, pn, I32)
    if not isinstance(n, int): raise Unsupported('degree')
    cc = carr(e, st, co, n + 1); need(e, st, cc, 'z_poly_roots_modified')
    st.ghost['ext'] = st.ghost.get('ext', ()) + ((n, tuple(cc)),)
    for k in range(n): e.putc(st, out, k, X.cvar('r%d' % k))
    s = st.fork()
    e.store(st, info, 0, I32); e.store(s, info, 1, I32); s.ghost['failed'] = True
    return Alts([(st, 0), (s, 0)])


def solver(c, n, z):
    nm = 'poly_roots_fasteigen deg=%d, %d roots at the origin' % (n + z, z)
    cs = pcase(n, z)
    def nz(e, st, cs):
        for k in range(n + 1): st.path.append(('f', '<>', var('p%d.re' % k), ZERO))
    e, R = cs.sym(c, contracts={'z_poly_roots_modified_': ext}, pre=nz, generic=True)
    c.safety_fail(nm, cs, e)
    if not R: c.record(nm, 'undecided', 'engine', 'no path')
    for st in R:
        if st.ghost.get('failed'):
            c.truth(nm + ' reports a failing solver', isinstance(st.retval, int) and st.retval != 0) or c.fail_concrete(nm + ': failing solver', None, None, 'returned %s' % st.retval); continue
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        x = st.ghost.get('ext', ())
        ok = len(x) == 1 and x[0][0] >= n
        c.truth(nm + ': solver called', ok) or c.fail_concrete(nm + ': solver', None, None, str(len(x)))
        if not ok: continue
        it = [y for k in range(n + 1) for y in ((None, x[0][1][k].re, var('p%d.re' % k)), (None, x[0][1][k].im, var('p%d.im' % k)))]
        rt = sorted((str(e.getc(st, cs.ptr['roots'], k).re), k) for k in range(n + z))
        want = sorted([str(var('r%d.re' % k)) for k in range(n)] + [str(ZERO)] * z)
        c.eq(nm + ': coefficients', None, st, it, scope='bounded')
        ok = [a for a, _ in rt] == want
        c.truth(nm + ': roots', ok, scope='bounded') or c.fail_concrete(nm + ': roots', None, None, str(rt))


# ------------------------------------------------------------------ messages
class Text(Arg):
    def __init__(s, name, text): s.name, s.text = name, text + b'\0'
    def sym(s, e, st):
        o = st.new(len(s.text), 'arg', s.name, ro=True)
        for k, b in enumerate(s.text): o.cells[k] = (b, 1)
        return [Ptr(o.id, 0)]
    def con(s, ev): return [ct.c_char_p(s.text)]
    def out(s): return None


def messages(c):
    for rc in (1, 2, 8, -3):
        def pr(e, st, a): st.ghost['msg'] = st.ghost.get('msg', ()) + (tuple(a),); return 3
        t = Text
        for f in ('errmsg', 'warn'):
            cs = Case('fnft__%s_aux' % f, ([I(rc)] if f == 'errmsg' else []) + [t('func', b'function'), I(77)] + [t('msg', b'text')], **({} if f == 'errmsg' else dict(ret='void')))
            nm = 'fnft__%s_aux' % f
            e, R = cs.sym(c, contracts={'fnft__default_printf': pr})
            c.safety_fail(nm, cs, e)
            if not R: c.record(nm, 'undecided', 'engine', 'no path')
            for st in R:
                if f == 'errmsg':
                    c.truth(nm + ' returns the code', st.retval == rc % 2 ** 32 or st.retval == rc) or c.fail_concrete(nm, None, None, str(st.retval))
                m = st.ghost.get('msg', ())
                ok = len(m) == 1 and len(m[0]) >= 4 and getattr(m[0][1], 'o', None) == cs.ptr['msg'].o and m[0][1].off == 0 and getattr(m[0][2], 'o', None) == cs.ptr['func'].o and m[0][3] == 77
                c.truth(nm + ' hands message, function and line to the printer', ok) or c.fail_concrete(nm + ' printer', None, None, str(m))


def nlib():
    import replay
    return replay.lib('real')


def printer_calls():
    L = nlib()
    PR = ct.CFUNCTYPE(ct.c_int, ct.c_char_p, ct.c_char_p, ct.c_char_p, ct.c_int, ct.c_int, ct.c_int, ct.c_int, ct.c_char_p)
    log = []
    def cb(fmt, msg, fn, line, a, b, d, s): log.append((fmt, msg, fn, line, a, b, d, s)); return 0
    p = PR(cb)
    L.fnft_errwarn_getprintf.restype = ct.c_void_p
    L.fnft_errwarn_setprintf(p)
    adr = ct.cast(p, ct.c_void_p).value
    if L.fnft_errwarn_getprintf() != adr: return dict(bad='getprintf does not return the installed printer')
    maj, mi, pa = (ct.c_size_t(99) for _ in range(3)); suf = ct.create_string_buffer(64)
    r = L.fnft_version(ct.byref(maj), ct.byref(mi), ct.byref(pa), suf)
    if r != 0: return dict(bad='fnft_version returned %d' % r)
    v = (maj.value, mi.value, pa.value, suf.value)
    for rc in (0, 1, -2, 7, 2 ** 31 - 1):
        for msg in (b'', b'a message', b'100% of %s %d', b'x' * 3000, bytes(range(1, 256))):
            for fn, line in ((b'f', 1), (b'fnft__poly', 2 ** 31 - 1)):
                del log[:]
                r = L.fnft__errmsg_aux(ct.c_int(rc), fn, ct.c_int(line), msg)
                if r != rc: return dict(bad='errmsg_aux returned %d for %d' % (r, rc))
                if len(log) != 1: return dict(bad='printer called %d times' % len(log))
                l = log[0]
                if l[1:4] != (msg, fn, line): return dict(bad='printer received %s' % (l,))
                if l[4:] != v: return dict(bad='version %s instead of %s' % (l[4:], v))
                if not l[0].startswith(b'FNFT Error: %s') or l[0].count(b'%s') != 3 or not l[0].endswith(b'\n'): return dict(bad='format %s' % l[0])
                del log[:]
                L.fnft__warn_aux(fn, ct.c_int(line), msg)
                l = log[0] if log else ()
                if len(log) != 1 or l[1:4] != (msg, fn, line) or l[4:] != v or not l[0].startswith(b'FNFT Warning: %s'): return dict(bad='warning: %s' % (log,))
    # a failing function reports through the installed printer and returns the code
    del log[:]
    r = L.fnft__poly_eval(ct.c_size_t(2), ct.c_void_p(0), ct.c_size_t(1), ct.c_void_p(0))
    if r == 0 or len(log) != 1 or log[0][2] not in (b'fnft__poly_eval', b'poly_eval') or not log[0][1]: return dict(bad='poly_eval: %s %s' % (r, log))
    L.fnft_errwarn_setprintf(ct.c_void_p(0)); del log[:]
    if L.fnft_errwarn_getprintf() is not None: return dict(bad='printer not removed')
    r = L.fnft__errmsg_aux(ct.c_int(3), b'f', ct.c_int(1), b'm'); L.fnft__warn_aux(b'f', ct.c_int(1), b'm')
    if r != 3 or log: return dict(bad='messages without printer')
    return dict(bad=None)


# ------------------------------------------------------------------ compiled searches
def battery(c):
    rng = np.random.default_rng(c.seed + 24)
    items = [('message forwarding', NP('fnft__errmsg_aux', printer_calls), lambda o: o['bad'], {})]
    for k in range(120): items.append(search(rng, k))
    for k in range(60): items.append(parsearch(rng, k))
    for deg in list(range(1, 13)) + [16, 20, 25, 31, 32, 40, 64, 100]:
        for typ in range(5): items.append(eig(rng, deg, typ))
    c.battery([x for x in items if x])


def separated(rng, a, b, gap, n):
    for _ in range(200):
        t = np.sort(rng.uniform(a, b, n))
        if n < 2 or np.diff(t).min() > gap: return t
    return None


def search(rng, k):
    p0 = float(rng.uniform(-4, 3)); L = float(rng.choice([.3, 1., 3., 2 * np.pi])); M = int(rng.choice([40, 101, 256, 500]))
    eps = L / (M - 1); n = int(rng.integers(0, 6))
    if (n + 1) * 8 * eps > L: n = 1
    t = separated(rng, p0 + 2 * eps, p0 + L - (2 if L < 6 else 8) * eps, 6 * eps, n)
    if t is None: return None
    off = rng.uniform(-.2, .2, n) * eps * (k % 3 == 1)
    rt = np.exp(1j * t) * (1 + off)
    far = rng.choice([.3, .6, 1.6, 2.], max(2 - n, int(rng.integers(0, 5)))) * np.exp(1j * rng.uniform(0, 6.28, 9)[:max(2 - n, 0) + 9][:1])
    far = np.array([f * np.exp(1j * rng.uniform(0, 6.28)) for f in far])
    far = far[abs(abs(far) - 1) > 8 * eps]
    al = np.concatenate([rt, far])
    if len(al) < 2: al = np.concatenate([al, [.1, .15j]])
    p = np.poly(al) * np.exp(1j * rng.uniform(0, 6)) * 10 ** rng.uniform(-3, 3)
    cs = Case('fnft__poly_roots_fftgridsearch', [U(len(al)), RawArr('p', p.astype(complex)), RawArr('M', np.array([M], np.uint64), 'io'), RawArr('PHI', np.array([p0, p0 + L])), RawArr('roots', np.full(M, SENT), 'io')])
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the arrays or an input modified'
        m = int(o['M'][0])
        if m > M: return 'count %d' % m
        z = o['roots'][:m]
        for x in rt:
            if m == 0 or abs(z - x).min() > eps: return 'root %s not found (%s)' % (x, z)
        for x in z:
            if len(al) == 0 or abs(al - x).min() > 1.5 * eps: return 'returned %s, nearest root at distance %g grid steps' % (x, abs(al - x).min() / eps)
        if m > len(al) + (L > 6): return '%d roots of a polynomial of degree %d' % (m, len(al))
        if n and m == n and len(rt):
            w = max(abs(z - x).min() for x in rt)
            if w > .35 * eps: return 'accuracy %g grid steps' % (w / eps)
    return ('poly_roots_fftgridsearch executed #%d' % k, cs, judge, dict(roots=[str(x) for x in al], M=M, PHI=[p0, p0 + L]))


def parsearch(rng, k):
    p0 = float(rng.uniform(-4, 3)); L = float(rng.choice([.5, 2., 2 * np.pi])); M = int(rng.choice([50, 128, 400])); eps = L / (M - 1)
    h = int(rng.integers(1, 6)); n = int(rng.integers(0, h + 1))
    if n > 2 and L < 1: n = 2
    t = separated(rng, p0 + eps, p0 + L - 3 * eps, 4 * eps, n)
    if t is None: return None
    if n and L < 6 and k % 4 == 0: t[-1] = max(t[-1], p0 + L - float(rng.uniform(.2, .8)) * eps)     # first and last cell of the grid
    if n > 1 and L < 6 and k % 4 == 1: t[0] = p0 + float(rng.uniform(.2, .8)) * eps
    # para-hermitian: roots on the circle, pairs r, 1/conj(r) elsewhere
    if n % 2: t2 = np.concatenate([t, [p0 - (2 * np.pi - L) / 2]]) if L < 6 else t[:-1]
    else: t2 = t
    pr = [.4 * np.exp(1j * rng.uniform(0, 6)) for _ in range(h - len(t2) // 2)]
    if len(t2) % 2 or len(t2) // 2 + len(pr) < 1: return None
    al = np.concatenate([np.exp(1j * t2), pr, [1 / np.conj(x) for x in pr]])
    deg = len(al); p = np.poly(al).astype(complex); N = deg // 2
    th = 1.234; p = p / (np.polyval(p, np.exp(1j * th)) * np.exp(-1j * N * th)) * float(rng.choice([-2, 1, 1e-3]))
    inside = [x for x in t2 if p0 < x < p0 + L]
    cs = Case('fnft__poly_roots_fftgridsearch_paraherm', [U(deg), RawArr('p', p), RawArr('M', np.array([M], np.uint64), 'io'), RawArr('PHI', np.array([p0, p0 + L])), RawArr('roots', np.full(M, SENT), 'io')])
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the arrays or an input modified'
        m = int(o['M'][0]); z = o['roots'][:m]
        if m != len(inside): return '%d roots found, %d in the arc' % (m, len(inside))
        if not np.all(abs(abs(z) - 1) < 1e-9): return 'not on the circle'
        if m and np.any(abs(z - np.exp(1j * np.sort(inside))) > .3 * eps): return 'inaccurate: %s' % (abs(z - np.exp(1j * np.sort(inside))) / eps)
    return ('poly_roots_fftgridsearch_paraherm executed #%d' % k, cs, judge, dict(roots=[str(x) for x in al], M=M, PHI=[p0, p0 + L]))


def eig(rng, deg, typ):
    if typ == 0: al = np.exp(1j * np.linspace(0, 6, deg)) * rng.uniform(.8, 1.2, deg)
    elif typ == 1: al = np.exp(2j * np.pi * (np.arange(deg) + rng.uniform(-.2, .2, deg)) / deg)
    elif typ == 2: al = np.concatenate([np.zeros((deg + 2) // 3), np.exp(1j * np.linspace(.1, 6, deg - (deg + 2) // 3)) * .9])
    elif typ == 3: al = None; p = rng.normal(size=deg + 1) + 1j * rng.normal(size=deg + 1)
    else: al = None; p = np.exp(1j * rng.uniform(0, 6, deg + 1)); p[-1] *= 10.0 ** -rng.uniform(5, 30)
    if al is not None: p = np.poly(al).astype(complex) * (1 - 2j) if deg else np.ones(1, complex)
    if typ == 2: p[deg + 1 - (deg + 2) // 3:] = 0
    cs = Case('fnft__poly_roots_fasteigen', [U(deg), RawArr('p', p), RawArr('roots', np.full(deg, SENT), 'io')])
    ref = np.roots(p)
    if typ == 0 and deg > 16 or typ == 2 and deg > 25: ref = None
    elif typ == 4 or len(ref) != deg:
        with mpmath.workdps(40):
            q = np.trim_zeros(p, 'b')
            ref = np.array([complex(x) for x in mpmath.polyroots([mpmath.mpc(x) for x in q], maxsteps=500, extraprec=400)] + [0] * (deg + 1 - len(q))) if deg <= 20 else None
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the arrays or an input modified'
        z = o['roots'].copy()
        if not np.isfinite(z).all(): return 'not finite'
        # residual relative to the size of the terms
        s = np.maximum(np.polyval(abs(p), abs(z)), np.linalg.norm(p) * np.maximum(1, abs(z)) ** deg); r = abs(np.polyval(p, z)) / s
        if np.any(r > 1e-10): return 'relative residual %g at %s' % (r.max(), z[r.argmax()])
        if ref is not None:
            y = list(z)
            for x in ref:
                j = int(np.argmin([abs(x - w) for w in y]))
                if abs(y[j] - x) > 1e-5 * max(1, abs(x)): return 'root %s missing' % x
                y.pop(j)
    return ('poly_roots_fasteigen deg=%d type %d executed' % (deg, typ), cs, judge, dict(p=[str(x) for x in p]))
