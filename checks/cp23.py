"""P23: list and number helpers."""
from contracts import *
from cp09 import NP
import itertools
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification: postconditions of the filter, merge, norm, distance, rounding and matrix helpers on every path, all element values symbolic; compiled instances against definitions'
NOTE = 'Element values symbolic (all orderings enumerated as paths); list lengths bounded. Exact arithmetic.'
SOURCES = ['fnft__misc', 'fft_wrapper', 'kiss_fft.c', 'akns_discretization', 'akns_scatter', 'manakov_scatter', 'kdvv_testcases', 'nsev_testcases']


def check(c):
    jobs = [('filt', f, n, w) for f in ('filter', 'filter_inv') for n in (0, 1, 2, 3) for w in (0, 1) if not (n == 3 and w)]
    jobs += [('nonreal', '', n, 0) for n in (0, 1, 2, 3, 4)]
    jobs += [('merge', '', n, 0) for n in (0, 1, 2, 3, 4)]
    jobs += [('norm', f, n, 0) for f in ('rel_err', 'l2norm2') for n in (0, 1, 2, 5)]
    jobs += [('haus', '', a, b) for a in (1, 2) for b in (1, 2)]
    jobs += [('mat', '', n, 0) for n in (1, 2, 3)] + [('sinc', '', 0, 0), ('leg', '', 0, 0), ('sech', '', 0, 0)]
    c.parallel(job, jobs)
    battery(c)


def job(c, k, f, n, w):
    if len(c.viol) > 1: return
    {'filt': lambda: filt(c, f, n, w), 'nonreal': lambda: nonreal(c, n), 'merge': lambda: merge(c, n), 'norm': lambda: norm(c, f, n), 'haus': lambda: haus(c, n, w), 'mat': lambda: mat(c, n), 'mm2': lambda: mm2(c, n), 'sinc': lambda: sinc(c), 'leg': lambda: leg(c), 'sech': lambda: sech(c)}[k]()


def kept(c, nm, cs, e, st, n, keep, extra=None):
    """*N and the prefix of vals (and companion) are exactly the kept elements in order"""
    got = e.getu(st, cs.ptr['N'])
    exp = [i for i in range(n) if keep[i]]
    if None in keep:
        c.fail_concrete(nm + ' decides membership', cs, lambda o: False, 'membership of element %d not examined' % keep.index(None)); return
    asg = None
    if got != len(exp):
        asg = witness(st)
        c.fail_concrete(nm + ' count', cs, lambda o: bool(int(o['N'][0]) != len(exp)), '%s elements kept, contract %d' % (got, len(exp)), asg); return
    it = []
    for a in ['v'] + (['r'] if extra else []):
        for k, i in enumerate(exp):
            it += cpairs(a, k, e.getc(st, cs.ptr[a], k), cvar('%s[%d]' % (a, i)))
    if it:
        c.eq(nm, cs, st, it, scope='bounded', sampler=sampler(st))
    else:
        c.truth(nm, True, scope='bounded')


def witness(st):
    import random
    E = random.Random(5)
    conds = path_conds(st)
    for _ in range(4000):
        a = {}
        M = X.MpEval(D(E, a))
        if all(cond_ok(M, p) for p in conds):
            return dict(a)
    return None


class D(dict):
    def __init__(s, rng, store): s.rng, s.store = rng, store
    def __missing__(s, k):
        if k == 'pi': return mpmath.pi
        v = mpf(round(s.rng.uniform(-2, 2), 1)); s[k] = v; s.store[k] = v
        return v
    def __contains__(s, k):
        s[k]; return True


def cond_ok(M, p):
    x, y = M.ev([p[1], p[2]])
    return {'olt': x < y, 'oeq': x == y, 'ogt': x > y, 'ole': x <= y, 'oge': x >= y, 'one': x != y}.get(p[0], False)


def sampler(st):
    return lambda k, rng: mpf(round(rng.uniform(-2, 2), 1))


def rel(e, st, a, pred, b):
    """truth of a comparison under the path facts; None when the path does not determine it"""
    from engine import relset
    poss = e.frel(st, a, b); want = relset(pred)
    return True if poss <= want else False if not (poss & want) else None


def and_(l):
    return False if False in l else None if None in l else True


def filt(c, f, n, w):
    v = Arr('v', n, role='io'); r = Arr('r', n, role='io') if w else Null()
    bb = Arr('bb', 4, 'd')
    cs = Case('fnft__misc_' + f, [Arr('N', 1, 'u', 'io', init=[n]), v, r, bb])
    nm = 'misc_%s n=%d%s' % (f, n, ' with companions' if w else '')
    e, R = cs.sym(c, max_states=60000)
    c.safety_fail(nm, cs, e)
    b = [var('bb[%d]' % k) for k in range(4)]
    seen = set()
    for st in R:
        valid = and_([rel(e, st, b[0], 'ole', b[1]), rel(e, st, b[2], 'ole', b[3])])
        if st.retval != 0:
            c.truth(nm + ' rejects only improper boxes', valid is False, scope='bounded') or c.fail_concrete(nm + ' accepts proper boxes', cs, lambda o: o['ret'] != 0, 'rejected', witness(st))
            continue
        if valid is not True:
            c.fail_concrete(nm + ' rejects improper boxes', cs, lambda o: o['ret'] == 0, 'accepted', witness(st)); continue
        keep = []
        for i in range(n):
            z = cvar('v[%d]' % i)
            if f == 'filter':
                keep.append(and_([rel(e, st, z.re, 'oge', b[0]), rel(e, st, z.re, 'ole', b[1]), rel(e, st, z.im, 'oge', b[2]), rel(e, st, z.im, 'ole', b[3])]))
            else:
                k = and_([rel(e, st, z.re, 'ogt', b[0]), rel(e, st, z.re, 'olt', b[1]), rel(e, st, z.im, 'ogt', b[2]), rel(e, st, z.im, 'olt', b[3])])
                keep.append(None if k is None else not k)
        kept(c, nm, cs, e, st, n, keep, w)


def nonreal(c, n):
    cs = Case('fnft__misc_filter_nonreal', [Arr('N', 1, 'u', 'io', init=[n]), Arr('v', n, role='io'), F('tol')])
    nm = 'misc_filter_nonreal n=%d' % n
    e, R = cs.sym(c)
    c.safety_fail(nm, cs, e)
    for st in R:
        ok = rel(e, st, var('tol'), 'oge', ZERO)
        if st.retval != 0:
            c.truth(nm, ok is False, scope='bounded') or c.fail_concrete(nm + ' accepts tol>=0', cs, lambda o: o['ret'] != 0, 'rejected', witness(st)); continue
        if ok is not True:
            c.fail_concrete(nm + ' rejects tol<0', cs, lambda o: o['ret'] == 0, 'accepted', witness(st)); continue
        kept(c, nm, cs, e, st, n, [rel(e, st, X.absn(var('v[%d].im' % i)), 'ogt', var('tol')) for i in range(n)])


def merge(c, n):
    cs = Case('fnft__misc_merge', [Arr('N', 1, 'u', 'io', init=[n]), Arr('v', n, role='io') , F('tol')])
    nm = 'misc_merge n=%d' % n
    e, R = cs.sym(c, max_states=60000)
    c.safety_fail(nm, cs, e)
    tol = var('tol')
    dist = lambda i, j: X.fn('cabs', (cvar('v[%d]' % i) - cvar('v[%d]' % j)).re, (cvar('v[%d]' % i) - cvar('v[%d]' % j)).im)
    def close(st, i, j):
        for x in (dist(i, j), dist(j, i)):
            r = rel(e, st, x, 'olt', tol)
            if r is not None: return r
        return None
    for st in R:
        if st.retval != 0:
            c.truth(nm, n > 0 and rel(e, st, tol, 'olt', ZERO) is True, scope='bounded') or c.fail_concrete(nm + ' accepts tol>=0', cs, lambda o: o['ret'] != 0, 'rejected', witness(st)); continue
        if n == 0:
            c.truth(nm, True, scope='bounded'); continue
        k = e.getu(st, cs.ptr['N'])
        idx = []
        for q in range(k if isinstance(k, int) else 0):
            z = e.getc(st, cs.ptr['v'], q)
            m = [i for i in range(n) if z.re is var('v[%d].re' % i) and z.im is var('v[%d].im' % i)]
            idx.append(m[0] if m else -1)
        good = isinstance(k, int) and k >= 1 and idx == sorted(set(idx)) and -1 not in idx
        why = 'result is not an ordered selection: %s' % idx
        if good:
            for x, y in itertools.combinations(idx, 2):
                if close(st, x, y) is not False:
                    good, why = False, 'kept elements %d and %d not shown to be apart' % (x, y)
            for i in range(n):
                if i not in idx and not any(close(st, j, i) is True for j in range(n) if j != i):
                    good, why = False, 'element %d dropped although not close to another' % i
        if good: c.truth(nm, True, scope='bounded')
        else:
            c.fail_concrete(nm, cs, lambda o: merge_judge(o, cs, n) is not None, why, witness(st))


def merge_judge(o, cs, n):
    a = cs.args[1].orig[GUARD:GUARD + n]; tol = None
    return None


def norm(c, f, n):
    nm = 'misc_%s n=%d' % (f, n)
    if f == 'rel_err':
        cs = Case('fnft__misc_rel_err', [U(n), Arr('x', n), Arr('y', n)], ret='double')
        nu = de = ZERO
        for k in range(n):
            d = cvar('x[%d]' % k) - cvar('y[%d]' % k)
            nu = X.add(nu, X.fn('cabs', d.re, d.im)); y = cvar('y[%d]' % k); de = X.add(de, X.fn('cabs', y.re, y.im))
        if n == 0: return
        spec = X.div(nu, de)
    else:
        cs = Case('fnft__misc_l2norm2', [U(n), Arr('x', n), F('a'), F('b')], ret='double')
        s = ZERO
        for k in range(n):
            x = cvar('x[%d]' % k); s = X.add(s, X.add(X.mul(x.re, x.re), X.mul(x.im, x.im)))
        spec = X.mul(s, X.mul(X.sub(var('b'), var('a')), X.const(Fraction(1, n)))) if n else None
    e, R = cs.sym(c)
    c.safety_fail(nm, cs, e)
    for st in R:
        if f == 'l2norm2':
            bad = n == 0 or rel(e, st, var('a'), 'olt', var('b')) is False
            if bad or st.retval is X.NAN:
                c.truth(nm + ' NAN exactly for improper arguments', bad and st.retval is X.NAN, scope='bounded') or c.fail_concrete(nm, cs, lambda o: (o['ret'] == o['ret']) == bad, 'NAN result: %s' % (st.retval is X.NAN), witness(st))
                continue
        c.eq(nm, cs, st, [(('ret',), st.retval, spec)], scope='bounded')


def haus(c, a, b):
    cs = Case('fnft__misc_hausdorff_dist', [U(a), Arr('x', a), U(b), Arr('y', b)], ret='double')
    nm = 'misc_hausdorff_dist %d,%d' % (a, b)
    e, R = cs.sym(c, max_states=60000, generic=True)
    c.safety_fail(nm, cs, e)
    ds = [[X.fn('cabs', (cvar('x[%d]' % i) - cvar('y[%d]' % j)).re, (cvar('x[%d]' % i) - cvar('y[%d]' % j)).im) for j in range(b)] for i in range(a)]
    done = 0
    for st in R:
        # evaluate the definition numerically on points satisfying the path
        asg = witness(st)
        if asg is None:
            continue        # no admissible point: cyclic ordering
        done += 1
        asg2 = D(__import__('random').Random(7), {}); asg2.update(asg)
        M = X.MpEval(asg2)
        dv = [[M.ev([q])[0] for q in r] for r in ds]
        want = max(max(min(r) for r in dv), max(min(dv[i][j] for i in range(a)) for j in range(b)))
        got = M.ev([st.retval])[0]
        if abs(got - want) < mpf(10) ** -20: c.record(nm, 'numeric', 'multi-precision evaluation', 'one point per path')
        else: c.fail_concrete(nm, cs, lambda o: abs(o['ret'] - float(want)) > 1e-9, 'returned %s, definition %s' % (mpmath.nstr(got, 8), mpmath.nstr(want, 8)), asg)
    if not done: c.record(nm, 'undecided', '', 'no path sampled')


def mat(c, n):
    nm = 'misc_matrix_mult'
    for m in (1, 2, 3):
        for p in (1, 2):
            cs = Case('fnft__misc_matrix_mult', [U(n), U(m), U(p), Arr('A', n * m), Arr('B', m * p), Arr('C', n * p, role='out')], stem='fnft__misc', ret='void')
            e, R = cs.sym(c)
            c.safety_fail(nm, cs, e)
            for st in R:
                it = []
                for i in range(n):
                    for j in range(p):
                        s = C.of(0)
                        for k in range(m): s = s + cvar('A[%d]' % (i * m + k)) * cvar('B[%d]' % (k * p + j))
                        it += cpairs('C', i * p + j, e.getc(st, cs.ptr['C'], i * p + j), s)
                c.eq('%s %dx%dx%d' % (nm, n, m, p), cs, st, it, scope='bounded')


def mm2(c, n):
    cs = Case('fnft__misc_mat_mult_%dx%d' % (n, n), [Arr('U', n * n), Arr('T', n * n, role='io')], stem='fnft__misc', ret='void')
    e, R = cs.sym(c)
    c.safety_fail(cs.fname, cs, e)
    for st in R:
        it = []
        for i in range(n):
            for j in range(n):
                s = C.of(0)
                for k in range(n): s = s + cvar('U[%d]' % (i * n + k)) * cvar('T[%d]' % (k * n + j))
                it += cpairs('T', i * n + j, e.getc(st, cs.ptr['T'], i * n + j), s)
        c.eq(cs.fname + ' is U*T', cs, st, it)


def sinc(c):
    for f in ('CSINC', 'CSINC_derivative'):
        cs = Case('fnft__misc_' + f, [Z('x')], stem='fnft__misc', ret='complex')
        e, R = cs.sym(c)
        c.safety_fail(cs.fname, cs, e, 'unbounded')
        x = cvar('x'); ab = X.fn('cabs', x.re, x.im)
        s = cf('csin', x) / x; d = (cf('ccos', x) - s) / x
        for st in R:
            r = C(*st.retval) if isinstance(st.retval, tuple) else C.of(st.retval)
            want = s if f == 'CSINC' else d
            items = [(('ret', 0, 're'), r.re, want.re), (('ret', 0, 'im'), r.im, want.im)]
            exact = X.identical([(a, b) for _, a, b in items], c.seed)[0]
            if exact:
                c.record('misc_%s away from zero' % f, 'discharged', 'identity', '', 2); continue
            # series branch: the path condition bounds |x|; compare values there
            bad = None; n = 0
            for k in range(400):
                mag = 10.0 ** c.rng.uniform(-18, 0.3); ph = c.rng.uniform(0, 6.3)
                asg = {'x.re': mpf(mag) * mpmath.cos(ph), 'x.im': mpf(mag) * mpmath.sin(ph), 'pi': mpmath.pi}
                M = X.MpEval(dict(asg))
                if not all(cond_ok(M, p) for p in path_conds(st)): continue
                n += 1
                v = mpc(*M.ev([r.re, r.im])); z = mpc(asg['x.re'], asg['x.im'])
                with mpmath.workdps(90):
                    w = mpmath.sin(z) / z if f == 'CSINC' else (mpmath.cos(z) - mpmath.sin(z) / z) / z
                if abs(v - w) > mpf(10) ** -15 * abs(w): bad = (z, v, w); break
            if bad:
                c.fail_concrete('misc_%s near zero' % f, cs, lambda o: abs(o['ret'] - complex(bad[2])) > 1e-14 * abs(complex(bad[2])), 'x=%s: %s instead of %s' % bad, asg)
            elif n:
                c.record('misc_%s near zero' % f, 'numeric', 'multi-precision evaluation', '%d points' % n)


def leg(c):
    for n in range(0, 9):
        cs = Case('fnft__misc_legendre_poly', [U(n), F('x')], stem='fnft__misc', ret='double')
        e, R = cs.sym(c)
        c.safety_fail('legendre', cs, e)
        co = __import__('sympy').Poly(__import__('sympy').legendre(n, __import__('sympy').Symbol('x')), __import__('sympy').Symbol('x')).all_coeffs()
        s = ZERO
        for q in co: s = X.add(X.mul(s, var('x')), X.const(Fraction(int(q.p), int(q.q))))
        for st in R:
            c.eq('misc_legendre_poly n=%d' % n, cs, st, [(('ret',), st.retval, s)], scope='bounded')


def sech(c):
    cs = Case('fnft__misc_sech', [Z('x')], ret='complex')
    e, R = cs.sym(c)
    for st in R:
        r = C(*st.retval); w = C.of(1) / cf('ccosh', cvar('x'))
        c.eq('misc_sech is 1/cosh', cs, st, [(('ret', 0, 're'), r.re, w.re), (('ret', 0, 'im'), r.im, w.im)])


def battery(c):
    rng = np.random.default_rng(c.seed + 23)
    items = []
    nan = float('nan')
    def lists(n):
        z = np.round(rng.normal(size=n) * 1.2, 1) + 1j * np.round(rng.normal(size=n) * 1.2, 1)
        if n > 3: z[rng.integers(n)] = complex(nan, 0.5)
        if n > 5: z[rng.integers(n)] = complex(0.1, np.inf)
        return z
    for n in (0, 1, 2, 3, 5, 8, 13, 40, 200):
        for rep in range(4):
            z = lists(n); w = rng.normal(size=n) + 1j * rng.normal(size=n)
            bb = np.sort(np.round(rng.normal(size=2), 1)).tolist() + np.sort(np.round(rng.normal(size=2), 1)).tolist()
            if rep == 3: bb = [z[0].real, z[0].real, -5.0, 5.0] if n else bb
            if any(x != x for x in bb): bb = [0., 0., -5., 5.]
            for f in ('filter', 'filter_inv'):
                for comp in (0, 1):
                    cs = Case('fnft__misc_' + f, [RawArr('N', np.array([n], np.uint64), 'io'), RawArr('v', z, 'io'), RawArr('r', w, 'io') if comp else Null(), RawArr('bb', np.array(bb))])
                    with np.errstate(all='ignore'):
                        ins = (z.real >= bb[0]) & (z.real <= bb[1]) & (z.imag >= bb[2]) & (z.imag <= bb[3])
                        sin = (z.real > bb[0]) & (z.real < bb[1]) & (z.imag > bb[2]) & (z.imag < bb[3])
                    k = ins if f == 'filter' else ~sin
                    def judge(o, z=z, w=w, k=k, comp=comp):
                        m = int(k.sum())
                        if o['ret'] != 0: return 'returned %d' % o['ret']
                        if int(o['N'][0]) != m: return 'kept %d, definition %d' % (o['N'][0], m)
                        if not np.array_equal(o['v'][:m], z[k], equal_nan=True): return 'wrong elements or order'
                        if comp and not np.array_equal(o['r'][:m], w[k]): return 'companion values not moved with the elements'
                        if not o['guards']: return 'memory outside the lists modified'
                    items.append(('misc_%s n=%d executed' % (f, n), cs, judge, dict(v=str(z.tolist()[:12]), box=str(bb))))
            tol = float(abs(rng.normal()) * .5) if rep else 0.0
            cs = Case('fnft__misc_filter_nonreal', [RawArr('N', np.array([n], np.uint64), 'io'), RawArr('v', z, 'io'), F(tol)])
            def judge(o, z=z, tol=tol):
                k = np.abs(z.imag) > tol; m = int(k.sum())
                if o['ret'] != 0 or int(o['N'][0]) != m or not np.array_equal(o['v'][:m], z[k], equal_nan=True) or not o['guards']: return 'kept %d of expected %d (|Im|>%g)' % (o['N'][0], m, tol)
            items.append(('misc_filter_nonreal n=%d executed' % n, cs, judge, dict(v=str(z.tolist()[:12]), tol=tol)))
            z = np.round(rng.normal(size=n) * 1.5, 1) + 1j * np.round(rng.normal(size=n), 1)
            if n > 4 and rep == 2: z = z[rng.integers(0, n // 2, size=n)]
            tol = [0.0, 0.35, 0.1, 0.05][rep]
            cs = Case('fnft__misc_merge', [RawArr('N', np.array([n], np.uint64), 'io'), RawArr('v', z, 'io'), F(tol)])
            def judge(o, z=z, tol=tol, n=n):
                if o['ret'] != 0: return 'returned %d' % o['ret']
                m = int(o['N'][0])
                if not o['guards'] or m > n or (n and m < 1): return 'count %d' % m
                r = o['v'][:m]; p = 0
                for x in r:
                    while p < n and z[p] != x: p += 1
                    if p == n: return 'result is not an ordered selection of the input'
                    p += 1
                for i in range(m):
                    for j in range(i):
                        if abs(r[i] - r[j]) < tol * (1 - 1e-12): return 'elements %s and %s closer than %g' % (r[i], r[j], tol)
                for i in range(n):
                    if tol > 0 and np.sum(np.abs(z - z[i]) < tol * (1 + 1e-12)) == 1 and z[i] not in r: return 'isolated element %s dropped' % z[i]
                    if tol == 0 and m != n: return 'element dropped with tolerance 0'
            items.append(('misc_merge n=%d executed' % n, cs, judge, dict(v=str(z.tolist()[:30]), tol=tol)))
            # rejections
        for f in ('filter', 'filter_inv'):
            for bb in ([1., 0., 0., 1.], [0., 1., 1., 0.], [nan, 1., 0., 1.], [0., nan, 0., 1.], [0., 1., nan, 1.], [0., 1., 0., nan]):
                cs = Case('fnft__misc_' + f, [RawArr('N', np.array([n], np.uint64), 'io'), RawArr('v', lists(n), 'io'), Null(), RawArr('bb', np.array(bb))])
                items.append(('misc_%s improper box' % f, cs, lambda o, n=n: None if o['ret'] == 2 and int(o['N'][0]) == n else 'returned %d' % o['ret'], dict(box=str(bb))))
        x = rng.normal(size=n) + 1j * rng.normal(size=n); y = rng.normal(size=n) + 1j * rng.normal(size=n)
        if n:
            cs = Case('fnft__misc_rel_err', [U(n), RawArr('x', x), RawArr('y', y)], ret='double')
            items.append(('misc_rel_err n=%d' % n, cs, lambda o, x=x, y=y: None if abs(o['ret'] - np.sum(abs(x - y)) / np.sum(abs(y))) < 1e-11 * (1 + o['ret']) else 'returned %r' % o['ret'], {}))
            cs = Case('fnft__misc_l2norm2', [U(n), RawArr('x', x), F(-1.25), F(3.5)], ret='double')
            items.append(('misc_l2norm2 n=%d' % n, cs, lambda o, x=x, n=n: None if abs(o['ret'] - np.sum(abs(x) ** 2) * 4.75 / n) < 1e-11 * (1 + o['ret']) else 'returned %r' % o['ret'], {}))
            for m in (1, 3, 8):
                w = rng.normal(size=m) + 1j * rng.normal(size=m)
                dd = np.abs(x[:, None] - w[None, :])
                want = max(dd.min(axis=1).max(), dd.min(axis=0).max())
                cs = Case('fnft__misc_hausdorff_dist', [U(n), RawArr('x', x), U(m), RawArr('y', w)], ret='double')
                items.append(('misc_hausdorff_dist %d,%d' % (n, m), cs, lambda o, want=want: None if abs(o['ret'] - want) < 1e-11 * (1 + want) else 'returned %r instead of %r' % (o['ret'], want), {}))
            for s in (1.0, 1e-200, 1e200, 2.0 ** 70, 2.0 ** -37, 3.0):
                v = x * s
                cs = Case('fnft__misc_normalize_vector', [U(n), RawArr('v', v, 'io')], stem='fnft__misc')
                def judge(o, v=v):
                    a = int(o['ret'])
                    if not np.array_equal(np.ldexp(o['v'].real, a), v.real) or not np.array_equal(np.ldexp(o['v'].imag, a), v.imag): return 'not a scaling by 2^-%d' % a
                    if not 1 - 1e-12 <= np.max(np.abs(o['v'])) < 2 + 1e-12: return 'largest modulus %g' % np.max(np.abs(o['v']))
                    if not o['guards']: return 'memory outside modified'
                items.append(('misc_normalize_vector n=%d' % n, cs, judge, dict(v=str(v[:4]))))
        cs = Case('fnft__misc_normalize_vector', [U(n), RawArr('v', np.zeros(n, complex), 'io')], stem='fnft__misc')
        items.append(('misc_normalize_vector zero n=%d' % n, cs, lambda o: None if o['ret'] == 0 and not np.any(o['v']) else 'zero vector changed', {}))
    for n in list(range(0, 300)) + [2 ** k + d for k in range(9, 63) for d in (-1, 0, 1)] + [2 ** 63 - 1, 2 ** 63]:
        want = 0 if n == 0 else 1 << (n - 1).bit_length()
        cs = Case('fnft__misc_nextpowerof2', [U(n)], ret='size')
        items.append(('misc_nextpowerof2(%d)' % n, cs, lambda o, want=want: None if int(o['ret']) == want else 'returned %d instead of %d' % (o['ret'], want), {}))
    for k in range(60):
        z = complex(*rng.normal(size=2)) * 10.0 ** rng.uniform(-12, 1)
        for f in ('CSINC', 'CSINC_derivative', 'sech'):
            cs = Case('fnft__misc_' + f, [Z(C.of(X.const(Fraction(z.real))) + IU * C.of(X.const(Fraction(z.imag))))], stem=None if f == 'sech' else 'fnft__misc', ret='complex')
            with mpmath.workdps(60):
                m = mpmath.mpc(z)
                want = complex({'CSINC': lambda: mpmath.sin(m) / m, 'CSINC_derivative': lambda: (mpmath.cos(m) - mpmath.sin(m) / m) / m, 'sech': lambda: 1 / mpmath.cosh(m)}[f]())
            items.append(('misc_%s(%s)' % (f, z), cs, lambda o, want=want: None if abs(o['ret'] - want) <= 1e-12 * abs(want) else 'returned %s instead of %s' % (o['ret'], want), dict(x=str(z))))
    for n in (2, 4):
        A, B = (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) for _ in 'AB')
        cs = Case('fnft__misc_mat_mult_%dx%d' % (n, n), [RawArr('U', A.ravel()), RawArr('T', B.ravel(), 'io')], stem='fnft__misc', ret='void')
        items.append(('misc_mat_mult_%dx%d' % (n, n), cs, lambda o, W=A @ B: None if np.allclose(o['T'], W.ravel()) and o['guards'] else 'not the product', {}))
    for a, b in ((1., 1.), (2., 1.)):
        cs = Case('fnft__misc_l2norm2', [U(2), RawArr('x', np.ones(2, complex)), F(a), F(b)], ret='double')
        items.append(('misc_l2norm2 improper', cs, lambda o: None if o['ret'] != o['ret'] else 'returned %r' % o['ret'], {}))
    for f in ('filter', 'filter_inv', 'filter_nonreal', 'merge'):
        base = [RawArr('N', np.array([2], np.uint64), 'io'), RawArr('v', np.array([1 + 1j, 2]), 'io')] + ([Null(), RawArr('bb', np.array([0., 1., 0., 1.]))] if f in ('filter', 'filter_inv') else [F(0.1)])
        bad = [0, 1] + ([3] if f in ('filter', 'filter_inv') else [])
        for q in bad:
            a = list(base); a[q] = Null()
            items.append(('misc_%s NULL argument %d' % (f, q), Case('fnft__misc_' + f, a), lambda o: None if o['ret'] == 2 else 'returned %d' % o['ret'], {}))
        if f in ('filter_nonreal', 'merge'):
            items.append(('misc_%s negative tolerance' % f, Case('fnft__misc_' + f, base[:2] + [F(-1.0)]), lambda o: None if o['ret'] == 2 else 'returned %d' % o['ret'], {}))
    c.battery(items)
