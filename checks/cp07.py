"""P07: lambda<->z coordinate maps."""
from common import *
LEVEL = 'other'
NOTE = 'Every obligation holds for all data (elements, step size) at list lengths 0, 1 and 3; the loop over the list is unrolled. Doubles are treated as exact reals.'
SOURCES = ['akns_disc', 'nse_disc', 'manakov_disc', 'kdv_disc', 'misc', 'fft_wrapper', 'kiss_fft.c', 'akns_fscatter', 'poly_fmult', 'manakov_fscatter' if False else 'poly_eval']


def strip(k, rng):
    if str(k) == 'eps':
        return mpf(rng.uniform(0.05, 0.9))
    return mpf(rng.uniform(-1.2, 1.2))


def fams():
    for n in ALL:
        yield 'akns', 'fnft__akns_discretization', n, DEG.get(n, 0) * ups(n)
        yield 'nse', 'fnft__nse_discretization', n, DEG.get(n, 0) * ups(n)
        yield 'kdv', 'fnft__kdv_discretization', n, DEG.get(n, 0) * ups(n)
        yield 'kdv', 'fnft__kdv_discretization', n + '_VANILLA', DEG.get(n, 0) * ups(n)
    for n in list(MDEG) + ['CF4_2', 'BO']:
        d = MDEG.get(n, 0) * MUPS.get(n, 1)
        yield 'manakov', 'fnft__manakov_discretization', n, 6 if n == 'FTES4_suzuki' else d


def check(c):
    for fam, pre, n, d in fams():
        v = enum(fam).get(n)
        if v is None:
            c.record('%s %s enumerated' % (fam, n), 'undecided', '', 'name not found'); continue
        for cnt in (0, 1, 3):
            cs = Case(pre + '_lambda_to_z', [U(cnt), F('eps'), Arr('v', cnt, role='io'), I(v)])
            one(c, cs, fam, n, d, cnt, 1)
            cs = Case(pre + '_z_to_lambda', [U(cnt), F('eps'), Arr('v', cnt, role='io'), I(v)])
            one(c, cs, fam, n, d, cnt, -1)
            if d and cnt == 3:
                # round trip: z_to_lambda after lambda_to_z on the principal strip
                lam = [cvar('v[%d]' % k) for k in range(cnt)]
                z = [cexp(IU * l * C(var('eps')) * const(Fraction(2, d))) for l in lam]
                cs = Case(pre + '_z_to_lambda', [U(cnt), F('eps'), Arr('v', cnt, role='io', init=z), I(v)])
                try:
                    e, R = cs.sym(c)
                    for r in R:
                        c.eq('%s %s: z_to_lambda(lambda_to_z(x)) = x' % (fam, n), cs, r, [x for k in range(cnt) for x in cpairs('v', k, e.getc(r, cs.ptr['v'], k), lam[k])], sampler=strip)
                except Unsupported as u:
                    c.record('%s %s roundtrip' % (fam, n), 'undecided', 'engine', u)


def one(c, cs, fam, n, d, cnt, dirn):
    nm = '%s[n=%d] %s %s' % (cs.fname, cnt, fam, n)
    try:
        e, R = cs.sym(c)
    except Unsupported as u:
        c.record(nm, 'undecided', 'engine', u); return
    for r in R:
        if d == 0:
            ok = r.retval not in (0,)
            c.truth(nm + ' rejected', ok)
            if not ok:
                out = cs.conc({'eps': mpf('0.1'), **{'v[%d].%s' % (k, p): mpf('0.3') for k in range(3) for p in ('re', 'im')}})
                c.violation(nm, dict(case=repr(cs), returned=out['ret'], expected='error code'), out['ret'] == 0)
            continue
        if r.retval != 0:
            out = cs.conc({'eps': mpf('0.1'), **{'v[%d].%s' % (k, p): mpf('0.3') for k in range(3) for p in ('re', 'im')}})
            c.truth(nm + ' accepted', False)
            c.violation(nm, dict(case=repr(cs), returned=out['ret'], expected=0), out['ret'] != 0)
            continue
        items = []
        for k in range(cnt):
            x = cvar('v[%d]' % k)
            spec = cexp(IU * x * C(var('eps')) * const(Fraction(2, d))) if dirn > 0 else cf('clog', x) / (IU * C(var('eps')) * const(Fraction(2, d)))
            items += cpairs('v', k, e.getc(r, cs.ptr['v'], k), spec)
        if items:
            c.eq(nm, cs, r, items, sampler=strip, scope='bounded')
    c.safety_ok(nm, e, scope='bounded')
