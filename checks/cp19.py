"""P19: every failing inner step is reported with an error code of the same kind."""
from fault import *
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification with failing callees: every contract of an inner step may return an error; postcondition on every resulting path: the caller returns an error of the same kind'
NOTE = 'Sizes fixed per instance (bounded). Failures are injected at the functions documented to return an error code; functions that return a value (degree, upsampling factor, ...) signal unsupported settings by 0 or NaN and are excluded. Compiled calls repeat this with stand-ins bound between the translation units, and with failing allocations.'
SOURCES = ['fnft_nsev.c', 'fnft_kdvv.c', 'fnft_manakovv.c', 'fnft_nsep.c', 'fnft_nsev_inverse.c', 'nse_', 'kdv_', 'manakov_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c', 'errwarn']


def check(c):
    warm('nsev', 'kdvv', 'manakovv', 'nsep', 'nsev_inverse')
    c.parallel(sym, [(j,) for j in public_caps(c) + private_caps(c)])
    import cp18
    rng = np.random.default_rng(c.seed + 19)
    c.battery(cp18.sweeps(c, rng, 'code'), 'track')
    shim()
    import cp17
    q = 1.0 if c.tier == 'quick' else 4.0
    it = []
    for x in cp17.gens(rng):
        lim = {'fnft_nsev': .03, 'fnft_kdvv': .03, 'fnft_manakovv': .1, 'fnft_nsep': .1, 'fnft_nsev_inverse': .3}.get(x[0].split()[0], 1.0) * q
        it.append(inject('failing inner step: %s' % x[0].replace('accepts', '').replace('are accepted', ''), x[1], lim, 40, x[2] if len(x) > 2 and x[2] else None))
    for x in systematic(rng): it.append(inject('failing inner step: %s' % x[0], x[1], .5 * q, 40))
    c.battery(it, 'track')


def sym(c, j):
    cap = capture(j[1], c, *j[2:])
    lab = '%s %s' % (j[0] if j[0].startswith('fnft_') else 'fnft_' + j[0], ' '.join(str(x) for x in j[2:]))
    if cap is None: c.record(lab, 'undecided', 'engine', 'no instance'); return
    cs, e, R = rerun(c, lab, cap, 'inner')
    nfail = 0
    for st, msg in e.stuck:
        c.fail_concrete(lab + ': stops after a failed step', None, None, '%s after %s failed' % (msg, st.ghost.get('inner')))
    for st in R:
        f = st.ghost.get('inner')
        if not f: continue
        nfail += 1
        ok = abs(sgn32(st.retval)) == 7 if isinstance(st.retval, int) else False
        c.truth('%s: failure of %s is reported' % (lab, f[0]), ok, scope='bounded') or c.fail_concrete('%s: failure of %s is reported' % (lab, f[0]), None, None, '%s fails in %s, returned %s' % (f[0], f[1], st.retval))
