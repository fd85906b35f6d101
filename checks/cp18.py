"""P18: no memory error and no leak, also when an allocation fails."""
from fault import *
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification with symbolic execution of every function under contract where each allocation may fail: no access outside an object, no use after release, no leak at return (heap invariant), failed allocations reported; compiled calls with failing allocations and inaccessible guard pages'
NOTE = 'Sizes fixed per instance (bounded); all values symbolic. The compiled sweep fails the first, last and some further executions of every allocation site. Allocations inside the Fortran eigenvalue solver are not intercepted.'
SOURCES = ['fnft_nsev.c', 'fnft_kdvv.c', 'fnft_manakovv.c', 'fnft_nsep.c', 'fnft_nsev_inverse.c', 'nse_', 'kdv_', 'manakov_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c', 'errwarn']


def check(c):
    warm('nsev', 'kdvv', 'manakovv', 'nsep', 'nsev_inverse')
    c.parallel(sym, [(j,) for j in public_caps(c) + private_caps(c)])
    rng = np.random.default_rng(c.seed + 18)
    c.battery(sweeps(c, rng, 'mem'), 'track')


def sweeps(c, rng, what):
    import cp17
    q = 1.0 if c.tier == 'quick' else 4.0
    if what == 'code': q /= 3
    it = []
    t = 'memory use' if what == 'mem' else 'failed allocations'
    for x in cp17.gens(rng):
        tr = x[0].split()[0]
        lim = {'fnft_nsev': .03, 'fnft_kdvv': .03, 'fnft_manakovv': .1, 'fnft_nsep': .1, 'fnft_nsev_inverse': .3}.get(tr, 1.0) * q
        it.append(sweep('%s: %s' % (t, x[0].replace('accepts', '').replace('are accepted', '')), x[1], lim, 60, what, x[2] if len(x) > 2 and x[2] else None))
    for x in systematic(rng): it.append(sweep('%s: %s' % (t, x[0]), x[1], 1.0 if what == 'mem' else .25, 60, what))
    return it


def sym(c, j):
    cap = capture(j[1], c, *j[2:])
    lab = '%s %s' % (j[0] if j[0].startswith('fnft_') else 'fnft_' + j[0], ' '.join(str(x) for x in j[2:]))
    if cap is None: c.record(lab, 'undecided', 'engine', 'no instance'); return
    cs, e, R = rerun(c, lab, cap, 'alloc')
    c.safety_fail(lab, cs, e)
    # arrays handed over to the caller (their addresses are stored through an output argument) are not leaks when the call succeeds
    gives = 'preprocess_signal' in cs.fname or 'misc_downsample' in cs.fname or 'method_weights' in cs.fname
    for st, msg in e.stuck:
        c.fail_concrete(lab + ': stops after a failed step', None, None, '%s after %s failed' % (msg, st.ghost.get('failed')))
    for st in R:
        f = st.ghost.get('failed')
        leak = [o.name for o in st.live_heap()]
        if not (gives and st.retval == 0):
            c.truth(lab + ': releases its memory', not leak, scope='bounded') or c.fail_concrete(lab + ': releases its memory' + (' after a failed allocation' if f else ''), None, None, '%s; failed %s' % (leak[:3], [p[1:] for p in st.path if p[0] == 'alloc-fails']))
        if not f: continue
        ok = isinstance(st.retval, int) and st.retval != 0
        c.truth(lab + ': failed allocation is reported', ok, scope='bounded') or c.fail_concrete(lab + ': failed allocation is reported', None, None, '%s returned %s' % ([p[1:] for p in st.path if p[0] == 'alloc-fails'], st.retval))
