"""P20: calls do not modify inputs or options and leave no state behind."""
from fault import *
import mmap as mm
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of frame conditions (inputs and options are read-only) on all paths of the public functions, including failing inner steps and failing allocations; executed call histories'
NOTE = 'Documented in,out arrays (K_ptr, bound_states with initial guesses, contspec of the inverse transform) are excepted. Sizes fixed per instance (bounded), values and branch outcomes symbolic. History independence is decided by executed random call sequences over the documented combinations, compared with the same call in a fresh process.'
SOURCES = ['fnft_nsev', 'fnft_kdvv', 'fnft_manakovv', 'fnft_nsep', 'fnft_nsev_inverse', 'nse_', 'kdv_', 'manakov_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c', 'errwarn']


def check(c):
    warm('nsev', 'kdvv', 'manakovv', 'nsep', 'nsev_inverse')
    c.parallel(sym, [(j,) for j in public_caps(c)])
    rng = np.random.default_rng(c.seed + 20)
    c.battery(histories(c, rng), 'track')


def sym(c, j):
    cap = capture(j[1], c, *j[2:])
    lab = 'fnft_%s %s: inputs and options are not written' % (j[0], ' '.join(str(x) for x in j[2:]))
    if cap is None: c.record(lab, 'undecided', 'engine', 'no instance'); return
    cs = cap[0]
    for mode in ('frame',):
        cs, e, R = rerun(c, lab, cap, mode)
        c.safety_fail(lab, cs, e, ignore=set(f[0] for f in e.fails) - {'frame'})


def same(a, b):
    if a.dtype.kind in 'cf': return np.array_equal(a.view(np.float64), b.view(np.float64), equal_nan=True)
    return a.tobytes() == b.tobytes()


def forked(f):
    import pickle
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as h: pickle.dump(f(), h)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h: b = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(b)


def pool(rng, n, seed):
    """n cases drawn from the documented combinations of all transforms"""
    import cp17
    G = list(cp17.gens(np.random.default_rng(seed)))
    R = random.Random(seed)
    by = {}
    for x in G: by.setdefault(x[0].split()[0], []).append(x)
    out = []
    for fam in list(by) * 2 + ['default', 'default']:
        x = R.choice(by[fam])
        if len(x) > 2 and x[2]: continue
        L = []
        skip = R.randrange(1, 25) if fam != 'default' else 0
        for k, (desc, cs, fin) in enumerate(x[1]()):
            if k < skip: continue
            if len(L) >= n or k > skip + 40: break
            if fam == 'default' or R.random() < .2: L.append((x[0].split(' accepts')[0] + ' ' + desc, cs))
        out += L
    for _, cs in out:
        dt = R.choice((0, 0, 3.0, -4.0))
        for a in cs.args:
            if isinstance(a, harness.RawArr) and a.name == 'T': a.a = a.a + dt
        if cs.fname == 'fnft_nsev_inverse':
            for a in cs.args:
                if isinstance(a, harness.RawArr) and a.name in ('XI', 'bs', 'nc', 'T'): a.role = 'in'
    return out


def variations(R, cs):
    """a call with something invalid (must leave inputs and later calls unaffected)"""
    import copy as cp
    b = Case(cs.fname, list(cs.args))
    w = R.randrange(4)
    ix = [i for i, a in enumerate(b.args) if isinstance(a, Opts)]
    if w == 0 and ix:
        o = cp.copy(b.args[ix[0]]); o.a = o.a.copy()
        fld = [f for f, (off, sz, k) in layout(o.tr)[1].items() if k == 'i' or sz == 4]
        if fld:
            off = layout(o.tr)[1][R.choice(fld)][0]; o.a[off:off + 4] = np.frombuffer((77).to_bytes(4, 'little'), np.uint8)
        b.args[ix[0]] = o
    elif w == 1:
        ix = [i for i, a in enumerate(b.args) if a.__class__ is I]
        if ix: b.args[ix[-1]] = I(0)
    elif w == 2:
        ix = [i for i, a in enumerate(b.args) if isinstance(a, harness.RawArr) and a.name == 'T']
        t = cp.copy(b.args[ix[0]]); t.a = t.a[::-1].copy(); b.args[ix[0]] = t
    else: b.args[0] = U(1) if cs.fname != 'fnft_nsev_inverse' else b.args[0]
    return b


def histories(c, rng):
    items = []
    nit, steps = (48, 150) if c.tier == 'quick' else (64, 600)
    for s in range(nit):
        seed = int(rng.integers(1 << 30))
        box = mm.mmap(-1, 4096)
        def run(seed=seed, box=box):
            L = replay.lib('track'); replay.quiet(L)
            R = random.Random(seed)
            P = pool(rng, 3, seed)
            po = ct.c_ulong.in_dll(L, 'fv_poison')
            did = ct.c_long.in_dll(L, 'fv_did_fail')
            base = [forked(lambda cs=cs: gcall(L, cs, 0, 0)[:2]) for _, cs in P]
            hist = []
            for step in range(steps):
                k = R.randrange(len(P)); desc, cs = P[k]
                kind = R.randrange(5)
                po.value = R.choice((0x7ff4dead0000beef, 0, 0x4008000000000000, 0xc1e0000000000000))
                txt = desc if kind < 3 else desc + (' with a failing allocation' if kind == 3 else ' with invalid arguments')
                hist.append(txt); b = (' | '.join(hist[-4:])).encode()[-4000:]; box[:len(b) + 1] = b + b'\0'
                if kind == 3:
                    gcall(L, cs, 0, 0); n = ct.c_long.in_dll(L, 'fv_count').value
                    r, o, ro = gcall(L, cs, R.randrange(1, n + 1) if n else 0, 0)
                elif kind == 4: r, o, ro = gcall(L, variations(R, cs), 0, 0)
                else: r, o, ro = gcall(L, cs, 0, 0)
                if ro: return dict(bad='%s: returned %d and changed %s' % (txt, r, ro))
                if kind < 3:
                    if r != base[k][0]: return dict(bad='%s returned %d, in a fresh process %d; before: %s' % (txt, r, base[k][0], ' | '.join(hist[-4:-1])))
                    for nme in o:
                        if not same(o[nme], base[k][1][nme]): return dict(bad='%s: %s differs from the result in a fresh process; before: %s' % (txt, nme, ' | '.join(hist[-4:-1])))
            return dict(bad=None)
        from cp09 import NP
        nm = 'call history %d' % s
        items.append((nm, NP('fnft', run, nm), lambda o: o['bad'], dict(box=box)))
    return items
