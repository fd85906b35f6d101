"""Verification-condition generator: symbolic execution of the extracted IR, one function at a time, callees
replaced by their contracts (or, for small static helpers without a contract, by their bodies).
Doubles are mathematical reals; integers are exact (unsigned wrap-around modelled)."""
import re
import math
import sys, math, time
from fractions import Fraction
import z3
import expr as X
from expr import N, C, ZERO, ONE, UNDEF, NAN, fconst, const, var
from ir import DBL, I64, I32, PTR, IRError

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """construct outside the engine's reach: never a violation"""


class Budget(Unsupported):
    pass


# ------------------------------------------------------------------ symbolic integers
class IP:
    """integer polynomial over named integer symbols"""
    __slots__ = ("d", "_k")

    def __init__(s, d):
        s.d = d; s._k = None

    @staticmethod
    def sym(n):
        return IP({(n,): 1})

    @staticmethod
    def of(x):
        return x if isinstance(x, IP) else IP({(): x} if x else {})

    def simp(s):
        if not s.d:
            return 0
        if len(s.d) == 1 and () in s.d:
            return s.d[()]
        return s

    def __add__(s, o):
        o = IP.of(o); d = dict(s.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        return IP(d).simp()
    __radd__ = __add__

    def __neg__(s):
        return IP({m: -c for m, c in s.d.items()})

    def __sub__(s, o):
        return s + (-o if isinstance(o, IP) else -o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        o = IP.of(o); d = {}
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)); x = d.get(m, 0) + c1 * c2
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        return IP(d).simp()
    __rmul__ = __mul__

    def key(s):
        if s._k is None:
            s._k = tuple(sorted(s.d.items()))
        return s._k

    def __eq__(s, o):
        return isinstance(o, IP) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        if not s.d:
            return '0'
        return '+'.join(('%d' % c if not m else ('' if c == 1 else '%d*' % c) + '*'.join(m)) for m, c in sorted(s.d.items())).replace('+-', '-')

    def syms(s):
        return {x for m in s.d for x in m}

    def subs(s, mp):
        r = 0
        for m, c in s.d.items():
            t = c
            for x in m:
                t = t * mp[x] if x in mp else (IP.sym(x) * t)
            r = r + t
        return r


_zi = {}


def z3i(n):
    if n not in _zi:
        _zi[n] = z3.Int(n)
    return _zi[n]


def z3of(x):
    if isinstance(x, int):
        return z3.IntVal(x)
    ts = []
    for m, c in x.d.items():
        t = z3.IntVal(c)
        if m:
            t = z3i(m[0])
            for y in m[1:]:
                t = t * z3i(y)
            if c != 1:
                t = c * t
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ("o", "off")

    def __init__(s, o, off=0):
        s.o, s.off = o, off

    def __repr__(s):
        return "&%s+%s" % (s.o, s.off)


class FPtr:
    __slots__ = ("name",)

    def __init__(s, name):
        s.name = name


class UndefI:
    def __repr__(s):
        return "undef"


UI = UndefI()


class Cond:
    """undecided boolean: ('f',pred,a,b) | ('i',op,a,b) with op in eq ne lt le (exact integers) | ('not',c) | ('b', name)"""
    __slots__ = ("t",)

    def __init__(s, *t):
        s.t = t

    def __repr__(s):
        return "Cond" + repr(s.t)


class BInt:
    """integer 0/1 from an undecided condition"""
    __slots__ = ("c",)

    def __init__(s, c):
        s.c = c


class Fork(Exception):
    def __init__(s, alts):
        s.alts = alts      # list of functions state->None applying the decision


class Obj:
    __slots__ = ("id", "size", "cells", "bg", "alive", "kind", "name", "ro", "site", "layers", "written")

    def __init__(s, id, size, kind, name, bg=None, ro=False, site=None):
        s.id, s.size, s.kind, s.name, s.bg, s.ro = id, size, kind, name, bg, ro
        s.cells = {}; s.alive = True; s.site = site; s.layers = (); s.written = False

    def copy(s):
        o = Obj(s.id, s.size, s.kind, s.name, s.bg, s.ro, s.site)
        o.cells = dict(s.cells); o.alive = s.alive; o.layers = s.layers; o.written = s.written
        return o


class Frame:
    __slots__ = ("f", "blk", "ix", "env", "prev", "ret", "allocas", "count")

    def __init__(s, f):
        s.f = f; s.blk = f.entry; s.ix = 0; s.env = {}; s.prev = None; s.ret = None; s.allocas = []; s.count = {}

    def copy(s):
        n = Frame(s.f); n.blk, n.ix, n.env, n.prev, n.ret = s.blk, s.ix, dict(s.env), s.prev, s.ret
        n.allocas = list(s.allocas); n.count = dict(s.count)
        return n


class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.own = set(); s.path = []; s.facts = {}; s.events = []; s.ghost = {}; s.retval = None
        s.nextid = 1; s.steps = 0; s.zc = []; s.icache = {}; s.globals = {}

    def fork(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.own = set(); s.own = set()
        n.path = list(s.path); n.facts = dict(s.facts); n.events = list(s.events); n.ghost = dict(s.ghost)
        n.nextid = s.nextid; n.steps = s.steps; n.zc = list(s.zc); n.icache = dict(s.icache); n.globals = dict(s.globals)
        return n

    def wobj(s, oid):
        if oid not in s.own:
            s.mem[oid] = s.mem[oid].copy(); s.own.add(oid)
        return s.mem[oid]

    def new(s, size, kind, name, bg=None, ro=False, site=None):
        oid = s.nextid; s.nextid += 1
        o = Obj(oid, size, kind, name, bg, ro, site)
        s.mem[oid] = o; s.own.add(oid)
        return o

    def live_heap(s):
        return [o for o in s.mem.values() if o.kind == 'heap' and o.alive]

    def where(s):
        return '<-'.join("%s:%s" % (f.f.name[1:], f.blk[1:]) for f in reversed(s.frames)) or 'exit'


NEGP = {'oeq': 'une', 'une': 'oeq', 'olt': 'uge', 'ole': 'ugt', 'ogt': 'ule', 'oge': 'ult', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'one': 'ueq', 'ueq': 'one', 'ord': 'uno', 'uno': 'ord'}
RELS = {'eq': {'='}, 'ne': {'<', '>'}, 'lt': {'<'}, 'le': {'<', '='}, 'gt': {'>'}, 'ge': {'>', '='}, 'rd': {'<', '=', '>'}, 'no': set()}


def relset(pred):
    if pred == 'ord':
        return {'<', '=', '>'}
    if pred == 'uno':
        return {'u'}
    r = set(RELS[pred[1:]])
    if pred[0] == 'u':
        r.add('u')
    return r


FLIP = {'<': '>', '>': '<', '=': '=', 'u': 'u'}


_lin = {}


def linform(a, b=None):
    """a - b as a linear form over atoms {node id or 1: rational}, None when not linear"""
    if b is not None:
        x, y = linform(a), linform(b)
        if x is None or y is None:
            return None
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) - v
        return {k: v for k, v in r.items() if v}
    if a.id in _lin:
        return _lin[a.id]
    def go(a):
        if a.op == 'c':
            return {1: Fraction(a.a[0])} if a.a[0] else {}
        if a.op in ('+', '-'):
            x, y = linform(a.a[0]), linform(a.a[1])
            if x is None or y is None:
                return None
            r = dict(x); s = 1 if a.op == '+' else -1
            for k, v in y.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v}
        if a.op == 'neg':
            x = linform(a.a[0]); return None if x is None else {k: -v for k, v in x.items()}
        if a.op == '*' and (a.a[0].op == 'c' or a.a[1].op == 'c'):
            c_, o = (a.a[0], a.a[1]) if a.a[0].op == 'c' else (a.a[1], a.a[0])
            x = linform(o); return None if x is None or not c_.a[0] else {k: v * Fraction(c_.a[0]) for k, v in x.items()}
        if a.op == '/' and a.a[1].op == 'c' and a.a[1].a[0]:
            x = linform(a.a[0]); return None if x is None else {k: v / Fraction(a.a[1].a[0]) for k, v in x.items()}
        if a.op == 'sp':
            return None
        return {a.id: Fraction(1)}
    r = go(a)
    _lin[a.id] = r
    return r


class Engine:
    def __init__(e, prog, contracts=None, malloc_fail=False, max_steps=3000000, max_states=4000, allow_nan=False, seed=1, deadline=None, generic=False, fault=None):
        e.fault = fault
        e.generic = generic; e.generic_dropped = 0
        e.prog = prog
        e.contracts = dict(contracts or {})
        e.malloc_fail = malloc_fail
        e.max_steps, e.max_states = max_steps, max_states
        e.allow_nan = allow_nan
        e.seed = seed
        e.nobl = {}
        e.fails = []
        e.inlined = set(); e.used_contracts = set(); e.externs = set()
        e.deadline = deadline
        e.undef_ok = True
        e.assumed = []
        e.steps = 0
        e.fresh = 0
        e.loop_mode = False
        e.unresolved_eq_forks = True
        e.trace_calls = None
        e.zfail_stats = [0, 0]

    # ---------------------------------------------------------- obligations
    def ob(e, kind, ok, st, msg):
        e.nobl[kind] = e.nobl.get(kind, 0) + 1
        if not ok:
            e.fails.append((kind, "%s at %s" % (msg, st.where()), st))
        return ok

    # ---------------------------------------------------------- integer reasoning
    def zprove(e, st, zexpr):
        """is zexpr valid under the integer path facts"""
        key = zexpr.get_id() if False else str(zexpr)
        if key in st.icache:
            return st.icache[key]
        s = z3.Solver(); s.set("timeout", 4000)
        for c in st.zc:
            s.add(c)
        s.add(z3.Not(zexpr))
        r = s.check() == z3.unsat
        e.zfail_stats[0] += 1
        if r:
            st.icache[key] = r
        return r

    def zfeasible(e, st, zexpr):
        s = z3.Solver(); s.set("timeout", 4000)
        for c in st.zc:
            s.add(c)
        s.add(zexpr)
        e.zfail_stats[0] += 1
        return s.check() != z3.unsat

    def assume_int(e, st, zexpr):
        st.zc.append(zexpr); st.icache = {k: v for k, v in st.icache.items() if v}

    def newint(e, st, name, lo=None, hi=None):
        s = IP.sym(name)
        if lo is not None:
            e.assume_int(st, z3of(s) >= z3of(lo))
        if hi is not None:
            e.assume_int(st, z3of(s) <= z3of(hi))
        return s

    def freshint(e, st, base, lo=None, hi=None):
        e.fresh += 1
        return e.newint(st, "%s!%d" % (base, e.fresh), lo, hi)

    def unsigned(e, st, v, w):
        if isinstance(v, int):
            return v % (1 << w)
        if isinstance(v, BInt):
            return 1 if e.decide(st, v.c) else 0
        if v is UI:
            raise Unsupported("use of an undefined integer at " + st.where())
        if not isinstance(v, IP):
            raise Unsupported("integer expected, got %r at %s" % (v, st.where()))
        z = z3of(v)
        if e.zprove(st, z3.And(z >= 0, z < (1 << w))):
            return v
        k = ('mod', v.key(), w)
        if k in st.icache:
            return st.icache[k]
        u = e.freshint(st, 'wrap', 0, (1 << w) - 1); q = e.freshint(st, 'q')
        e.assume_int(st, z == z3of(u) + (1 << w) * z3of(q))
        st.icache[k] = u
        return u

    def signed(e, st, v, w):
        if isinstance(v, int):
            v %= 1 << w
            return v - (1 << w) if v >> (w - 1) else v
        if isinstance(v, BInt):
            return 1 if e.decide(st, v.c) else 0
        if v is UI:
            raise Unsupported("use of an undefined integer at " + st.where())
        z = z3of(v); h = 1 << (w - 1)
        if e.zprove(st, z3.And(z >= -h, z < h)):
            return v
        k = ('smod', v.key(), w)
        if k in st.icache:
            return st.icache[k]
        u = e.freshint(st, 'swrap', -h, h - 1); q = e.freshint(st, 'q')
        e.assume_int(st, z == z3of(u) + (1 << w) * z3of(q))
        st.icache[k] = u
        return u

    # ---------------------------------------------------------- deciding conditions
    def decide(e, st, c):
        if isinstance(c, int):
            return bool(c & 1)
        if c is UI:
            e.ob('initialised', False, st, "branch on an uninitialised value")
            raise Unsupported("branch on uninitialised value at " + st.where())
        if isinstance(c, BInt):
            return e.decide(st, c.c)
        if not isinstance(c, Cond):
            raise Unsupported("condition %r" % (c,))
        k = c.t[0]
        if k == 'not':
            return not e.decide(st, c.t[1])
        if k == 'i':
            return e.decide_int(st, c)
        if k == 'f':
            return e.decide_float(st, c)
        if k == 'b':
            kk = ('b', c.t[1])
            if kk in st.facts:
                return st.facts[kk]
            def yes(s): s.facts[kk] = True; s.path.append(('b', c.t[1], True))
            def no(s): s.facts[kk] = False; s.path.append(('b', c.t[1], False))
            raise Fork([yes, no])
        raise Unsupported("cond")

    def zcond(e, c):
        op, a, b = c.t[1:]
        a, b = z3of(a), z3of(b)
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b}[op]

    def decide_int(e, st, c):
        op, a, b = c.t[1:]
        d = a - b if isinstance(a, IP) or isinstance(b, IP) else a - b
        if isinstance(d, int):
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0}[op]
        z = e.zcond(c)
        key = str(z)
        if key in st.facts:
            return st.facts[key]
        if e.zprove(st, z):
            st.facts[key] = True
            return True
        if e.zprove(st, z3.Not(z)):
            st.facts[key] = False
            return False
        def yes(s): s.facts[key] = True; e.assume_int(s, z); s.path.append(('i', z))
        def no(s): s.facts[key] = False; e.assume_int(s, z3.Not(z)); s.path.append(('i', z3.Not(z)))
        raise Fork([yes, no])

    def frel(e, st, a, b):
        """possible relations between a and b under the facts: subset of < = > u"""
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of an uninitialised double at " + st.where())
        if a.op == 'sp' or b.op == 'sp':
            if a is NAN or b is NAN:
                return {'u'}
            va = {'inf': 1, '-inf': -1}.get(a.a[0] if a.op == 'sp' else '', 0)
            vb = {'inf': 1, '-inf': -1}.get(b.a[0] if b.op == 'sp' else '', 0)
            if va != vb:
                return {'<'} if va < vb else {'>'}
            return {'='}
        if a.op == 'c' and b.op == 'c':
            x, y = a.a[0], b.a[0]
            return {'<'} if x < y else {'>'} if x > y else {'='}
        if a is b:
            return {'='} if not e.allow_nan else ({'=', 'u'} if a.op != 'c' else {'='})
        r = {'<', '=', '>'} | ({'u'} if e.allow_nan else set())
        for (p, q, fl) in ((a, b, 0), (b, a, 1)):
            f = st.facts.get(('f', p.id, q.id))
            if f is not None:
                r &= {FLIP[x] for x in f} if fl else f
        # the same comparison written as a-b vs 0
        d = X.sub(a, b)
        for (p, q) in ((d, ZERO), (X.neg(d), ZERO)):
            f = st.facts.get(('f', p.id, q.id))
            if f is not None:
                r &= f if p is d else {FLIP[x] for x in f}
        if len(r) > 1:
            s = e.sign(st, d)
            if s is not None:
                r &= s | ({'u'} if e.allow_nan else set())
        if len(r) > 1 and '=' in r and not e.allow_nan:
            try:
                v, _, _ = X.identical([(a, b)], e.seed)
            except Exception:
                v = None
            if v:
                r = {'='}
        return r

    def sign(e, st, n, depth=6):
        """possible signs of n as relations to 0"""
        if n.op == 'c':
            return {'<'} if n.a[0] < 0 else {'>'} if n.a[0] > 0 else {'='}
        f = st.facts.get(('f', n.id, ZERO.id))
        base = {'<', '=', '>'}
        if f is not None:
            base = base & f
        if n.op == 'v' and n.a[0] == 'pi':
            return {'>'}
        if depth <= 0:
            return base
        r = base
        if n.op == 'abs' or (n.op == 'fn' and n.a[0] in ('sqrt', 'cabs')):
            r = {'=', '>'}
            if n.op == 'fn' and n.a[0] == 'sqrt':
                s = e.sign(st, n.a[1], depth - 1)
                if s == {'>'}:
                    r = {'>'}
        elif n.op == 'fn' and n.a[0] in ('exp', 'cosh'):
            r = {'>'}
        elif n.op == 'neg':
            s = e.sign(st, n.a[0], depth - 1); r = {FLIP[x] for x in s}
        elif n.op == '*':
            if n.a[0] is n.a[1]:
                s = e.sign(st, n.a[0], depth - 1)
                r = {'>'} if '=' not in s else {'=', '>'}
            else:
                A, B = e.sign(st, n.a[0], depth - 1), e.sign(st, n.a[1], depth - 1)
                r = {'=' if '=' in (x, y) else ('>' if x == y else '<') for x in A for y in B}
        elif n.op == '/':
            A, B = e.sign(st, n.a[0], depth - 1), e.sign(st, n.a[1], depth - 1)
            r = {'=' if x == '=' else ('>' if x == y else '<') for x in A for y in B if y != '='} or base
        elif n.op in '+-' and n.op in ('+', '-'):
            # long sums are chains of '+': their length does not count against the depth
            d2 = [depth - (0 if n.op == '+' and (x.op == '+' or x.op == '*' and x.a[0] is x.a[1]) else 1) for x in n.a]
            A, B = e.sign(st, n.a[0], d2[0]), e.sign(st, n.a[1], d2[1])
            if n.op == '-':
                B = {FLIP[x] for x in B}
            r = set()
            for x in A:
                for y in B:
                    if x == y or y == '=':
                        r.add(x)
                    elif x == '=':
                        r.add(y)
                    else:
                        r |= {'<', '=', '>'}
        elif n.op == 'v' and n.a[0].startswith('int:'):
            nm = IP.sym(n.a[0][4:])
            if e.zprove(st, z3of(nm) > 0):
                r = {'>'}
            elif e.zprove(st, z3of(nm) >= 0):
                r = {'>', '='}
        r = (base & r) or base
        if len(r) > 1 and n.op in ('+', '-', '*', '/', 'neg'):
            q = e.linsign(st, n)
            if q:
                r = (r & q) or r
        return r

    def linsign(e, st, n):
        """sign of a linear combination that is a multiple of a known difference on the path"""
        L = linform(n)
        if not L:
            return None
        for p in st.path:
            if p[0] != 'f' or not (set(p[1]) <= {'<', '='} or set(p[1]) <= {'>', '='}):
                continue
            M = linform(p[2], p[3])
            if not M or M.keys() != L.keys():
                continue
            k0 = next(iter(M)); k = L[k0] / M[k0]
            if all(L[x] == k * M[x] for x in M):
                return {x if k > 0 else FLIP[x] for x in p[1]}
        return None

    def decide_float(e, st, c):
        pred, a, b = c.t[1:]
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        want = relset(pred)
        poss = e.frel(st, a, b)
        if poss <= want:
            return True
        if not (poss & want):
            return False
        # fork: outcome true / false
        tset, fset = poss & want, poss - want
        def mkf(rs, truth):
            def f(s):
                s.facts[('f', a.id, b.id)] = frozenset(rs)
                s.path.append(('f', rs, a, b))
            return f
        if e.generic and '=' in poss:
            # generic position: coincidences of two different terms are examined separately
            if tset == {'='}:
                e.generic_dropped += 1; mkf(fset, False)(st); return False
            if fset == {'='}:
                e.generic_dropped += 1; mkf(tset, True)(st); return True
        if e.generic == 'tiny' and len(poss) > 1:
            # ... and a modulus is assumed to exceed rounding-level thresholds (the zero case is a separate instance)
            for x, y, up in ((a, b, '>'), (b, a, '<')):
                if x.op == 'fn' and x.a[0] == 'cabs' and X.isc(y) and 0 <= y.a[0] < 1e-12:
                    rs = poss & ({up} if not X.identical([(x.a[1], ZERO), (x.a[2], ZERO)], e.seed)[0] else {'='} if y.a[0] == 0 else {FLIP[up]})
                    if rs <= tset: e.generic_dropped += 1; mkf(rs, True)(st); return True
                    if rs <= fset: e.generic_dropped += 1; mkf(rs, False)(st); return False
        alts = [mkf(tset, True), mkf(fset, False)]
        raise Fork(alts)

    # ---------------------------------------------------------- memory
    def addr(e, st, p, size, what):
        if isinstance(p, int):
            e.ob('valid-access', False, st, "%s through null/invalid pointer %s" % (what, p))
            raise PathEnd("null dereference")
        if p is UI or not isinstance(p, Ptr):
            e.ob('valid-access', False, st, "%s through an undefined pointer" % what)
            raise PathEnd("undefined pointer")
        o = st.mem[p.o]
        if not e.ob('valid-access', o.alive, st, "%s of freed %s" % (what, o.name)):
            raise PathEnd("use after free")
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int):
            ok = 0 <= off and off + size <= o.size
        else:
            z = z3.And(z3of(off) >= 0, z3of(off + size) <= z3of(o.size))
            ok = e.zprove(st, z)
        if not e.ob('in-bounds', ok, st, "%s of %d bytes at offset %s of %s (size %s)" % (what, size, off, o.name, o.size)):
            raise PathEnd("out of bounds")
        return o, off

    def load(e, st, p, ty):
        if ty.k in 'sa':
            if ty.k == 's':
                return tuple(e.load(st, Ptr(p.o, p.off + o) if isinstance(p, Ptr) else p, t) for o, t in zip(ty.offs, ty.el))
            return tuple(e.load(st, Ptr(p.o, p.off + i * ty.el.size), ty.el) for i in range(ty.n))
        o, off = e.addr(st, p, ty.size, 'read')
        return e.rawload(st, o, off, ty)

    def rawload(e, st, o, off, ty):
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[1] == ty.size:
                v = c[0]
                if ty.k == 'f' and isinstance(v, int):
                    if v == 0:
                        return ZERO
                    raise Unsupported("double read of integer cell")
                if ty.k == 'i' and isinstance(v, N):
                    raise Unsupported("integer read of double cell")
                if ty.k == 'p' and isinstance(v, N):
                    raise Unsupported("pointer read of double cell")
                return v
            if o.layers:
                v = e.layer_load(st, o, off, ty)
                if v is not None:
                    return v
            for k, (v, s) in o.cells.items():
                if k < off + ty.size and off < k + s:
                    if isinstance(v, int) and k <= off and off + ty.size <= k + s and ty.k == 'i':
                        return (v >> (8 * (off - k))) % (1 << ty.n)
                    if v == 0 and isinstance(v, int) and k <= off and off + ty.size <= k + s:
                        return ZERO if ty.k == 'f' else 0
                    raise Unsupported("partial overlap read at %s+%d" % (o.name, off))
        else:
            v = e.layer_load(st, o, off, ty)
            if v is not None:
                return v
        if o.bg == 'zero':
            return ZERO if ty.k == 'f' else 0
        if callable(o.bg):
            return o.bg(off, ty)
        if o.bg is None:
            e.nobl['init-read'] = e.nobl.get('init-read', 0) + 1
            if not e.undef_ok:
                e.ob('initialised', False, st, "read of uninitialised %s+%s" % (o.name, off))
            return UNDEF if ty.k == 'f' else UI
        raise Unsupported("load")

    def layer_load(e, st, o, off, ty):
        if o.layers:
            raise Unsupported("symbolic layers")
        if not isinstance(off, int) and o.cells:
            raise Unsupported("symbolic offset read of %s" % o.name)
        return None

    def store(e, st, p, v, ty):
        if ty.k == 's':
            for f, (o, t) in zip(v, zip(ty.offs, ty.el)):
                e.store(st, Ptr(p.o, p.off + o), f, t)
            return
        o, off = e.addr(st, p, ty.size, 'write')
        if o.ro:
            e.ob('frame', False, st, "write to read-only %s at offset %s" % (o.name, off))
            raise PathEnd("write to read-only object")
        e.nobl['frame'] = e.nobl.get('frame', 0) + 1
        o = st.wobj(o.id)
        o.written = True
        if not isinstance(off, int):
            e.sym_store(st, o, off, v, ty)
            return
        e.rawstore(o, off, v, ty.size)

    def sym_store(e, st, o, off, v, ty):
        raise Unsupported("symbolic offset write to %s" % o.name)

    def rawstore(e, o, off, v, size):
        c = o.cells.get(off)
        if c is not None and c[1] == size:
            o.cells[off] = (v, size); return
        if c is not None or any((off + d) in o.cells for d in range(1, size)) or any((off - d) in o.cells and o.cells[off - d][1] > d for d in range(1, 8)):
            for k in [k for k, (_, s) in o.cells.items() if k < off + size and off < k + s]:
                cv, s = o.cells.pop(k)
                # keep zero remains
                if isinstance(cv, int) and cv == 0:
                    for b in range(k, k + s):
                        if not (off <= b < off + size):
                            o.cells[b] = (0, 1)
        o.cells[off] = (v, size)

    def memset(e, st, p, val, n):
        if n == 0:
            return
        o, off = e.addr(st, p, n, 'memset') if isinstance(n, int) else e.addr_sym(st, p, n, 'memset')
        o = st.wobj(o.id); o.written = True
        if o.ro:
            e.ob('frame', False, st, "memset of read-only %s" % o.name); raise PathEnd('ro')
        if val != 0:
            raise Unsupported("memset non-zero")
        if isinstance(off, int) and isinstance(n, int):
            if off == 0 and n == o.size and not o.layers:
                o.cells = {}; o.bg = 'zero'; return
            for k in [k for k, (_, s) in o.cells.items() if k < off + n and off < k + s]:
                del o.cells[k]
            a = off
            while a < off + n:
                s = 8 if a % 8 == 0 and a + 8 <= off + n else 4 if a % 4 == 0 and a + 4 <= off + n else 1
                o.cells[a] = (0, s); a += s
            return
        raise Unsupported("symbolic memset")

    def addr_sym(e, st, p, n, what):
        if isinstance(n, int):
            return e.addr(st, p, n, what)
        if not isinstance(p, Ptr):
            e.ob('valid-access', False, st, "%s through null" % what); raise PathEnd('null')
        o = st.mem[p.o]
        if not e.ob('valid-access', o.alive, st, "%s of freed %s" % (what, o.name)):
            raise PathEnd("uaf")
        z = z3.And(z3of(p.off) >= 0, z3of(n) >= 0, z3of(p.off + n) <= z3of(o.size))
        if not e.ob('in-bounds', e.zprove(st, z), st, "%s of %s bytes at %s of %s (size %s)" % (what, n, p.off, o.name, o.size)):
            raise PathEnd("oob")
        return o, p.off

    def memcpy(e, st, d, s, n):
        if n == 0:
            return
        if not isinstance(n, int):
            return e.sym_memcpy(st, d, s, n)
        so, soff = e.addr(st, s, n, 'memcpy source')
        do, doff = e.addr(st, d, n, 'memcpy destination')
        if do.ro:
            e.ob('frame', False, st, "write to read-only %s" % do.name); raise PathEnd('ro')
        do = st.wobj(do.id); do.written = True; so = st.mem[so.id]
        if not (isinstance(soff, int) and isinstance(doff, int)):
            return e.sym_memcpy(st, d, s, n)
        if so.layers or do.layers:
            raise Unsupported("memcpy layers")
        cells = []
        a = soff
        while a < soff + n:
            c = so.cells.get(a)
            if c is not None and a + c[1] <= soff + n:
                cells.append((a - soff, c)); a += c[1]; continue
            sz = 8 if a % 8 == 0 and a + 8 <= soff + n and not any(a + t in so.cells for t in range(1, 8)) else 4 if a % 4 == 0 and a + 4 <= soff + n and not any(a + t in so.cells for t in range(1, 4)) else 1
            if so.bg == 'zero':
                cells.append((a - soff, (0, sz)))
            elif callable(so.bg):
                cells.append((a - soff, (so.bg(a, DBL), 8))); sz = 8
            else:
                cells.append((a - soff, None if sz < 8 else (UNDEF, 8)))
            a += sz
        for k in [k for k, (_, s2) in do.cells.items() if k < doff + n and doff < k + s2]:
            del do.cells[k]
        for o2, c in cells:
            if c is not None and c[0] is not UNDEF:
                do.cells[doff + o2] = c
            elif c is not None and do.bg is not None:
                do.cells[doff + o2] = c

    def sym_memcpy(e, st, d, s, n):
        raise Unsupported("symbolic memcpy")

    # ---------------------------------------------------------- operands
    def val(e, st, fr, op, ty=None):
        k = op[0]
        if k == 'r':
            return fr.env[op[1]]
        if k == 'c':
            return op[1]
        if k == 'cf':
            return fconst(op[1])
        if k == 'null':
            return 0
        if k == 'g':
            return e.gaddr(st, fr, op[1])
        if k == 'u':
            if ty is not None and ty.k == 's':
                return tuple(UNDEF if t.k == 'f' else UI for t in ty.el)
            return UNDEF if ty is not None and ty.k == 'f' else UI
        if k == 'z':
            if ty.k == 's':
                return tuple(e.val(st, fr, op, t) for t in ty.el)
            return ZERO if ty.k == 'f' else 0
        if k == 'agg':
            return tuple(e.val(st, fr, v, t) for t, v in op[1])
        if k == 'gep':
            b = e.val(st, fr, op[2], PTR)
            return e.gep(st, op[1], b, [(t, e.val(st, fr, v, t)) for t, v in op[3]])
        raise Unsupported("operand %r" % (op,))

    def gaddr(e, st, fr, name):
        mod = fr.f.mod
        if e.prog.find(name, mod) is not None or name in mod.declared or name not in mod.globals:
            if name not in mod.globals:
                return FPtr(name)
        key = (mod.file, name) if mod.globals[name][3] else name
        oid = st.globals.get(key)
        if oid is None:
            ty, init, cst, _ = mod.globals[name]
            if init == ('z',) or init[0] == 'u':
                for m2 in e.prog.mods:
                    g = m2.globals.get(name)
                    if g and g[1][0] not in ('z', 'u') and not g[3]:
                        ty, init, cst, _ = g; break
            o = st.new(ty.size, 'global', name, bg='zero', ro=cst)
            st.globals[key] = o.id; oid = o.id
            e.ginit(st, fr, o, 0, ty, init)
            o.written = False
        return Ptr(oid, 0)

    def ginit(e, st, fr, o, off, ty, init):
        if init[0] in ('z', 'u'):
            return
        if init[0] == 'str':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (b, 1)
            return
        if init[0] == 'agg':
            for i, (t, v) in enumerate(init[1]):
                e.ginit(st, fr, o, off + (ty.offs[i] if ty.k == 's' else i * ty.el.size), t, v)
            return
        o.cells[off] = (e.val(st, fr, init, ty), ty.size)

    def gep(e, st, ty, b, idx):
        if not isinstance(b, Ptr):
            if b is UI:
                return UI
            z = all(isinstance(v, int) and v == 0 for _, v in idx)
            if isinstance(b, int) and z:
                return b
            if isinstance(b, int):
                return b + 1 if b == 0 else b       # invalid pointer; flagged when accessed
            raise Unsupported("gep on %r" % (b,))
        off = b.off
        first = True
        for t, v in idx:
            if v is UI:
                e.ob('initialised', False, st, 'uninitialised index')
                raise PathEnd('uninit index')
            if first:
                if isinstance(v, int):
                    v = e.signed(st, v, t.n)
                elif isinstance(v, BInt):
                    v = e.unsigned(st, v, t.n)
                off = off + v * ty.size; first = False
            elif ty.k == 's':
                off = off + ty.offs[v]; ty = ty.el[v]
            else:
                if isinstance(v, int):
                    v = e.signed(st, v, t.n)
                elif isinstance(v, BInt):
                    v = e.unsigned(st, v, t.n)
                ty = ty.el; off = off + v * ty.size
        return Ptr(b.o, off)

    # ---------------------------------------------------------- running
    def call(e, fname, args, st=None, mod=None):
        """run function; returns list of final states (retval in .retval)"""
        f = e.prog.find(fname, mod)
        if f is None:
            raise Unsupported("no function " + fname)
        st = st or State()
        fr = Frame(f)
        if len(args) != len(f.params):
            raise Unsupported("signature of %s changed (%d parameters, contract has %d)" % (fname, len(f.params), len(args)))
        for (ty, nm, bv), v in zip(f.params, args):
            fr.env[nm] = v
        st.frames.append(fr)
        return e.run(st, len(st.frames) - 1)

    stuck = ()

    def run(e, st0, depth):
        if not e.stuck: e.stuck = []
        work = [st0]; done = []; nst = 0
        while work:
            st = work.pop()
            nst += 1
            if nst > e.max_states:
                raise Budget("more than %d paths" % e.max_states)
            try:
                while True:
                    if len(st.frames) == depth:
                        done.append(st); break
                    more = e.step(st)
                    if more:
                        work.extend(more)
                    if isinstance(more, Unsup):
                        break
            except Fork as f:
                alts = f.alts
                for a in alts[1:]:
                    n = st.fork(); a(n); work.append(n)
                alts[0](st); work.append(st)
            except PathEnd:
                pass
            except Unsupported as ex:
                # execution went on after an injected failure and depends on results that were never computed
                if (st.ghost.get('inner') or st.ghost.get('failed')) and not isinstance(ex, Budget) and re.search('uninitialised|undefined', str(ex)):
                    e.stuck.append((st, str(ex)))
                else: raise
        return done

    def jump(e, st, fr, dst):
        src = fr.blk
        fr.prev = src
        blk = fr.f.blocks[dst]
        vals = []
        n = 0
        for i in blk:
            if i.op != 'phi':
                break
            vals.append((i.res, e.val(st, fr, i.a[src], i.ty))); n += 1
        for r, v in vals:
            fr.env[r] = v
        fr.blk = dst; fr.ix = n

    def step(e, st):
        """execute instructions of the top frame until a call/branch happened; None to continue"""
        fr = st.frames[-1]
        env = fr.env
        blk = fr.f.blocks[fr.blk]
        ix = fr.ix
        val = e.val
        try:
            while True:
                i = blk[ix]
                op = i.op
                e.steps += 1
                if op == 'fmul':
                    env[i.res] = X.mul(val(st, fr, i.a[0], i.ty), val(st, fr, i.a[1], i.ty))
                elif op == 'fadd':
                    env[i.res] = X.add(val(st, fr, i.a[0], i.ty), val(st, fr, i.a[1], i.ty))
                elif op == 'fsub':
                    env[i.res] = X.sub(val(st, fr, i.a[0], i.ty), val(st, fr, i.a[1], i.ty))
                elif op == 'gep':
                    env[i.res] = e.gep(st, i.ty, val(st, fr, i.a[0], PTR), [(t, val(st, fr, v, t)) for t, v in i.a[1]])
                elif op == 'load':
                    env[i.res] = e.load(st, val(st, fr, i.a, PTR), i.ty)
                elif op == 'store':
                    e.store(st, val(st, fr, i.a[1], PTR), val(st, fr, i.a[0], i.ty), i.ty)
                elif op == 'fdiv':
                    env[i.res] = X.div(val(st, fr, i.a[0], i.ty), val(st, fr, i.a[1], i.ty))
                elif op == 'fneg':
                    env[i.res] = X.neg(val(st, fr, i.a, i.ty))
                elif op == 'jmp':
                    fr.ix = ix
                    e.tick(st, fr)
                    e.branch_to(st, fr, i.a)
                    return None
                elif op == 'br':
                    fr.ix = ix
                    e.tick(st, fr)
                    return e.do_br(st, fr, i)
                elif op == 'switch':
                    fr.ix = ix
                    v = val(st, fr, i.a[0], i.ty)
                    if isinstance(v, IP):
                        v = e.unsigned(st, v, i.ty.n)
                    if isinstance(v, BInt):
                        v = 1 if e.decide(st, v.c) else 0
                    if v is UI:
                        e.ob('initialised', False, st, 'switch on uninitialised value'); raise PathEnd('uninit')
                    dst = i.a[1]
                    for cv, lab in i.a[2]:
                        if isinstance(v, int):
                            hit = v == cv
                        else:
                            hit = e.decide(st, Cond('i', 'eq', v, cv))
                        if hit:
                            dst = lab; break
                    e.branch_to(st, fr, dst)
                    return None
                elif op == 'ret':
                    v = None if i.a is None else val(st, fr, i.a, i.ty)
                    for oid in fr.allocas:
                        o = st.wobj(oid); o.alive = False; o.cells = {}
                    st.frames.pop()
                    st.retval = v
                    if st.frames:
                        cr = st.frames[-1]
                        if fr.ret is not None:
                            cr.env[fr.ret] = v
                    return None
                elif op == 'call':
                    fr.ix = ix
                    r = e.do_call(st, fr, i)
                    return r
                elif op == 'extractvalue':
                    v = val(st, fr, i.a[0], i.ty)
                    for k in i.a[1]:
                        v = v[k]
                    env[i.res] = v
                elif op == 'insertvalue':
                    v = list(val(st, fr, i.a[0], i.ty)); w = val(st, fr, i.a[1], i.ty.el[i.a[2][0]])
                    if len(i.a[2]) != 1:
                        raise Unsupported("nested insertvalue")
                    v[i.a[2][0]] = w
                    env[i.res] = tuple(v)
                elif op == 'alloca':
                    n = 1 if i.a is None else e.unsigned(st, val(st, fr, i.a[1], i.a[0]), i.a[0].n)
                    o = st.new(i.ty.size * n, 'stack', "local " + str(i.res), site=fr.f.name)
                    fr.allocas.append(o.id)
                    env[i.res] = Ptr(o.id, 0)
                elif op == 'fcmp':
                    env[i.res] = Cond('f', i.a[0], val(st, fr, i.a[1], i.ty), val(st, fr, i.a[2], i.ty))
                elif op == 'icmp':
                    env[i.res] = e.icmp(st, i.a[0], val(st, fr, i.a[1], i.ty), val(st, fr, i.a[2], i.ty), i.ty)
                elif op == 'select':
                    fr.ix = ix
                    c = e.decide(st, val(st, fr, i.a[0], None))
                    env[i.res] = val(st, fr, i.a[1] if c else i.a[2], i.ty)
                elif op == 'unreachable':
                    raise PathEnd("unreachable")
                elif op in ('frem',):
                    raise Unsupported("frem")
                elif op == 'phi':
                    pass
                else:
                    fr.ix = ix
                    env[i.res] = e.intop(st, op, i, fr)
                ix += 1
        except KeyError as k:
            raise
        except Fork:
            fr.ix = ix
            raise

    def tick(e, st, fr):
        st.steps += 1
        if e.steps > e.max_steps:
            raise Budget("step budget")
        if e.deadline and (e.steps & 63) == 0 and time.time() > e.deadline:
            raise Budget("time budget")

    def branch_to(e, st, fr, dst):
        e.jump(st, fr, dst)

    def do_br(e, st, fr, i):
        c = e.decide(st, e.val(st, fr, i.a[0], None))
        e.branch_to(st, fr, i.a[1] if c else i.a[2])
        return None

    def icmp(e, st, pred, a, b, ty):
        if a is UI or b is UI:
            return UI
        if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    d = a.off - b.off
                    if isinstance(d, int):
                        return int({'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred])
                    o = {'eq': ('eq', d, 0), 'ne': ('ne', d, 0), 'ult': ('lt', d, 0), 'ule': ('le', d, 0), 'ugt': ('lt', 0, d), 'uge': ('le', 0, d)}[pred]
                    return Cond('i', *o)
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                raise Unsupported("pointer order")
            eq = (isinstance(a, FPtr) and isinstance(b, FPtr) and a.name == b.name)
            if pred == 'eq':
                return int(eq)
            if pred == 'ne':
                return int(not eq)
            raise Unsupported("pointer comparison")
        if isinstance(a, (BInt, Cond)) or isinstance(b, (BInt, Cond)):
            if isinstance(b, (BInt, Cond)) and isinstance(a, int):
                a, b = b, a
                pred = {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt'}.get(pred, pred)
            c = a.c if isinstance(a, BInt) else a
            if isinstance(b, int):
                if (pred, b) in (('ne', 0), ('eq', 1), ('ugt', 0), ('sgt', 0)):
                    return c
                if (pred, b) in (('eq', 0), ('ne', 1)):
                    return Cond('not', c)
            a = 1 if e.decide(st, c) else 0
            if isinstance(b, (BInt, Cond)):
                b = 1 if e.decide(st, b) else 0
        w = 64 if ty.k == 'p' else ty.n
        sg = pred[0] == 's'
        f = e.signed if sg else e.unsigned
        if isinstance(a, int) and isinstance(b, int):
            a, b = f(st, a, w), f(st, b, w)
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]])
        a, b = f(st, a, w), f(st, b, w)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if p in ('gt', 'ge'):
            a, b = b, a; p = {'gt': 'lt', 'ge': 'le'}[p]
        return Cond('i', p, a, b)

    def intop(e, st, op, i, fr):
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = e.val(st, fr, i.a[0], i.a[1]); src = i.a[1]
            if isinstance(v, (Cond, BInt)):
                if op == 'zext' or (op == 'trunc') or op == 'freeze':
                    return v if isinstance(v, BInt) and i.ty.n > 1 else (BInt(v) if i.ty.n > 1 else (v.c if isinstance(v, BInt) else v))
                v = 1 if e.decide(st, v) else 0
            if v is UI or isinstance(v, (Ptr, FPtr)) or isinstance(v, N):
                return v
            if op == 'zext':
                return e.unsigned(st, v, src.n)
            if op == 'sext':
                return e.signed(st, v, src.n) % (1 << i.ty.n) if isinstance(v, int) else e.signed(st, v, src.n)
            if op == 'trunc':
                return v % (1 << i.ty.n) if isinstance(v, int) else v
            return v
        if op in ('uitofp', 'sitofp'):
            v = e.val(st, fr, i.a[0], i.a[1])
            if v is UI:
                return UNDEF
            if isinstance(v, (Cond, BInt)):
                v = 1 if e.decide(st, v) else 0
            v = e.unsigned(st, v, i.a[1].n) if op == 'uitofp' else e.signed(st, v, i.a[1].n)
            return e.itof(v)
        if op in ('fptoui', 'fptosi'):
            v = e.val(st, fr, i.a[0], i.a[1])
            return e.ftoi(st, v, op == 'fptosi', i.ty.n)
        if op in ('fpext', 'fptrunc'):
            return e.val(st, fr, i.a[0], i.a[1])
        a, b = e.val(st, fr, i.a[0], i.ty), e.val(st, fr, i.a[1], i.ty)
        w = i.ty.n
        if a is UI or b is UI:
            return UI
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op] & 1
            if op == 'xor' and b == 1:
                return Cond('not', a)
            a = 1 if e.decide(st, a) else 0
            if op == 'and' and not a:
                return 0
            if op == 'or' and a:
                return 1
            return b if op in ('and', 'or') else (Cond('not', b) if a else b)
        if isinstance(a, (BInt, Cond)):
            a = 1 if e.decide(st, a) else 0
        if isinstance(b, (BInt, Cond)):
            b = 1 if e.decide(st, b) else 0
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return a.off - b.off
            raise Unsupported("pointer arithmetic " + op)
        conc = isinstance(a, int) and isinstance(b, int)
        M = 1 << w
        if op == 'add':
            return (a + b) % M if conc else a + b
        if op == 'sub':
            return (a - b) % M if conc else a - b
        if op == 'mul':
            return (a * b) % M if conc else a * b
        if op in ('udiv', 'urem'):
            a, b = e.unsigned(st, a, w), e.unsigned(st, b, w)
            if isinstance(b, int):
                if not e.ob('no-div-by-zero', b != 0, st, "integer division by zero"):
                    raise PathEnd("div0")
            elif not e.ob('no-div-by-zero', e.zprove(st, z3of(b) != 0), st, "integer division by possibly zero %s" % b):
                raise PathEnd("div0")
            if conc:
                return a // b if op == 'udiv' else a % b
            q, r = e.divmod(st, a, b)
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem'):
            a, b = e.signed(st, a, w), e.signed(st, b, w)
            if isinstance(a, int) and isinstance(b, int):
                if not e.ob('no-div-by-zero', b != 0, st, "integer division by zero"):
                    raise PathEnd("div0")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return (q if op == 'sdiv' else a - q * b) % M
            if isinstance(b, int) and b > 0 and e.zprove(st, z3of(a) >= 0):
                q, r = e.divmod(st, a, b)
                return q if op == 'sdiv' else r
            raise Unsupported("symbolic sdiv")
        if op == 'shl':
            b = e.unsigned(st, b, w)
            if isinstance(b, int):
                return (a << b) % M if isinstance(a, int) else a * (1 << b)
        if op == 'lshr':
            a, b = e.unsigned(st, a, w), e.unsigned(st, b, w)
            if isinstance(b, int):
                return a >> b if isinstance(a, int) else e.divmod(st, a, 1 << b)[0]
        if op == 'ashr' and conc:
            return (e.signed(st, a, w) >> b) % M
        if op in ('and', 'or', 'xor'):
            if conc:
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if op == 'and' and isinstance(b, int) and (b + 1) & b == 0:
                return e.divmod(st, e.unsigned(st, a, w), b + 1)[1]
            if op == 'xor' and b == M - 1:
                return -1 - a
        raise Unsupported("integer operation %s on symbols" % op)

    def divmod(e, st, a, b):
        k = ('divmod', IP.of(a).key(), IP.of(b).key())
        r = st.icache.get(k)
        if r is None:
            q = e.freshint(st, 'quo', 0); m = e.freshint(st, 'rem', 0)
            e.assume_int(st, z3of(a) == z3of(b * q if isinstance(b, IP) or isinstance(q, IP) else q * b) + z3of(m))
            e.assume_int(st, z3of(m) < z3of(b))
            r = (q, m); st.icache[k] = r
        return r

    def itof(e, v):
        if isinstance(v, int):
            return const(v)
        r = ZERO
        for m, c in v.d.items():
            t = const(c)
            for s in m:
                t = X.mul(t, var('int:' + s))
            r = X.add(r, t)
        return r

    def ftoi(e, st, v, sg, w):
        if v is UNDEF:
            return UI
        if v.op == 'c':
            t = math.trunc(v.a[0])
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            e.ob('float-to-int', lo <= t <= hi, st, "conversion of %s out of range" % t)
            return t % (1 << w)
        if v.op == 'sp':
            e.ob('float-to-int', False, st, "conversion of %s to an integer" % v)
            raise PathEnd("nan to int")
        if not X.support([v]):
            import mpmath
            x = X.MpEval({}).ev([v])[0]
            if mpmath.isnan(x) or mpmath.isinf(x):
                e.ob('float-to-int', False, st, "conversion of %s" % v); raise PathEnd("nan")
            # correctly rounded double evaluation is assumed when the value is not within 1e-9 of an integer boundary
            t = int(mpmath.floor(x)) if x >= 0 else -int(mpmath.floor(-x))
            if abs(x - mpmath.nint(x)) < 1e-9 and x != mpmath.nint(x):
                t = int(mpmath.nint(x))
            return t % (1 << w)
        h = e.ftoi_hook(st, v, sg, w)
        if h is not None:
            return h
        k = ('ftoi', v.id, sg)
        r = st.icache.get(k)
        if r is None:
            r = e.freshint(st, 'ftoi', 0 if not sg else -(1 << (w - 1)), (1 << w) - 1 if not sg else (1 << (w - 1)) - 1)
            st.icache[k] = r
        return r

    def ftoi_hook(e, st, v, sg, w):
        return None

    # ---------------------------------------------------------- calls
    def do_call(e, st, fr, i):
        callee, args = i.a
        if callee[0] == '%':
            t = fr.env[callee]
            if isinstance(t, FPtr):
                callee = t.name
            else:
                e.ob('valid-access', False, st, "call through invalid function pointer %r" % (t,))
                raise PathEnd("bad call")
        av = [e.val(st, fr, v, t) for t, v in args]
        name = callee[1:]
        h = e.contracts.get(name)
        if h is not None:
            e.used_contracts.add(name)
            if e.trace_calls is not None:
                st.events.append(('call', name, av))
            r = h(e, st, av)
            return e.finish_call(st, fr, i, r)
        h = LIBC.get(name)
        if h is None and name.startswith('llvm.'):
            for k in LIBC:
                if k.startswith('llvm.') and name.startswith(k):
                    h = LIBC[k]; break
        if h is not None:
            e.externs.add(name)
            r = h(e, st, av)
            return e.finish_call(st, fr, i, r)
        f = e.prog.find(callee, fr.f.mod)
        if f is None:
            raise Unsupported("call of unknown external function " + name)
        e.inlined.add(name)
        more = None
        if e.fault is not None:
            rc = e.fault(name, st)           # the callee may fail without any effect
            if rc is not None:
                s2 = st.fork(); s2.ghost['inner'] = (name, fr.f.name[1:])
                f2 = s2.frames[-1]; f2.ix += 1
                if i.res is not None: f2.env[i.res] = rc % (1 << 32)
                more = [s2]
        if len(st.frames) > 60:
            raise Budget("call depth")
        if len(f.params) != len(av):
            raise Unsupported("vararg call of " + name)
        nf = Frame(f)
        for (ty, nm, bv), v in zip(f.params, av):
            if bv:
                raise Unsupported("byval")
            nf.env[nm] = v
        nf.ret = i.res
        fr.ix += 1
        st.frames.append(nf)
        return more

    def finish_call(e, st, fr, i, r):
        """r: plain value or Alts([(state, value)...])"""
        if isinstance(r, Alts):
            out = []
            first = True
            for s, v in r.l:
                f2 = s.frames[-1]
                f2.ix += 1
                if i.res is not None:
                    f2.env[i.res] = v
                if s is not st:
                    out.append(s)
            if not any(s is st for s, _ in r.l):
                return Unsup(out)
            return out
        fr.ix += 1
        if i.res is not None:
            fr.env[i.res] = r
        return None

    # ---------------------------------------------------------- helpers for contracts
    def alloc_array(e, st, name, n, kind='arg', ro=False, comps=('re', 'im'), fill=True, init=None):
        """array of n complex (or real) values; symbols name[i].re etc."""
        w = 8 * len(comps)
        o = st.new(n * w, kind, name, ro=ro)
        if fill:
            for k in range(n):
                for c, cn in enumerate(comps):
                    v = init(k, cn) if init else X.mk('v', "%s[%d]%s" % (name, k, '.' + cn if len(comps) > 1 else ''))
                    o.cells[k * w + c * 8] = (v, 8)
        return Ptr(o.id, 0)

    def alloc_int(e, st, name, v, size=8, ro=False):
        o = st.new(size, 'arg', name, ro=ro)
        if v is not None:
            o.cells[0] = (v, size)
        return Ptr(o.id, 0)

    def getc(e, st, p, k):
        """k-th complex of the array at p -> C"""
        o = st.mem[p.o]
        off = p.off + 16 * k
        return C(e.rawload(st, o, off, DBL), e.rawload(st, o, off + 8, DBL))

    def getd(e, st, p, k=0):
        return e.rawload(st, st.mem[p.o], p.off + 8 * k, DBL)

    def getu(e, st, p, k=0):
        return e.rawload(st, st.mem[p.o], p.off + 8 * k, I64)

    def geti(e, st, p, k=0):
        return e.rawload(st, st.mem[p.o], p.off + 4 * k, I32)

    def putc(e, st, p, k, z):
        z = C.of(z)
        e.store(st, Ptr(p.o, p.off + 16 * k), z.re, DBL)
        e.store(st, Ptr(p.o, p.off + 16 * k + 8), z.im, DBL)

    def putd(e, st, p, k, v):
        e.store(st, Ptr(p.o, p.off + 8 * k), v, DBL)


class Unsup(list):
    pass


class Alts:
    def __init__(s, l):
        s.l = l


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ library models (trusted contracts of libc / libm)
LIBC = {}


def ext(*names):
    def d(f):
        for n in names:
            LIBC[n] = f
        return f
    return d


@ext('malloc')
def _malloc(e, st, a):
    n = e.unsigned(st, a[0], 64)
    fr = st.frames[-1]
    def site(s):
        return "%s@%s" % (s.frames[-1].f.name[1:], s.frames[-1].blk[1:])
    if isinstance(n, int) and n > (1 << 40):
        if not e.malloc_fail:
            return 0
    st.ghost['nalloc'] = st.ghost.get('nalloc', 0) + 1
    if e.malloc_fail and not st.ghost.get('failed'):
        s2 = st.fork()
        s2.ghost['failed'] = st.ghost['nalloc']
        s2.path.append(('alloc-fails', st.ghost['nalloc'], site(st)))
        o = st.new(n, 'heap', "malloc#%d in %s" % (st.ghost['nalloc'], site(st)), site=site(st))
        return Alts([(st, Ptr(o.id, 0)), (s2, 0)])
    o = st.new(n, 'heap', "malloc#%d in %s" % (st.ghost['nalloc'], site(st)), site=site(st))
    return Ptr(o.id, 0)


@ext('calloc')
def _calloc(e, st, a):
    n = e.unsigned(st, a[0], 64) * e.unsigned(st, a[1], 64)
    r = _malloc(e, st, [n])
    p = r.l[0][1] if isinstance(r, Alts) else r
    if isinstance(p, Ptr):
        st.mem[p.o].bg = 'zero'
    return r


@ext('free')
def _free(e, st, a):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return None
    if not isinstance(p, Ptr):
        e.ob('valid-free', False, st, "free of an undefined pointer"); raise PathEnd('free')
    o = st.mem[p.o]
    if not e.ob('valid-free', o.alive and o.kind == 'heap' and p.off == 0, st, "free of %s (%s%s)" % (o.name, o.kind, '' if o.alive else ', already freed')):
        raise PathEnd("bad free")
    o = st.wobj(p.o); o.alive = False; o.cells = {}; o.layers = ()
    return None


@ext('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove')
def _memcpy(e, st, a):
    e.memcpy(st, a[0], a[1], e.unsigned(st, a[2], 64)); return a[0]


@ext('llvm.memset', 'memset')
def _memset(e, st, a):
    e.memset(st, a[0], a[1], e.unsigned(st, a[2], 64)); return a[0]


@ext('llvm.stacksave')
def _ss(e, st, a):
    return 0


@ext('llvm.stackrestore', 'llvm.lifetime', 'llvm.va_start', 'llvm.va_end', 'llvm.assume')
def _nop(e, st, a):
    return None


@ext('llvm.threadlocal.address')
def _tls(e, st, a):
    return a[0]


@ext('llvm.abs')
def _iabs(e, st, a):
    v = a[0]
    if isinstance(v, int):
        return abs(e.signed(st, v, 32)) % (1 << 32)
    v = e.signed(st, v, 32)
    if isinstance(v, int):
        return abs(v) % (1 << 32)
    return v if not e.decide(st, Cond('i', 'lt', v, 0)) else -v


@ext('abs')
def _iabs2(e, st, a):
    return _iabs(e, st, a)


@ext('llvm.fabs', 'fabs')
def _fabs(e, st, a):
    return X.absn(a[0])


@ext('llvm.is.fpclass')
def _fpclass(e, st, a):
    x, m = a[0], a[1]
    if x is X.NAN:
        return 1 if m & 3 else 0
    if x is X.INF:
        return 1 if m & 512 else 0
    if x is X.NINF:
        return 1 if m & 4 else 0
    if bool(m & 3) != bool(m & 0x1f8) and e.decide(st, Cond('f', 'uno', x, x)):
        return 1 if m & 3 else 0
    if m & 0x1f8 == 0x1f8:
        return 1
    if m & 0x1f8 == 0:
        return 0
    raise Unsupported("floating-point class test %d" % m)


@ext('llvm.fmuladd')
def _fma(e, st, a):
    return X.add(X.mul(a[0], a[1]), a[2])


for _n in ('sqrt', 'exp', 'log', 'log2', 'log10', 'cos', 'sin', 'tan', 'atan', 'acos', 'asin', 'cosh', 'sinh', 'tanh', 'tgamma', 'atanh'):
    ext(_n)(lambda e, st, a, _n=_n: X.fn(_n, a[0]))
for _n in ('floor', 'ceil', 'round'):
    ext(_n, 'llvm.' + _n)(lambda e, st, a, _n=_n: X.fn(_n, a[0]))
ext('pow')(lambda e, st, a: _pow(a[0], a[1]))


@ext('nexttoward', 'nextafter')
def _next(e, st, a):
    x, y = a
    if x.op == 'c' and y.op == 'c':
        return const(Fraction(math.nextafter(float(x.a[0]), float(y.a[0]))))
    if x is ZERO and (e.frel(st, y, ZERO) <= {'>'}): return const(Fraction(5e-324))
    # neighbouring floating point number: no difference to the real number itself
    r = e.frel(st, x, y)
    return x
ext('atan2')(lambda e, st, a: X.fn('atan2', a[0], a[1]))
ext('hypot', 'cabs')(lambda e, st, a: X.fn('cabs', a[0], a[1]))
ext('carg')(lambda e, st, a: X.fn('carg', a[0], a[1]))
ext('creal')(lambda e, st, a: a[0])
ext('cimag')(lambda e, st, a: a[1])
ext('conj')(lambda e, st, a: (a[0], X.neg(a[1])))
for _n in ('cexp', 'csqrt', 'clog', 'csin', 'ccos', 'csinh', 'ccosh', 'ctanh', 'ctan', 'cacos', 'catan', 'casin'):
    ext(_n)(lambda e, st, a, _n=_n: X.cfn(_n, a[0], a[1]))


def _pow(b, x):
    if x.op == 'c' and x.a[0].denominator == 1 and abs(x.a[0]) <= 64:
        r = ONE
        for _ in range(abs(int(x.a[0]))):
            r = X.mul(r, b)
        return r if x.a[0] >= 0 else X.div(ONE, r)
    if x.op == 'c' and x.a[0] == Fraction(1, 2):
        return X.fn('sqrt', b)
    return X.fn('pow', b, x)


@ext('cpow')
def _cpow(e, st, a):
    z = C(a[0], a[1])
    if a[3] is ZERO and a[2].op == 'c' and a[2].a[0].denominator == 1 and abs(a[2].a[0]) <= 64:
        r = z ** int(a[2].a[0])
        return (r.re, r.im)
    # z^w = exp(w log z)
    l = C(*X.cfn('clog', a[0], a[1])) if not (a[1] is ZERO and a[0].op == 'c' and a[0].a[0] > 0) else C(X.fn('log', a[0]))
    # base exp(w): log is w on the principal strip
    r = X.cexp(C(a[2], a[3]) * l)
    return (r.re, r.im)


@ext('printf', 'fprintf', 'vfprintf', 'puts', 'putchar')
def _printf(e, st, a):
    return 0


def _errmsg(e, st, a):
    return None


@ext('fnft__errmsg_aux')
def _em(e, st, a):
    """contract of the message hook: no effect on program state (verified under its own property)"""
    st.events.append(('errmsg',))
    return a[0] if a and isinstance(a[0], (int, IP)) else None


@ext('fnft__warn_aux')
def _wm(e, st, a):
    st.events.append(('warn',))
    return None


@ext('kiss_fft_next_fast_size')
def _nfs(e, st, a):
    n = a[0]
    if not isinstance(n, int):
        raise Unsupported("symbolic FFT length")
    while True:
        m = n
        for f in (2, 3, 5):
            while m and m % f == 0:
                m //= f
        if m <= 1:
            return n
        n += 1
