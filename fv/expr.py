"""Real-valued terms (hash-consed DAG) produced by symbolic execution, and the decision procedure for
equalities between them: evaluation in a 151-bit prime field (polynomial/rational identity testing,
one-sided error < 2^-100) with exp/sin/cos/sqrt axiomatised through group homomorphisms, and
multi-precision evaluation at real points to refute (concrete witness) or to cross-check."""
import math, random, time
from fractions import Fraction
import mpmath
from mpmath import mp, mpf

mp.dps = 50

# ------------------------------------------------------------------ terms
class N:
    __slots__ = ("op", "a", "id")

    def __init__(s, op, a, id):
        s.op, s.a, s.id = op, a, id

    def __repr__(s):
        return show(s)

    def __hash__(s):
        return s.id

    def __eq__(s, o):
        return s is o


_tab = {}
_cnt = [0]
NODES = [None]


def mk(op, *a):
    k = (op,) + tuple(x.id if isinstance(x, N) else (type(x), x) for x in a)
    n = _tab.get(k)
    if n is None:
        _cnt[0] += 1
        n = N(op, a, _cnt[0]); _tab[k] = n; NODES.append(n)
    return n


def reset():
    pass


def const(x):
    return mk('c', Fraction(x))


ZERO = const(0); ONE = const(1); NAN = mk('sp', 'nan'); INF = mk('sp', 'inf'); NINF = mk('sp', '-inf')
UNDEF = mk('sp', 'undef')
PI = mk('v', 'pi')
_fc = {}


def rationalise(f):
    """the real number a double literal stands for: nearby rational, or rational multiple of pi, sqrt2, sqrt3"""
    fr = Fraction(f)
    if fr.denominator <= 2 ** 20:
        return const(fr)
    tol = abs(fr) * Fraction(1, 2 ** 51)
    for lim in (100, 6000):
        g = fr.limit_denominator(lim)
        if abs(g - fr) <= tol and g != 0:
            return const(g)
    for base, node in ((math.pi, PI), (math.sqrt(3), fn('sqrt', const(3))), (math.sqrt(2), fn('sqrt', const(2)))):
        h = Fraction(f) / Fraction(base)
        g = h.limit_denominator(400)
        if g != 0 and abs(g - h) <= abs(h) * Fraction(1, 2 ** 51):
            return mul(const(g), node)
    return const(fr)


def fconst(f):
    if isinstance(f, float):
        if f != f:
            return NAN
        if f in (math.inf, -math.inf):
            return INF if f > 0 else NINF
        r = _fc.get(f)
        if r is None:
            r = _fc[f] = rationalise(f)
        return r
    return const(f)


def var(name):
    return mk('v', name)


def isc(n):
    return n.op == 'c'


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.a[0] + b.a[0])
        if a.a[0] == 0:
            return b
    elif b.op == 'c' and b.a[0] == 0:
        return a
    if a.op == 'sp' or b.op == 'sp':
        return spc('+', a, b)
    if b.op == 'neg':
        return sub(a, b.a[0])
    if a.op == 'neg':
        return sub(b, a.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk('+', a, b)


def sub(a, b):
    if a is b and a.op != 'sp':
        return ZERO
    if b.op == 'c':
        if a.op == 'c':
            return const(a.a[0] - b.a[0])
        if b.a[0] == 0:
            return a
    elif a.op == 'c' and a.a[0] == 0:
        return neg(b)
    if a.op == 'sp' or b.op == 'sp':
        return spc('-', a, b)
    if b.op == 'neg':
        return add(a, b.a[0])
    return mk('-', a, b)


def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.a[0] * b.a[0])
        v = a.a[0]
        if v == 0 and b.op != 'sp':
            return ZERO
        if v == 1:
            return b
        if v == -1:
            return neg(b)
    elif b.op == 'c':
        return mul(b, a)
    if a.op == 'sp' or b.op == 'sp':
        return spc('*', a, b)
    if a.op == 'neg':
        return neg(mul(a.a[0], b))
    if b.op == 'neg':
        return neg(mul(a, b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return mk('*', a, b)


def div(a, b):
    if b.op == 'c':
        if b.a[0] == 0:
            if a.op == 'c' and a.a[0] == 0:
                return NAN
            if a.op == 'c':
                return INF if a.a[0] > 0 else NINF
            return mk('/', a, b)
        if a.op != 'sp':
            return mul(const(1 / b.a[0]), a)
    if a.op == 'sp' or b.op == 'sp':
        return spc('/', a, b)
    if a.op == 'c' and a.a[0] == 0:
        return ZERO
    if a is b:
        return ONE
    if b.op == 'neg':
        return neg(div(a, b.a[0]))
    if a.op == 'neg':
        return neg(div(a.a[0], b))
    return mk('/', a, b)


def neg(a):
    if a.op == 'c':
        return const(-a.a[0])
    if a.op == 'neg':
        return a.a[0]
    if a is NAN or a is UNDEF:
        return a
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    if a.op == '-':
        return mk('-', a.a[1], a.a[0])
    return mk('neg', a)


def spc(op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is NAN or b is NAN:
        return NAN
    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}[op]
    def tof(n):
        if n is INF:
            return math.inf
        if n is NINF:
            return -math.inf
        if n.op == 'c':
            return float(n.a[0])
        return None
    x, y = tof(a), tof(b)
    if x is not None and y is not None:
        try:
            return fconst(f(x, y))
        except ZeroDivisionError:
            return NAN
    if op == '/' and b in (INF, NINF):
        return ZERO
    return mk(op, a, b)


def absn(a):
    if a.op == 'c':
        return const(abs(a.a[0]))
    if a.op == 'neg':
        return absn(a.a[0])
    if a.op == 'abs':
        return a
    if a in (INF, NINF):
        return INF
    if a.op == 'sp':
        return a
    if a.op == 'fn' and a.a[0] in ('cabs', 'sqrt'):
        return a
    return mk('abs', a)


def fn(name, *args):
    if any(x is NAN or x is UNDEF for x in args):
        return UNDEF if any(x is UNDEF for x in args) else NAN
    if all(x.op == 'c' for x in args):
        v = [x.a[0] for x in args]
        if name == 'sqrt' and v[0] >= 0:
            r = Fraction(math.isqrt(v[0].numerator), math.isqrt(v[0].denominator))
            if r * r == v[0]:
                return const(r)
        if name == 'cabs':
            return fn('sqrt', const(v[0] * v[0] + v[1] * v[1]))
        if all(x == 0 for x in v):
            if name in ('cexp.re', 'ccosh.re', 'ccos.re', 'cos', 'exp', 'cosh'):
                return ONE
            if name in ('cexp.im', 'csinh.re', 'csinh.im', 'csin.re', 'csin.im', 'ccosh.im', 'ccos.im', 'sin', 'sinh', 'csqrt.re', 'csqrt.im', 'atan', 'ctanh.re', 'ctanh.im', 'tanh'):
                return ZERO
        if name == 'floor':
            return const(math.floor(v[0]))
        if name == 'ceil':
            return const(math.ceil(v[0]))
        if name == 'round':
            f = v[0]
            return const(math.floor(abs(f) + Fraction(1, 2)) * (1 if f >= 0 else -1))
        if name == 'log2' and v[0] > 0:
            n, d = v[0].numerator, v[0].denominator
            if n & (n - 1) == 0 and d & (d - 1) == 0:
                return const(n.bit_length() - d.bit_length())
        if name == 'log' and v[0] == 1:
            return ZERO
        if name == 'acos':
            if v[0] == 1:
                return ZERO
            if v[0] == -1:
                return PI
            if v[0] == 0:
                return mul(const(Fraction(1, 2)), PI)
        if name == 'pow' and v[1].denominator == 1 and abs(v[1]) < 400 and (v[0] != 0 or v[1] > 0):
            return const(v[0] ** int(v[1]))
        if name in ('csqrt.re', 'csqrt.im') and v[1] == 0:
            if v[0] >= 0:
                return fn('sqrt', const(v[0])) if name.endswith('re') else ZERO
            return ZERO if name.endswith('re') else fn('sqrt', const(-v[0]))
        if name == 'tgamma' and v[0].denominator == 1 and 0 < v[0] < 40:
            return const(math.factorial(int(v[0]) - 1))
    if name in ('floor', 'ceil', 'round') and args[0].op == 'c':
        pass
    return mk('fn', name, *args)


def cfn(name, re, im):
    """complex valued library function -> pair of real terms"""
    if name == 'cexp':
        # exp(log z) = z
        if re.op == 'fn' and im.op == 'fn' and re.a[0] == 'clog.re' and im.a[0] == 'clog.im' and re.a[1:] == im.a[1:]:
            return re.a[1], re.a[2]
    if name == 'conj':
        return re, neg(im)
    return fn(name + '.re', re, im), fn(name + '.im', re, im)


# complex helpers on pairs
class C:
    """complex term (pair) with operators, for writing specifications"""
    __slots__ = ("re", "im")

    def __init__(s, re, im=ZERO):
        s.re = re if isinstance(re, N) else fconst(re) if isinstance(re, float) else const(re)
        s.im = im if isinstance(im, N) else fconst(im) if isinstance(im, float) else const(im)

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, complex):
            return C(fconst(x.real), fconst(x.imag))
        return C(x)

    def __add__(s, o):
        o = C.of(o); return C(add(s.re, o.re), add(s.im, o.im))
    __radd__ = __add__

    def __sub__(s, o):
        o = C.of(o); return C(sub(s.re, o.re), sub(s.im, o.im))

    def __rsub__(s, o):
        return C.of(o) - s

    def __mul__(s, o):
        o = C.of(o)
        return C(sub(mul(s.re, o.re), mul(s.im, o.im)), add(mul(s.re, o.im), mul(s.im, o.re)))
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = C.of(o)
        d = add(mul(o.re, o.re), mul(o.im, o.im))
        n = s * C(o.re, neg(o.im))
        return C(div(n.re, d), div(n.im, d))

    def __rtruediv__(s, o):
        return C.of(o) / s

    def __neg__(s):
        return C(neg(s.re), neg(s.im))

    def __pow__(s, k):
        r = C(1)
        for _ in range(abs(k)):
            r = r * s
        return r if k >= 0 else 1 / r

    def conj(s):
        return C(s.re, neg(s.im))

    def __repr__(s):
        return "(%r + i %r)" % (s.re, s.im)


IU = C(0, 1)


def cf(name, z):
    z = C.of(z)
    return C(*cfn(name, z.re, z.im))


def cexp(z):
    return cf('cexp', z)


def cvar(name):
    return C(var(name + '.re'), var(name + '.im'))


def show(n, depth=4):
    if n.op == 'c':
        return str(n.a[0]) if n.a[0].denominator < 10 ** 6 else repr(float(n.a[0]))
    if n.op in ('v', 'sp'):
        return str(n.a[0])
    if n.op == 'sel':
        return "%s[%s]" % n.a
    if depth <= 0:
        return '..'
    if n.op in ('+', '-', '*', '/'):
        return "(%s %s %s)" % (show(n.a[0], depth - 1), n.op, show(n.a[1], depth - 1))
    return "%s(%s)" % (n.op if n.op != 'fn' else n.a[0], ', '.join(show(x, depth - 1) if isinstance(x, N) else str(x) for x in n.a[(n.op == 'fn'):]))


def topo(roots):
    """nodes reachable, ascending id (arguments precede users)"""
    seen = {}
    st = [r for r in roots]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        for x in n.a:
            if isinstance(x, N) and x.id not in seen:
                st.append(x)
    return [seen[k] for k in sorted(seen)]


def support(roots):
    return [n for n in topo(roots) if n.op in ('v', 'sel')]


def subst(roots, m):
    """replace nodes (by identity) and rebuild; returns list"""
    res = {}
    for n in topo(roots):
        if n in m:
            res[n.id] = m[n]; continue
        if n.op in ('c', 'v', 'sp', 'sel'):
            res[n.id] = n
        elif n.op == '+':
            res[n.id] = add(res[n.a[0].id], res[n.a[1].id])
        elif n.op == '-':
            res[n.id] = sub(res[n.a[0].id], res[n.a[1].id])
        elif n.op == '*':
            res[n.id] = mul(res[n.a[0].id], res[n.a[1].id])
        elif n.op == '/':
            res[n.id] = div(res[n.a[0].id], res[n.a[1].id])
        elif n.op == 'neg':
            res[n.id] = neg(res[n.a[0].id])
        elif n.op == 'abs':
            res[n.id] = absn(res[n.a[0].id])
        elif n.op == 'fn':
            res[n.id] = fn(n.a[0], *[res[x.id] for x in n.a[1:]])
        else:
            res[n.id] = n
    return [res[r.id] for r in roots]


# ------------------------------------------------------------------ prime field
K0, MM = 11070259200, 47
R = 4029026638765271270004246532907759
P = 2096311353097307083111229128339540425593241601
assert P == K0 * MM * R + 1


def _smooth_gen():
    fs = [2, 3, 5, 7, 11, 13, 47]
    o = K0 * MM
    x = 2
    while True:
        g = pow(x, R, P)
        if all(pow(g, o // f, P) != 1 for f in fs):
            return g
        x += 1


G = _smooth_gen()            # order K0*MM
HSUB = pow(3, K0 * MM, P)    # order R
assert HSUB != 1
IMAG = pow(G, K0 * MM // 4, P)
INV2 = pow(2, -1, P)


def root_of_unity(fr):
    """exp(i*pi*fr) for a rational fr, None if the order is unsupported"""
    fr = Fraction(fr) % 2
    n = fr.denominator * 2
    if (K0 * MM) % n:
        return None
    return pow(G, (K0 * MM // n) * fr.numerator, P)


SQRT = {}
SQRT[3] = (root_of_unity(Fraction(1, 6)) + pow(root_of_unity(Fraction(1, 6)), -1, P)) % P
SQRT[2] = (root_of_unity(Fraction(1, 4)) + pow(root_of_unity(Fraction(1, 4)), -1, P)) % P


def tonelli(a):
    a %= P
    if a == 0:
        return 0
    if pow(a, (P - 1) // 2, P) != 1:
        return None
    q, s = P - 1, 0
    while q % 2 == 0:
        q //= 2; s += 1
    z = _nonres
    m, c, t, r = s, pow(z, q, P), pow(a, q, P), pow(a, (q + 1) // 2, P)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % P; i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c = i, b * b % P
        t, r = t * c % P, r * b % P
    return r


_nonres = next(z for z in range(2, 100) if pow(z, (P - 1) // 2, P) != 1)


_rt = {}


def _ratios():
    if not _rt:
        for q in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 20, 24, 30, 32, 40, 60, 105):
            iq = pow(q, -1, P)
            for p in range(1, 2 * q + 13):
                k = Fraction(p, q)
                v = p * iq % P
                _rt.setdefault(v, k); _rt.setdefault(P - v, -k)
    return _rt


class Retry(Exception):
    def __init__(s, node, kind):
        s.node, s.kind = node, kind


class Opaque(Exception):
    pass


def _h(seed, *k):
    return random.Random(repr((seed,) + k)).randrange(1, R)


class FpEval:
    """evaluates terms at one random point of the field; symbols default to random values"""

    def __init__(s, seed, assign=None):
        s.seed = seed
        s.assign = dict(assign or {})      # name -> value (fixed)
        s.salt = {}                        # name -> counter (re-randomised symbols)
        s.val = {}
        s.poly = {}
        s.bases = []
        s.rootc = {}
        s.locked = set()

    def symval(s, key):
        if key in s.assign:
            return s.assign[key] % P
        rng = random.Random(repr((s.seed, key, s.salt.get(key, 0))))
        return rng.randrange(1, P)

    def ev(s, roots, tries=4000):
        order = topo(roots)
        for _ in range(tries):
            try:
                val = s.val
                for n in order:
                    if n.id not in val:
                        val[n.id] = s.one(n)
                return [s.val[r.id] for r in roots]
            except Retry as r:
                sup = [n for n in support([r.node]) if n.op in ('v', 'sel') and s.key(n) not in s.assign and n.a[0] != 'pi']
                free = [n for n in sup if s.key(n) not in s.locked] or sup
                if not sup:
                    raise Opaque("constant %s without root" % show(r.node))
                k = free[s.salt.get('_cnt', 0) % len(free)]
                s.salt['_cnt'] = s.salt.get('_cnt', 0) + 1
                key = s.key(k)
                s.salt[key] = s.salt.get(key, 0) + 1
                s.invalidate(k)
        raise Opaque("no admissible point found")

    def invalidate(s, k):
        """forget everything that depends on the symbol k"""
        tainted = {k.id}
        for i in sorted(set(s.val) | set(s.poly)):          # node ids are topologically ordered: operands are created first
            if i not in tainted and any(isinstance(x, N) and x.id in tainted for x in NODES[i].a):
                tainted.add(i)
        s.val = {i: x for i, x in s.val.items() if i not in tainted}
        s.poly = {i: p for i, p in s.poly.items() if i not in tainted}

    @staticmethod
    def key(n):
        return n.a[0] if n.op == 'v' else (n.a[0], str(n.a[1]))

    def one(s, n):
        op = n.op
        v = s.val
        if op == '*':
            return v[n.a[0].id] * v[n.a[1].id] % P
        if op == '+':
            return (v[n.a[0].id] + v[n.a[1].id]) % P
        if op == '-':
            return (v[n.a[0].id] - v[n.a[1].id]) % P
        if op == 'c':
            f = n.a[0]
            return f.numerator * pow(f.denominator, -1, P) % P
        if op in ('v', 'sel'):
            return s.symval(s.key(n))
        if op == 'neg':
            return -v[n.a[0].id] % P
        if op == '/':
            d = v[n.a[1].id]
            if d == 0:
                if n.a[1].op == 'c':
                    raise Opaque("division by zero")
                raise Opaque("division by an identically zero term")
            return v[n.a[0].id] * pow(d, -1, P) % P
        if op == 'abs':
            x = v[n.a[0].id]
            c = min(x, P - x)
            return c if _h(s.seed, 'abs', c) & 1 else P - c
        if op == 'fn':
            return s.func(n)
        if op == 'itof':
            raise Opaque("itof")
        raise Opaque(op + str(n.a))

    # ---- polynomial normal form of exponents, {monomial: coeff}; monomial = sorted tuple of (atom, power)
    def pf(s, n):
        r = s.poly.get(n.id)
        if r is not None:
            return r
        op = n.op
        if op == 'c':
            r = {(): n.a[0]} if n.a[0] else {}
        elif op in ('v', 'sel'):
            r = {(((s.key(n)), 1),): Fraction(1)}
        elif op in ('+', '-'):
            r = dict(s.pf(n.a[0])); sg = 1 if op == '+' else -1
            for m, c in s.pf(n.a[1]).items():
                x = r.get(m, 0) + sg * c
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
        elif op == 'neg':
            r = {m: -c for m, c in s.pf(n.a[0]).items()}
        elif op == '*':
            A, B = s.pf(n.a[0]), s.pf(n.a[1])
            if len(A) * len(B) > 400:
                r = {((('fp', s.val[n.id]), 1),): Fraction(1)}
            else:
                r = {}
                for m1, c1 in A.items():
                    for m2, c2 in B.items():
                        m = s.mmul(m1, m2)
                        c = c1 * c2
                        while True:
                            if ('sq', 3) in dict(m) and dict(m)[('sq', 3)] >= 2:
                                m = s.mmul(m, ((('sq', 3), -2),)); c *= 3; continue
                            if ('sq', 2) in dict(m) and dict(m)[('sq', 2)] >= 2:
                                m = s.mmul(m, ((('sq', 2), -2),)); c *= 2; continue
                            break
                        x = r.get(m, 0) + c
                        if x:
                            r[m] = x
                        else:
                            r.pop(m, None)
        elif op == '/':
            B = s.pf(n.a[1])
            if len(B) == 1:
                (m, c), = B.items()
                inv = tuple((a, -k) for a, k in m)
                r = {}
                for m1, c1 in s.pf(n.a[0]).items():
                    mm = s.mmul(m1, inv)
                    r[mm] = r.get(mm, 0) + c1 / c
            else:
                # normalise by content so that 1/(2x+2y) and 1/(x+y) agree
                lead = max(B, key=repr); lc = B[lead]
                at = (('inv', s.val[n.a[1].id] * pow(lc.numerator, -1, P) * lc.denominator % P), 1)
                r = {}
                for m1, c1 in s.pf(n.a[0]).items():
                    mm = s.mmul(m1, (at,))
                    r[mm] = r.get(mm, 0) + c1 / lc
        elif op == 'fn' and n.a[0] == 'sqrt' and n.a[1].op == 'c' and n.a[1].a[0] in (2, 3):
            r = {((('sq', int(n.a[1].a[0])), 1),): Fraction(1)}
        elif op == 'fn' and n.a[0] in ('csqrt.re', 'csqrt.im'):
            sw, keyv = s.canon_sqrt(n)
            nm = n.a[0]
            # principal roots of W and -W are related by a factor +-i; cosh/sinc-type users are even
            if not sw:
                r = {(((nm,) + keyv, 1),): Fraction(1)}
            elif nm == 'csqrt.re':
                r = {((('csqrt.im',) + keyv, 1),): Fraction(-1)}
            else:
                r = {((('csqrt.re',) + keyv, 1),): Fraction(1)}
        else:
            r = {((('fp', s.val[n.id]), 1),): Fraction(1)}
        if len(r) > 400:
            r = {((('fp', s.val[n.id]), 1),): Fraction(1)}
        s.poly[n.id] = r
        return r

    @staticmethod
    def mmul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
            if d[k] == 0:
                del d[k]
        return tuple(sorted(d.items(), key=repr))

    def expo(s, poly, tag):
        """homomorphism from (exponent terms,+) to F_p^*: tag 'e' for exp(x), 'i' for exp(i x)"""
        e = 0; extra = 1
        for m, c in poly.items():
            if tag == 'i' and m == ((('pi'), 1),):
                w = root_of_unity(c)
                if w is None:
                    raise Opaque("root of unity of order %s" % c)
                extra = extra * w % P
                continue
            if c.denominator % R == 0:
                raise Opaque("exponent")
            e += _h(s.seed, tag, m) * c.numerator * pow(c.denominator, -1, R)
        return pow(HSUB, e % R, P) * extra % P

    def canon_sqrt(s, n):
        x, y = s.val[n.a[1].id], s.val[n.a[2].id]
        a, b = (x, y), (-x % P, -y % P)
        return (b < a), min(a, b)

    def ecomplex(s, re, im):
        """e^re and e^(i im). Exponents that are multiples of complex square roots are mapped through the value of the
        multiple itself, so that h*csqrt(A) and csqrt(h^2*A) (equal up to sign) have inverse or equal exponentials."""
        pr = s.pf(re) if re is not ZERO else {}
        pi_ = s.pf(im) if im is not ZERO else {}
        r1, q1 = s.splitroot(pr)
        r2, q2 = s.splitroot(pi_)
        ex = s.expo(r1, 'e') if r1 else 1
        h = s.expo(r2, 'i') if r2 else 1
        if q1 or q2:
            # logs of ex*h and ex/h as {(root value, multiplier value): (a, b)} meaning (a + b i) * M * root
            up, lo = {}, {}
            for q, isim in ((q1, 0), (q2, 1)):
                for (part, keyv), M, c in q:
                    S, Sb = s.roots(keyv)
                    k = c / 2
                    # csqrt.re = (S+Sb)/2, csqrt.im = (S-Sb)/(2i)
                    cS, cB = ((k, 0), (k, 0)) if part == 'csqrt.re' else ((0, -k), (0, k))
                    if isim:                 # times i
                        cS, cB = (-cS[1], cS[0]), (-cB[1], cB[0])
                    for root, cc in ((S, cS), (Sb, cB)):
                        for d, sg in ((up, 1), (lo, -1 if isim else 1)):
                            o = d.get((root, M), (0, 0))
                            d[(root, M)] = (o[0] + sg * cc[0], o[1] + sg * cc[1])
            U = L = 1
            for d, w in ((up, 0), (lo, 1)):
                acc = 1
                tot = {}
                f = lambda x: Fraction(x).numerator * pow(Fraction(x).denominator, -1, P) % P
                for (root, M), (a, b) in d.items():
                    if a or b:
                        tot[root] = (tot.get(root, 0) + (f(a) + f(b) * IMAG) * M) % P
                for root, t in tot.items():
                    acc = acc * s.eroot(t * root % P) % P
                if w: L = acc
                else: U = acc
            # ex' * h' = U, ex'/h' = L  ->  only the products are ever used: e^w = ex*h, conj: ex/h
            return ex, h, U, L
        return ex, h, 1, 1

    def splitroot(s, poly):
        rest, q = {}, []
        for m, c in poly.items():
            at = [(a, k) for a, k in m if isinstance(a, tuple) and a[0] in ('csqrt.re', 'csqrt.im')]
            if len(at) == 1 and at[0][1] == 1:
                M = 1; ok = True
                for a, k in m:
                    if a == at[0][0]:
                        continue
                    v = s.atomval(a)
                    if v is None or v == 0:
                        ok = False; break
                    M = M * pow(v, k, P) % P
                if ok:
                    q.append(((at[0][0][0], at[0][0][1:]), M, c)); continue
            rest[m] = c
        return rest, q

    def atomval(s, a):
        if isinstance(a, tuple):
            if a[0] == 'fp': return a[1]
            if a[0] == 'inv': return pow(a[1], -1, P)
            if a[0] == 'sq': return SQRT[a[1]]
            if a[0] in ('csqrt.re', 'csqrt.im'): return None
        return s.symval(a)

    def roots(s, keyv):
        if keyv in s.rootc:
            return s.rootc[keyv]
        x, y = keyv
        W, Wb = (x + IMAG * y) % P, (x - IMAG * y) % P
        S, Sb = tonelli(W), tonelli(Wb)
        if S is None or Sb is None:
            raise Opaque('root')
        s.rootc[keyv] = r = (min(S, P - S), min(Sb, P - Sb))
        return r

    def eroot(s, v):
        """homomorphic image of the exponential of a root-like value v, shared between rational multiples"""
        if v == 0:
            return 1
        for b, e in s.bases:
            k = _ratios().get(v * pow(b, -1, P) % P)
            if k is not None:
                return pow(HSUB, e * k.numerator * pow(k.denominator, -1, R) % R, P)
        s.bases.append((v, _h(s.seed, 'root', v)))
        return pow(HSUB, s.bases[-1][1], P)

    def func(s, n):
        nm = n.a[0]; v = s.val
        if nm == 'sqrt':
            x = v[n.a[1].id]
            if n.a[1].op == 'c' and n.a[1].a[0] in (2, 3):
                return SQRT[int(n.a[1].a[0])]
            if n.a[1].op == 'c':
                r = tonelli(x)
                if r is None:
                    return _h(s.seed, 'sqrt', x) % P
                return min(r, P - r)
            r = tonelli(x)
            if r is None:
                raise Retry(n.a[1], 'sqrt')
            r = min(r, P - r)
            for z in support([n.a[1]]):
                s.locked.add(s.key(z))
            return r
        if nm == 'cabs':
            x = (v[n.a[1].id] ** 2 + v[n.a[2].id] ** 2) % P
            r = tonelli(x)
            if r is None:
                raise Retry(n, 'sqrt')
            for z in support([n]):
                s.locked.add(s.key(z))
            return min(r, P - r)
        base, _, part = nm.partition('.')
        if base in ('cexp', 'csinh', 'ccosh', 'csin', 'ccos', 'exp', 'cos', 'sin', 'cosh', 'sinh', 'ctanh', 'tanh', 'ctan'):
            if base in ('exp', 'cosh', 'sinh', 'tanh'):
                re, im = n.a[1], ZERO
            elif base in ('cos', 'sin'):
                re, im = ZERO, n.a[1]
            elif base in ('csin', 'ccos', 'ctan'):      # i*z
                re, im = neg(n.a[2]), n.a[1]
                if re.id not in v:
                    s.ev([re])
            else:
                re, im = n.a[1], n.a[2]
            if re.id not in v:
                s.ev([re, im])
            ex, h, U, L = s.ecomplex(re, im)
            hi, exi = pow(h, -1, P), pow(ex, -1, P)
            w, wb = ex * h * U % P, ex * hi * L % P      # e^w and its conjugate
            wi, wbi = pow(w, -1, P), pow(wb, -1, P)
            iI = pow(IMAG, -1, P)
            A = ((w + wb) * INV2 % P, (w - wb) * INV2 * iI % P)          # e^w
            B = ((wi + wbi) * INV2 % P, (wi - wbi) * INV2 * iI % P)      # e^-w
            if base in ('cexp', 'exp'):
                r = A
            elif base in ('ccosh', 'ccos', 'cosh', 'cos'):
                r = ((A[0] + B[0]) * INV2 % P, (A[1] + B[1]) * INV2 % P)
            elif base in ('csinh', 'sinh'):
                r = ((A[0] - B[0]) * INV2 % P, (A[1] - B[1]) * INV2 % P)
            elif base in ('csin', 'sin'):               # (e^{iz}-e^{-iz})/(2i)
                d = ((A[0] - B[0]) * INV2 % P, (A[1] - B[1]) * INV2 % P)
                r = (d[1], -d[0] % P)
            else:
                nu = ((A[0] - B[0]) % P, (A[1] - B[1]) % P)
                de = ((A[0] + B[0]) % P, (A[1] + B[1]) % P)
                dd = pow((de[0] * de[0] + de[1] * de[1]) % P, -1, P)
                r = ((nu[0] * de[0] + nu[1] * de[1]) * dd % P, (nu[1] * de[0] - nu[0] * de[1]) * dd % P)
                if base == 'ctan':
                    r = (r[1], -r[0] % P)
            return r[1] if part == 'im' else r[0]
        if base == 'csqrt':
            sw, (x, y) = s.canon_sqrt(n)
            W, Wb = (x + IMAG * y) % P, (x - IMAG * y) % P
            if W == 0 and Wb == 0:
                return 0
            S, Sb = tonelli(W), tonelli(Wb)
            if S is None or Sb is None:
                raise Retry(n, 'sqrt')
            for z in support([n]):
                s.locked.add(s.key(z))
            S = min(S, P - S)
            Sb = min(Sb, P - Sb)
            re, im = (S + Sb) * INV2 % P, (S - Sb) * INV2 * pow(IMAG, -1, P) % P
            if sw:
                re, im = -im % P, re
            return re if part == 're' else im
        if base == 'clog':
            x, y = v[n.a[1].id], v[n.a[2].id]
            return _h(s.seed, nm, x, y) % P
        # uninterpreted function of its argument values
        return _h(s.seed, nm, *[v[x.id] if isinstance(x, N) else x for x in n.a[1:]]) % P


# ------------------------------------------------------------------ multi precision
_MP = {
    'sqrt': lambda x: mpmath.sqrt(x) if x >= 0 else mpmath.nan, 'exp': mpmath.exp, 'cos': mpmath.cos, 'sin': mpmath.sin, 'log': lambda x: mpmath.log(x) if x > 0 else mpmath.nan, 'log2': lambda x: mpmath.log(x, 2) if x > 0 else mpmath.nan,
    'atan': mpmath.atan, 'acos': mpmath.acos, 'asin': mpmath.asin, 'tgamma': mpmath.gamma, 'floor': mpmath.floor, 'ceil': mpmath.ceil,
    'round': lambda x: mpmath.floor(abs(x) + mpf(1) / 2) * (1 if x >= 0 else -1), 'pow': mpmath.power, 'atan2': mpmath.atan2,
    'atanh': mpmath.atanh, 'cosh': mpmath.cosh, 'sinh': mpmath.sinh, 'tanh': mpmath.tanh, 'hypot': mpmath.hypot,
    'cabs': lambda x, y: mpmath.hypot(x, y), 'carg': lambda x, y: mpmath.atan2(y, x), 'log10': lambda x: mpmath.log10(x), 'tan': mpmath.tan,
}
_MPC = {'cexp': mpmath.exp, 'csqrt': mpmath.sqrt, 'clog': mpmath.log, 'csin': mpmath.sin, 'ccos': mpmath.cos, 'csinh': mpmath.sinh, 'ccosh': mpmath.cosh, 'ctanh': mpmath.tanh, 'ctan': mpmath.tan, 'cacos': mpmath.acos, 'catan': mpmath.atan, 'casin': mpmath.asin}


class MpEval:
    def __init__(s, assign, default=None, fns=None):
        s.assign = assign; s.val = {}; s.default = default; s.fns = fns or {}

    def ev(s, roots):
        for n in topo(roots):
            if n.id not in s.val:
                try:
                    s.val[n.id] = s.one(n)
                except (ZeroDivisionError, ValueError, OverflowError):
                    s.val[n.id] = mpmath.nan
        return [s.val[r.id] for r in roots]

    def one(s, n):
        op = n.op; v = s.val
        if op == '*':
            return v[n.a[0].id] * v[n.a[1].id]
        if op == '+':
            return v[n.a[0].id] + v[n.a[1].id]
        if op == '-':
            return v[n.a[0].id] - v[n.a[1].id]
        if op == 'c':
            return mpf(n.a[0].numerator) / n.a[0].denominator
        if op in ('v', 'sel'):
            k = FpEval.key(n)
            if k == 'pi':
                return +mpmath.pi
            if k not in s.assign:
                if s.default is None:
                    raise KeyError(k)
                s.assign[k] = s.default(k)
            return s.assign[k]
        if op == 'neg':
            return -v[n.a[0].id]
        if op == '/':
            return v[n.a[0].id] / v[n.a[1].id]
        if op == 'abs':
            return abs(v[n.a[0].id])
        if op == 'sp':
            return {'nan': mpmath.nan, 'inf': mpmath.inf, '-inf': -mpmath.inf, 'undef': mpmath.nan}[n.a[0]]
        if op == 'fn':
            nm = n.a[0]
            if nm in s.fns:
                return s.fns[nm](*[v[x.id] if isinstance(x, N) else x for x in n.a[1:]])
            if nm in _MP:
                return _MP[nm](*[v[x.id] for x in n.a[1:]])
            b, _, part = nm.partition('.')
            if b in _MPC:
                w = _MPC[b](mpmath.mpc(v[n.a[1].id], v[n.a[2].id]))
                w = mpmath.mpc(w)
                return w.real if part == 're' else w.imag
            if b.startswith('cpow'):
                w = mpmath.power(mpmath.mpc(v[n.a[1].id], v[n.a[2].id]), mpmath.mpc(v[n.a[3].id], v[n.a[4].id]))
                w = mpmath.mpc(w)
                return w.real if part == 're' else w.imag
            # uninterpreted: fixed pseudo-random function of the arguments
            rng = random.Random(repr((nm,) + tuple(mpmath.nstr(v[x.id], 25) if isinstance(x, N) else x for x in n.a[1:])))
            return mpf(rng.uniform(-1, 1))
        raise Opaque(op)


def identical(pairs, seed=1, points=2, assign=None):
    """decide a_i == b_i for all values of the symbols. returns (verdict, index, note);
    verdict True: identity holds (error prob < 2^-100); False: differs at a field point; None: undecidable here"""
    pairs = [(a, b) for a, b in pairs if a is not b]
    if not pairs:
        return True, None, 'syntactic'
    roots = [x for p in pairs for x in p]
    for k in range(points):
        try:
            E = FpEval((seed, k), assign)
            v = E.ev(roots)
        except Opaque as e:
            return None, None, str(e)
        for i in range(0, len(v), 2):
            if v[i] != v[i + 1]:
                return False, i // 2, 'field point %d' % k
    return True, None, 'prime-field identity test'


def rand_real(rng, scale=1.0):
    return mpf(rng.uniform(-1.5, 1.5) * scale)


def numeric_compare(pairs, seed=1, points=6, conds=(), sampler=None, tol=mpf(10) ** -25, maxtry=3000, fns=None):
    """compare at real points satisfying conds; returns (worst relative difference, witness assignment or None, points used)"""
    rng = random.Random(repr(('num', seed)))
    worst = mpf(0); wit = None; used = 0; t = 0
    roots = [x for p in pairs for x in p]
    t0 = time.time()
    while used < points and t < maxtry and (t < 400 or time.time() - t0 < 10):
        t += 1
        E = MpEval({}, None, fns)
        scale = rng.choice([1.0, 0.5, 1.0, 2.0, 0.1])
        E.default = (lambda k, sc=scale: sampler(k, rng)) if sampler else (lambda k, sc=scale: rand_real(rng, sc))
        ok = True
        for pred, a, b in conds:
            x, y = E.ev([a, b])
            if not evalcond(pred, x, y):
                ok = False; break
        if not ok:
            continue
        v = E.ev(roots)
        if any(mpmath.isnan(x) and not mpmath.isnan(y) for x, y in zip(v[::2], v[1::2])) and False:
            continue
        used += 1
        mag = max([abs(x) for x in v if not mpmath.isnan(x) and not mpmath.isinf(x)] + [mpf(10) ** -30])
        for i in range(0, len(v), 2):
            x, y = v[i], v[i + 1]
            if mpmath.isnan(y):
                continue                       # specification undefined there
            if mpmath.isnan(x):
                return mpmath.inf, (dict(E.assign), i // 2, x, y), used
            d = abs(x - y) / max(abs(x), abs(y), mag * mpf(10) ** -12) if x != y else mpf(0)
            if d > worst:
                worst = d; wit = (dict(E.assign), i // 2, x, y)
    return worst, wit, used


def evalcond(pred, x, y):
    if mpmath.isnan(x) or mpmath.isnan(y):
        return pred[0] == 'u' and pred != 'ueq' or pred in ('une', 'uno', 'ueq')
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'rd': True, 'no': False}[pred[1:]]
