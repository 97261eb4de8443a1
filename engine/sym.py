"""symir: path-wise symbolic execution of the translated IR.

Values
  int / bool / float      concrete (f32 values are kept as correctly rounded Python floats)
  Aff                     affine form over integer/real symbols (mathematical; rounding of every
                          floating point operation is modelled by an explicit bounded error symbol
                          unless it is provably exact)
  Lin                     node of a hash-consed DAG of floating point operations on sample symbols
  OPAQUE / UNDEF          unconstrained float / uninitialised value
  Ptr                     (object, byte offset)
"""
import math, os, sys, json, time, math, struct, gc, random
from fractions import Fraction
from math import frexp, ldexp, floor, ceil
import z3

NAN = float('nan')
INF = float('inf')


class EngineError(Exception):      # outside what the encoding covers -> inconclusive
    pass


class PathEnd(Exception):
    def __init__(s, status, why=''):
        s.status = status
        s.why = why


class Ctx:
    pass


ST = [20000]


def STEP():
    C.steps += C.step_chunk
    tick()
    if C.step_left is not None:
        C.step_left -= C.step_chunk
        if C.step_left < 0:
            violation('hang', 'no termination within the iteration bound')
            raise PathEnd('viol')
    C.step_chunk = 20000 if C.step_left is None else min(20000, C.step_left + 1)
    ST[0] = C.step_chunk


C = Ctx()          # per-process (forked) context


def reset_ctx():
    C.solver = z3.Solver()
    C.solver.set('rlimit', 20000000)
    C.syms = []
    C.kb = {}
    C.memo = {}
    C.fpk = {}
    C.lin = {}
    C.linuid = 0
    C.inv = []
    C.invs = []
    C.prods = []
    C.nlem = 0
    C.witness = []
    C.nq = 0
    C.tq = 0.0
    C.nfork = 0
    C.nbranch = 0
    C.nassert = 0
    C.nsynt = 0
    C.steps = 0
    C.objs = []
    C.naddr = 1
    C.heap = {}
    C.faults = None
    C.deadline = None
    C.model_hints = []
    C.inlib = 0
    C.uniq = 0
    C.reach = set()
    C.trail = []
    C.samples = {}
    C.mag = 1.0
    C.samp_cmp = False
    C.lib_globals_ro = True
    C.freeze_globals = False
    C.viol_seen = set()
    C.unknowns = 0
    C.path_unk = 0
    C.narr = 0
    C.abstract_copies = False
    C.conc_limit = 2
    C.step_left = None
    C.step_chunk = 20000
    C.gwrites = set()
    ST[0] = 20000


# ------------------------------------------------------------------ symbols / affine forms
class Sym:
    __slots__ = ('name', 'id', 'lo', 'hi', 'int', 'z', 'inv', 'val')

    def __init__(s, name, lo, hi, isint):
        s.id = len(C.syms)
        s.name = '%s#%d' % (name, s.id)
        s.lo = lo
        s.hi = hi
        s.int = isint
        s.z = None
        s.inv = None
        s.val = None
        C.syms.append(s)

    def z3(s):
        if s.z is None:
            s.z = z3.Int(s.name) if s.int else z3.Real(s.name)
            if s.lo is not None:
                C.solver.add(s.z >= zq(s.lo))
            if s.hi is not None:
                C.solver.add(s.z <= zq(s.hi))
        return s.z


def zq(q):
    if isinstance(q, int):
        return z3.IntVal(q) if False else z3.RatVal(q, 1) if False else q
    q = Fraction(q)
    return z3.Q(q.numerator, q.denominator)


def zaff(a):
    """z3 expression of an Aff or number"""
    if isinstance(a, (int, Fraction)):
        return z3.Q(Fraction(a).numerator, Fraction(a).denominator)
    if isinstance(a, float):
        q = Fraction(a)
        return z3.Q(q.numerator, q.denominator)
    ts = []
    for s, c in a.t.items():
        v = s.z3()
        if s.int:
            v = z3.ToReal(v)
        c = Fraction(c)
        ts.append(v if c == 1 else v * z3.Q(c.numerator, c.denominator))
    k = Fraction(a.c)
    if k:
        ts.append(z3.Q(k.numerator, k.denominator))
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def zcmp(a, op):
    """a (Aff) op 0"""
    if all(s.int for s in a.t):
        # integer form
        den = 1
        for c in list(a.t.values()) + [a.c]:
            den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
        e = z3.Sum([s.z3() * int(c * den) for s, c in a.t.items()] + [z3.IntVal(int(a.c * den))])
        z = 0
    else:
        e = zaff(a)
        z = 0
    return {'<': e < z, '<=': e <= z, '==': e == z, '!=': e != z, '>': e > z, '>=': e >= z}[op]


class Aff:
    __slots__ = ('t', 'c', 'k', 'lo', 'hi', 'g', 'fp', 'par', 'ex', '_key')

    def __init__(s, t, c, k, lo=None, hi=None, g=None):
        s.t = t
        s.c = c
        s.k = k          # 'i' or 'r'
        s.g = g          # value is a multiple of 2**g
        s.fp = False
        s.par = None
        s.ex = None
        s._key = None
        s.lo = lo
        s.hi = hi

    # canonical key
    def key(s):
        if s._key is None:
            s._key = (tuple(sorted((y.id, c) for y, c in s.t.items())), s.c)
        return s._key

    def __add__(a, b):
        return aadd(a, b)

    def __radd__(a, b):
        return aadd(b, a)

    def __sub__(a, b):
        return asub(a, b)

    def __rsub__(a, b):
        return asub(b, a)

    def __mul__(a, b):
        return amul(a, b)

    def __rmul__(a, b):
        return amul(b, a)

    def __neg__(a):
        return a.exact_scale(-1)

    def exact_scale(a, k):
        lo, hi = bounds(a)
        if k < 0:
            lo, hi = hi, lo
        r = Aff({s: c * k for s, c in a.t.items()}, a.c * k, a.k, None if lo is None else lo * k, None if hi is None else hi * k)
        return r

    def __lt__(a, b):
        return cmp(a, b, '<')

    def __le__(a, b):
        return cmp(a, b, '<=')

    def __gt__(a, b):
        return cmp(a, b, '>')

    def __ge__(a, b):
        return cmp(a, b, '>=')

    def __repr__(s):
        return '<' + '+'.join(['%s*%s' % (float(c), y.name) for y, c in s.t.items()] + [str(float(s.c))]) + '>'


def norm(a):
    """(normalised terms key, scale, const) with leading coef 1"""
    it = sorted(((y.id, c) for y, c in a.t.items()))
    k = Fraction(it[0][1])
    return tuple((i, Fraction(c) / k) for i, c in it), k


def ival(a):
    lo = hi = a.c
    for s, c in a.t.items():
        if s.lo is None:
            return None, None
        if c > 0:
            lo += c * s.lo
            hi += c * s.hi
        else:
            lo += c * s.hi
            hi += c * s.lo
    return lo, hi


def bounds(a):
    """sound bounds of an Aff (or number)"""
    if a.__class__ is not Aff:
        return a, a
    lo, hi = ival(a)
    if a.lo is not None and (lo is None or a.lo > lo):
        lo = a.lo
    if a.hi is not None and (hi is None or a.hi < hi):
        hi = a.hi
    if len(a.t) > 1:
        n, k = norm(a)
        e = C.kb.get(n)
        if e is not None:
            l, h = e
            if k < 0:
                l, h = h, l
            if l is not None:
                l = l * k + a.c
                if lo is None or l > lo:
                    lo = l
            if h is not None:
                h = h * k + a.c
                if hi is None or h < hi:
                    hi = h
    a.lo = lo
    a.hi = hi
    return lo, hi


def kb_add(a, lo, hi):
    """record a in [lo,hi]"""
    if len(a.t) == 1:
        (s, c), = a.t.items()
        l = None if lo is None else (lo - a.c) / Fraction(c)
        h = None if hi is None else (hi - a.c) / Fraction(c)
        if c < 0:
            l, h = h, l
        if s.int:
            if l is not None:
                l = ceil(l)
            if h is not None:
                h = floor(h)
        if l is not None and (s.lo is None or l > s.lo):
            s.lo = l
            if s.inv is not None and l > 0:
                kb_add1(s.inv, None, 1 / Fraction(l))
        if h is not None and (s.hi is None or h < s.hi):
            s.hi = h
            if s.inv is not None and h > 0:
                kb_add1(s.inv, 1 / Fraction(h), None)
        return
    n, k = norm(a)
    l = None if lo is None else (lo - a.c) / k
    h = None if hi is None else (hi - a.c) / k
    if k < 0:
        l, h = h, l
    e = C.kb.get(n)
    if e:
        if l is None or (e[0] is not None and e[0] > l):
            l = e[0]
        if h is None or (e[1] is not None and e[1] < h):
            h = e[1]
    C.kb[n] = (l, h)


def kb_add1(s, lo, hi):
    ch = False
    if lo is not None and (s.lo is None or lo > s.lo):
        s.lo = lo
        ch = True
        if s.z is not None:
            C.solver.add(s.z >= zq(lo))
    if hi is not None and (s.hi is None or hi < s.hi):
        s.hi = hi
        if s.z is not None:
            C.solver.add(s.z <= zq(hi))


def ilog2(q):
    """floor(log2(q)) for q>0 rational"""
    q = Fraction(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    elif Fraction(2) ** (e + 1) <= q:
        e += 1
    return e


def grid(a, deep=0):
    if a.__class__ is int:
        return 0 if a == 0 else (a & -a).bit_length() - 1
    if a.__class__ is float:
        if a == 0:
            return 2000
        m, e = frexp(a)
        i = int(m * (1 << 53))
        return (i & -i).bit_length() - 1 + e - 53
    if a.__class__ is Fraction:
        return grid(float(a)) if Fraction(float(a)) == a else -4000
    g = a.g if a.g is not None else (0 if a.k == 'i' else -1074)
    if a.fp:
        lo, hi = bounds(a)
        m = lo if lo is not None and lo > 0 else (-hi if hi is not None and hi < 0 else None)
        if m is not None:
            g = max(g, ilog2(m) - 52)
    if a.par is not None and deep < 3:
        g = max(g, min(grid(p, deep + 1) for p in a.par))
    return g


def mk(t, c, k, lo=None, hi=None, g=None):
    if not t:
        if k == 'i':
            return int(c)
        f = float(c)
        return f
    return Aff(t, c, k, lo, hi, g)


def q(x):
    """exact number of a concrete value"""
    if x.__class__ is float:
        if x != x or x in (INF, -INF):
            raise EngineError('nonfinite in affine arithmetic')
        return Fraction(x)
    return x


def lin_comb(a, ka, b, kb, k):
    """exact ka*a + kb*b (a, b Aff or number)"""
    la, ha = bounds(a) if a.__class__ is Aff else (q(a), q(a))
    lb, hb = bounds(b) if b.__class__ is Aff else (q(b), q(b))
    if a.__class__ is Aff:
        t = {s: c * ka for s, c in a.t.items()} if ka != 1 else dict(a.t)
        c = a.c * ka
    else:
        t = {}
        c = q(a) * ka
    if b.__class__ is Aff:
        for s, cc in b.t.items():
            v = t.get(s, 0) + cc * kb
            if v == 0:
                del t[s]
            else:
                t[s] = v
        c += b.c * kb
    else:
        c += q(b) * kb
    lo = hi = None
    if la is not None and lb is not None and ha is not None and hb is not None:
        x = (la * ka, ha * ka) if ka > 0 else (ha * ka, la * ka)
        y = (lb * kb, hb * kb) if kb > 0 else (hb * kb, lb * kb)
        lo = x[0] + y[0]
        hi = x[1] + y[1]
    return t, c, lo, hi


def isnum(x):
    k = x.__class__
    return k is int or k is float or k is bool or k is Fraction


def special(a, b, name):
    """Lin / OPAQUE / UNDEF dispatch; returns NotImplemented if neither"""
    ka = a.__class__
    kb_ = b.__class__
    if ka is Undef or kb_ is Undef:
        return UNDEF
    if ka is Opaque or kb_ is Opaque:
        return OPAQUE
    if ka is Lin or kb_ is Lin:
        return linop(name, a, b)
    return None


def kind2(a, b):
    ra = a.__class__ is float or (a.__class__ is Aff and a.k == 'r')
    rb = b.__class__ is float or (b.__class__ is Aff and b.k == 'r')
    return 'r' if ra or rb else 'i'


def aadd(a, b):
    r = special(a, b, 'add')
    if r is not None:
        return r
    k = kind2(a, b)
    if k == 'r':
        if a.__class__ is float and a == 0:
            return b
        if b.__class__ is float and b == 0:
            return a
    t, c, lo, hi = lin_comb(a, 1, b, 1, k)
    if k == 'i':
        return mk(t, c, k, lo, hi)
    return rnd(mk(t, c, k, lo, hi), (a, b), ('add',) + tuple(sorted((akey(a), akey(b)), key=repr)))


def asub(a, b):
    r = special(a, b, 'sub')
    if r is not None:
        return r
    k = kind2(a, b)
    if k == 'r' and b.__class__ is float and b == 0:
        return a
    t, c, lo, hi = lin_comb(a, 1, b, -1, k)
    if k == 'i':
        return mk(t, c, k, lo, hi)
    return rnd(mk(t, c, k, lo, hi), (a, b), ('sub', akey(a), akey(b)))


def akey(a):
    return a.key() if a.__class__ is Aff else a


def pow2(x):
    if x == 0:
        return True
    m, e = frexp(x)
    return abs(m) == 0.5


def amul(a, b):
    r = special(a, b, 'mul')
    if r is not None:
        return r
    k = kind2(a, b)
    if isnum(a):
        a, b = b, a
    if isnum(b):
        if b == 0:
            return 0 if k == 'i' else 0.0
        kk = q(b)
        r = a.exact_scale(kk)
        r = Aff(r.t, r.c, k, r.lo, r.hi)
        if k == 'i':
            return r
        if pow2(b):
            r.par = None
            r.g = grid(a) + ilog2(abs(Fraction(kk)))
            r.fp = a.fp
            r.ex = None
            return r
        return rnd(r, (a, b), ('mul', a.key(), b), mulgrid=grid(a) + grid(b))
    # Aff * Aff
    e = exact_mul(a, b, k)
    if k == 'i':
        return e
    return rnd(e, (a, b), ('mul',) + tuple(sorted((a.key(), b.key()), key=repr)), mulgrid=grid(a) + grid(b))


def exact_mul(a, b, k):
    """exact product of two Aff: inverse pairs cancel, otherwise fresh bounded symbol with McCormick envelope"""
    t = {}
    c = Fraction(0)
    extra = []

    def addt(s, v):
        x = t.get(s, 0) + v
        if x == 0:
            t.pop(s, None)
        else:
            t[s] = x
    for s, x in list(a.t.items()) + [(None, a.c)]:
        if x == 0:
            continue
        for u, y in list(b.t.items()) + [(None, b.c)]:
            if y == 0:
                continue
            v = x * y
            if s is None and u is None:
                c += v
            elif s is None:
                addt(u, v)
            elif u is None:
                addt(s, v)
            elif s.inv is u or u.inv is s:
                c += v
            else:
                p = prod_sym(s, u)
                addt(p, v)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    ps = [la * lb, la * hb, ha * lb, ha * hb]
    if not t:
        return mk({}, c, k)
    return Aff(t, c if k == 'r' else int(c), k, min(ps), max(ps))


def prod_sym(s, u):
    key = ('prod', min(s.id, u.id), max(s.id, u.id))
    p = C.memo.get(key)
    if p is None:
        ps = [s.lo * u.lo, s.lo * u.hi, s.hi * u.lo, s.hi * u.hi]
        p = Sym('prod', min(ps), max(ps), s.int and u.int)
        C.memo[key] = p
        C.prods.append((p, s, u))
        x, y, z = zr(s), zr(u), zr(p)
        sl, sh, ul, uh = zq2(s.lo), zq2(s.hi), zq2(u.lo), zq2(u.hi)
        C.solver.add(z >= sl * y + ul * x - sl * ul, z >= sh * y + uh * x - sh * uh,
                     z <= sh * y + ul * x - sh * ul, z <= sl * y + uh * x - sl * uh)
    return p


def zq2(x):
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator)


def zr(s):
    return z3.ToReal(s.z3()) if s.int else s.z3()


def rnd(e, ops, key, prec=53, mulgrid=None):
    """round exact value e (Aff or number) to a double (prec 53) or float (24)"""
    if e.__class__ is not Aff:
        return e
    key = (prec, key)
    m = C.memo.get(key)
    if m is not None:
        return m
    f = C.fpk.get(e.key())
    if f is not None and f[0] <= prec:
        C.memo[key] = f[1]
        return f[1]
    lo, hi = bounds(e)
    if lo is None:
        raise EngineError('unbounded real')
    M = max(abs(lo), abs(hi))
    if M == 0:
        return 0.0
    top = ilog2(M)
    g = mulgrid if mulgrid is not None else min(grid(o) for o in ops)
    if all(y.int for y in e.t):
        # a combination of integer variables: its own grid
        g2 = 4000
        for w in list(e.t.values()) + [e.c]:
            if w:
                w = Fraction(w)
                dn = w.denominator
                g2 = min(g2, (1 - dn.bit_length() if dn & (dn - 1) == 0 else -4000) + (((w.numerator & -w.numerator).bit_length() - 1) if dn == 1 else 0))
        g = max(g, g2)
    if top < g + prec or (M == Fraction(2) ** (g + prec)):
        e.g = g
        e.par = None if mulgrid is not None else tuple(ops)
        e.fp = True
        C.memo[key] = e
        return e
    if mulgrid is None and prec == 53:
        # x - n, +1 pattern: try to strengthen the grid of an operand by asking the solver
        for o in ops:
            if o.__class__ is Aff and o.par is not None:
                for p in o.par:
                    if p.__class__ is Aff and p.fp:
                        l, h = bounds(p)
                        if l is not None and 0 <= l < Fraction(1, 2):
                            if not feasible(zcmp(p.__class__(p.t, p.c - Fraction(1, 2), 'r'), '<')):
                                kb_add(p, Fraction(1, 2), None)
                                p.lo = max(p.lo, Fraction(1, 2))
        g = min(grid(o) for o in ops)
        if top < g + prec or M == Fraction(2) ** (g + prec):
            e.g = g
            e.par = tuple(ops)
            e.fp = True
            C.memo[key] = e
            return e
    u = Fraction(2) ** (top - prec)
    s = Sym('e', -u, u, False)
    t = dict(e.t)
    t[s] = Fraction(1)
    # result bounds: rounding is monotone
    lo2 = down(lo, prec)
    hi2 = up(hi, prec)
    r = Aff(t, e.c, 'r', lo2, hi2)
    kb_add(r, lo2, hi2)
    r.fp = True
    r.ex = e
    C.fpk[r.key()] = (prec, r)
    C.memo[key] = r
    # bounds known at once by the solver as well
    if lo2 > lo - u or True:
        C.solver.add(zcmp(Aff(r.t, r.c - lo2, 'r'), '>='), zcmp(Aff(r.t, r.c - hi2, 'r'), '<='))
    return r


def down(x, prec):
    """largest float <= rounding of anything >= x : just round-to-nearest x"""
    return rndq(x, prec)


def up(x, prec):
    return rndq(x, prec)


def rndq(x, prec):
    x = Fraction(x)
    if x == 0:
        return x
    if prec == 53:
        return Fraction(float(x)) if abs(x) < 10**300 else x
    return Fraction(f32(float(x)))


_pf = struct.Struct('f')


def f32(x):
    try:
        return _pf.unpack(_pf.pack(x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


# ------------------------------------------------------------------ booleans / branching
class SB:
    """undecided comparison: Aff op 0"""
    __slots__ = ('a', 'op', 'z', 'lem', 'st')

    def __init__(s, a, op, z=None, lem=None, st=None):
        s.st = st
        s.a = a
        s.op = op
        s.z = z
        s.lem = lem

    def zz(s):
        return s.z if s.z is not None else zcmp(s.a, s.op)

    def __bool__(s):
        return BR(s)


NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


class OB:
    """unconstrained boolean"""


def cmp(a, b, op):
    ca, cb = a.__class__, b.__class__
    if ca is Undef or cb is Undef:
        return UNDEF
    if ca is Opaque or cb is Opaque:
        return OB()
    if ca is Lin or cb is Lin:
        return lincmp(a, b, op)
    if ca is float and (a != a) or cb is float and b != b:
        return op == '!='
    if ca is float and a in (INF, -INF):
        return {'<': a < 0, '<=': a < 0, '>': a > 0, '>=': a > 0, '==': False, '!=': True}[op]
    if cb is float and b in (INF, -INF):
        return {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0, '==': False, '!=': True}[op]
    k = kind2(a, b)
    t, c, lo, hi = lin_comb(a, 1, b, -1, k)
    if not t:
        return pycmp(c, op)
    d = Aff(t, c, k, lo, hi)
    r = decide(d, op)
    if r is not None:
        return r
    lem = None
    if isnum(b) and ca is Aff and a.ex is not None:
        lem = (a, q(b))
    elif isnum(a) and cb is Aff and b.ex is not None:
        lem = (b, q(a))
    elif ca is Aff and cb is Aff:
        if a.ex is not None and isdouble(b):
            lem = (a, b)
        elif b.ex is not None and isdouble(a):
            lem = (b, a)
    st = None
    if isnum(b) and ca is Aff and a.fp and a.k == 'r':
        st = (a, float(b), 1)
    elif isnum(a) and cb is Aff and b.fp and b.k == 'r':
        st = (b, float(a), -1)
    return SB(d, op, None, lem, st)


def isdouble(x):
    if x.fp:
        return True
    lo, hi = bounds(x)
    return grid(x) >= 0 and lo is not None and hi is not None and max(abs(lo), abs(hi)) <= 1 << 53


def strict(c, op):
    """x < k for a double x means x <= the double before k"""
    if c.st is None or op not in ('<', '>'):
        return
    x, k, sg = c.st
    if sg < 0:
        op = '<' if op == '>' else '>'
    n = Fraction(math.nextafter(k, -INF if op == '<' else INF))
    d = Aff(x.t, x.c - n, 'r')
    assume_aff(d, '<=' if op == '<' else '>=')
    if op == '<':
        if x.hi is None or x.hi > n:
            x.hi = n
    elif x.lo is None or x.lo < n:
        x.lo = n


def pycmp(c, op):
    return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]


def decide(d, op):
    lo, hi = bounds(d)
    if lo is None or hi is None:
        return None
    if op == '<':
        return True if hi < 0 else (False if lo >= 0 else None)
    if op == '<=':
        return True if hi <= 0 else (False if lo > 0 else None)
    if op == '>':
        return True if lo > 0 else (False if hi <= 0 else None)
    if op == '>=':
        return True if lo >= 0 else (False if hi < 0 else None)
    if op == '==':
        return False if lo > 0 or hi < 0 else (True if lo == hi == 0 else None)
    if op == '!=':
        return True if lo > 0 or hi < 0 else (False if lo == hi == 0 else None)


def check(*extra, rounds=0):
    """solver verdict; models breaking b * (1/b) = 1 or p = s * u are cut off by lemmas (incremental linearisation)"""
    t = time.time()
    C.nq += 1
    r = C.solver.check(*extra)
    if r == z3.sat and (C.invs or C.prods):
        for i in range(rounds):
            if not refine(C.solver.model(), 10 + 4 * i):
                break
            C.nq += 1
            r = C.solver.check(*extra)
            if r != z3.sat:
                break
    C.tq += time.time() - t
    return r


TOL = Fraction(1, 1 << 44)


def refine(m, prec):
    def near(x):
        x = Fraction(x)
        e = max(-60, min(60, int(math.log2(abs(x))) if x else 0))
        k = Fraction(2) ** (min(prec, 60) - e)
        return Fraction(round(x * k)) / k

    add = []
    for b, r in C.invs:
        if any(s.z is None for s in b.t) or any(s.z is None for s in r.t):
            continue
        vb, vr = val_of(m, b), val_of(m, r)
        e = vb * vr - 1
        if abs(e) <= TOL or vb <= 0:
            continue
        a = near(vb)
        lo, hi = bounds(b)
        a = max(Fraction(lo), min(Fraction(hi), a))
        if a <= 0:
            continue
        zb, zw, za = zaff(b), zaff(r), zq2(a)
        if zb.is_int():
            zb = z3.ToReal(zb)
        if e < 0:                    # below the convex curve: tangent at a
            add.append(zw >= zq2(2 / a) - zb * zq2(1 / (a * a)))
        else:                        # above: secants on both sides of a
            lo, hi = bounds(b)
            lo, hi = Fraction(lo), Fraction(hi)
            if lo < a:
                add.append(z3.Or(zb > za, zw <= zq2(1 / lo + 1 / a) - zb * zq2(1 / (lo * a))))
            if a < hi:
                add.append(z3.Or(zb < za, zw <= zq2(1 / hi + 1 / a) - zb * zq2(1 / (hi * a))))
    for p, s, u in C.prods:
        if p.z is None or s.z is None or u.z is None:
            continue
        vp, vs, vu = sym_val(m, p), sym_val(m, s), sym_val(m, u)
        e = vp - vs * vu
        if abs(e) <= TOL * max(1, abs(vp)):
            continue
        a, b = (vs if s.int else near(vs)), (vu if u.int else near(vu))
        zp, zs, zu, za, zb = zr(p), zr(s), zr(u), zq2(a), zq2(b)
        pl = zb * zs + za * zu - za * zb
        if e < 0:
            add.append(z3.And(z3.Or(zs < za, zu < zb, zp >= pl), z3.Or(zs > za, zu > zb, zp >= pl)))
        else:
            add.append(z3.And(z3.Or(zs < za, zu > zb, zp <= pl), z3.Or(zs > za, zu < zb, zp <= pl)))
    if add:
        C.nlem += len(add)
        C.solver.add(*add)
    return bool(add)


def feasible(*z):
    r = check(*z)
    if r == z3.unknown:
        C.unknowns += 1
        C.path_unk = 1
        return True
    return r == z3.sat


def assume_aff(d, op):
    """add d op 0 to the path condition, update bound caches"""
    C.solver.add(zcmp(d, op))
    note_aff(d, op)


def note_aff(d, op):
    if op in ('<', '<='):
        if d.k == 'i' and op == '<':
            kb_add(d, None, -1)
        else:
            kb_add(d, None, 0)
    elif op in ('>', '>='):
        if d.k == 'i' and op == '>':
            kb_add(d, 1, None)
        else:
            kb_add(d, 0, None)
    elif op == '==':
        kb_add(d, 0, 0)


def BR(c):
    k = c.__class__
    if k is bool:
        return c
    if k is int:
        return bool(c)
    C.nbranch += 1
    if k is Undef:
        violation('uninitialised', 'branch depends on an uninitialised value')
        raise PathEnd('viol')
    if k is OB:
        return fork(lambda: None, lambda: None)
    tick()
    if c.a is not None:
        r = decide(c.a, c.op)
        if r is not None:
            return r
    if c.lem is not None:
        w, cst = c.lem
        v = w.ex
        if cst.__class__ is Aff:
            tv, cv, _, _ = lin_comb(v, 1, cst, -1, 'r')
            tw, cw, _, _ = lin_comb(w, 1, cst, -1, 'r')
            dv = Aff(tv, cv, 'r')
            dw = Aff(tw, cw, 'r')
        else:
            dv = Aff(v.t, v.c - cst, 'r')
            dw = Aff(w.t, w.c - cst, 'r')
        C.solver.add(z3.Or(zcmp(dv, '<'), zcmp(dw, '>=')), z3.Or(zcmp(dv, '>'), zcmp(dw, '<=')))
    z = c.zz()
    ft = feasible(z)
    if not ft:
        if c.a is not None:
            note_aff(c.a, NEG[c.op])
            strict(c, NEG[c.op])
        return False
    ff = feasible(z3.Not(z))
    if not ff:
        if c.a is not None:
            note_aff(c.a, c.op)
            strict(c, c.op)
        return True

    def yes():
        C.solver.add(z)
        if c.a is not None:
            note_aff(c.a, c.op)
            strict(c, c.op)

    def no():
        C.solver.add(z3.Not(z))
        if c.a is not None:
            note_aff(c.a, NEG[c.op])
            strict(c, NEG[c.op])
    return fork(yes, no)


# ------------------------------------------------------------------ process forking
class Job:
    pass


J = Job()


def get_token():
    try:
        return len(os.read(J.rfd, 1)) == 1
    except BlockingIOError:
        return False


def put_token():
    os.write(J.wfd, b'x')


def stop_requested():
    return os.path.exists(J.stopfile)


def fork(yes, no):
    """explore both sides; child takes `yes`, parent continues with `no`"""
    C.nfork += 1
    if stop_requested():
        raise PathEnd('stopped', 'enough candidates')
    tok = get_token()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        J.children = []
        J.depth += 1
        J.has_token = tok
        C.nq = C.nbranch = C.nfork = C.nassert = C.nsynt = C.steps = C.unknowns = 0
        C.tq = 0.0
        J.t0 = time.time()
        yes()
        return True
    if tok:
        J.children.append(pid)
        while len(J.children) > 64:
            os.waitpid(J.children.pop(0), 0)
    else:
        os.waitpid(pid, 0)
    no()
    return False


def fork_n(n, act):
    """n-way choice 0..n-1"""
    for i in range(n - 1):
        if fork(lambda: act(i), lambda: None):
            return i
    act(n - 1)
    return n - 1


def tick():
    if C.deadline and time.time() > C.deadline:
        raise PathEnd('timeout', 'time budget')


# ------------------------------------------------------------------ violations / witnesses
def model_of(*extra, rounds=30):
    r = check(*extra, rounds=rounds)
    if r != z3.sat:
        return None
    return C.solver.model()


def val_of(m, a):
    """exact Fraction of Aff under model"""
    if a.__class__ is not Aff:
        return q(a)
    r = Fraction(a.c)
    for s, c in a.t.items():
        r += Fraction(c) * sym_val(m, s)
    return r


def sym_val(m, s):
    if s.z is None:
        v = s.lo if s.lo is not None else 0
        if s.hi is not None and s.lo is not None and not s.int:
            v = (Fraction(s.lo) + Fraction(s.hi)) / 2 if s.inv is None else v
        return Fraction(v)
    v = m.eval(s.z, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(str(v.approx(30).as_fraction()))


def model_samples(m):
    """values of the samples a path condition mentions"""
    out = {}
    for leaf, s in C.samples.values():
        if isinstance(leaf.a, int):
            i = leaf.b if leaf.b.__class__ is int else int(val_of(m, leaf.b))
            out[(leaf.a, i)] = float(sym_val(m, s))
    return out


def violation(kind, msg, *cond, samples=None):
    """record a candidate violation under the current path condition and cond"""
    m = model_of(*cond)
    if m is None:
        if not cond:
            raise PathEnd('infeasible')
        return False
    if samples is None and C.samp_cmp:
        samples = model_samples(m)
    w = []
    for e in C.witness:
        if e[0] == 'i':
            w.append(['i', int(val_of(m, e[1]))])
        elif e[0] == 'r':
            s = e[1]
            alt = []
            v = float(val_of(m, s))
            if s.__class__ is Aff and len(s.t) == 1:
                sy = next(iter(s.t))
                if sy.inv is not None:
                    iv = sym_val(m, sy.inv)
                    if iv:
                        alt.append(float(1 / iv))
            w.append(['r', v] + alt)
        elif e[0] == 's':
            arr = e[1]
            vals = []
            for i in range(e[2] if e[2].__class__ is int else int(val_of(m, e[2]))):
                vals.append(samples.get((arr, i)) if samples else None)
            w.append(['s', vals])
        elif e[0] == 'f':
            w.append(['f', e[1]])
    rec = dict(status='violation', kind=kind, msg=msg, witness=w, unk=C.path_unk)
    emit(rec)
    try:
        fd = os.open(J.stopfile + '.n', os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.write(fd, b'x')
        if os.fstat(fd).st_size >= J.max_viol:
            open(J.stopfile, 'a').close()
        os.close(fd)
    except OSError:
        pass
    if os.environ.get('VP_DEBUG'):
        with open(os.environ['VP_DEBUG'], 'a') as f:
            f.write('==== %s %s\n%s\n%s\n' % (kind, msg, C.solver, m))
    key = (kind, msg)
    C.viol_seen.add(key)
    return True


def emit(rec):
    b = (json.dumps(rec) + '\n').encode()
    os.write(J.outfd, b)


# ------------------------------------------------------------------ samples: DAG of linear float ops
class Undef:
    __slots__ = ()

    def _u(s, *a):
        return s
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = _u

    def __repr__(s):
        return 'UNDEF'


UNDEF = Undef()


class Opaque:
    __slots__ = ()

    def _u(s, o=None):
        return UNDEF if o is UNDEF else s
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = _u

    def _c(s, o):
        return UNDEF if o is UNDEF else OB()
    __lt__ = __le__ = __gt__ = __ge__ = _c

    def __repr__(s):
        return 'OPAQUE'


OPAQUE = Opaque()


class Lin:
    __slots__ = ('op', 'a', 'b', 'mag', 'err', 'uid')

    def __init__(s, op, a, b, mag, err):
        s.op = op
        s.a = a
        s.b = b
        s.mag = mag
        s.err = err
        C.linuid += 1
        s.uid = C.linuid

    def __add__(a, b):
        return linop('add', a, b)

    def __radd__(a, b):
        return linop('add', b, a)

    def __sub__(a, b):
        return linop('sub', a, b)

    def __rsub__(a, b):
        return linop('sub', b, a)

    def __mul__(a, b):
        return linop('mul', a, b)

    def __rmul__(a, b):
        return linop('mul', b, a)

    def __neg__(a):
        return linop('mul', a, -1.0)

    def __lt__(a, b):
        return lincmp(a, b, '<')

    def __le__(a, b):
        return lincmp(a, b, '<=')

    def __gt__(a, b):
        return lincmp(a, b, '>')

    def __ge__(a, b):
        return lincmp(a, b, '>=')

    def __repr__(s):
        return 'Lin%d' % s.uid


def lkey(x):
    k = x.__class__
    if k is Lin:
        return x.uid
    if k is Aff:
        return ('A', x.key())
    return float(x)


def sample(arr, idx, bound=1.0):
    k = ('S', arr, akey(idx))
    n = C.lin.get(k)
    if n is None:
        n = Lin('s', arr, idx, bound, 0.0)
        C.lin[k] = n
    return n


def amag(x):
    if x.__class__ is Lin:
        return x.mag
    if x.__class__ is Aff:
        lo, hi = bounds(x)
        return float(max(abs(lo), abs(hi))) * (1 + 1e-15)
    return abs(x)


def aerr(x):
    return x.err if x.__class__ is Lin else 0.0


def linop(op, a, b):
    ca, cb = a.__class__, b.__class__
    if ca is Undef or cb is Undef:
        return UNDEF
    if ca is Opaque or cb is Opaque:
        return OPAQUE
    # exact identities (IEEE: x+0.0 may change -0.0 only)
    if op == 'add':
        if ca is float and a == 0.0:
            return b
        if cb is float and b == 0.0:
            return a
        if ca is not Lin or (cb is Lin and a.uid > b.uid):
            a, b = b, a
            ca, cb = cb, ca
    elif op == 'sub':
        if cb is float and b == 0.0:
            return a
        if a is b:
            return 0.0
    elif op == 'mul':
        if ca is not Lin:
            a, b = b, a
            ca, cb = cb, ca
        if cb is Lin:
            return nonlin(a, b)
        if cb is float:
            if b == 0.0:
                return 0.0
            if b == 1.0:
                return a
    if (ca is float and a != a) or (cb is float and b != b):
        return math.nan
    if (ca is float and not math.isfinite(a)) or (cb is float and not math.isfinite(b)):
        return OPAQUE if op == 'mul' else a if ca is float else -b if op == 'sub' else b
    k = (op, lkey(a), lkey(b))
    n = C.lin.get(k)
    if n is None:
        ma, mb = amag(a), amag(b)
        if op == 'mul':
            mag = ma * mb
            err = aerr(a) * mb
            if not (cb is float and pow2(b)):
                err += mag * 1.2e-16
        else:
            mag = ma + mb
            err = aerr(a) + aerr(b) + mag * 1.2e-16
        n = Lin(op, a, b, mag, err)
        C.lin[k] = n
    return n


def nonlin(a, b):
    k = ('nl', min(a.uid, b.uid), max(a.uid, b.uid))
    n = C.lin.get(k)
    if n is None:
        C.uniq += 1
        n = Lin('s', ('nl', C.uniq), 0, a.mag * b.mag, 0.0)
        C.lin[k] = n
    return n


def lin_r32(x):
    if x.op == 'r32' or x.op == 's':
        return x
    if x.op == 'mul' and x.a.__class__ is Lin and x.a.op in ('s', 'r32') and x.b.__class__ is float and pow2(x.b):
        return x
    k = ('r32', x.uid)
    n = C.lin.get(k)
    if n is None:
        n = Lin('r32', x, None, x.mag, x.err + x.mag * 6e-8)
        C.lin[k] = n
    return n


def flatten(x):
    """-> (dict leafkey->coef (float|Aff), const(float|Aff), leaf nodes)"""
    if x.__class__ is not Lin:
        return {}, x, {}
    # topological accumulation by uid (operands always have smaller uid)
    import heapq
    acc = {x.uid: 1.0}
    node = {x.uid: x}
    heap = [-x.uid]
    out = {}
    leaves = {}
    const = 0.0
    while heap:
        u = -heapq.heappop(heap)
        n = node.pop(u)
        w = acc.pop(u)
        op = n.op
        if op == 's':
            out[n.uid] = w
            leaves[n.uid] = n
            continue

        def push(v, ww):
            nonlocal const
            if v.__class__ is Lin:
                if v.uid in acc:
                    acc[v.uid] = sadd(acc[v.uid], ww)
                else:
                    acc[v.uid] = ww
                    node[v.uid] = v
                    heapq.heappush(heap, -v.uid)
            else:
                const = sadd(const, smul(v, ww))
        if op == 'add':
            push(n.a, w)
            push(n.b, w)
        elif op == 'sub':
            push(n.a, w)
            push(n.b, smul(w, -1.0))
        elif op == 'mul':
            push(n.a, smul(w, n.b))
        elif op == 'r32':
            push(n.a, w)
    return out, const, leaves


def sadd(a, b):
    """exact-real arithmetic on float|Aff coefficients"""
    if a.__class__ is Aff or b.__class__ is Aff:
        t, c, lo, hi = lin_comb(a, 1, b, 1, 'r')
        return mk(t, c, 'r', lo, hi)
    return a + b


def smul(a, b):
    ca, cb = a.__class__, b.__class__
    if ca is Aff or cb is Aff:
        if ca is Aff and cb is Aff:
            return exact_mul(a, b, 'r')
        if ca is not Aff:
            a, b = b, a
        if b == 0:
            return 0.0
        return a.exact_scale(q(b))
    return a * b


def zsample(leaf):
    k = ('zs', leaf.uid)
    s = C.memo.get(k)
    if s is None:
        B = Fraction(leaf.mag)
        s = Sym('x', -B, B, False)
        C.memo[k] = s
        if leaf.op == 's':
            C.samples[leaf.uid] = (leaf, s)
    return s


class Bilinear(EngineError):
    pass


def lin_to_aff(x):
    """Aff over sample symbols (plus error symbol)"""
    d, c, lv = flatten(x)
    r = {}
    k = c
    for u, w in d.items():
        s = zsample(lv[u])
        if w.__class__ is Aff:
            raise Bilinear('sample comparison')
        if w:
            r[s] = Fraction(w)
    if k.__class__ is Aff:
        for s, w in k.t.items():
            r[s] = r.get(s, 0) + w
        k = k.c
    a = Aff(r, q(k), 'r')
    if x.__class__ is Lin and x.err:
        e = C.memo.get(('le', x.uid))
        if e is None:
            E = Fraction(x.err + 2e-16 * len(d) * x.mag)
            e = Sym('le', -E, E, False)
            C.memo[('le', x.uid)] = e
        a.t[e] = Fraction(1)
    return a


def lincmp(a, b, op):
    if a is b:
        return op in ('<=', '>=', '==')
    for x, y in ((a, b), (b, a)):
        if x.__class__ is float and not math.isfinite(x) and y.__class__ is not Opaque:
            if x != x:
                return op == '!='
            u, v = (x, 0.0) if x is a else (0.0, x)
            return {'<': u < v, '<=': u <= v, '>': u > v, '>=': u >= v, '==': False, '!=': True}[op]
    C.samp_cmp = True
    try:
        a = lin_to_aff(a) if a.__class__ is Lin else a
        b = lin_to_aff(b) if b.__class__ is Lin else b
    except Bilinear:
        return OB()     # sample times ratio against something: both sides are explored
    return cmp(a, b, op)


# ------------------------------------------------------------------ memory
class Fill:
    """marker for memset bytes"""
    __slots__ = ('b',)

    def __init__(s, b):
        s.b = b


class CONT_:
    def __repr__(s):
        return 'CONT'


CONT = CONT_()
ZERO = Fill(0)


class Obj:
    __slots__ = ('name', 'size', 'sym', 'w', 'kind', 'freed', 'const', 'addr', 'lib', 'lazy', 'opq', 'owner')

    def __init__(s, name, size, kind, fill=UNDEF, sym=None):
        s.name = name
        s.size = size            # capacity in bytes
        s.sym = sym              # Aff exact size or None
        s.w = [fill] * ((size + 3) // 4)
        s.kind = kind
        s.freed = False
        s.const = False
        s.lib = False
        s.lazy = None
        s.opq = False
        s.addr = C.naddr << 40
        s.owner = None
        C.naddr += 1


class Ptr:
    __slots__ = ('o', 'f')

    def __init__(s, o, f):
        s.o = o
        s.f = f

    def __repr__(s):
        return 'Ptr(%s,%s)' % (s.o.name if s.o else None, s.f)


class FuncPtr:
    def __init__(s, name):
        s.name = name
        s.o = None
        s.f = 0


NULL = Ptr(None, 0)


def memerr(kind, p, n, rw):
    o = p.o
    msg = '%s of %s bytes at %s+%s (size %s)' % (rw, n, o.name if o else 'null', p.f if p.f.__class__ is int else '?', (o.size if o.sym is None else 'symbolic') if o else 0)
    violation(kind, msg)
    raise PathEnd('viol', msg)


def chk(p, n, rw):
    """bounds check of an access of n bytes (int or Aff); returns the object"""
    if p.__class__ is not Ptr:
        if p is UNDEF:
            violation('uninitialised', 'access through an uninitialised pointer')
            raise PathEnd('viol')
        raise EngineError('access through %r' % (p,))
    o = p.o
    if o is None:
        memerr('null', p, n, rw)
    if o.freed:
        memerr('use-after-free', p, n, rw)
    f = p.f
    if f.__class__ is UNDEF.__class__ or n is UNDEF:
        violation('uninitialised', 'address or length depends on an uninitialised value')
        raise PathEnd('viol')
    if rw == 'write':
        if o.const:
            memerr('const-write', p, n, rw)
        if o.kind == 'global' and o.lib and C.freeze_globals:
            C.gwrites.add(o.name)
            violation('global-write', 'library writes global object %s' % o.name)
            raise PathEnd('viol')
    lim = o.size if o.sym is None else o.sym
    # f >= 0
    c = cmp(f, 0, '<') if f.__class__ is not int else f < 0
    if c is True:
        memerr('out-of-bounds', p, n, rw)
    if c is not False:
        if feasible(c.zz()):
            violation('out-of-bounds', '%s before %s' % (rw, o.name), c.zz())
            if not feasible(z3.Not(c.zz())):
                raise PathEnd('viol')
        assume_aff(c.a, NEG[c.op])
    end = f + n
    c = cmp(end, lim, '>') if (end.__class__ is not int or lim.__class__ is not int) else end > lim
    if c is True:
        memerr('out-of-bounds', p, n, rw)
    if c is not False:
        if feasible(c.zz()):
            violation('out-of-bounds', '%s past the end of %s' % (rw, o.name), c.zz())
            if not feasible(z3.Not(c.zz())):
                raise PathEnd('viol')
        assume_aff(c.a, NEG[c.op])
    return o


def concretize(a, limit=64, why=''):
    """fork over the feasible values of an integer Aff"""
    if a.__class__ is not Aff:
        return a
    lo, hi = bounds(a)
    if lo is None:
        raise EngineError('unbounded concretisation ' + why)
    lo, hi = ceil(lo), floor(hi)
    n = 0
    while True:
        if lo == hi:
            assume_aff(Aff(a.t, a.c - lo, a.k), '==')
            return lo
        # pick a feasible value, fork on it
        m = model_of(rounds=0)
        if m is None:
            raise PathEnd('infeasible')
        v = val_of(m, a)
        if v.denominator != 1:
            raise EngineError('non-integer concretisation')
        v = int(v)
        c = cmp(a, v, '==')
        if c is True:
            return v
        n += 1
        if n > limit:
            raise EngineError('concretisation limit ' + why)
        if BR(c):
            return v


def ld(p, n):
    o = chk(p, n, 'read')
    f = p.f
    return o, f


def LDF(p):
    o = p.o if p.__class__ is Ptr else None
    f = p.f if o is not None else None
    if o is None or f.__class__ is not int or o.freed or f < 0 or f + 4 > o.size or o.sym is not None:
        o = chk(p, 4, 'read')
        if o.opq:
            return OPAQUE
        if f.__class__ is not int:
            return sym_load(o, f)
    if o.opq:
        return OPAQUE
    if f & 3:
        raise EngineError('unaligned float load')
    v = o.w[f >> 2]
    k = v.__class__
    if k is float or k is Lin:
        return v
    if k is Lazy:
        return v.get(f >> 2)
    return conv_f(v, o, f)


def conv_f(v, o, f):
    k = v.__class__
    if k is Fill:
        return _pf.unpack(bytes([v.b] * 4))[0]
    if k is int:
        return struct.unpack('<f', struct.pack('<i', v))[0]
    if k is Aff or v is UNDEF or v is OPAQUE:
        return v
    raise EngineError('float load of %r' % (v,))


class Lazy:
    """contents of a harness input array: element i is a sample (or a ramp value)"""
    __slots__ = ('arr', 'base', 'ramp', 'bound')

    def __init__(s, arr, base, ramp=None, bound=1.0):
        s.arr = arr
        s.base = base        # word index of element 0
        s.ramp = ramp
        s.bound = bound

    def get(s, wi):
        i = wi - s.base
        if s.ramp is not None:
            a, b, ch = s.ramp
            if i.__class__ is not int:
                if ch != 1:
                    raise EngineError('symbolic ramp index with channels')
                r = lin_comb(i, q(b), 0, 1, 'r')
                x = mk(r[0], r[1] + q(a), 'r', None, None)
                if x.__class__ is Aff:
                    x.g = grid(b)
                    x.fp = True
                return x
            return f32(a + b * (i // ch))
        return sample(s.arr, i, s.bound)


def sym_load(o, f):
    if o.lazy is not None:
        # index = f/4
        i = Aff({s: Fraction(c) / 4 for s, c in f.t.items()}, Fraction(f.c) / 4, 'i')
        if any(x.denominator != 1 for x in i.t.values()) or i.c.denominator != 1:
            raise EngineError('symbolic misaligned')
        i = Aff({s: int(c) for s, c in i.t.items()}, int(i.c), 'i')
        return o.lazy.get(i)
    if o.opq:
        return OPAQUE
    if o.const and o.lib:
        return OPAQUE        # table lookup at symbolic index: value abstracted
    v = concretize(f, 300, 'load from ' + o.name)
    return LDF(Ptr(o, v))


def ld8(p, kind):
    o = p.o if p.__class__ is Ptr else None
    f = p.f if o is not None else None
    if o is None or f.__class__ is not int or o.freed or f < 0 or f + 8 > o.size or o.sym is not None:
        o = chk(p, 8, 'read')
        if f.__class__ is not int:
            f = concretize(f, 64, 'load8')
    if o.opq:
        return OPAQUE
    if f & 3:
        raise EngineError('unaligned load')
    v = o.w[f >> 2]
    if v.__class__ is tuple:
        v = v[0]
        k = v.__class__
        if kind == 'd':
            if k is int:
                return struct.unpack('<d', struct.pack('<q', v))[0]
            return v
        if kind == 'i':
            if k is float:
                return struct.unpack('<q', struct.pack('<d', v))[0]
            return v
        if k is int and kind == 'p':
            return I2P(v)
        return v
    if v is UNDEF:
        return UNDEF
    if v.__class__ is Fill:
        w = o.w[(f >> 2) + 1]
        if w.__class__ is Fill and w.b == v.b:
            if v.b == 0:
                return 0.0 if kind == 'd' else (NULL if kind == 'p' else 0)
            b = bytes([v.b] * 8)
            return struct.unpack('<d' if kind == 'd' else '<q', b)[0]
    w = o.w[(f >> 2) + 1]
    if w is UNDEF:
        return UNDEF
    x = word_bytes(v) + word_bytes(w)
    if kind == 'd':
        return struct.unpack('<d', x)[0]
    y = struct.unpack('<q', x)[0]
    return I2P(y) if kind == 'p' else y


def word_bytes(v):
    k = v.__class__
    if k is int:
        return struct.pack('<i', v)
    if k is float:
        return struct.pack('<f', v)
    if k is Fill:
        return bytes([v.b] * 4)
    if k is SubW:
        if any(x is UNDEF or x.__class__ is not int for x in v.b):
            raise EngineError('partial word')
        return bytes(x & 255 for x in v.b)
    raise EngineError('mixed-type load of %r' % (v,))


def LDD(p):
    return ld8(p, 'd')


def LDL(p):
    return ld8(p, 'i')


def LDP(p):
    return ld8(p, 'p')


def LDI(p):
    o = p.o if p.__class__ is Ptr else None
    f = p.f if o is not None else None
    if o is None or f.__class__ is not int or o.freed or f < 0 or f + 4 > o.size or o.sym is not None:
        o = chk(p, 4, 'read')
        if f.__class__ is not int:
            f = concretize(f, 64, 'load4')
    if o.opq:
        raise EngineError('int load from abstracted object')
    if f & 3:
        raise EngineError('unaligned int load')
    v = o.w[f >> 2]
    k = v.__class__
    if k is int or k is Aff:
        return v
    if k is Fill:
        return struct.unpack('<i', bytes([v.b] * 4))[0]
    if k is float:
        return struct.unpack('<i', struct.pack('<f', v))[0]
    if v is UNDEF:
        return UNDEF
    if k is tuple:
        x = v[0]
        if x.__class__ is int:
            return struct.unpack('<i', struct.pack('<q', x)[:4])[0]
    if v is CONT:
        x = o.w[(f >> 2) - 1]
        if x.__class__ is tuple and x[0].__class__ is int:
            return struct.unpack('<i', struct.pack('<q', x[0])[4:])[0]
    if k is SubW:
        return struct.unpack('<i', word_bytes(v))[0]
    raise EngineError('int load of %r' % (v,))


class SubW:
    __slots__ = ('b',)

    def __init__(s, b):
        s.b = b


def sub_get(v):
    k = v.__class__
    if k is SubW:
        return list(v.b)
    if v is UNDEF:
        return [UNDEF] * 4
    if k is Fill:
        x = v.b if v.b < 128 else v.b - 256
        return [x] * 4
    return [x if x < 128 else x - 256 for x in word_bytes(v)]


def ldsub(p, n):
    o = chk(p, n, 'read')
    f = p.f
    if f.__class__ is not int:
        f = concretize(f, 64, 'load1')
    if o.opq:
        raise EngineError('byte load from abstracted object')
    i = f >> 2
    v = o.w[i]
    if v.__class__ is tuple or v is CONT:
        if v is CONT:
            i -= 1
            v = o.w[i]
        x = v[0]
        if x.__class__ is int:
            b = struct.pack('<q', x)
        elif x.__class__ is float:
            b = struct.pack('<d', x)
        else:
            raise EngineError('byte load of %r' % (x,))
        k = f - i * 4
        return int.from_bytes(b[k:k + n], 'little', signed=True)
    bs = sub_get(v)
    j = f & 3
    x = bs[j:j + n]
    if len(x) < n:
        raise EngineError('unaligned short')
    if any(y is UNDEF for y in x):
        return UNDEF
    if n == 1:
        return x[0]
    if x[0].__class__ is tuple:
        return x[0][0]
    return int.from_bytes(bytes(y & 255 for y in x), 'little', signed=True)


def LDB(p):
    return ldsub(p, 1)


def LDS(p):
    return ldsub(p, 2)


def LD1(p):
    v = ldsub(p, 1)
    return v if v is UNDEF else bool(v & 1)


def st_prep(p, n):
    o = p.o if p.__class__ is Ptr else None
    f = p.f if o is not None else None
    if o is None or f.__class__ is not int or o.freed or f < 0 or f + n > o.size or o.sym is not None or o.const or o.kind == 'global':
        o = chk(p, n, 'write')
        if f.__class__ is not int:
            if o.opq:
                return None, 0
            f = concretize(f, 64, 'store')
    if o.opq and 4 * len(o.w) < o.size:
        return None, 0
    return o, f


def STF(p, v):
    o, f = st_prep(p, 4)
    if o is None:
        return
    if f & 3:
        raise EngineError('unaligned store')
    i = f >> 2
    x = o.w[i]
    if x.__class__ is tuple or x is CONT:
        clobber(o, i, 1)
    o.w[i] = v


STI = STF


def clobber(o, i, n):
    """words i..i+n-1 are about to be overwritten: break 8-byte values straddling the edges"""
    w = o.w
    if w[i] is CONT and i > 0:
        w[i - 1] = split8(w[i - 1][0], 0)
    j = i + n
    if j < len(w) and w[j] is CONT:
        w[j] = split8(w[j - 1][0], 1)


def split8(v, hi):
    if v.__class__ is int:
        return struct.unpack('<i', struct.pack('<q', v)[4 * hi:4 * hi + 4])[0]
    if v.__class__ is float:
        return struct.unpack('<i', struct.pack('<d', v)[4 * hi:4 * hi + 4])[0]
    return UNDEF


def st8(p, v):
    o, f = st_prep(p, 8)
    if o is None:
        return
    if f & 3:
        raise EngineError('unaligned store')
    i = f >> 2
    w = o.w
    if w[i] is CONT or (i + 2 < len(w) and w[i + 2] is CONT):
        clobber(o, i, 2)
    w[i] = (v,)
    w[i + 1] = CONT


STD = STL = STP = st8


def stsub(p, v, n):
    o, f = st_prep(p, n)
    if o is None:
        return
    i = f >> 2
    x = o.w[i]
    if x.__class__ is tuple or x is CONT:
        clobber(o, i, 1)
        x = UNDEF if not (x.__class__ is tuple and x[0].__class__ is int) else split8(x[0], 0)
    b = sub_get(x)
    j = f & 3
    if v.__class__ is bool:
        v = int(v)
    if n == 1:
        b[j] = v
    else:
        if v.__class__ is int:
            y = struct.pack('<h', v)
            b[j] = y[0]
            b[j + 1] = y[1]
        elif v is UNDEF:
            b[j] = b[j + 1] = UNDEF
        else:
            b[j] = (v,)
            b[j + 1] = 0
    o.w[i] = SubW(b)


def STB(p, v):
    stsub(p, v, 1)


def STS(p, v):
    stsub(p, v, 2)


def ST1(p, v):
    stsub(p, int(v) if v.__class__ is bool else v, 1)


def ALLOCA(sz, n, name):
    o = Obj('stack' + name, sz * n, 'stack')
    return Ptr(o, 0)


def BYVAL(p, sz):
    q = ALLOCA(sz, 1, 'byval')
    x_memmove(q, p, sz)
    return q


def AGET(a, i):
    return UNDEF if a is UNDEF else a[i]


def ASET(a, v, i, n):
    l = [UNDEF] * n if a is UNDEF else list(a)
    l[i] = v
    return tuple(l)


# heap ------------------------------------------------------------------------
def heap_new(size, fill, name):
    if C.faults is not None and C.inlib:
        if fault():
            return NULL
    if size is UNDEF:
        violation('uninitialised', 'allocation size')
        raise PathEnd('viol')
    sym = None
    if size.__class__ is Aff:
        lo, hi = bounds(size)
        if hi > (1 << 26):
            raise EngineError('allocation too large')
        if lo < 0:
            raise EngineError('negative symbolic allocation')
        sym = size
        size = int(hi)
    if size < 0 or size > (1 << 28):
        return NULL
    o = Obj('%s%d' % (name, len(C.heap)), size, 'heap', fill, sym)
    o.owner = 'lib' if C.inlib else 'harness'
    C.heap[o.addr] = o
    return Ptr(o, 0)


def fault():
    f = C.faults
    if f['left'] <= 0:
        return False
    r = fork(lambda: None, lambda: None)
    C.witness.append(['f', 1 if r else 0])
    if r:
        f['left'] -= 1
        f['n'] += 1
    return r


def x_malloc(n):
    return heap_new(n, UNDEF, 'malloc')


def x_calloc(n, m):
    if n.__class__ is int and m.__class__ is int and (n < 0 or m < 0):
        return NULL
    return heap_new(n * m, ZERO, 'calloc')


def x_free(p):
    if p is UNDEF:
        violation('uninitialised', 'free of uninitialised pointer')
        raise PathEnd('viol')
    if p.o is None:
        return
    o = p.o
    if o.freed:
        violation('double-free', 'double free of ' + o.name)
        raise PathEnd('viol')
    if o.kind != 'heap' or p.f != 0:
        violation('bad-free', 'free of non-heap pointer ' + o.name)
        raise PathEnd('viol')
    o.freed = True
    del C.heap[o.addr]


def x_realloc(p, n):
    if p.o is None:
        return x_malloc(n)
    q_ = x_malloc(n)
    if q_.o is None:
        return q_
    k = min(q_.o.size, p.o.size)
    x_memcpy(q_, p, k)
    x_free(p)
    return q_


def copy_words(d, di, s, si, n):
    src = s.w[si:si + n]
    if src:
        if src[0] is CONT:
            src[0] = split8(s.w[si - 1][0], 1)
        if si + n < len(s.w) and s.w[si + n] is CONT and src[-1].__class__ is tuple:
            src[-1] = split8(src[-1][0], 0)
        if s.lazy is not None:
            src = [v.get(si + i) if v.__class__ is Lazy else v for i, v in enumerate(src)]
    clobber(d, di, n)
    d.w[di:di + n] = src


def x_memmove(d, s, n, *_):
    if n.__class__ is int and n == 0:
        return d
    if n is UNDEF:
        violation('uninitialised', 'memcpy length')
        raise PathEnd('viol')
    if n.__class__ is int and n < 0:
        violation('out-of-bounds', 'memcpy/memmove/memset with negative (huge) length')
        raise PathEnd('viol')
    if n.__class__ is Aff:
        c = cmp(n, 0, '<')
        if c is True:
            violation('out-of-bounds', 'memcpy/memmove with negative (huge) length')
            raise PathEnd('viol')
        if c is not False:
            if feasible(c.zz()):
                violation('out-of-bounds', 'memcpy/memmove with negative (huge) length', c.zz())
                if not feasible(z3.Not(c.zz())):
                    raise PathEnd('viol')
            assume_aff(c.a, '>=')
        # length zero: no access
        z = cmp(n, 0, '==')
        if z is True:
            return d
        if z is not False and BR(z):
            return d
    so = chk(s, n, 'read')
    do = chk(d, n, 'write')
    if n.__class__ is Aff or s.f.__class__ is Aff or d.f.__class__ is Aff:
        if so.opq or do.opq or C.abstract_copies:
            do.opq = True
            return d
        n = concretize(n, 64, 'memcpy length')
        sf = concretize(s.f, 64, 'memcpy src')
        df = concretize(d.f, 64, 'memcpy dst')
    else:
        sf, df = s.f, d.f
    if do.opq:
        return d
    if so.opq:
        if (n | sf | df) & 3:
            raise EngineError('copy from abstracted object')
        do.w[df >> 2:(df + n) >> 2] = [OPAQUE] * (n >> 2)
        return d
    if (sf | df) & 3 or n & 3:
        if (sf & 3) == (df & 3) == 0:
            m = n >> 2
            copy_words(do, df >> 2, so, sf >> 2, m)
            tmp = [LDB(Ptr(so, sf + m * 4 + i)) for i in range(n & 3)]
            for i, v in enumerate(tmp):
                STB(Ptr(do, df + m * 4 + i), v)
            return d
        tmp = [LDB(Ptr(so, sf + i)) for i in range(n)]
        for i, v in enumerate(tmp):
            STB(Ptr(do, df + i), v)
        return d
    copy_words(do, df >> 2, so, sf >> 2, n >> 2)
    return d


def x_memcpy(d, s, n, *_):
    if d.__class__ is Ptr and s.__class__ is Ptr and d.o is s.o and d.o is not None and n.__class__ is int and d.f.__class__ is int and s.f.__class__ is int:
        if n > 0 and abs(d.f - s.f) < n and d.f != s.f:
            violation('overlap', 'memcpy with overlapping regions')
            raise PathEnd('viol')
    return x_memmove(d, s, n)


def x_memset(d, v, n, *_):
    if n.__class__ is int and n == 0:
        return d
    if n.__class__ is int and n < 0:
        violation('out-of-bounds', 'memset with negative (huge) length')
        raise PathEnd('viol')
    o = chk(d, n, 'write')
    if n.__class__ is Aff or d.f.__class__ is Aff:
        if o.opq or C.abstract_copies:
            o.opq = True
            return d
        n = concretize(n, 64, 'memset length')
        f = concretize(d.f, 64, 'memset dst')
        d = Ptr(o, f)
    if v.__class__ is not int:
        raise EngineError('memset value')
    b = v & 255
    if o.opq:
        if d.f == 0 and o.sym is None and n == o.size:
            o.opq = False
            o.w = [Fill(b)] * len(o.w)
        return d
    f = d.f
    i0 = (f + 3) >> 2
    i1 = (f + n) >> 2
    if i1 >= i0:
        for x in range(f, min(i0 * 4, f + n)):
            STB(Ptr(o, x), b if b < 128 else b - 256)
        if i1 > i0:
            clobber(o, i0, i1 - i0)
            o.w[i0:i1] = [Fill(b) if b else ZERO] * (i1 - i0)
        for x in range(i1 * 4, f + n):
            STB(Ptr(o, x), b if b < 128 else b - 256)
    else:
        for x in range(f, f + n):
            STB(Ptr(o, x), b if b < 128 else b - 256)
    return d


# ------------------------------------------------------------------ scalar ops used by generated code
def FIXI(v, w, nsw):
    k = v.__class__
    if v is UNDEF:
        return UNDEF
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if k is bool:
        return int(v)
    if k is int:
        if lo <= v <= hi:
            return v
        if nsw:
            violation('signed-overflow', 'signed integer overflow')
            raise PathEnd('viol')
        v &= (1 << w) - 1
        return v - (1 << w) if v > hi else v
    if k is Aff:
        l, h = bounds(v)
        if l is not None and l >= lo and h <= hi:
            return v
        for c in (cmp(v, hi, '>'), cmp(v, lo, '<')):
            if c is False:
                continue
            if c is True:
                if nsw:
                    violation('signed-overflow', 'signed integer overflow')
                    raise PathEnd('viol')
                raise EngineError('symbolic wraparound')
            if feasible(c.zz()):
                if nsw:
                    violation('signed-overflow', 'signed integer overflow', c.zz())
                    if not feasible(z3.Not(c.zz())):
                        raise PathEnd('viol')
                else:
                    raise EngineError('symbolic wraparound')
            assume_aff(c.a, NEG[c.op])
        return v
    if v is OPAQUE:
        raise EngineError('opaque integer')
    raise EngineError('FIXI %r' % (v,))


def wrapc(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def conc2(a, b, what):
    if a is UNDEF or b is UNDEF:
        return None
    return concretize(a, 64, what), concretize(b, 64, what)


def quot_split(a, b, limit=400):
    """truncated division by a symbolic divisor: fork over the (small) quotient, keep a and b symbolic"""
    negb = BR(cmp(b, 0, '<'))
    nega = BR(cmp(a, 0, '<'))
    x, y = (-a if nega else a), (-b if negb else b)
    for _ in range(limit):
        m = model_of(rounds=0)
        if m is None:
            raise PathEnd('infeasible')
        vx = val_of(m, x) if x.__class__ is Aff else x
        vy = val_of(m, y)
        v = int(vx // vy)
        if BR(cmp(x, y * (v + 1), '<')) and BR(cmp(x, y * v, '>=')):
            r = x - y * v
            if r.__class__ is Aff:
                kb_add(r, 0, None)
            return (-v if nega != negb else v), (-r if nega else r)
    raise EngineError('symbolic divisor: too many quotients')


def I_sdiv(a, b, w, nsw):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is OPAQUE or b is OPAQUE:
        return OPAQUE
    divzero(b)
    if a.__class__ is int and b.__class__ is int:
        r = abs(a) // abs(b)
        return FIXI(r if (a < 0) == (b < 0) else -r, w, True)
    if b.__class__ is Aff:
        return quot_split(a, b)[0]
    return divmod_sym(a, b)[0]


def I_srem(a, b, w, nsw):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is OPAQUE or b is OPAQUE:
        return OPAQUE
    divzero(b)
    if a.__class__ is int and b.__class__ is int:
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    if b.__class__ is Aff:
        return quot_split(a, b)[1]
    return divmod_sym(a, b)[1]


def divzero(b):
    c = cmp(b, 0, '==') if b.__class__ is Aff else b == 0
    if c is True:
        violation('div-by-zero', 'integer division by zero')
        raise PathEnd('viol')
    if c is not False:
        if feasible(c.zz()):
            violation('div-by-zero', 'integer division by zero', c.zz())
            if not feasible(z3.Not(c.zz())):
                raise PathEnd('viol')
        assume_aff(c.a, '!=')


def divmod_sym(a, b):
    """truncated division of Aff by non-zero int"""
    key = ('divmod', a.key(), b)
    m = C.memo.get(key)
    if m is not None:
        return m
    # exactly divisible?
    if all(Fraction(c) % b == 0 for c in a.t.values()) and a.c % b == 0:
        r = (mk({s: c // b for s, c in a.t.items()}, a.c // b, 'i'), 0)
        C.memo[key] = r
        return r
    neg = BR(cmp(a, 0, '<'))
    lo, hi = bounds(a)
    ab = abs(b)
    if neg:
        x = a.exact_scale(-1)
    else:
        x = a
    xl, xh = bounds(x)
    ql, qh = int(max(xl, 0)) // ab, int(xh) // ab
    if ql == qh:
        qq = ql
    else:
        s = Sym('q', ql, qh, True)
        qq = Aff({s: 1}, 0, 'i', ql, qh)
        d = x - qq * ab
        assume_aff(Aff(d.t, d.c, 'i'), '>=')
        d2 = Aff(d.t, d.c - (ab - 1), 'i')
        assume_aff(d2, '<=')
        if qh - ql <= 2:
            qq = concretize(qq, 4, 'quotient')
    r = x - qq * ab
    if r.__class__ is Aff:
        kb_add(r, 0, ab - 1)
        r.lo, r.hi = 0, ab - 1
    Q = qq if not neg else -qq
    R = r if not neg else -r
    if b < 0:
        Q = -Q
    C.memo[key] = (Q, R)
    return Q, R


def I_udiv(a, b, w, f):
    a, b = ZEXT(a, w), ZEXT(b, w)
    divzero(b)
    if a.__class__ is int and b.__class__ is int:
        return wrapc(a // b, w)
    return divmod_sym(a, concretize(b))[0]


def I_urem(a, b, w, f):
    a, b = ZEXT(a, w), ZEXT(b, w)
    divzero(b)
    if a.__class__ is int and b.__class__ is int:
        return wrapc(a % b, w)
    return divmod_sym(a, concretize(b))[1]


def I_shl(a, b, w, nsw):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = concretize(b, 64, 'shift')
    if b < 0 or b >= w:
        violation('shift', 'shift count out of range')
        raise PathEnd('viol')
    if a.__class__ is int:
        return wrapc(a << b, w)
    return FIXI(a * (1 << b), w, False)


def I_ashr(a, b, w, f):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = concretize(b, 64, 'shift')
    if b < 0 or b >= w:
        violation('shift', 'shift count out of range')
        raise PathEnd('viol')
    if a.__class__ is int:
        return a >> b
    return floordiv_sym(a, 1 << b)[0]


def floordiv_sym(a, b):
    key = ('fdiv', a.key(), b)
    m = C.memo.get(key)
    if m is not None:
        return m
    lo, hi = bounds(a)
    ql, qh = floor(Fraction(lo) / b), floor(Fraction(hi) / b)
    if ql == qh:
        qq = ql
    else:
        s = Sym('q', ql, qh, True)
        qq = Aff({s: 1}, 0, 'i', ql, qh)
        d = a - qq * b
        assume_aff(Aff(d.t, d.c, 'i'), '>=')
        assume_aff(Aff(d.t, d.c - (b - 1), 'i'), '<=')
    r = a - qq * b
    if r.__class__ is Aff:
        kb_add(r, 0, b - 1)
        r.lo, r.hi = 0, b - 1
    C.memo[key] = (qq, r)
    return qq, r


def I_lshr(a, b, w, f):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = concretize(b, 64, 'shift')
    a = ZEXT(a, w)
    if a.__class__ is int:
        return wrapc(a >> b, w)
    return floordiv_sym(a, 1 << b)[0]


def I_and(a, b, w, f):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int and b >= 0 and (b & (b + 1)) == 0:
        return floordiv_sym(a, b + 1)[1]
    return concretize(a, 64, 'and') & concretize(b, 64, 'and')


def I_or(a, b, w, f):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return concretize(a, 64, 'or') | concretize(b, 64, 'or')


def I_xor(a, b, w, f):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is int and b == -1 and a.__class__ is Aff:
        return -a - 1
    return concretize(a, 64, 'xor') ^ concretize(b, 64, 'xor')


def tb(c):
    return c if c.__class__ is bool else BR(c)


def BOOLand(a, b):
    if a is False or b is False:
        return False
    return tb(a) and tb(b)


def BOOLor(a, b):
    if a is True or b is True:
        return True
    return tb(a) or tb(b)


def BOOLxor(a, b):
    if b is True and a.__class__ is SB:
        if a.a is not None:
            return SB(a.a, NEG[a.op], None, a.lem)
        return SB(None, None, z3.Not(a.z))
    return tb(a) != tb(b)


def BOOLadd(a, b):
    return tb(a) != tb(b)


def ZEXTB(c):
    return int(c if c.__class__ is bool else BR(c))


def ZEXT(a, w):
    if a.__class__ is int:
        return a if a >= 0 else a + (1 << w)
    if a is UNDEF:
        return a
    lo, hi = bounds(a)
    if lo >= 0:
        return a
    if BR(cmp(a, 0, '<')):
        return a + (1 << w)
    return a


def TRUNC(a, w):
    if a.__class__ is int:
        return wrapc(a, w)
    if a is UNDEF:
        return a
    lo, hi = bounds(a)
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return a
    c1 = cmp(a, (1 << (w - 1)) - 1, '>')
    c2 = cmp(a, -(1 << (w - 1)), '<')
    if c1 is not False and (c1 is True or BR(c1)) or c2 is not False and (c2 is True or BR(c2)):
        if hi - lo > (1 << (w + 4)):
            raise EngineError('symbolic truncation over too many wraps')
        # case split on the number of times 2^w fits
        k = (ceil(lo) + (1 << (w - 1))) >> w
        kmax = (floor(hi) + (1 << (w - 1))) >> w
        while k < kmax:
            c = cmp(a, ((k + 1) << w) - (1 << (w - 1)), '<')
            if c is True or c is not False and BR(c):
                break
            k += 1
        return a - (k << w)
    return a


def TRUNC1(a):
    if a is UNDEF:
        return UNDEF
    if a.__class__ is not int:
        a = concretize(a, 64, 'trunc1')
    return bool(a & 1)


def IEQ(a, b):
    if a.__class__ is SB or b.__class__ is SB:
        return tb(a) == tb(b)
    return cmp(a, b, '==')


def INE(a, b):
    if a.__class__ is SB or b.__class__ is SB:
        return tb(a) != tb(b)
    return cmp(a, b, '!=')


def ICMPB(pred, a, b):
    a, b = tb(a), tb(b)
    return {'eq': a == b, 'ne': a != b}[pred]


def UCMP(pred, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    a, b = ZEXT(a, w), ZEXT(b, w)
    o = {'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
    if a.__class__ is int and b.__class__ is int:
        return pycmp(a - b, o)
    return cmp(a, b, o)


def PCMP(pred, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is FuncPtr or b.__class__ is FuncPtr:
        r = (a.name if a.__class__ is FuncPtr else 0) == (b.name if b.__class__ is FuncPtr else 0)
        return {'eq': r, 'ne': not r}[pred]
    ao, bo = a.o, b.o
    if ao is bo:
        x, y = a.f, b.f
    else:
        x = (ao.addr if ao else 0) + a.f
        y = (bo.addr if bo else 0) + b.f
        if pred in ('eq', 'ne') and x.__class__ is not int and False:
            pass
    o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
    if x.__class__ is int and y.__class__ is int:
        return pycmp(x - y, o)
    return cmp(x, y, o)


def P2I(a, w):
    if a.__class__ is Ptr:
        return (a.o.addr if a.o else 0) + a.f
    raise EngineError('ptrtoint')


def I2P(a):
    if a == 0:
        return NULL
    raise EngineError('inttoptr')


def BITCAST(a, f, t):
    if f == t:
        return a
    if a.__class__ is float and f == ('d',):
        return struct.unpack('<q', struct.pack('<d', a))[0]
    if a.__class__ is float and f == ('f',):
        return struct.unpack('<i', struct.pack('<f', a))[0]
    if a.__class__ is int and t == ('d',):
        return struct.unpack('<d', struct.pack('<q', a))[0]
    if a.__class__ is int and t == ('f',):
        return struct.unpack('<f', struct.pack('<i', a))[0]
    if t[0] == 'i' and f[0] in 'fd' and a is not UNDEF and a is not OPAQUE:
        return BitsOf(a)
    if a.__class__ is BitsOf and t[0] in 'fd':
        return a.x
    raise EngineError('bitcast')


class BitsOf:
    # the bit pattern of an encoded number: only its sign can be asked for
    __slots__ = ('x',)

    def __init__(s, x):
        s.x = x

    def __lt__(s, o):
        if o.__class__ is int and o == 0:
            return s.x < 0.0
        raise EngineError('bits')

    def __ge__(s, o):
        if o.__class__ is int and o == 0:
            return s.x >= 0.0
        raise EngineError('bits')

    def __gt__(s, o):
        if o.__class__ is int and o == -1:
            return s.x >= 0.0
        raise EngineError('bits')

    def __bad(s, *a):
        raise EngineError('bits')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __le__ = __eq__ = __bad
    __hash__ = None


def FCMP(pred, a, b):
    ca, cb = a.__class__, b.__class__
    if (ca is float and not math.isfinite(a) and cb is Lin) or (cb is float and not math.isfinite(b) and ca is Lin):
        un = a != a if ca is float else b != b
        if pred in ('uno', 'ord'):
            return un == (pred == 'uno')
        if un:
            return pred in ('une', 'ueq', 'ult', 'ule', 'ugt', 'uge', 'true')
        o = pred[1:]
        if o == 'ne':
            return True
        return lincmp(a, b, {'eq': '==', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[o])
    if pred in ('uno', 'ord') and (ca is Opaque or cb is Opaque):
        return OB()
    if pred == 'oeq':
        return (a == b) if ca is float and cb is float else cmp(a, b, '==')
    if pred == 'one':
        if ca is float and cb is float:
            return a != b and a == a and b == b
        return cmp(a, b, '!=')
    if pred == 'une':
        return (a != b) if ca is float and cb is float else cmp(a, b, '!=')
    if pred in ('ueq', 'ult', 'ule', 'ugt', 'uge', 'uno', 'ord'):
        if ca is float and cb is float:
            un = a != a or b != b
            if pred == 'uno':
                return un
            if pred == 'ord':
                return not un
            return un or pycmp_f(a, b, pred[1:])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if (ca is float and a != a) or (cb is float and b != b):
            return pred != 'ord'
        if pred == 'uno':
            return False
        if pred == 'ord':
            return True
        return cmp(a, b, {'eq': '==', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]])
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    raise EngineError('fcmp ' + pred)


def pycmp_f(a, b, o):
    return {'eq': a == b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]


def RND32(a):
    k = a.__class__
    if k is float:
        return f32(a)
    if k is Lin:
        return lin_r32(a)
    if k is Aff:
        return rnd(a, (a,), ('r32', a.key()), prec=24)
    if k is int:
        return f32(float(a))
    return a


def SITOFP(a):
    k = a.__class__
    if k is int:
        return float(a)
    if k is Aff:
        lo, hi = bounds(a)
        if lo is None or max(abs(lo), abs(hi)) > 2 ** 53:
            raise EngineError('large int to double')
        r = Aff(a.t, a.c, 'r', lo, hi, 0)
        r.fp = True
        return r
    if k is bool:
        return float(a)
    return a


def SITOFP32(a):
    return RND32(SITOFP(a))


def UITOFP(a, w, to):
    a = ZEXT(a, w)
    return SITOFP(a) if to == 64 else SITOFP32(a)


def FDIV(a, b):
    if a.__class__ is float and b.__class__ is float:
        if b == 0:
            if a == 0 or a != a:
                return NAN
            return math.copysign(INF, a) * math.copysign(1.0, b)
        try:
            return a / b
        except OverflowError:
            return INF
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is Aff:
        if a.__class__ is Lin or a is OPAQUE:
            return OPAQUE
        inv = true_inv(b)
        if a.__class__ is Aff:
            e = exact_mul(a, inv, 'r')
        else:
            if a == 0:
                return 0.0
            e = inv.exact_scale(q(a))
        return rnd(e, (a, b), ('div', akey(a), b.key()), mulgrid=-4000)
    if a is OPAQUE or b is OPAQUE:
        return OPAQUE
    if b.__class__ is Lin:
        return OPAQUE
    if b == 0:
        raise EngineError('symbolic division by zero')
    if pow2(b):
        return a * (1.0 / b)
    if a.__class__ is Lin:
        r = linop('mul', a, 1.0 / b)
        if r.__class__ is Lin:
            r.err += r.mag * 2.3e-16
        return r
    e = a.exact_scale(1 / Fraction(b))
    e = Aff(e.t, e.c, 'r', e.lo, e.hi)
    return rnd(e, (a, b), ('div', a.key(), b), mulgrid=-4000)


def true_inv(b):
    key = ('inv', b.key())
    m = C.memo.get(key)
    if m is not None:
        return m
    lo, hi = bounds(b)
    if lo is None or lo <= 0:
        c = cmp(b, 0, '<=')
        if c is not False and (c is True or feasible(c.zz())):
            raise EngineError('division by possibly non-positive value')
        for k in (1, Fraction(1, 8), Fraction(1, 64), Fraction(1, 256), Fraction(1, 257), Fraction(1, 1000), Fraction(1, 10**6)):
            if not feasible(zcmp(Aff(b.t, b.c - k, 'r'), '<')):
                kb_add(b, k, None)
                b.lo = lo = k
                break
        else:
            raise EngineError('division: no positive lower bound')
    if len(b.t) == 1 and b.c == 0:
        (s, c), = b.t.items()
        if s.inv is None:
            v = Sym('inv', 1 / Fraction(s.hi), 1 / Fraction(s.lo), False)
            s.inv = v
            v.inv = s
        v = s.inv
        r = Aff({v: 1 / Fraction(c)}, Fraction(0), 'r', 1 / Fraction(hi), 1 / Fraction(lo))
    else:
        v = Sym('inv', 1 / Fraction(hi), 1 / Fraction(lo), False)
        r = Aff({v: Fraction(1)}, Fraction(0), 'r', 1 / Fraction(hi), 1 / Fraction(lo))
    C.memo[key] = r
    for b2, r2 in C.inv:
        d = asub_exact(b, b2)
        e = asub_exact(r, r2)
        if d.__class__ is Aff and e.__class__ is Aff:
            C.solver.add(z3.Or(zcmp(d, '>'), zcmp(e, '>=')), z3.Or(zcmp(d, '<'), zcmp(e, '<=')))
    C.inv.append((b, r))
    C.invs.append((b, r))
    return r


def asub_exact(a, b):
    t, c, lo, hi = lin_comb(a, 1, b, -1, 'r')
    return mk(t, c, 'r', lo, hi)


def FREM(a, b):
    if a.__class__ is float and b.__class__ is float:
        return math.fmod(a, b)
    raise EngineError('fmod')


def FPTOSI(a, w):
    if a.__class__ is float:
        if a != a or not (-(2.0 ** (w - 1)) - 1 < a < 2.0 ** (w - 1)):
            violation('float-cast', 'float to int conversion out of range')
            raise PathEnd('viol')
        return int(a)
    if a is UNDEF:
        return a
    if a.__class__ is Aff:
        lo, hi = bounds(a)
        if lo < -(1 << (w - 1)) or hi >= (1 << (w - 1)):
            raise EngineError('fptosi range')
        if lo >= 0 or not BR(cmp(a, 0.0, '<')):
            return ifloor(a)
        return -ifloor(-a)
    raise EngineError('fptosi of %r' % (a,))


def FPTOUI(a, w):
    return FPTOSI(a, w + 1)


def ifloor(a):
    """integer floor of Aff"""
    key = ('floor', a.key())
    m = C.memo.get(key)
    if m is not None:
        return m
    lo, hi = bounds(a)
    l, h = floor(lo), floor(hi)
    if l == h:
        C.memo[key] = l
        return l
    s = Sym('fl', l, h, True)
    n = Aff({s: 1}, 0, 'i', l, h)
    d = lin_comb(a, 1, n, -1, 'r')
    C.solver.add(zcmp(Aff(d[0], d[1], 'r'), '>='), zcmp(Aff(d[0], d[1] - 1, 'r'), '<'))
    kb_add(Aff(d[0], d[1], 'r'), Fraction(0), Fraction(1))
    C.memo[key] = n
    if h - l <= C.conc_limit:
        return concretize(n, 8, 'floor')
    return n


def ilrint(a):
    """round to nearest (ties: either side allowed) of Aff"""
    key = ('lrint', a.key())
    m = C.memo.get(key)
    if m is not None:
        if m.__class__ is Aff and h_single(m):
            pass
        return m
    lo, hi = bounds(a)
    l, h = ceil(lo - Fraction(1, 2)), floor(hi + Fraction(1, 2))
    if l == h:
        C.memo[key] = l
        return l
    if all(y.int and Fraction(w).denominator == 1 for y, w in a.t.items()) and Fraction(a.c).denominator == 1:
        n = Aff({y: int(w) for y, w in a.t.items()}, int(a.c), 'i', lo, hi)
        C.memo[key] = n
        return n
    s = Sym('rn', l, h, True)
    n = Aff({s: 1}, 0, 'i', l, h)
    d = lin_comb(a, 1, n, -1, 'r')
    hf = Fraction(1, 2)
    C.solver.add(zcmp(Aff(d[0], d[1] + hf, 'r'), '>='), zcmp(Aff(d[0], d[1] - hf, 'r'), '<='))
    kb_add(Aff(d[0], d[1], 'r'), -hf, hf)
    C.memo[key] = n
    if h - l <= C.conc_limit:
        v = concretize(n, 8, 'lrint')
        C.memo[key] = v
        return v
    return n


def h_single(m):
    return False


def rne(x):
    return round(x)


def x_lrint32(x):
    if x.__class__ is float:
        if x != x or abs(x) > 2.2e9:
            return -2147483648
        v = round(x)
        return v if -2147483648 <= v <= 2147483647 else -2147483648
    if x.__class__ is Aff:
        lo, hi = bounds(x)
        if lo < -2147483648 or hi > 2147483647:
            raise EngineError('lrint range')
        return ilrint(x)
    if x is UNDEF:
        return UNDEF
    raise EngineError('lrint of %r' % (x,))


def x_lrint(x):
    if x.__class__ is float:
        if x != x or abs(x) >= 9.3e18:
            return -(1 << 63)
        return round(x)
    return x_lrint32(x)


def x_fabs(x):
    if x.__class__ is float:
        return abs(x)
    if x is UNDEF or x is OPAQUE:
        return x
    if x.__class__ is Aff:
        lo, hi = bounds(x)
        if lo >= 0:
            return x
        if hi <= 0:
            return -x
        return -x if BR(cmp(x, 0.0, '<')) else x
    if x.__class__ is Lin:
        return -x if BR(lincmp(x, 0.0, '<')) else x
    raise EngineError('fabs')


def x_floor(x):
    if x.__class__ is float:
        return float(floor(x)) if math.isfinite(x) else x
    if x.__class__ is Aff:
        return SITOFP(ifloor(x))
    return x_unk(x, 'floor')


def x_ceil(x):
    if x.__class__ is float:
        return float(ceil(x)) if math.isfinite(x) else x
    if x.__class__ is Aff:
        n = ifloor(x.exact_scale(-1))
        return SITOFP(-n)
    return x_unk(x, 'ceil')


def x_trunc(x):
    if x.__class__ is float:
        return float(int(x)) if math.isfinite(x) else x
    if x.__class__ is Aff:
        return SITOFP(FPTOSI(x, 64))
    return x_unk(x, 'trunc')


def x_rint(x):
    if x.__class__ is float:
        return float(round(x)) if math.isfinite(x) else x
    if x.__class__ is Aff:
        return SITOFP(ilrint(x))
    return x_unk(x, 'rint')


def x_unk(x, n):
    if x is UNDEF or x is OPAQUE:
        return x
    raise EngineError(n)


def x_fmin(a, b):
    if a.__class__ is float and b.__class__ is float:
        return b if a != a else a if b != b else min(a, b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    c = a < b
    return a if (c if c.__class__ is bool else BR(c)) else b


def x_fmax(a, b):
    if a.__class__ is float and b.__class__ is float:
        return b if a != a else a if b != b else max(a, b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    c = a > b
    return a if (c if c.__class__ is bool else BR(c)) else b


def x_round(x):
    if x.__class__ is float:
        return math.copysign(float(floor(abs(x) + 0.5)) if abs(x) < 4503599627370496.0 and abs(x) != 0.49999999999999994 else 0.0 if abs(x) < 0.5 else abs(x), x) if math.isfinite(x) else x
    if x is UNDEF or x is OPAQUE:
        return x
    c = x < 0.0
    if c if c.__class__ is bool else BR(c):
        return -x_floor(-x + 0.5)
    return x_floor(x + 0.5)


def x_lround(x):
    return FPTOSI(x_round(x), 64)


def x_copysign(a, b):
    if b.__class__ is float:
        neg = math.copysign(1.0, b) < 0
    elif b is UNDEF:
        return UNDEF
    else:
        c = b < 0.0
        neg = c if c.__class__ is bool else BR(c)
    a = x_fabs(a)
    return -a if neg else a


def x_fpclass(x, mask):
    if x is UNDEF:
        return UNDEF
    if x is OPAQUE:
        return OB() if mask & 1023 not in (0, 1023) else mask & 1023 == 1023
    if x.__class__ is float:
        if x != x:
            return bool(mask & 3)
        if math.isinf(x):
            return bool(mask & (512 if x > 0 else 4))
        if x == 0:
            return bool(mask & (64 if math.copysign(1.0, x) > 0 else 32))
        return bool(mask & (384 if x > 0 else 24))
    # an encoded value is finite
    if not mask & 504:
        return False
    if mask & 504 == 504:
        return True
    neg, zero, pos = bool(mask & 24), bool(mask & 96), bool(mask & 384)
    c = x < 0.0
    if c if c.__class__ is bool else BR(c):
        return neg
    c = cmp(x, 0.0, '==')
    if c if c.__class__ is bool else BR(c):
        return zero
    return pos


def x_ovf(op, bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    if not signed:
        lo, hi = 0, (1 << bits) - 1

    def f(a, b):
        if a is UNDEF or b is UNDEF:
            return (UNDEF, UNDEF)
        if not signed:
            a, b = ZEXT(a, bits), ZEXT(b, bits)
        r = a + b if op == 'add' else a - b if op == 'sub' else a * b
        for lim, o in ((lo, '<'), (hi, '>')):
            c = cmp(r, lim, o)
            if c if c.__class__ is bool else BR(c):
                return (UNDEF if r.__class__ is not int else TRUNC(r, bits), True)
        return (r if signed else TRUNC(r, bits), False)
    return f


def x_fmod(a, b):
    if a.__class__ is float and b.__class__ is float:
        return math.fmod(a, b) if b != 0 and math.isfinite(a) else NAN
    if a.__class__ is Aff and b == 1.0:
        n = FPTOSI(a, 64)
        return a - SITOFP(n)
    raise EngineError('fmod')


def x_modf(a, p):
    n = x_trunc(a)
    STD(p, n)
    return a - n


def x_fma(a, b, c):
    return a * b + c


def SWITCH(v, cases):
    if v is UNDEF:
        violation('uninitialised', 'switch on an uninitialised value')
        raise PathEnd('viol')
    for n in cases:
        c = cmp(v, n, '==')
        if c if c.__class__ is bool else BR(c):
            return n
    return None


def UNREACH():
    violation('unreachable', 'control reaches unreachable code')
    raise PathEnd('viol')
