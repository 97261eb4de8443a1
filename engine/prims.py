"""Harness primitives (see harness/vp.h), library stubs and path driver of symir."""
import os, sys, json, time, math, gc, signal
from fractions import Fraction
import z3
import sym
from sym import *


def cstr(p):
    if p.__class__ is not Ptr or p.o is None:
        return ''
    out = bytearray()
    i = p.f
    while True:
        b = LDB(Ptr(p.o, i))
        if b.__class__ is not int or b == 0:
            break
        out.append(b & 255)
        i += 1
    return out.decode('latin1')


def vp_int(lo, hi):
    if lo == hi:
        C.witness.append(['i', lo])
        return lo
    s = Sym('i', lo, hi, True)
    a = Aff({s: 1}, 0, 'i', lo, hi)
    C.witness.append(['i', a])
    return a


def vp_pick(lo, hi):
    v = lo + (fork_n(hi - lo + 1, lambda i: None) if hi > lo else 0)
    C.witness.append(['i', v])
    return v


def vp_pin(v):
    return concretize(v, 4096, 'pin')


def vp_real(lo, hi):
    if lo == hi:
        C.witness.append(['r', lo])
        return lo
    s = Sym('r', Fraction(lo), Fraction(hi), False)
    a = Aff({s: Fraction(1)}, Fraction(0), 'r', Fraction(lo), Fraction(hi))
    a.fp = True
    C.witness.append(['r', a])
    return a


def new_arr(n):
    k = C.narr
    C.narr += 1
    C.witness.append(['s', k, n])
    return k


def vp_samples(p, n):
    """fill n floats with fresh sample symbols in [-1,1]"""
    n = vp_pin(n) if n.__class__ is not int else n
    k = new_arr(n)
    if n == 0:
        return
    o = chk(p, 4 * n, 'write')
    i0 = p.f >> 2
    o.w[i0:i0 + n] = [sample(k, i, C.mag) for i in range(n)]


def vp_lazy(p, n):
    """array of (possibly symbolic) length n: element i is sample (arr, i), index may be symbolic"""
    k = new_arr(n)
    z = Lazy(k, p.f >> 2, bound=C.mag)
    p.o.lazy = z
    p.o.w = [z] * len(p.o.w)


def vp_ramp(p, n, a, b, ch):
    """element i = a + b * (i / ch)"""
    p.o.lazy = Lazy(-1, p.f >> 2, (a, b, ch))
    p.o.w = [p.o.lazy] * len(p.o.w)


def vp_opaque(p, n):
    """n floats the property does not depend on (abstracted)"""
    if n.__class__ is int and n == 0:
        new_arr(0)
        return
    k = new_arr(n)
    p.o.opq = True


def vp_undef(p, n):
    pass


def vp_assume(c):
    if c.__class__ is int or c.__class__ is bool:
        if not c:
            raise PathEnd('assume')
        return
    r = cmp(c, 0, '!=') if c.__class__ is Aff else c
    if not (r if r.__class__ is bool else BR(r)):
        raise PathEnd('assume')


def vp_assert(c, msg):
    C.nassert += 1
    if c.__class__ is int or c.__class__ is bool:
        if not c:
            violation('assert', cstr(msg))
            raise PathEnd('viol')
        return
    if c is UNDEF:
        violation('uninitialised', cstr(msg))
        raise PathEnd('viol')
    r = cmp(c, 0, '!=')
    if r is True:
        return
    if r is False or feasible(z3.Not(r.zz())):
        if r is False:
            violation('assert', cstr(msg))
            raise PathEnd('viol')
        violation('assert', cstr(msg), z3.Not(r.zz()))
        if not feasible(r.zz()):
            raise PathEnd('viol')
    C.solver.add(r.zz())
    note_aff(r.a, r.op)


def zbox(x, m):
    pass


def unify(lv):
    """merge leaves whose symbolic indices are equal on this path (fork when undecided)"""
    ids = list(lv)
    rep = {}
    classes = []
    for u in ids:
        n = lv[u]
        if n.op != 's':
            rep[u] = u
            continue
        done = False
        for r in classes:
            m = lv[r]
            if m.a != n.a:
                continue
            c = cmp(m.b, n.b, '==') if (m.b.__class__ is Aff or n.b.__class__ is Aff) else m.b == n.b
            if c if c.__class__ is bool else BR(c):
                rep[u] = r
                done = True
                break
        if not done:
            classes.append(u)
            rep[u] = u
    return rep


def vp_close(a, b, tol, msg):
    """|a-b| <= tol for every value of the samples"""
    C.nassert += 1
    return close_(a, b, tol * C.mag, msg)


def close_(a, b, tol, msg, kind='close'):
    if a is UNDEF or b is UNDEF:
        violation('uninitialised', cstr(msg))
        raise PathEnd('viol')
    if a is OPAQUE or b is OPAQUE:
        if a is b:
            raise EngineError('comparison of abstracted values')
        raise EngineError('comparison with abstracted value')
    if a is b:
        C.nsynt += 1
        return
    if a.__class__ is float and b.__class__ is float:
        if a != a or b != b or abs(a - b) > tol:
            violation(kind, cstr(msg))
            raise PathEnd('viol')
        return
    if a.__class__ is not Lin and b.__class__ is not Lin:
        d = asub_exact(a, b)
        bound_check([], d, Fraction(tol), msg, kind, {})
        return
    d1, c1, l1 = flatten(a)
    d2, c2, l2 = flatten(b)
    lv = dict(l1)
    lv.update(l2)
    if any(n.b.__class__ is Aff for n in lv.values()):
        rep = unify(lv)
    else:
        rep = None
    d = {}
    for u, w in d1.items():
        u = rep[u] if rep else u
        d[u] = sadd(d[u], w) if u in d else w
    for u, w in d2.items():
        u = rep[u] if rep else u
        w = smul(w, -1.0)
        d[u] = sadd(d[u], w) if u in d else w
    c = sadd(c1, smul(c2, -1.0))
    err = (aerr(a) + aerr(b)) + 1e-15 * (len(d) + 1) * (amag(a) + amag(b))
    slack = Fraction(tol) - Fraction(err)
    if slack < 0:
        raise EngineError('tolerance below rounding error: %g %g' % (tol, err))
    terms = [(lv[u], w) for u, w in d.items() if w.__class__ is Aff or w != 0.0]
    bound_check(terms, c, slack, msg, kind, lv)


def bound_check(terms, c, slack, msg, kind, lv):
    """decide: exists samples in their box with |sum w_i x_i + c| > slack"""
    if not terms and c.__class__ is not Aff and abs(c) <= slack:
        C.nsynt += 1
        return
    if all(w.__class__ is not Aff for _, w in terms) and c.__class__ is not Aff and len(terms) > 400:
        # box-constrained linear form: closed-form optimum
        s = sum(abs(Fraction(w)) * Fraction(n.mag) for n, w in terms) + abs(Fraction(c))
        C.nq += 1
        if s <= slack:
            return
        samples = pick_signs([(n, w) for n, w in terms], c)
        violation(kind, cstr(msg), samples=samples)
        raise PathEnd('viol')
    # worst case over x: sum |w_i| mag_i + |c| ; w_i may be symbolic -> branch-free encoding with z3
    S = []
    consts = Fraction(0)
    ts = []
    for n, w in terms:
        if w.__class__ is Aff:
            # t >= |w| would be one-sided; use sample variable product bound: introduce p with |p| <= |w|*mag
            p = z3.Real('p%d' % C.uniq)
            C.uniq += 1
            zw = zaff(w)
            m = zq2(n.mag)
            S.append(z3.Or(z3.And(p <= zw * m, p >= -zw * m), z3.And(p >= zw * m, p <= -zw * m)))
            ts.append(p)
        else:
            x = zsample(n)
            ts.append(zr(x) * zq2(Fraction(w)))
    zc = zaff(c) if c.__class__ is Aff else zq2(Fraction(c))
    e = z3.Sum(ts + [zc]) if ts else zc
    sl = zq2(slack)
    bad = z3.And(*(S + [z3.Or(e > sl, e < -sl)]))
    t = time.time()
    if feasible(bad):
        m = model_of(bad)
        if m is None:
            return
        ws = [(n, float(val_of(m, w)) if w.__class__ is Aff else w) for n, w in terms]
        cc = float(val_of(m, c)) if c.__class__ is Aff else c
        samples = model_samples(m) if C.samp_cmp else pick_signs(ws, cc, m)
        violation(kind, cstr(msg), bad, samples=samples)
        if not feasible(z3.Not(bad)) or S:
            raise PathEnd('viol')
        raise PathEnd('viol')


def pick_signs(ws, c, m=None):
    sg = 1 if c >= 0 else -1
    out = {}
    for n, w in ws:
        if n.op != 's' or not isinstance(n.a, int):
            continue
        i = n.b
        if i.__class__ is Aff:
            if m is None:
                continue
            i = int(val_of(m, i))
        out[(n.a, i)] = float(n.mag) * (1 if (w > 0) == (sg > 0) else -1)
    return out


def vp_same(a, b, n, msg):
    """n floats at a and b are the same values"""
    n = vp_pin(n)
    for i in range(n):
        x = LDF(Ptr(a.o, a.f + 4 * i))
        y = LDF(Ptr(b.o, b.f + 4 * i))
        same_val(x, y, msg)


def vp_index(base, n, v, msg):
    """v must be, bit for bit, an element of the sample array at base: its (flat) index, or -1"""
    C.nassert += 1
    if v is UNDEF:
        violation('uninitialised', cstr(msg))
        raise PathEnd('viol')
    arr = base.o.lazy
    if arr is None:
        raise EngineError('vp_index on a non-lazy array')
    if v.__class__ is Lin and v.op == 's' and v.a == arr.arr:
        return v.b
    if v.__class__ is Lin or v.__class__ is float:
        violation('assert', cstr(msg))
        raise PathEnd('viol')
    raise EngineError('vp_index of %r' % (v,))


def vp_samev(a, b, msg):
    same_val(a, b, msg)


def same_val(x, y, msg):
    C.nassert += 1
    if x is y:
        C.nsynt += 1
        return
    if x.__class__ is float and y.__class__ is float:
        if x == y or (x != x and y != y):
            return
        if abs(x - y) <= 2e-7 * max(1.0, abs(x)):
            return
        violation('same', cstr(msg))
        raise PathEnd('viol')
    if x is OPAQUE and y is OPAQUE:
        raise EngineError('comparison of abstracted values')
    tol = 4e-7 * max(1.0, amag(x) if x is not UNDEF else 1.0, amag(y) if y is not UNDEF else 1.0)
    close_(x, y, tol, msg, 'same')


def vp_untouched(p, n, msg):
    """the n floats at p still hold what malloc left there (never written)"""
    for i in range(n):
        C.nassert += 1
        v = LDF(Ptr(p.o, p.f + 4 * i))
        if v is not UNDEF:
            violation('assert', cstr(msg))
            raise PathEnd('viol')


def vp_defined(p, n, msg):
    n = vp_pin(n)
    for i in range(n):
        C.nassert += 1
        v = LDF(Ptr(p.o, p.f + 4 * i))
        if v is UNDEF:
            violation('uninitialised', cstr(msg))
            raise PathEnd('viol')


def vp_bounded(v, lim, msg):
    """|v| <= lim for all samples"""
    C.nassert += 1
    if v is UNDEF:
        violation('uninitialised', cstr(msg))
        raise PathEnd('viol')
    if v is OPAQUE:
        raise EngineError('abstracted value')
    close_(v, 0.0, lim * C.mag, msg)


def vp_reach(msg):
    m = cstr(msg)
    if m not in C.reach:
        C.reach.add(m)


def vp_log(v):
    C.trail.append(v)


def vp_logf(p, n):
    n = vp_pin(n)
    for i in range(n):
        C.trail.append(LDF(Ptr(p.o, p.f + 4 * i)))


def vp_heap_live():
    return sum(1 for o in C.heap.values() if o.owner == 'lib')


def vp_faults(n):
    """from now on up to n library allocations may fail (symbolically chosen)"""
    if n:
        C.faults = {'left': n, 'n': 0}
    else:
        C.faults = None


def vp_freeze_globals(on):
    C.freeze_globals = bool(on)


def vp_symbolic():
    return 1


def vp_abstract_copies(on):
    C.abstract_copies = bool(on)


def vp_conc_limit(n):
    C.conc_limit = n


def vp_steps(n):
    """bound on library work inside the next API calls (termination)"""
    C.step_left = n if n > 0 else None
    ST[0] = 20000 if n <= 0 else min(20000, n)
    C.step_chunk = ST[0]


def vp_out(n):
    """fresh output array of n floats, contents undefined, exact size (n may be symbolic)"""
    if n.__class__ is int:
        n = max(n, 0)
    return x_malloc(n * 4)


def vp_huge(n):
    """array of n floats (n may exceed 2^31, may be symbolic), contents abstracted"""
    p = x_malloc(0 if n.__class__ is int and n <= 0 else 4)
    o = p.o
    o.opq = True
    if n.__class__ is int:
        o.size = max(n, 0) * 4
    else:
        o.size = int(n.hi) * 4 if n.hi is not None else 1 << 36
        o.sym = n * 4
    return p


def x_assert_fail(*a):
    violation('abort', 'assertion failed: ' + cstr(a[0]))
    raise PathEnd('viol')


def x_abort(*a):
    violation('abort', 'abort/exit called')
    raise PathEnd('viol')


def x_printf(*a):
    return 0


def x_strlen(p):
    return len(cstr(p))


def x_strcmp(a, b):
    x, y = cstr(a), cstr(b)
    return (x > y) - (x < y)


def x_strncmp(a, b, n):
    x, y = cstr(a)[:n], cstr(b)[:n]
    return (x > y) - (x < y)


def x_memcmp(a, b, n):
    for i in range(n):
        x, y = LDB(Ptr(a.o, a.f + i)), LDB(Ptr(b.o, b.f + i))
        if x.__class__ is not int or y.__class__ is not int:
            raise EngineError('memcmp')
        if x & 255 != y & 255:
            return 1 if x & 255 > y & 255 else -1
    return 0


def x_strchr(p, c):
    i = (cstr(p) + '\0').find(chr(c & 255))
    return NULL if i < 0 else Ptr(p.o, p.f + i)


def x_ldexp(x, n):
    if n.__class__ is not int:
        raise EngineError('ldexp')
    return math.ldexp(x, n) if x.__class__ is float else x * 2.0 ** n


def x_cmath(f):
    def g(*a):
        if any(x.__class__ not in (int, float) for x in a):
            raise EngineError('libm')
        try:
            return float(f(*a))
        except (ValueError, OverflowError):
            raise EngineError('libm')
    return g


def x_umin(bits, mx):
    def f(a, b):
        a, b = ZEXT(a, bits), ZEXT(b, bits)
        c = cmp(a, b, '<')
        c = c if c.__class__ is bool else BR(c)
        return TRUNC(a if c != bool(mx) else b, bits)
    return f


def x_isnan(x):
    return 1 if x.__class__ is float and x != x else 0


def lib_heap(f):
    def g(*a):
        C.inlib = 1
        try:
            return f(*a)
        finally:
            C.inlib = 0
    return g


def base_fns():
    F = {'@malloc': x_malloc, '@calloc': x_calloc, '@free': x_free, '@realloc': x_realloc,
         '@memcpy': x_memcpy, '@memmove': x_memmove, '@memset': x_memset,
         '@llvm.memcpy.p0.p0.i64': x_memcpy, '@llvm.memmove.p0.p0.i64': x_memmove, '@llvm.memset.p0.i64': x_memset,
         '@fabs': x_fabs, '@fabsf': x_fabs, '@llvm.fabs.f64': x_fabs, '@llvm.fabs.f32': x_fabs,
         '@floor': x_floor, '@llvm.floor.f64': x_floor, '@floorf': x_floor, '@ceil': x_ceil, '@llvm.ceil.f64': x_ceil,
         '@trunc': x_trunc, '@llvm.trunc.f64': x_trunc, '@rint': x_rint, '@llvm.rint.f64': x_rint, '@nearbyint': x_rint,
         '@llvm.nearbyint.f64': x_rint, '@llvm.roundeven.f64': x_rint,
         '@lrint': x_lrint, '@lrintf': x_lrint, '@llrint': x_lrint, '@llvm.lrint.i64.f64': x_lrint, '@llvm.lrint.i64.f32': x_lrint,
         '@vp_lrint32': x_lrint32, '@fmin': x_fmin, '@fmax': x_fmax, '@llvm.minnum.f64': x_fmin, '@llvm.maxnum.f64': x_fmax,
         '@fminf': x_fmin, '@fmaxf': x_fmax, '@fmod': x_fmod, '@modf': x_modf, '@llvm.fmuladd.f64': x_fma, '@fma': x_fma,
         '@llvm.smax.i32': lambda a, b: a if tb(a >= b) else b, '@llvm.smin.i32': lambda a, b: a if tb(a <= b) else b,
         '@llvm.smax.i64': lambda a, b: a if tb(a >= b) else b, '@llvm.smin.i64': lambda a, b: a if tb(a <= b) else b,
         '@abs': lambda a: -a if tb(a < 0) else a, '@labs': lambda a: -a if tb(a < 0) else a,
         '@llvm.abs.i32': lambda a, b: -a if tb(a < 0) else a, '@llvm.abs.i64': lambda a, b: -a if tb(a < 0) else a,
         '@__assert_fail': x_assert_fail, '@abort': x_abort, '@exit': x_abort, '@llvm.trap': x_abort,
         '@printf': x_printf, '@fprintf': x_printf, '@puts': x_printf, '@fputs': x_printf, '@fflush': x_printf, '@perror': x_printf,
         '@strlen': x_strlen, '@strcmp': x_strcmp, '@__isnan': x_isnan, '@llvm.expect.i64': lambda a, b: a, '@llvm.expect.i1': lambda a, b: a,
         '@llvm.ceil.f32': x_ceil, '@ceilf': x_ceil, '@llvm.floor.f32': x_floor, '@llvm.trunc.f32': x_trunc, '@truncf': x_trunc,
         '@llvm.rint.f32': x_rint, '@rintf': x_rint, '@nearbyintf': x_rint, '@llvm.nearbyint.f32': x_rint,
         '@round': x_round, '@roundf': x_round, '@llvm.round.f64': x_round, '@llvm.round.f32': x_round,
         '@lround': x_lround, '@lroundf': x_lround, '@llround': x_lround, '@llroundf': x_lround, '@llvm.lround.i64.f64': x_lround,
         '@copysign': x_copysign, '@copysignf': x_copysign, '@llvm.copysign.f64': x_copysign, '@llvm.copysign.f32': x_copysign,
         '@llvm.is.fpclass.f64': x_fpclass, '@llvm.is.fpclass.f32': x_fpclass, '@__isinf': lambda x: int(x_fpclass(x, 516)),
         '@llvm.fma.f64': x_fma, '@llvm.minnum.f32': x_fmin, '@llvm.maxnum.f32': x_fmax,
         **{'@llvm.%s%s.with.overflow.i%d' % ('s' if sg else 'u', o, w): x_ovf(o, w, sg) for sg in (True, False) for o in ('add', 'sub', 'mul') for w in (32, 64)},
         '@strncmp': x_strncmp, '@memcmp': x_memcmp, '@strchr': x_strchr, '@sqrt': x_cmath(math.sqrt), '@ldexp': x_ldexp, '@ldexpf': x_ldexp, '@scalbn': x_ldexp, '@scalbnf': x_ldexp, '@sqrtf': x_cmath(math.sqrt), '@pow': x_cmath(math.pow), '@log': x_cmath(math.log), '@log2': x_cmath(math.log2), '@exp': x_cmath(math.exp),
         '@llvm.umin.i32': x_umin(32, 0), '@llvm.umin.i64': x_umin(64, 0), '@llvm.umax.i32': x_umin(32, 1), '@llvm.umax.i64': x_umin(64, 1),
         '@llvm.ctlz.i32': lambda a, b: 32 - (int(a) & 0xffffffff).bit_length(), '@llvm.ctpop.i32': lambda a: bin(int(a) & 0xffffffff).count('1'),
         '@llvm.assume': lambda a: None, '@llvm.stacksave': lambda: 0, '@llvm.stackrestore': lambda a: None,
         '@llvm.stacksave.p0': lambda: 0, '@llvm.stackrestore.p0': lambda a: None,
         }
    g = globals()
    for n in list(g):
        if n.startswith('vp_'):
            F['@' + n] = g[n]
    return F


class FNMap(dict):
    def __missing__(s, k):
        def f(*a):
            raise EngineError('external function ' + k)
        s[k] = f
        return f


class Program:
    def __init__(s, mod):
        s.mod = mod
        s.fnptrs = {}
        s.funcs_run = set()
        base = base_fns()
        s.ns = {}
        s.fn = {}
        s.gobj = {}
        for tag in ('lib', 'harness'):
            F = FNMap(base)
            if tag == 'lib':
                for k in ('@malloc', '@calloc', '@free', '@realloc'):
                    F[k] = lib_heap(base[k])
            s.fn[tag] = F
            s.ns[tag] = dict(vars(sym))
            s.ns[tag].update(FN=F, G=s.gmap(), K=None, ICALL=s.icall)
        for name, f in mod.funcs.items():
            lz = s.lazy(name, f)
            for tag in ('lib', 'harness'):
                s.fn[tag][name] = lz

    def gmap(s):
        prog = s

        class GM(dict):
            def __missing__(m, k):
                v = prog.glob(k)
                m[k] = v
                return v
        return GM()

    def lazy(s, name, f):
        import ir

        def stub(*a):
            return s.compile(name)(*a)
        return stub

    def compile(s, name):
        import ir
        f = s.mod.funcs[name]
        if f.code is None:
            g = ir.Gen(s.mod, f)
            src = g.generate()
            ns = dict(s.ns[f.module])
            ns['K'] = [s.constval(c) for c in g.consts]
            exec(compile(src, '<%s>' % name, 'exec'), ns)
            f.code = ns['F']
            f.src = src
            for tag in ('lib', 'harness'):
                s.fn[tag][name] = f.code
        return f.code

    def compile_all(s):
        for n in s.mod.funcs:
            s.compile(n)

    def icall(s, p):
        if p.__class__ is FuncPtr:
            return s.compile(p.name)
        if p.__class__ is Ptr and p.o is None:
            violation('null', 'call through a null function pointer')
            raise PathEnd('viol')
        if p is UNDEF:
            violation('uninitialised', 'call through an uninitialised pointer')
            raise PathEnd('viol')
        raise EngineError('indirect call %r' % (p,))

    def glob(s, name):
        if name in s.mod.funcs:
            if name not in s.fnptrs:
                s.fnptrs[name] = FuncPtr(name)
            return s.fnptrs[name]
        if name in s.gobj:
            return s.gobj[name]
        if name in s.mod.globals:
            ty, init, const, tag, tls = s.mod.globals[name]
            n = s.mod.sizeof(ty)
            o = Obj(name, n, 'global', ZERO)
            o.lib = tag == 'lib'
            p = Ptr(o, 0)
            s.gobj[name] = p
            if init is not None:
                fz = C.freeze_globals
                C.freeze_globals = False
                s.init(o, 0, ty, init)
                C.freeze_globals = fz
            o.const = const
            return p
        if name in ('@stderr', '@stdout'):
            o = Obj(name, 8, 'global', ZERO)
            return Ptr(o, 0)
        raise EngineError('unknown global ' + name)

    def constval(s, c):
        k = c.k
        if k == 'gep':
            sty, l = c.v
            base = s.constval(l[0])
            off = 0
            cur = sty
            for i, ix in enumerate(l[1:]):
                if i == 0:
                    off += ix.v * s.mod.sizeof(sty)
                    continue
                r = s.mod.resolve(cur)
                if r[0] == 'S':
                    off += s.mod.layout(r)[0][ix.v]
                    cur = r[1][ix.v]
                else:
                    off += ix.v * s.mod.sizeof(r[2])
                    cur = r[2]
            return Ptr(base.o, base.f + off)
        if k == 'global':
            return s.glob(c.v)
        if k == 'int':
            if c.ty == ('i', 1):
                return bool(c.v)
            return c.v
        if k == 'float':
            return c.v
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return {'f': 0.0, 'd': 0.0, 'p': NULL}.get(c.ty[0], 0)
        if k == 'cast':
            raise EngineError('constant cast')
        raise EngineError('const ' + k)

    def init(s, o, off, ty, c):
        k = c.k
        if k in ('zero',):
            return
        if k == 'undef':
            return
        if k == 'str':
            for i, b in enumerate(c.v):
                if b:
                    STB(Ptr(o, off + i), b if b < 128 else b - 256)
            return
        if k == 'agg':
            r = s.mod.resolve(ty)
            if r[0] == 'S':
                offs, _ = s.mod.layout(r)
                for a, t, v in zip(offs, r[1], c.v):
                    s.init(o, off + a, t, v)
            else:
                e = s.mod.sizeof(r[2])
                if r[2][0] == 'f' and all(v.k == 'float' for v in c.v):
                    o.w[off >> 2:(off >> 2) + len(c.v)] = [v.v for v in c.v]
                    return
                for i, v in enumerate(c.v):
                    s.init(o, off + i * e, r[2], v)
            return
        v = s.constval(c)
        p = Ptr(o, off)
        t = ty[0]
        if t == 'f':
            STF(p, v)
        elif t == 'd':
            STD(p, v)
        elif t == 'p':
            STP(p, v)
        elif t == 'i':
            {32: STI, 64: STL, 8: STB, 16: STS, 1: ST1}[ty[1]](p, v)
        else:
            raise EngineError('init type')


def default_sample(k, i):
    h = (k * 2654435761 + i * 40503 + 12345) & 0xffffffff
    h ^= h >> 16
    h = (h * 0x45d9f3b) & 0xffffffff
    h ^= h >> 16
    return float((h & 0xffffff) - 0x800000) / 8388608.0


def eval_lin(x, memo, m):
    """evaluate DAG with default samples exactly as the machine would"""
    st = [x]
    while st:
        n = st[-1]
        if n.uid in memo:
            st.pop()
            continue
        ops = [v for v in (n.a, n.b) if v.__class__ is Lin]
        todo = [v for v in ops if v.uid not in memo]
        if todo:
            st.extend(todo)
            continue
        if n.op == 's':
            if n.a.__class__ is not int:
                raise EngineError('eval')
            memo[n.uid] = C.mag * default_sample(n.a, n.b if n.b.__class__ is int else int(val_of(m, n.b)))
        else:
            g = lambda v: memo[v.uid] if v.__class__ is Lin else float(val_of(m, v) if v.__class__ is Aff else v)
            if n.op == 'add':
                memo[n.uid] = g(n.a) + g(n.b)
            elif n.op == 'sub':
                memo[n.uid] = g(n.a) - g(n.b)
            elif n.op == 'mul':
                memo[n.uid] = g(n.a) * g(n.b)
            elif n.op == 'r32':
                memo[n.uid] = f32(g(n.a))
        st.pop()
    return memo[x.uid]


def concrete_witness(m):
    w = []
    for e in C.witness:
        if e[0] == 'i':
            w.append(['i', int(val_of(m, e[1]))])
        elif e[0] == 'r':
            w.append(['r', float(val_of(m, e[1]))])
        elif e[0] == 's':
            w.append(['s', {}])
        else:
            w.append(list(e))
    return w


prog_ref = [None]


def finish(status, why=''):
    if prog_ref[0] is not None and J.depth == 0:
        emit(dict(status='funcs', funcs=[n for n, f in prog_ref[0].mod.funcs.items() if f.code is not None and f.module == 'lib']))
    rec = dict(status=status, why=why, nq=C.nq, tq=round(C.tq, 4), nbranch=C.nbranch, nfork=C.nfork, nassert=C.nassert,
               nsynt=C.nsynt, unk=C.unknowns, reach=sorted(C.reach), t=round(time.time() - J.t0, 3))
    if status == 'ok' and not C.samp_cmp and (os.getpid() % J.trace_every == 0 or not os.path.exists(J.tracemark)):
        try:
            real = any(e[0] == 'r' and e[1].__class__ is Aff for e in C.witness)
            m = model_of()
            if m is not None:
                memo = {}
                tr = []
                for v in C.trail:
                    if v.__class__ is Lin:
                        v = eval_lin(v, memo, m)
                    elif v.__class__ is Aff:
                        v = float(val_of(m, v)) if real else float(val_of(m, v))
                    elif v is OPAQUE or v is UNDEF:
                        v = None
                    tr.append(v if v is None else float(v))
                rec['trace'] = dict(real=real, witness=concrete_witness(m), log=[None if x is None else x.hex() for x in tr])
                open(J.tracemark, 'a').close()
        except (EngineError, PathEnd) as e:
            pass
    emit(rec)


def explore(prog, entry, outfile, workdir, budget, trace_every=7, tokens=7, root=False):
    """run harness entry exploring all paths; results appended to outfile as JSON lines"""
    J.outfd = os.open(outfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    r, w = J.shared if hasattr(J, 'shared') else os.pipe()
    os.set_blocking(r, False)
    J.rfd, J.wfd = r, w
    if not hasattr(J, 'shared'):
        os.write(w, b'x' * tokens)
    J.stopfile = os.path.join(workdir, os.path.basename(outfile) + '.stop')
    J.tracemark = outfile + '.trace'
    J.trace_every = trace_every
    J.children = []
    J.depth = 0
    J.has_token = hasattr(J, 'shared')
    J.t0 = time.time()
    if not hasattr(J, 'max_viol'):
        J.max_viol = 4
    C.deadline = time.time() + budget
    prog_ref[0] = prog
    try:
        try:
            prog.compile(entry)()
            finish('ok')
        except PathEnd as e:
            finish(e.status, e.why)
        except EngineError as e:
            finish('engine', str(e))
        except RecursionError as e:
            finish('engine', 'recursion')
        except z3.Z3Exception as e:
            finish('engine', 'z3: ' + str(e)[:200])
        except MemoryError:
            finish('engine', 'memory')
        except Exception as e:
            import traceback
            finish('engine', 'internal: ' + repr(e)[:200] + ' | ' + traceback.format_exc()[-1500:])
    finally:
        try:
            # stop after enough candidates
            if J.has_token:
                put_token()
                J.has_token = False
            for c in J.children:
                try:
                    os.waitpid(c, 0)
                except ChildProcessError:
                    pass
        finally:
            os._exit(0)
