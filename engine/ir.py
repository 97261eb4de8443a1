"""Parser for textual LLVM IR (clang-18 -O0 + sroa/mem2reg) and translation of every
function into Python code that works on concrete and symbolic values alike."""
import re, struct

TOK = re.compile(r'''\s*(c?"(?:[^"\\]|\\.)*"|[@%](?:"[^"]*"|[-A-Za-z$._0-9]+)|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|![A-Za-z0-9_.]*|\#\d+|[A-Za-z_][A-Za-z0-9_.]*|[][(){}<>,=*:|])''')


class Toks:
    def __init__(s, text):
        s.t = TOK.findall(text)
        s.i = 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def accept(s, *xs):
        if s.peek() in xs:
            s.i += 1
            return True
        return False

    def expect(s, x):
        y = s.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(s.t[:80])))


VOID = ('v',)
PTR = ('p',)
F32 = ('f',)
F64 = ('d',)
I1 = ('i', 1)

ATTRS = {'noundef', 'nonnull', 'noalias', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'immarg',
         'returned', 'inreg', 'nofree', 'nounwind', 'readnone', 'noreturn', 'local_unnamed_addr', 'unnamed_addr',
         'dso_local', 'hidden', 'internal', 'private', 'external', 'default', 'tail', 'notail', 'musttail', 'fastcc', 'ccc',
         'linkonce_odr', 'weak', 'weak_odr', 'available_externally', 'linkonce', 'common', 'protected', 'allocptr', 'extern_weak', 'dead_on_unwind', 'writable', 'zeroinitializer_'}
ATTRP = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'memory', 'allocsize', 'nofpclass'}


def parse_type(t):
    x = t.next()
    if x == 'void':
        ty = VOID
    elif x == 'ptr':
        ty = PTR
    elif x == 'float':
        ty = F32
    elif x == 'double':
        ty = F64
    elif x == 'x86_fp80':
        ty = ('x',)     # only so that a signature can be read
    elif x == 'metadata':
        ty = ('m',)
    elif x == 'label':
        ty = ('l',)
    elif re.fullmatch(r'i\d+', x):
        ty = ('i', int(x[1:]))
    elif x[0] == '%':
        ty = ('s', x)
    elif x == '[':
        n = int(t.next())
        t.expect('x')
        e = parse_type(t)
        t.expect(']')
        ty = ('a', n, e)
    elif x == '{':
        l = []
        while not t.accept('}'):
            l.append(parse_type(t))
            t.accept(',')
        ty = ('S', tuple(l))
    elif x == '<':
        n = int(t.next())
        t.expect('x')
        e = parse_type(t)
        t.expect('>')
        ty = ('V', n, e)
    else:
        raise SyntaxError('type? ' + x + ' in ' + ' '.join(t.t[max(0, t.i - 10):t.i + 10]))
    if t.peek() == '(' and False:
        pass
    return ty


def skip_attrs(t):
    while True:
        x = t.peek()
        if x in ATTRS:
            t.next()
        elif x in ATTRP:
            t.next()
            if t.peek() == '(':
                d = 0
                while True:
                    y = t.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            elif x == 'align':
                t.next()
        elif x and x[0] == '#':
            t.next()
        else:
            return


class Const:
    """kind: int/float/null/undef/zero/agg/str/global/gep"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(s, k, v, ty):
        s.k = k
        s.v = v
        s.ty = ty


def hexfp(x, ty):
    assert x.startswith('0x') and x[2] not in 'HKLMR', x
    return struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]


def parse_value(t, ty):
    """-> ('r', name) local register or Const"""
    x = t.next()
    if x[0] == '%':
        return ('r', x)
    if x[0] == '@':
        return Const('global', x, ty)
    if x == 'null':
        return Const('null', None, ty)
    if x in ('undef', 'poison'):
        return Const('undef', None, ty)
    if x == 'zeroinitializer':
        return Const('zero', None, ty)
    if x == 'true':
        return Const('int', 1, ty)
    if x == 'false':
        return Const('int', 0, ty)
    if x == 'none':
        return Const('null', None, ty)
    if x[0:2] == 'c"':
        b = bytearray()
        s = x[2:-1]
        i = 0
        while i < len(s):
            if s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(ord(s[i]))
                i += 1
        return Const('str', bytes(b), ty)
    if x in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[x]
        if x == '<' and t.peek() == '{':
            t.next()
            l = parse_list(t, '}')
            t.expect('>')
            return Const('agg', l, ty)
        return Const('agg', parse_list(t, close), ty)
    if x == 'getelementptr':
        while t.peek() in ('inbounds', 'nuw', 'nusw'):
            t.next()
        t.expect('(')
        sty = parse_type(t)
        t.expect(',')
        l = parse_list(t, ')')
        return Const('gep', (sty, l), ty)
    if x in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
        t.expect('(')
        fty = parse_type(t)
        v = parse_value(t, fty)
        t.expect('to')
        tt = parse_type(t)
        t.expect(')')
        return Const('cast', (x, v), tt)
    if ty in (F32, F64):
        if x.startswith('0x'):
            return Const('float', hexfp(x, ty), ty)
        return Const('float', float(x), ty)
    if ty[0] == 'i':
        v = int(x)
        return Const('int', v, ty)
    raise SyntaxError('value? %s (%s)' % (x, ty))


def parse_list(t, close):
    l = []
    while not t.accept(close):
        ty = parse_type(t)
        skip_attrs(t)
        l.append(parse_value(t, ty))
        t.accept(',')
    return l


class Func:
    def __init__(s, name, ret, params, lines, module):
        s.name = name
        s.ret = ret
        s.params = params
        s.lines = lines
        s.module = module
        s.code = None
        s.ninstr = 0


class Module:
    def __init__(s):
        s.structs = {}
        s.globals = {}   # name -> (type, Const|None, isconst)
        s.funcs = {}
        s.decls = {}

    def parse(s, text, tag):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] in ';!' or l.startswith(('source_filename', 'target ', 'attributes', '$')):
                continue
            if l[0] == '%':
                nm, _, rhs = l.partition(' = type ')
                if rhs.strip() == 'opaque':
                    s.structs[nm] = None
                else:
                    s.structs[nm] = parse_type(Toks(rhs))
            elif l[0] == '@':
                nm, _, rhs = l.partition(' = ')
                t = Toks(rhs)
                skip_attrs(t)
                ext = 'external' in rhs.split()[:3] or 'extern_weak' in rhs.split()[:3]
                tls = False
                while t.peek() not in ('global', 'constant'):
                    if t.peek() == 'thread_local':
                        tls = True
                    x = t.next()
                    if x == '(':
                        while t.next() != ')':
                            pass
                k = t.next()
                ty = parse_type(t)
                init = None
                if not ext:
                    try:
                        init = parse_value(t, ty)
                    except SyntaxError:
                        init = Const('undef', None, ty)
                s.globals[nm] = (ty, init, k == 'constant', tag, tls)
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
                s.decls[m.group(1)] = l
            elif l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                h = l[len('define'):]
                t = Toks(h)
                skip_attrs(t)
                ret = parse_type(t)
                skip_attrs(t)
                nm = t.next()
                t.expect('(')
                params = []
                byval = []
                while not t.accept(')'):
                    if t.accept('...'):
                        continue
                    ty = parse_type(t)
                    i0 = t.i
                    skip_attrs(t)
                    w = t.t[i0:t.i]
                    if 'byval' in w:
                        byval.append((w[w.index('byval') + 2], t.peek()))
                    params.append((ty, t.next()))
                    t.accept(',')
                s.funcs[nm] = Func(nm, ret, params, body, tag)
                s.funcs[nm].byval = byval
            else:
                raise SyntaxError('toplevel: ' + l[:100])

    # ---- layout
    def sizeof(s, ty):
        k = ty[0]
        if k == 'i':
            return 1 << ((ty[1] + 7) // 8 - 1).bit_length()
        if k == 'f':
            return 4
        if k in 'dp':
            return 8
        if k == 'x':
            return 16
        if k == 'a':
            return ty[1] * s.sizeof(ty[2])
        if k == 's':
            return s.sizeof(s.structs[ty[1]])
        if k == 'S':
            return s.layout(ty)[1]
        if k == 'V':
            return ty[1] * s.sizeof(ty[2])
        raise ValueError(ty)

    def alignof(s, ty):
        k = ty[0]
        if k in 'ifdp':
            return s.sizeof(ty)
        if k == 'a':
            return s.alignof(ty[2])
        if k == 's':
            return s.alignof(s.structs[ty[1]])
        if k == 'S':
            return max([1] + [s.alignof(x) for x in ty[1]])
        if k == 'V':
            return min(16, s.sizeof(ty))
        raise ValueError(ty)

    def layout(s, ty):
        if ty[0] == 's':
            return s.layout(s.structs[ty[1]])
        off = 0
        offs = []
        for x in ty[1]:
            a = s.alignof(x)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s.sizeof(x)
        a = s.alignof(ty)
        return offs, (off + a - 1) // a * a

    def resolve(s, ty):
        return s.structs[ty[1]] if ty[0] == 's' else ty


def strip_md(l):
    l = re.sub(r', !\w+ !\d+', '', l)
    i = l.find(' #')
    return l


class Gen:
    """function -> python source"""

    def __init__(s, mod, fn):
        s.m = mod
        s.f = fn
        s.consts = []

    def reg(s, n):
        return 'v_' + re.sub(r'[^A-Za-z0-9_]', lambda m: '_%x_' % ord(m.group(0)), n[1:])

    def val(s, v, ty=None):
        if isinstance(v, tuple):
            return s.reg(v[1])
        k = v.k
        if k == 'int':
            if v.ty == I1:
                return 'True' if v.v else 'False'
            return '(%d)' % v.v
        if k == 'float':
            if v.v != v.v:
                return 'NAN'
            if v.v in (float('inf'), float('-inf')):
                return 'INF' if v.v > 0 else '(-INF)'
            return repr(v.v) if v.v >= 0 and not str(v.v).startswith('-') else '(%r)' % v.v
        if k == 'null':
            return 'NULL'
        if k == 'undef':
            return 'UNDEF'
        if k == 'global':
            return 'G[%r]' % v.v
        if k in ('gep', 'cast', 'zero', 'agg'):
            s.consts.append(v)
            return 'K[%d]' % (len(s.consts) - 1)
        raise SyntaxError('const ' + k)

    def parts(s, ty):
        if ty[0] == 'V':
            return [(i * s.m.sizeof(ty[2]), ty[2]) for i in range(ty[1])]
        return list(zip(s.m.layout(ty)[0], ty[1]))

    def gep(s, t):
        while t.peek() in ('inbounds', 'nuw', 'nusw'):
            t.next()
        sty = parse_type(t)
        t.expect(',')
        parse_type(t)
        base = parse_value(t, PTR)
        off = 0
        dyn = []
        first = True
        cur = sty
        while t.accept(','):
            ity = parse_type(t)
            idx = parse_value(t, ity)
            if first:
                sc = s.m.sizeof(sty)
                first = False
                nxt = sty
            else:
                r = s.m.resolve(cur)
                if r[0] == 'S':
                    off += s.m.layout(r)[0][idx.v]
                    cur = r[1][idx.v]
                    continue
                nxt = r[2]
                sc = s.m.sizeof(nxt)
            if isinstance(idx, Const) and idx.k == 'int':
                off += sc * idx.v
            else:
                dyn.append((s.val(idx), sc))
            cur = nxt
        b = s.val(base)
        if not dyn and off == 0:
            return b
        e = '+'.join(['%s*%d' % d if d[1] != 1 else d[0] for d in dyn] + ([str(off)] if off else []))
        return 'Ptr(%s.o,%s.f+%s)' % (b, b, e)

    def generate(s):
        m = s.m
        blocks = []
        cur = None
        for l in s.f.lines:
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if mm:
                cur = (mm.group(1), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ('%entry', [])
                blocks.append(cur)
            cur[1].append(l.strip())
        # join multi-line switch
        for b in blocks:
            out = []
            acc = None
            for l in b[1]:
                if acc is not None:
                    acc += ' ' + l
                    if l.endswith(']') or l == ']':
                        out.append(acc)
                        acc = None
                    continue
                if l.startswith('switch') and not l.rstrip().endswith(']'):
                    acc = l
                    continue
                out.append(l)
            b[1][:] = out
        ids = {b[0].strip('"'): i for i, b in enumerate(blocks)}
        # implicit entry label: number of params; only phi references matter
        phis = {}
        entryname = blocks[0][0]
        parsed = []
        for bi, (bn, ls) in enumerate(blocks):
            pl = []
            for l in ls:
                l = re.sub(r',? !\w+ ![0-9]+', '', l)
                l = re.sub(r', align \d+', '', l)
                t = Toks(l)
                dest = None
                if t.peek()[0] == '%' and t.peek(1) == '=':
                    dest = t.next()
                    t.next()
                op = t.next()
                if op == 'phi':
                    while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                        t.next()
                    ty = parse_type(t)
                    while True:
                        t.expect('[')
                        v = parse_value(t, ty)
                        t.expect(',')
                        lab = t.next()
                        t.expect(']')
                        lab = lab[1:].strip('"')
                        pi = ids.get(lab, 0)
                        phis.setdefault((pi, bi), []).append((dest, v))
                        if not t.accept(','):
                            break
                    continue
                pl.append((dest, op, t, l))
            parsed.append(pl)
        code = []
        s.phis = phis
        s.ids = ids
        for bi, pl in enumerate(parsed):
            out = []
            s.f.ninstr += len(pl)
            for dest, op, t, l in pl:
                try:
                    s.ins(bi, dest, op, t, l, out)
                except Exception as e:
                    raise SyntaxError('%s: in %s: %s' % (e, s.f.name, l)) from e
            code.append(out)
        args = ','.join(s.reg(p[1]) for p in s.f.params)
        bv = ';'.join('%s=BYVAL(%s,%d);STK.append(%s.o)' % (s.reg(r), s.reg(r), s.m.sizeof(('s', ty)), s.reg(r)) for ty, r in s.f.byval)
        src = ['def F(%s):' % args, ' STK=[]', ' b=0' + (';' + bv if bv else ''), ' try:', '  while True:']

        def tree(lo, hi, ind):
            if hi - lo == 1:
                for x in code[lo]:
                    src.append(' ' * ind + x)
                return
            if hi - lo <= 2:
                src.append(' ' * ind + 'if b==%d:' % lo)
                tree(lo, lo + 1, ind + 1)
                src.append(' ' * ind + 'else:')
                tree(lo + 1, hi, ind + 1)
                return
            mid = (lo + hi) // 2
            src.append(' ' * ind + 'if b<%d:' % mid)
            tree(lo, mid, ind + 1)
            src.append(' ' * ind + 'else:')
            tree(mid, hi, ind + 1)
        tree(0, len(code), 3)
        if not bv and not any('STK.append' in x for o in code for x in o):
            src = [x for x in src]
            src[1] = ' pass'
            src[3] = ' if 1:'
        else:
            src += [' finally:', '  for o in STK: o.freed=True']
        return '\n'.join(src) + '\n'

    def jump(s, out, bi, lab, ind):
        for x in s.goto(bi, lab).split('\n'):
            out.append(ind + x)

    def goto(s, bi, lab):
        ti = s.ids[lab[1:].strip('"')]
        ph = s.phis.get((bi, ti), [])
        r = ''
        if ph:
            r = ','.join(s.reg(d) for d, _ in ph) + '=' + ','.join(s.val(v) for _, v in ph) + ';'
        if ti <= bi:
            r += 'ST[0]-=1;b=%d\nif ST[0]<0: STEP()' % ti
            return r
        return r + 'b=%d' % ti

    def ins(s, bi, dest, op, t, l, out):
        d = s.reg(dest) if dest else None
        val = s.val
        if op == 'br':
            if t.peek() == 'label':
                t.next()
                s.jump(out, bi, t.next(), '')
                out.append('continue')
            else:
                ty = parse_type(t)
                c = val(parse_value(t, ty))
                t.expect(',')
                t.expect('label')
                a = t.next()
                t.expect(',')
                t.expect('label')
                e = t.next()
                out.append('if (%s if %s.__class__ is bool else BR(%s)):' % (c, c, c))
                s.jump(out, bi, a, ' ')
                out.append('else:')
                s.jump(out, bi, e, ' ')
                out.append('continue')
            return
        if op == 'switch':
            ty = parse_type(t)
            c = val(parse_value(t, ty))
            t.expect(',')
            t.expect('label')
            dl = t.next()
            t.expect('[')
            cases = []
            while not t.accept(']'):
                parse_type(t)
                n = int(t.next())
                t.expect(',')
                t.expect('label')
                cases.append((n, t.next()))
            kw = 'if'
            out.append('sw=%s' % c)
            out.append('if sw.__class__ is not int: sw=SWITCH(sw,%r)' % ([n for n, _ in cases],))
            for n, lab in cases:
                out.append('%s sw==%d:' % (kw, n))
                s.jump(out, bi, lab, ' ')
                kw = 'elif'
            if cases:
                out.append('else:')
                s.jump(out, bi, dl, ' ')
            else:
                s.jump(out, bi, dl, '')
            out.append('continue')
            return
        if op == 'ret':
            ty = parse_type(t)
            if ty == VOID:
                out.append('return')
            else:
                out.append('return %s' % val(parse_value(t, ty)))
            return
        if op == 'unreachable':
            out.append('UNREACH()')
            return
        if op == 'alloca':
            ty = parse_type(t)
            n = '1'
            if t.accept(','):
                ity = parse_type(t)
                n = val(parse_value(t, ity))
            out.append('%s=ALLOCA(%d,%s,%r);STK.append(%s.o)' % (d, s.m.sizeof(ty), n, dest, d))
            return
        if op == 'load':
            t.accept('atomic')
            t.accept('volatile')
            ty = parse_type(t)
            t.expect(',')
            parse_type(t)
            p = val(parse_value(t, PTR))
            if ty[0] in 'SV':
                out.append('%s=(%s,)' % (d, ','.join('%s(Ptr(%s.o,%s.f+%d))' % (ldname(e), p, p, o) for o, e in s.parts(ty))))
                return
            out.append('%s=%s(%s)' % (d, ldname(ty), p))
            return
        if op == 'store':
            t.accept('atomic')
            t.accept('volatile')
            ty = parse_type(t)
            v = val(parse_value(t, ty))
            t.expect(',')
            parse_type(t)
            p = val(parse_value(t, PTR))
            if ty[0] in 'SV':
                for i, (o, e) in enumerate(s.parts(ty)):
                    out.append('%s(Ptr(%s.o,%s.f+%d),AGET(%s,%d))' % (stname(e), p, p, o, v, i))
                return
            out.append('%s(%s,%s)' % (stname(ty), p, v))
            return
        if op == 'getelementptr':
            out.append('%s=%s' % (d, s.gep(t)))
            return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.add(t.next())
            ty = parse_type(t)
            a = val(parse_value(t, ty))
            t.expect(',')
            b = val(parse_value(t, ty))
            w = ty[1]
            if w == 1:
                out.append('%s=BOOL%s(%s,%s)' % (d, op, a, b))
                return
            lo = -(1 << (w - 1))
            hi = (1 << (w - 1)) - 1
            if op == 'and' and a == 'UNDEF' and dest and '.insert.mask' in dest:
                out.append('%s=0' % d)      # the part of a coerced struct that is filled in next
                return
            sym = {'add': '+', 'sub': '-', 'mul': '*'}.get(op)
            if sym:
                nsw = 'nsw' in fl
                out.append('%s=%s%s%s' % (d, a, sym, b))
                out.append('if %s.__class__ is not int or not (%d<=%s<=%d): %s=FIXI(%s,%d,%s)' % (d, lo, d, hi, d, d, w, nsw))
            else:
                out.append('%s=I_%s(%s,%s,%d,%s)' % (d, op, a, b, w, 'nsw' in fl))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                t.next()
            ty = parse_type(t)
            a = val(parse_value(t, ty))
            t.expect(',')
            b = val(parse_value(t, ty))
            if op in ('fdiv', 'frem'):
                out.append('%s=%s(%s,%s)' % (d, 'FDIV' if op == 'fdiv' else 'FREM', a, b))
            else:
                out.append('%s=%s%s%s' % (d, a, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], b))
            if ty == F32:
                out.append('%s=RND32(%s)' % (d, d))
            return
        if op == 'fneg':
            while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                t.next()
            ty = parse_type(t)
            out.append('%s=-%s' % (d, val(parse_value(t, ty))))
            return
        if op == 'icmp':
            pred = t.next()
            ty = parse_type(t)
            a = val(parse_value(t, ty))
            t.expect(',')
            b = val(parse_value(t, ty))
            if ty == PTR:
                out.append('%s=PCMP(%r,%s,%s)' % (d, pred, a, b))
            elif ty == I1:
                out.append('%s=ICMPB(%r,%s,%s)' % (d, pred, a, b))
            elif pred in ('ult', 'ule', 'ugt', 'uge'):
                out.append('%s=UCMP(%r,%s,%s,%d)' % (d, pred, a, b, ty[1]))
            elif pred == 'eq':
                out.append('%s=(%s==%s) if %s.__class__ is int and %s.__class__ is int else IEQ(%s,%s)' % (d, a, b, a, b, a, b))
            elif pred == 'ne':
                out.append('%s=(%s!=%s) if %s.__class__ is int and %s.__class__ is int else INE(%s,%s)' % (d, a, b, a, b, a, b))
            else:
                o = {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred]
                out.append('%s=%s%s%s' % (d, a, o, b))
            return
        if op == 'fcmp':
            while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                t.next()
            pred = t.next()
            ty = parse_type(t)
            a = val(parse_value(t, ty))
            t.expect(',')
            b = val(parse_value(t, ty))
            o = {'olt': '<', 'ole': '<=', 'ogt': '>', 'oge': '>='}.get(pred)
            if o:
                out.append('%s=%s%s%s' % (d, a, o, b))
            else:
                out.append('%s=FCMP(%r,%s,%s)' % (d, pred, a, b))
            return
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            fl = ''
            if t.peek() in ('nneg', 'nuw', 'nsw'):
                t.next()
            fty = parse_type(t)
            a = val(parse_value(t, fty))
            if op == 'freeze':
                out.append('%s=%s' % (d, a))
                return
            t.expect('to')
            tty = parse_type(t)
            if op == 'sext':
                if fty == I1:
                    out.append('%s=-ZEXTB(%s)' % (d, a))
                else:
                    out.append('%s=%s' % (d, a))
            elif op == 'zext':
                if fty == I1:
                    out.append('%s=ZEXTB(%s)' % (d, a))
                else:
                    out.append('%s=ZEXT(%s,%d)' % (d, a, fty[1]))
            elif op == 'trunc':
                if tty == I1:
                    out.append('%s=TRUNC1(%s)' % (d, a))
                else:
                    out.append('%s=TRUNC(%s,%d)' % (d, a, tty[1]))
            elif op == 'sitofp':
                out.append('%s=%s(%s)' % (d, 'SITOFP32' if tty == F32 else 'SITOFP', a))
            elif op == 'uitofp':
                out.append('%s=UITOFP(%s,%d,%d)' % (d, a, fty[1], 32 if tty == F32 else 64))
            elif op == 'fptosi':
                out.append('%s=FPTOSI(%s,%d)' % (d, a, tty[1]))
            elif op == 'fptoui':
                out.append('%s=FPTOUI(%s,%d)' % (d, a, tty[1]))
            elif op == 'fpext':
                out.append('%s=%s' % (d, a))
            elif op == 'fptrunc':
                out.append('%s=RND32(%s)' % (d, a))
            elif op == 'ptrtoint':
                out.append('%s=P2I(%s,%d)' % (d, a, tty[1]))
            elif op == 'inttoptr':
                out.append('%s=I2P(%s)' % (d, a))
            else:
                out.append('%s=BITCAST(%s,%r,%r)' % (d, a, fty, tty))
            return
        if op == 'select':
            cty = parse_type(t)
            c = val(parse_value(t, cty))
            t.expect(',')
            ty = parse_type(t)
            a = val(parse_value(t, ty))
            t.expect(',')
            parse_type(t)
            b = val(parse_value(t, ty))
            out.append('%s=%s if (%s if %s.__class__ is bool else BR(%s)) else %s' % (d, a, c, c, c, b))
            return
        if op in ('call', 'tail', 'musttail', 'notail'):
            if op != 'call':
                t.expect('call')
            while t.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                t.next()
            skip_attrs(t)
            rty = parse_type(t)
            if t.peek() == '(':   # function type (varargs)
                dd = 0
                while True:
                    y = t.next()
                    if y == '(':
                        dd += 1
                    elif y == ')':
                        dd -= 1
                        if dd == 0:
                            break
            skip_attrs(t)
            callee = t.next()
            t.expect('(')
            args = []
            skip = False
            while not t.accept(')'):
                ty = parse_type(t)
                skip_attrs(t)
                if ty[0] == 'm':
                    skip = True
                    break
                args.append(val(parse_value(t, ty)))
                t.accept(',')
            if callee.startswith(('@llvm.dbg', '@llvm.lifetime')) or skip:
                return
            if callee[0] == '@':
                e = 'FN[%r](%s)' % (callee, ','.join(args))
            else:
                e = 'ICALL(%s)(%s)' % (s.reg(callee), ','.join(args))
            out.append((d + '=' if d else '') + e)
            return
        if op == 'fence':
            return
        if op in ('extractvalue', 'extractelement'):
            a = val(parse_value(t, parse_type(t)))
            while t.accept(','):
                if op == 'extractelement':
                    a = 'AGET(%s,%s)' % (a, val(parse_value(t, parse_type(t))))
                else:
                    a = 'AGET(%s,%s)' % (a, t.next())
            out.append('%s=%s' % (d, a))
            return
        if op in ('insertvalue', 'insertelement'):
            aty = parse_type(t)
            a = val(parse_value(t, aty))
            t.expect(',')
            v = val(parse_value(t, parse_type(t)))
            t.expect(',')
            i = val(parse_value(t, parse_type(t))) if op == 'insertelement' else t.next()
            if t.accept(','):
                raise SyntaxError('nested aggregate')
            r = s.m.resolve(aty)
            out.append('%s=ASET(%s,%s,%s,%d)' % (d, a, v, i, len(r[1]) if r[0] == 'S' else r[1]))
            return
        raise SyntaxError('unsupported op ' + op)


def ldname(ty):
    k = ty[0]
    if k == 'f':
        return 'LDF'
    if k == 'd':
        return 'LDD'
    if k == 'p':
        return 'LDP'
    if k == 'i':
        return {32: 'LDI', 64: 'LDL', 8: 'LDB', 16: 'LDS', 1: 'LD1'}[ty[1]]
    raise SyntaxError('load type %s' % (ty,))


def stname(ty):
    return 'ST' + ldname(ty)[2:]
