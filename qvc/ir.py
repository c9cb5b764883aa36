"""Parser for textual LLVM IR (clang-18 -S -emit-llvm), types and data layout."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"
 | [%@]"(?:[^"\\]|\\..)*"
 | "(?:[^"\\]|\\..)*"
 | [%@][-a-zA-Z$._0-9]+
 | \$[-a-zA-Z$._0-9]+
 | \#\d+
 | !(?:[-a-zA-Z$._0-9\\]+)?
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | \.\.\.
 | [a-zA-Z_$.][-a-zA-Z$._0-9]*:?
 | [\[\](){}<>=,*|]
''', re.X)

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'fields', 'packed', 'name', '_size', '_align', '_offs')
    def __init__(s, k, w=0, el=None, n=0, fields=None, packed=False, name=None):
        s.k = k; s.w = w; s.el = el; s.n = n; s.fields = fields; s.packed = packed; s.name = name
        s._size = None; s._align = None; s._offs = None
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.w
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'vec': return '<%d x %r>' % (s.n, s.el)
        if s.k == 'struct': return s.name or '{%s}' % ','.join(map(repr, s.fields or []))
        return s.k
    @property
    def align(s):
        if s._align is None: s._lay()
        return s._align
    @property
    def size(s):
        if s._size is None: s._lay()
        return s._size
    @property
    def offs(s):
        if s._offs is None: s._lay()
        return s._offs
    def _lay(s):
        k = s.k
        if k == 'i':
            b = (s.w + 7) // 8
            p = 1
            while p < b: p *= 2
            s._size = p if s.w <= 64 else b
            s._align = min(p, 16)
            if s.w == 128: s._size = 16; s._align = 16
        elif k == 'float': s._size = s._align = 4
        elif k == 'double': s._size = s._align = 8
        elif k == 'fp80': s._size = 16; s._align = 16
        elif k == 'ptr': s._size = s._align = 8
        elif k == 'arr':
            s._size = s.n * s.el.size; s._align = s.el.align
        elif k == 'vec':
            s._size = s.n * s.el.size; s._align = s._size
        elif k == 'struct':
            if s.fields is None: raise Exception('opaque struct %s' % s.name)
            o = 0; al = 1; offs = []
            for f in s.fields:
                a = 1 if s.packed else f.align
                al = max(al, a)
                o = (o + a - 1) // a * a
                offs.append(o); o += f.size
            o = (o + al - 1) // al * al
            s._size = o; s._align = al; s._offs = offs
        elif k in ('void', 'label', 'metadata', 'fn', 'token'):
            s._size = 0; s._align = 1
        else: raise Exception('layout of ' + k)

VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata')
_INT = {}
def INT(w):
    if w not in _INT: _INT[w] = Ty('i', w=w)
    return _INT[w]

# operands
class Reg:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return '%' + s.n
class GRef:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return '@' + s.n
class CInt:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return str(s.v)
class CFP:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'fp' + str(s.v)
class CAgg:
    __slots__ = ('ty', 'els')
    def __init__(s, ty, els): s.ty = ty; s.els = els
    def __repr__(s): return 'agg%r' % (s.els,)
class CZero:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty
    def __repr__(s): return 'zeroinit'
class CStr:
    __slots__ = ('b',)
    def __init__(s, b): s.b = b
class CUndef:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty
    def __repr__(s): return 'undef'
class CNull:
    def __repr__(s): return 'null'
class CExpr:
    __slots__ = ('op', 'args')
    def __init__(s, op, args): s.op = op; s.args = args
    def __repr__(s): return '%s%r' % (s.op, s.args)
class TokenMeta:
    def __repr__(s): return '!meta'

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'line')
    def __init__(s, op, res=None, ty=None, a=None, flags=()):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.flags = flags; s.line = None
    def __repr__(s): return '%s = %s %r %r' % (s.res, s.op, s.ty, s.a)

class Func:
    def __init__(s, name):
        s.name = name; s.params = []; s.retty = None; s.blocks = {}; s.order = []; s.mod = None
        s.body = None; s.loops = None; s.entry = None; s.vararg = False; s.noreturn = False

class Glob:
    def __init__(s, name): s.name = name; s.ty = None; s.init = None; s.const = False; s.ext = False; s.local = False

PARAM_ATTRS = set('''noundef nonnull readonly writeonly readnone nocapture noalias returned zeroext signext immarg inreg
 nofree nest swiftself swifterror noinline writable dead_on_unwind allocptr allocalign tail musttail notail fast nnan ninf nsz arcp contract afn reassoc
 dso_local local_unnamed_addr unnamed_addr internal private linkonce_odr weak_odr weak external hidden protected default linkonce common appending available_externally extern_weak
 comdat thread_local constant global mustprogress ccc fastcc coldcc externally_initialized nuw nsw exact inbounds volatile atomic nneg disjoint inrange'''.split())

BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())

class ParseErr(Exception): pass

class Toks:
    def __init__(s, text):
        s.t = TOK.findall(text); s.i = 0
    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def eat(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1; return True
        return False
    def need(s, x):
        y = s.next()
        if y != x: raise ParseErr('need %s got %s at %s' % (x, y, ' '.join(s.t[max(0, s.i - 10):s.i + 10])))

def unq(n):
    if n.startswith('"'): return n[1:-1]
    return n

class Module:
    def __init__(s, text, name='m'):
        s.name = name
        s.types = {}; s.funcs = {}; s.globs = {}; s.aliases = {}
        s._parse(text)

    # -------- types
    def named(s, n):
        t = s.types.get(n)
        if t is None:
            t = s.types[n] = Ty('struct', name=n)
        return t
    def ty(s, T):
        x = T.next()
        if x == 'void': t = VOID
        elif x == 'ptr': t = PTR
        elif x == 'float': t = FLOAT
        elif x == 'double': t = DOUBLE
        elif x == 'x86_fp80': t = Ty('fp80')
        elif x == 'label': t = LABEL
        elif x == 'metadata': t = META
        elif x == 'token': t = Ty('token')
        elif re.match(r'i\d+$', x): t = INT(int(x[1:]))
        elif x == '[':
            n = int(T.next()); T.need('x'); e = s.ty(T); T.need(']'); t = Ty('arr', el=e, n=n)
        elif x == '<':
            if T.peek() == '{':
                T.next(); f = s.tylist(T, '}'); T.need('>'); t = Ty('struct', fields=f, packed=True)
            else:
                n = int(T.next()); T.need('x'); e = s.ty(T); T.need('>'); t = Ty('vec', el=e, n=n)
        elif x == '{':
            t = Ty('struct', fields=s.tylist(T, '}'))
        elif x[0] == '%': t = s.named(unq(x[1:]))
        else: raise ParseErr('type? %s at %s' % (x, ' '.join(T.t[max(0, T.i - 12):T.i + 12])))
        # function type  T (args)
        while T.peek() == '(' and s._fnty_ok(T):
            T.next()
            depth = 1
            while depth:
                y = T.next()
                if y == '(': depth += 1
                elif y == ')': depth -= 1
            f = Ty('fn'); f.el = t; t = f
        return t
    def _fnty_ok(s, T): return True
    def tylist(s, T, end):
        r = []
        if T.eat(end): return r
        while True:
            r.append(s.ty(T))
            if T.eat(end): return r
            T.need(',')
    # -------- constants / operands
    def skip_attrs(s, T):
        while True:
            x = T.peek()
            if x is None: return
            if x in PARAM_ATTRS: T.next(); continue
            if x in ('align', 'addrspace', 'alignstack', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype', 'allocsize', 'vscale_range', 'memory', 'nofpclass', 'range', 'initializes', 'captures'):
                T.next()
                if T.peek() == '(':
                    d = 0
                    while True:
                        y = T.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
                elif x == 'align': T.next()
                continue
            if x.startswith('#'): T.next(); continue
            return
    def val(s, T, ty):
        x = T.next()
        c = x[0]
        if c == '%': return Reg(unq(x[1:]))
        if c == '@': return GRef(unq(x[1:]))
        if x == 'true': return CInt(1)
        if x == 'false': return CInt(0)
        if x == 'null': return CNull()
        if x in ('undef', 'poison'): return CUndef(ty)
        if x == 'zeroinitializer': return CZero(ty)
        if x == 'none': return CUndef(ty)
        if c == '!':
            return TokenMeta()
        if x[:2] == 'c"':
            b = x[2:-1]
            out = bytearray(); i = 0
            while i < len(b):
                if b[i] == '\\': out.append(int(b[i + 1:i + 3], 16)); i += 3
                else: out.append(ord(b[i])); i += 1
            return CStr(bytes(out))
        if ty is not None and ty.k in ('float', 'double', 'fp80'):
            return CFP(fpconst(x))
        if re.match(r'-?\d+$', x): return CInt(int(x))
        if x == '[' or x == '{':
            end = ']' if x == '[' else '}'
            els = []
            while not T.eat(end):
                if els: T.need(',')
                t = s.ty(T); els.append((t, s.val(T, t)))
            return CAgg(ty, els)
        if x == '<':
            if T.eat('{'):
                els = []
                while not T.eat('}'):
                    if els: T.need(',')
                    t = s.ty(T); els.append((t, s.val(T, t)))
                T.need('>')
                return CAgg(ty, els)
            els = []
            while not T.eat('>'):
                if els: T.need(',')
                t = s.ty(T); els.append((t, s.val(T, t)))
            return CAgg(ty, els)
        if x == 'getelementptr':
            while T.peek() in ('inbounds', 'nuw', 'nusw'): T.next()
            if T.peek() == 'inrange': T.next()
            T.need('(')
            t = s.ty(T); args = []
            while not T.eat(')'):
                T.need(',')
                while T.peek() == 'inrange': T.next()
                at = s.ty(T); args.append((at, s.val(T, at)))
            return CExpr('getelementptr', (t, args))
        if x in CASTS:
            T.need('('); t = s.ty(T); v = s.val(T, t); T.need('to'); t2 = s.ty(T); T.need(')')
            return CExpr(x, (t, v, t2))
        if x in BINOPS or x in ('icmp', 'select'):
            pred = None
            while T.peek() in ('nsw', 'nuw', 'exact'): T.next()
            if x == 'icmp': pred = T.next()
            T.need('('); args = []
            while not T.eat(')'):
                if args: T.need(',')
                at = s.ty(T); args.append((at, s.val(T, at)))
            return CExpr(x, (pred, args))
        if x == 'blockaddress': raise ParseErr('blockaddress')
        if x in ('asm',): raise ParseErr('asm')
        raise ParseErr('value? %s at %s' % (x, ' '.join(T.t[max(0, T.i - 12):T.i + 12])))
    def tv(s, T):
        t = s.ty(T); s.skip_attrs(T)
        return (t, s.val(T, t))

    # -------- module
    def _parse(s, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        fn_texts = []
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                fn_texts.append(lines[i:j + 1])
                i = j + 1; continue
            if l.startswith('%') and ' = type ' in l:
                nm, d = l.split(' = type ', 1)
                nm = unq(nm[1:])
                t = s.named(nm)
                if d.strip() != 'opaque':
                    T = Toks(d)
                    b = s.ty(T)
                    t.k = b.k; t.fields = b.fields; t.packed = b.packed; t.el = b.el; t.n = b.n; t.w = b.w
            elif l.startswith('@'):
                s._global(l)
            elif l.startswith('declare'):
                s._header(l, False)
            i += 1
        for ft in fn_texts:
            f = s._header(ft[0], True)
            f.body = ft
    def _global(s, l):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        nm = unq(m.group(1)); rest = m.group(2)
        T = Toks(rest.replace(', comdat', ' '))
        g = Glob(nm)
        while True:
            x = T.peek()
            if x in ('constant', 'global'):
                T.next(); g.const = (x == 'constant'); break
            if x == 'alias':
                T.next(); s.ty(T); T.need(',')
                at = s.ty(T); s.aliases[nm] = s.val(T, at); return
            if x in ('ifunc',): return
            if x in ('external', 'extern_weak'): g.ext = True
            if x in ('internal', 'private'): g.local = True
            if x == 'thread_local':
                T.next()
                if T.peek() == '(':
                    while T.next() != ')': pass
                continue
            if x == 'comdat':
                T.next()
                if T.peek() == '(':
                    while T.next() != ')': pass
                continue
            T.next()
        g.ty = s.ty(T)
        if not g.ext:
            g.init = s.val(T, g.ty)
        s.globs[nm] = g
    def _header(s, l, isdef):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
        nm = unq(m.group(1))
        f = Func(nm); f.mod = s
        f.linkinternal = ' internal ' in l or ' private ' in l
        T = Toks(l[:m.start()][len('define' if isdef else 'declare'):])
        s.skip_attrs(T)
        f.retty = s.ty(T)
        T = Toks(l[m.end() - 1:])
        T.need('(')
        ps = []
        k = 0
        while not T.eat(')'):
            if ps or f.vararg: T.need(',')
            if T.eat('...'):
                f.vararg = True; continue
            t = s.ty(T); s.skip_attrs(T)
            x = T.peek()
            if x and x[0] == '%': T.next(); pn = unq(x[1:])
            else: pn = str(k)
            ps.append((t, pn)); k += 1
        f.params = ps
        if isdef or nm not in s.funcs: s.funcs[nm] = f
        return f

    def parse_body(s, f):
        if f.order: return
        lines = f.body[1:-1]
        # join continuation lines
        stm = []
        for l in lines:
            if not l.strip(): continue
            if l[0] != ' ':
                stm.append(l); continue
            st = l.strip()
            if l.startswith('    ') or st == ']':
                stm[-1] += ' ' + st
            else: stm.append(l)
        cur = None
        f.entry = None
        nparam = len(f.params)
        for l in stm:
            if l[0] != ' ':
                m = re.match(r'("(?:[^"])*"|[-a-zA-Z$._0-9]+):', l)
                cur = unq(m.group(1))
                f.blocks[cur] = []; f.order.append(cur)
                if f.entry is None: f.entry = cur
                continue
            if cur is None:
                # unnamed entry block gets the next number
                cur = str(sum(1 for _, n in f.params if n.isdigit()))
                f.blocks[cur] = []; f.order.append(cur); f.entry = cur
            try:
                ins = s.inst(l)
            except ParseErr as e:
                ins = Inst('unparsed', None, None, str(e))
            if ins is not None:
                ins.line = l.strip()
                f.blocks[cur].append(ins)
        f.body = None

    def inst(s, l):
        T = Toks(l)
        res = None
        if T.peek(1) == '=':
            res = unq(T.next()[1:]); T.next()
        op = T.next()
        if op in ('tail', 'musttail', 'notail'): op = T.next()
        if op in BINOPS:
            fl = []
            while T.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): fl.append(T.next())
            t = s.ty(T); a = s.val(T, t); T.need(','); b = s.val(T, t)
            return Inst(op, res, t, (a, b), tuple(fl))
        if op == 'fneg':
            while T.peek() in PARAM_ATTRS: T.next()
            t = s.ty(T); return Inst(op, res, t, (s.val(T, t),))
        if op in CASTS:
            fl = []
            while T.peek() in ('nneg', 'nsw', 'nuw'): fl.append(T.next())
            t = s.ty(T); v = s.val(T, t); T.need('to'); t2 = s.ty(T)
            return Inst(op, res, t2, (v, t), tuple(fl))
        if op in ('icmp', 'fcmp'):
            while T.peek() in PARAM_ATTRS: T.next()
            p = T.next(); t = s.ty(T); a = s.val(T, t); T.need(','); b = s.val(T, t)
            return Inst(op, res, t, (p, a, b))
        if op == 'load':
            while T.peek() in ('volatile', 'atomic'): T.next()
            t = s.ty(T); T.need(','); pt, p = s.tv(T)
            return Inst(op, res, t, (p,))
        if op == 'store':
            while T.peek() in ('volatile', 'atomic'): T.next()
            t, v = s.tv(T); T.need(','); pt, p = s.tv(T)
            return Inst(op, None, t, (v, p))
        if op == 'getelementptr':
            inb = False
            while T.peek() in ('inbounds', 'nuw', 'nusw'): T.next(); inb = True
            t = s.ty(T); args = []
            while T.eat(','):
                if T.peek() and T.peek()[0] == '!': break
                args.append(s.tv(T))
            return Inst(op, res, t, args, ('inbounds',) if inb else ())
        if op == 'alloca':
            t = s.ty(T); cnt = None
            while T.eat(','):
                if T.peek() == 'align': T.next(); T.next()
                elif T.peek() and T.peek()[0] == '!': break
                else: cnt = s.tv(T)
            return Inst(op, res, t, (cnt,))
        if op == 'br':
            if T.eat('label'):
                return Inst('br', None, None, (unq(T.next()[1:]),))
            t = s.ty(T); c = s.val(T, t); T.need(','); T.need('label'); a = unq(T.next()[1:]); T.need(','); T.need('label'); b = unq(T.next()[1:])
            return Inst('condbr', None, None, (c, a, b))
        if op == 'switch':
            t = s.ty(T); v = s.val(T, t); T.need(','); T.need('label'); d = unq(T.next()[1:])
            T.need('['); cs = []
            while not T.eat(']'):
                ct = s.ty(T); cv = s.val(T, ct); T.need(','); T.need('label'); cs.append((cv.v, unq(T.next()[1:])))
            return Inst('switch', None, t, (v, d, cs))
        if op == 'ret':
            t = s.ty(T)
            if t.k == 'void': return Inst('ret', None, t, (None,))
            return Inst('ret', None, t, (s.val(T, t),))
        if op == 'phi':
            while T.peek() in PARAM_ATTRS: T.next()
            t = s.ty(T); inc = {}
            while True:
                T.need('['); v = s.val(T, t); T.need(','); b = unq(T.next()[1:]); T.need(']')
                inc[b] = v
                if not T.eat(','): break
                if T.peek() != '[': break
            return Inst('phi', res, t, inc)
        if op == 'select':
            while T.peek() in PARAM_ATTRS: T.next()
            ct = s.ty(T); c = s.val(T, ct); T.need(','); t = s.ty(T); a = s.val(T, t); T.need(','); s.ty(T); b = s.val(T, t)
            return Inst('select', res, t, (c, a, b), (ct,))
        if op in ('call', 'invoke'):
            s.skip_attrs(T)
            t = s.ty(T)
            if t.k == 'fn': t = t.el
            s.skip_attrs(T)
            if T.peek() == 'asm':
                raise ParseErr('inline asm')
            callee = s.val(T, PTR)
            T.need('('); args = []
            while not T.eat(')'):
                if args: T.need(',')
                at = s.ty(T)
                if at.k == 'metadata':
                    d = 0
                    while True:
                        y = T.peek()
                        if d == 0 and y in (',', ')'): break
                        if y == '(' : d += 1
                        if y == ')' : d -= 1
                        T.next()
                    args.append((at, TokenMeta())); continue
                s.skip_attrs(T)
                args.append((at, s.val(T, at)))
            if op == 'call':
                return Inst('call', res, t, (callee, args))
            while T.peek() != 'to': T.next()
            T.next(); T.need('label'); n = unq(T.next()[1:]); T.need('unwind'); T.need('label'); u = unq(T.next()[1:])
            return Inst('invoke', res, t, (callee, args, n, u))
        if op == 'extractvalue':
            t, v = s.tv(T); idx = []
            while T.eat(','):
                if T.peek()[0] == '!': break
                idx.append(int(T.next()))
            return Inst(op, res, t, (v, idx))
        if op == 'insertvalue':
            t, v = s.tv(T); T.need(','); et, e = s.tv(T); idx = []
            while T.eat(','):
                if T.peek()[0] == '!': break
                idx.append(int(T.next()))
            return Inst(op, res, t, (v, e, idx))
        if op == 'extractelement':
            t, v = s.tv(T); T.need(','); _, i = s.tv(T)
            return Inst(op, res, t, (v, i))
        if op == 'insertelement':
            t, v = s.tv(T); T.need(','); et, e = s.tv(T); T.need(','); _, i = s.tv(T)
            return Inst(op, res, t, (v, e, i))
        if op == 'shufflevector':
            t, v = s.tv(T); T.need(','); _, w = s.tv(T); T.need(','); mt, m = s.tv(T)
            return Inst(op, res, t, (v, w, m, mt))
        if op == 'freeze':
            t, v = s.tv(T)
            return Inst(op, res, t, (v,))
        if op == 'landingpad': return Inst('landingpad', res, None, ())
        if op == 'resume': return Inst('resume', None, None, ())
        if op == 'unreachable': return Inst('unreachable', None, None, ())
        if op in ('fence',): return None
        if op in ('cmpxchg', 'atomicrmw', 'va_arg'): return Inst('unparsed', res, None, op)
        raise ParseErr('op ' + op)

def fpconst(x):
    if x.startswith('0xK'):
        h = int(x[3:], 16)
        s = (h >> 79) & 1; e = (h >> 64) & 0x7fff; m = h & ((1 << 64) - 1)
        if e == 0x7fff: return float('inf')
        v = Fraction(m, 1 << 63) * (Fraction(2) ** (e - 16383)) if m else 0
        v = -v if s else v
        return v.numerator if isinstance(v, Fraction) and v.denominator == 1 else v
    if x.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
    else: d = float(x)
    if d != d or d in (float('inf'), float('-inf')): return d
    f = Fraction(d)
    return f.numerator if f.denominator == 1 else f

# ---------------------------------------------------------------- CFG analysis
def succs(ins):
    op = ins.op
    if op == 'br': return [ins.a[0]]
    if op == 'condbr': return [ins.a[1], ins.a[2]]
    if op == 'switch': return [ins.a[1]] + [b for _, b in ins.a[2]]
    if op == 'invoke': return [ins.a[2]]       # unwind edges are not followed
    return []

class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'parent')

def find_loops(f):
    """natural loops {header: Loop}"""
    if f.loops is not None: return f.loops
    succ = {}
    for b in f.order:
        ins = f.blocks[b]
        succ[b] = succs(ins[-1]) if ins else []
    # reachable, RPO
    seen = set(); post = []
    st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for n in it:
            if n not in seen:
                seen.add(n); st.append((n, iter(succ[n]))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for n in succ[b]: pred[n].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = None
            for p in pred[b]:
                if p in idom:
                    if nd is None: nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        nd = x
            if idom.get(b) != nd:
                idom[b] = nd; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for n in succ[b]:
            if num[n] <= num[b]:
                if not dom(n, b):
                    f.irreducible = True; continue
                L = loops.get(n)
                if L is None:
                    L = loops[n] = Loop(); L.header = n; L.blocks = {n}; L.latches = []; L.parent = None
                L.latches.append(b)
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); wl.extend(pred[x])
    f.loops = loops
    return loops
