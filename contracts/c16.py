from qvc.reg import unit, contract
META = dict(assumptions=['at most 2^40 bytes', 'std::istream/ostream/FILE are taken by contract: a byte array and a position, no failure and no short transfer', 'QDPUtil::crc32 is taken by its C17 contract (the k-th call is given the result of the call before and exactly the recorded bytes)', 'lattice fields: the layout is a bijection of the lexicographic numbers (C01); the readers and writers append or take the next elements (decided in the same check)', 'multi3d to multi5d write, multi4d and multi5d read, list, map, pair and multiNd are bounded (native runs), as listed'])
U = unit('byteswap', '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_byteorder.cc'))
U.text = '''#include "h.h"
#include "qdp_byteorder.cc"
H h_swap(void* p, size_t s, size_t n) { QDPUtil::byte_swap(p, s, n); }
H h_swap2(void* p, size_t s, size_t n) { QDPUtil::byte_swap(p, s, n); QDPUtil::byte_swap(p, s, n); }
H h_end(int* r) { *r = QDPUtil::big_endian(); }
'''
CAP = 1 << 31
BIG = 1 << 40
def bytes_(env, name, n):
    return env.array(name, 'i8', n, pick=lambda r: [r.randint(-128, 127) for _ in range(n)])
for s in (1, 2, 4, 8, 16):
    def mk(s):
        @contract('C16', U, 'byte_swap of %d-byte elements' % s)
        def _(env):
            n = env.int('n', 0, BIG, pick=lambda r: r.randint(0, 20)); b = bytes_(env, 'b', n * s); env.modifies(b)
            def post(res):
                for k in range(s): env.forall('j', 0, n, lambda j: env.eq('byte %d' % k, b.at(j * s + k), b.old(j * s + s - 1 - k)))
            env.run('h_swap', [b, s, n], post)
        @contract('C16', U, 'byte_swap twice, %d-byte elements' % s)
        def _(env):
            n = env.int('n', 0, BIG, pick=lambda r: r.randint(0, 20)); b = bytes_(env, 'b', n * s); env.modifies(b)
            def post(res):
                for k in range(s): env.forall('j', 0, n, lambda j: env.eq('byte %d' % k, b.at(j * s + k), b.old(j * s + k)))
            env.run('h_swap2', [b, s, n], post)
    mk(s)
# ---------------------------------------------------------------------------------- primitives over a byte stream
TY = [('char', 1), ('int', 4), ('unsigned int', 4), ('short int', 2), ('unsigned short int', 2), ('long int', 8), ('unsigned long int', 8), ('long long int', 8), ('float', 4), ('double', 8), ('bool', 1)]
IO = unit('io', ['$GEN', '$REPO/lib/qdp_io.cc', '$REPO/lib/qdp_byteorder.cc', '$REPO/lib/qdp_scalar_layout.cc', '$V/harness/iostub.cc'], natlibs='ALL', omit=('qdp_strnlen.cc',))
src = ['#include "io.h"']
def ident(t): return t.replace(' ', '_')
IO.text = ''
def add(name, args, body):
    src.append('H %s(IOARGS, %s) { IO_BEGIN { %s } IO_END }' % (name, args, body))
class Stream:
    """n bytes move; the checksum starts from an arbitrary value"""
    def __init__(s, env, nout, nin, calls, *mod, pickin=None):
        s.env = env; s.nout = nout; s.nin = nin
        cap = 1 << 40
        pos = lambda nm: env.int(nm, 0, cap, pick=lambda r: r.randint(0, 9))
        s.op = pos('op'); s.ip = pos('ip')
        s.out = bytes_(env, 'out', s.op + nout); s.inp = env.array('in', 'i8', s.ip + nin, pick=lambda r: [r.randint(-128, 127) for _ in range(s.ip)] + (pickin(r) if pickin else [r.randint(-128, 127) for _ in range(nin)]))
        s.cb = bytes_(env, 'crcbuf', nout + nin); s.tok = env.array('tok', 'i32', calls + 1)
        s.st = env.array('st', 'i64', 8, init=[s.op, s.ip, 0, 0, 0, 0, 0, 0])
        s.args = [s.out, s.inp, s.cb, s.tok, s.st]
        env.modifies(s.out, s.cb, s.st, *mod, globals_ok=('qio',))
    def done(s, wire, n, calls, summed=True, step=1):
        """wire(i): the byte at position i of the n (step times a count) that moved; calls of crc32"""
        env = s.env
        env.eq('position', s.st.at(0), s.op + s.nout); env.eq('read position', s.st.at(1), s.ip + s.nin)
        if not env.sym:
            import zlib
            w = bytes(wire(i) & 255 for i in range(n)) if summed else b''
            env.eq('checksum', s.st.at(5) & 0xffffffff, zlib.crc32(w, s.tok.old(0) & 0xffffffff)); return
        env.eq('checksum calls', s.st.at(3), calls); env.eq('checksum chain', s.st.at(4), 0)
        env.eq('checksum', env.mod(s.st.at(5) - s.tok.at(calls), 1 << 32), 0)
        env.eq('checksum length', s.st.at(2), n if summed else 0)
        if not summed: return
        for k in range(step): env.forall('i', 0, n if step == 1 else env.div(n, step), lambda i: env.eq('byte summed', s.cb.at(i * step + k), wire(i * step + k)))
def prim(t, sz, form, code):
    f = 'h_w_%s_%s' % (ident(t), form)
    add(f, 'const char* src', 'TW w(ck, os); const %s& x = *(const %s*)src; %s' % (t, t, code))
    @contract('C16', IO, 'write %s, %s' % (t, form))
    def _(env):
        b = env.array('src', 'i8', sz, lo=0 if t == 'bool' else None, hi=1 if t == 'bool' else None); S = Stream(env, sz, 0, 1)
        def post(res):
            for k in range(sz): env.eq('byte %d' % k, S.out.at(S.op + k), b.old(sz - 1 - k))
            S.done(lambda i: S.out.at(S.op + i), sz, 1)
        env.run(f, S.args + [b], post)
for t, s in TY:
    prim(t, s, 'member', 'w.write(x);'); prim(t, s, 'function', 'write(w, x);')
    prim(t, s, 'operator', 'w << x;')
def rprim(t, sz, form, code):
    f = 'h_r_%s_%s' % (ident(t), form)
    add(f, 'char* dst', 'TR r(ck, is); %s& x = *(%s*)dst; %s' % (t, t, code))
    @contract('C16', IO, 'read %s, %s' % (t, form))
    def _(env):
        b = env.array('dst', 'i8', sz); S = Stream(env, 0, sz, 1, b)
        if t == 'bool': env.assume(env.and_(env.ge(S.inp.old(S.ip), 0), env.le(S.inp.old(S.ip), 1)))
        def post(res):
            for k in range(sz): env.eq('byte %d' % k, b.at(k), S.inp.old(S.ip + sz - 1 - k))
            S.done(lambda i: S.inp.old(S.ip + i), sz, 1)
        env.run(f, S.args + [b], post)
for t, s in TY:
    rprim(t, s, 'member', 'r.read(x);'); rprim(t, s, 'function', 'read(r, x);'); rprim(t, s, 'operator', 'r >> x;')
# arrays of elements of one size
cnt = lambda r: r.randint(0, 20)
add('h_wa', 'const char* p, size_t s, size_t n', 'TW w(ck, os); w.writeArray(p, s, n);')
add('h_wap', 'const char* p, size_t s, size_t n', 'TW w(ck, os); w.writeArrayPrimaryNode(p, s, n);')
add('h_ra', 'char* p, size_t s, size_t n', 'TR r(ck, is); r.readArray(p, s, n);')
add('h_rap', 'char* p, size_t s, size_t n', 'TR r(ck, is); r.readArrayPrimaryNode(p, s, n);')
add('h_ral', 'char* p, size_t s, size_t n', 'TR r(ck, is); r.readArrayLittleEndian(p, s, n);')
add('h_rapl', 'char* p, size_t s, size_t n', 'TR r(ck, is); r.readArrayPrimaryNodeLittleEndian(p, s, n);')
add('h_fw', 'char* p, size_t s, size_t n, size_t* k', 'FOUT(f) *k = QDPUtil::bfwrite(p, s, n, f); FDONE(f)')
add('h_fr', 'char* p, size_t s, size_t n, size_t* k', 'FIN(f) *k = QDPUtil::bfread(p, s, n, f); FDONE(f)')
def arr(s, f, what, calls=1, k=False):
    @contract('C16', IO, '%s, %d-byte elements' % (what, s))
    def _(env):
        n = env.int('n', 0, BIG, pick=cnt); rd = 'r' in f[2:]; fl = f.endswith('l')
        b = bytes_(env, 'b', n * s); kk = [env.array('k', 'i64', 1)] if k else []
        S = Stream(env, 0 if rd else n * s, n * s if rd else 0, calls, b, *kk)
        def post(res):
            for q in range(s):
                r = q if fl else s - 1 - q
                if rd: env.forall('j', 0, n, lambda j: env.eq('byte %d' % q, b.at(j * s + q), S.inp.old(S.ip + j * s + r)))
                else:
                    env.forall('j', 0, n, lambda j: env.eq('byte %d' % q, S.out.at(S.op + j * s + q), b.old(j * s + r)))
                    env.forall('j', 0, n, lambda j: env.eq('source byte %d' % q, b.at(j * s + q), b.old(j * s + q)))
            if k: env.eq('elements moved', kk[0].at(0), n)
            S.done((lambda i: S.inp.old(S.ip + i)) if rd else (lambda i: S.out.at(S.op + i)), n * s, calls, calls > 0, s)
        env.run(f, S.args + [b, s, n] + kk, post)
for s in (1, 2, 4, 8, 16):
    arr(s, 'h_wa', 'writeArray'); arr(s, 'h_wap', 'writeArrayPrimaryNode'); arr(s, 'h_ra', 'readArray'); arr(s, 'h_rap', 'readArrayPrimaryNode')
    arr(s, 'h_ral', 'readArrayLittleEndian', 0); arr(s, 'h_rapl', 'readArrayPrimaryNodeLittleEndian', 0)
    arr(s, 'h_fw', 'bfwrite', 0, True); arr(s, 'h_fr', 'bfread', 0, True)
# complex
for t, s in (('float', 4), ('double', 8)):
    def mk(t, s):
        add('h_wc' + t, 'const char* p', 'TW w(ck, os); write(w, *(const std::complex<%s>*)p);' % t); add('h_rc' + t, 'char* p', 'TR r(ck, is); read(r, *(std::complex<%s>*)p);' % t)
        @contract('C16', IO, 'write complex<%s>' % t)
        def _(env):
            b = bytes_(env, 'b', 2 * s); S = Stream(env, 2 * s, 0, 2)
            def post(res):
                for k in range(2 * s): env.eq('byte', S.out.at(S.op + k), b.old(k // s * s + s - 1 - k % s))
                S.done(lambda i: S.out.at(S.op + i), 2 * s, 2)
            env.run('h_wc' + t, S.args + [b], post)
        @contract('C16', IO, 'read complex<%s>' % t)
        def _(env):
            b = bytes_(env, 'b', 2 * s); S = Stream(env, 0, 2 * s, 2, b)
            def post(res):
                for k in range(2 * s): env.eq('byte', b.at(k), S.inp.old(S.ip + k // s * s + s - 1 - k % s))
                S.done(lambda i: S.inp.old(S.ip + i), 2 * s, 2)
            env.run('h_rc' + t, S.args + [b], post)
    mk(t, s)
# strings
def chars(env, nm, n): return env.array(nm, 'i8', n, lo=1, hi=127, pick=lambda r: [r.randint(32, 126) for _ in range(n)])
for nm, code in (('member', 'w.write(x);'), ('function', 'write(w, x);'), ('operator', 'w << x;')):
    def mk(nm, code):
        add('h_ws' + nm, 'const char* p, size_t n', 'TW w(ck, os); STRING(x, p, n) ' + code)
        @contract('C16', IO, 'write string, ' + nm)
        def _(env):
            n = env.int('n', 0, CAP, pick=cnt); b = chars(env, 'b', n); S = Stream(env, n + 1, 0, 2)
            def post(res):
                env.forall('i', 0, n, lambda i: env.eq('character', S.out.at(S.op + i), b.old(i))); env.eq('line end', S.out.at(S.op + n), 10)
                S.done(lambda i: S.out.at(S.op + i), n + 1, 2)
            env.run('h_ws' + nm, S.args + [b, n], post)
    mk(nm, code)
for nm, code, rcode in (('member', 'w.writeDesc(x);', 'r.readDesc(x);'), ('function', 'writeDesc(w, x);', 'readDesc(r, x);')):
    def mk(nm, code, rcode):
        add('h_wd' + nm, 'const char* p, size_t n', 'TW w(ck, os); STRING(x, p, n) ' + code)
        @contract('C16', IO, 'writeDesc, ' + nm)
        def _(env):
            n = env.int('n', 0, CAP - 1, pick=cnt); b = bytes_(env, 'b', n); S = Stream(env, n + 4, 0, 2)
            def post(res):
                u = lambda k: env.mod(S.out.at(S.op + k), 256)
                env.eq('length', ((u(0) * 256 + u(1)) * 256 + u(2)) * 256 + u(3), n)
                env.forall('i', 0, n, lambda i: env.eq('character', S.out.at(S.op + 4 + i), b.old(i)))
                S.done(lambda i: S.out.at(S.op + i), n + 4, 2)
            env.run('h_wd' + nm, S.args + [b, n], post)
        add('h_rd' + nm, 'char* q, long* qn', 'TR r(ck, is); STRIN(x, q) %s STROUT(x, q, qn)' % rcode)
        @contract('C16', IO, 'readDesc, ' + nm)
        def _(env):
            n = env.int('n', 0, CAP - 1, pick=cnt); q = bytes_(env, 'q', n); qn = env.array('qn', 'i64', 1); S = Stream(env, 0, n + 4, 2, q, qn, pickin=lambda r: [0, 0, 0, n] + [r.randint(-128, 127) for _ in range(n)])
            if env.sym:
                u = lambda k: env.mod(S.inp.old(S.ip + k), 256)
                env.assume(env.eqc(((u(0) * 256 + u(1)) * 256 + u(2)) * 256 + u(3), n))
            def post(res):
                env.eq('length', qn.at(0), n); env.forall('i', 0, n, lambda i: env.eq('character', q.at(i), S.inp.old(S.ip + 4 + i)))
                S.done(lambda i: S.inp.old(S.ip + i), n + 4, 2)
            env.run('h_rd' + nm, S.args + [q, qn], post)
    mk(nm, code, rcode)

for nm, rcode in (('member', 'r.read(x, m);'), ('function', 'read(r, x, m);')):
    def mk(nm, rcode):
        add('h_rs' + nm, 'size_t m, long l, char* q, long* qn', 'TR r(ck, is); LINE(l) STRIN(x, q) %s STROUT(x, q, qn)' % rcode)
        @contract('C16', IO, 'read string, ' + nm)
        def _(env):
            l = env.int('l', 0, CAP - 1, pick=cnt); m = env.int('m', l + 1, CAP, pick=lambda r: l + r.randint(1, 9))
            q = bytes_(env, 'q', l); qn = env.array('qn', 'i64', 1); S = Stream(env, 0, l + 1, 2, q, qn, pickin=lambda r: [r.randint(32, 126) for _ in range(l)] + [10])
            if env.sym: env.elem_axiom(S.inp, lambda i, v: env.or_(env.nec(i, S.ip + l), env.eqc(v, 10)))
            def post(res):
                env.eq('length', qn.at(0), l); env.forall('i', 0, l, lambda i: env.eq('character', q.at(i), S.inp.old(S.ip + i)))
                S.done(lambda i: S.inp.old(S.ip + i), l + 1, 2)
            env.run('h_rs' + nm, S.args + [m, l, q, qn], post)
    mk(nm, rcode)
# ---------------------------------------------------------------------------------- positions and resets: the checksum starts again from 0
SEEK = [('seek', 'x.seek(std::streampos(off));', -1, 1), ('seekBegin', 'x.seekBegin(off);', 0, 1), ('seekRelative', 'x.seekRelative(off);', 1, 1), ('seekEnd', 'x.seekEnd(off);', 2, -1), ('rewind', 'x.rewind();', 0, 0)]
for cls, obj, wr in (('BinaryReader', 'TR x(ck, is);', 0), ('BinaryWriter', 'TW x(ck, os);', 1), ('BinaryReaderWriter', 'TRW x(ck, ios);', 0)):
    for nm, code, d, sg in SEEK:
        def mk(cls, obj, wr, nm, code, d, sg):
            f = 'h_%s_%s' % (cls, nm); add(f, 'long off', obj + code)
            @contract('C16', IO, '%s::%s' % (cls, nm))
            def _(env):
                off = env.int('off', -CAP if d == 1 else 0, CAP, pick=lambda r: r.randint(0, 50)); S = Stream(env, 0, 0, 0)
                def post(res):
                    env.eq('checksum', S.st.at(5), 0); env.eq('offset', S.st.at(6), off * sg); env.eq('direction', S.st.at(7), d if not wr else -101 if d < 0 else 100 + d)
                env.run(f, S.args + [off], post)
        mk(cls, obj, wr, nm, code, d, sg)
    def mk(cls, obj):
        f = 'h_%s_reset' % cls; add(f, 'unsigned* g', obj + 'g[0] = x.getChecksum(); g[1] = ck; x.resetChecksum();')
        @contract('C16', IO, '%s: getChecksum, resetChecksum' % cls)
        def _(env):
            g = env.array('g', 'i32', 2); S = Stream(env, 0, 0, 0, g)
            def post(res):
                env.eq('reported', g.at(0), S.tok.old(0)); env.eq('unchanged', g.at(1), S.tok.old(0)); env.eq('reset', S.st.at(5), 0)
                env.eq('position', S.st.at(0), S.op); env.eq('read position', S.st.at(1), S.ip)
            env.run(f, S.args + [g], post)
    mk(cls, obj)
IO.text = '\n'.join(src) + '\n'
# ---------------------------------------------------------------------------------- the classes: opening, clearing and constructing
CL = unit('ioclass', ['$GEN', '$REPO/lib/qdp_io.cc', '$REPO/lib/qdp_byteorder.cc', '$REPO/lib/qdp_scalar_layout.cc', '$V/harness/iostub.cc'], natlibs='ALL', omit=('qdp_strnlen.cc',), flags=('-fno-inline',))
csrc = ['''#include "io.h"
#ifdef QVC_IR
namespace QDP { bool QDP_isInitialized() { return true; } }
#define START
#define VPTR(f) *(long**)&f = qio_vt + 3;
extern "C" long qio_vt[3];
#else
#define VPTR(f)
static void START_() { static bool done = false; if (!done) { done = true; int c = 1; char* v[] = {(char*)"x", 0}; char** a = v; QDP_initialize(&c, &a); } }
#define START START_();
#endif
''']
S1 = 's1'; S2 = 's2'; FL = 'fl'
CLS = [('BinaryBufferReader', '', S1, S2), ('BinaryBufferWriter', '', S1, S2), ('BinaryBufferReaderWriter', '', S1, S2),
       ('BinaryFileReader', '', FL, FL), ('BinaryFileWriter', '', FL, FL), ('BinaryFileReaderWriter', '', FL + ', std::ios_base::in', FL + ', std::ios_base::in')]
for c, a0, a1, a2 in CLS:
    ops = [('constructed empty', 'new (raw) %s();' % c), ('constructed open', 'new (raw) %s(%s);' % (c, a1)), ('opened', 'new (raw) %s(); x->checksum = tok[0]; x->open(%s);' % (c, a2))]
    if 'Buffer' in c: ops.append(('cleared', 'new (raw) %s(); x->checksum = tok[0]; VPTR(x->f) x->clear();' % c)); ops.append(('opened again', 'new (raw) %s(%s); x->checksum = tok[0]; x->open(%s);' % (c, a1, a2)))
    for i, (nm, code) in enumerate(ops):
        def mk(c, nm, code, i):
            f = 'h_%s_%d' % (c, i)
            csrc.append('H %s(char* raw, const unsigned* tok, unsigned* g) { START STRING(s1, "ab", 2) STRING(s2, "cd", 2) STRING(fl, "/dev/null", 9) %s* x = (%s*)raw; %s g[0] = x->checksum; if (&x->internalChecksum() != &x->checksum) g[0] = 1;\n#ifndef QVC_IR\nx->~%s();\n#endif\n}' % (f, c, c, code, c))
            @contract('C16', CL, '%s: checksum is 0 when %s' % (c, nm))
            def _(env):
                raw = env.array('raw', 'i8', 2048, init='sym' if not env.sym else 'uninit'); tok = env.array('tok', 'i32', 1); g = env.array('g', 'i32', 1); env.modifies(g, raw, globals_ok=('qio', '_ZN3QDP', '3QDP'))
                env.run(f, [raw, tok, g], lambda res: env.eq('checksum', g.at(0), 0))
        mk(c, nm, code, i)
CL.text = '\n'.join(csrc) + '\n'
from qvc.exec import Undecided
# ---------------------------------------------------------------------------------- containers and fields: which elements move, in which order, with which element size
# The readers and writers are taken by their contract here: writeArray appends the elements, readArray takes the next ones (byte order and checksum are decided above).
CT = unit('iocont', '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc',))
tsrc = ['''#include "h.h"
struct LW : BinaryWriter { char* b; long pos; size_t es; int bad; LW(char* p, size_t e) : b(p), pos(0), es(e), bad(0) {} ~LW() {}
  void writeArray(const char* p, size_t s, size_t n) { if (s != es) bad = 1; memcpy(b + pos, p, s * n); pos += s * n; }
  void writeArrayPrimaryNode(const char* p, size_t s, size_t n) { LW::writeArray(p, s, n); }
  void write(const int& x) { LW::writeArray((const char*)&x, sizeof(x), 1); }
  void flush() {} unsigned& internalChecksum() { return *(unsigned*)b; } std::ostream& getOstream() { return *(std::ostream*)b; } };
struct LR : BinaryReader { const char* b; long pos; size_t es; int bad; LR(const char* p, size_t e) : b(p), pos(0), es(e), bad(0) {} ~LR() {}
  void readArray(char* p, size_t s, size_t n) { if (s != es) bad = 1; memcpy(p, b + pos, s * n); pos += s * n; }
  void readArrayPrimaryNode(char* p, size_t s, size_t n) { LR::readArray(p, s, n); }
  void read(int& x) { LR::readArray((char*)&x, sizeof(x), 1); }
  unsigned& internalChecksum() { return *(unsigned*)&bad; } std::istream& getIstream() { return *(std::istream*)b; } };
#ifdef QVC_IR
namespace QDP { BinaryWriter::BinaryWriter() {} void write(BinaryWriter& b, int x) { b.write(x); } void read(BinaryReader& b, int& x) { b.read(x); } }
#endif
#define WEND st[0] = w.pos; st[1] = w.bad;
#define REND st[0] = r.pos; st[1] = r.bad;
''']
def tadd(f, args, body): tsrc.append('H %s(%s) { %s }' % (f, args, body))
I = lambda env, nm, n, **k: env.array(nm, 'i32', n, **k)
def dims(env, d, cap=1 << 10):
    return [env.int('n%d' % (i + 1), 0, cap, pick=lambda r: r.randint(0, 4)) for i in range(d)]
def prod(l):
    r = 1
    for x in l: r = r * x
    return r
MT = {1: 'multi1d<int> d((int*)p, n1);', }
for d in range(1, 6):
    def mk(d):
        ns = ['n%d' % (i + 1) for i in range(d)]; dec = ', '.join('int ' + x for x in ns)
        big = ', '.join(reversed(ns))                                    # constructor: slowest first
        tadd('h_cw%d' % d, 'char* b, long* st, const int* p, ' + dec, 'LW w(b, 4); multi%dd<int> d((int*)p, %s); write(w, d); WEND' % (d, big))
        tadd('h_cr%d' % d, 'const char* b, long* st, int* q, int* sz, ' + ', '.join('int i%d' % (i + 1) for i in range(d)), 'LR r(b, 4); multi%dd<int> d; read(r, d); REND %s if (i1 >= 0) q[0] = d%s;' % (
            d, ' '.join('sz[%d] = %s;' % (i, 'd.size()' if d == 1 else 'd.size%d()' % (i + 1)) for i in range(d)), ''.join('[i%d]' % (i + 1) for i in reversed(range(d)))))
        def where(n, ix):
            # memory: ix[0] fastest; stream: ix[0] slowest
            m = 0; s = 0
            for a, x in reversed(list(zip(n, ix))): m = m * a + x
            for a, x in zip(n, ix): s = s * a + x
            return m, s
        def each(env, n, f):
            def go(k, ix):
                if k == d: f(ix); return
                env.forall('i%d' % (k + 1), 0, n[k], lambda i: go(k + 1, ix + [i]))
            go(0, [])
        @contract('C16', CT, 'write multi%dd' % d, **(dict(bounded_ok=True, timeout=20) if d > 2 else {}))
        def _(env):
            n = dims(env, d); b = I(env, 'b', prod(n) + d); st = env.array('st', 'i64', 2); p = I(env, 'p', prod(n)); env.modifies(b, st)
            def post(res):
                env.eq('bytes', st.at(0), 4 * (prod(n) + d)); env.eq('element size', st.at(1), 0)
                for k in range(d): env.eq('size %d' % k, b.at(k), n[d - 1 - k])
                def f(ix):
                    m, s = where(n, ix); env.eq('element', b.at(d + s), p.old(m))
                each(env, n, f)
            env.run('h_cw%d' % d, [b, st, p] + n, post)
        @contract('C16', CT, 'read multi%dd' % d, **(dict(bounded_ok=True, timeout=20) if d > 3 else {}))
        def _(env):
            n = dims(env, d); b = I(env, 'b', prod(n) + d, pick=lambda r: list(reversed(n)) + [r.randint(-99, 99) for _ in range(prod(n))],
                  **(dict(fn=lambda off, kind, nb: n[d - 1 - off // 4] if type(off) is int and off < 4 * d and nb == 4 else None) if env.sym else {}))
            ix = [env.int('i%d' % (k + 1), 0, n[k] - 1, pick=lambda r, k=k: r.randint(0, max(n[k] - 1, 0))) for k in range(d)]
            st = env.array('st', 'i64', 2); q = I(env, 'q', 1); sz = I(env, 'sz', d); env.modifies(q, sz, st)
            def post(res):
                env.eq('bytes', st.at(0), 4 * (prod(n) + d)); env.eq('element size', st.at(1), 0)
                for k in range(d): env.eq('size %d' % k, sz.at(k), n[k])
                env.eq('element', q.at(0), b.old(d + where(n, ix)[1]))
            env.run('h_cr%d' % d, [b, st, q, sz] + ix, post)
        @contract('C16', CT, 'read empty multi%dd' % d)
        def _(env):
            n = dims(env, d); z = env.int('z', 0, d - 1, pick=lambda r: r.randint(0, d - 1))
            if not env.sym: n[z] = 0
            else: env.assume(env.or_(*[env.and_(env.eqc(z, k), env.eqc(n[k], 0)) for k in range(d)]))
            b = I(env, 'b', d, pick=lambda r: list(reversed(n)), **(dict(fn=lambda off, kind, nb: n[d - 1 - off // 4] if type(off) is int and nb == 4 else None) if env.sym else {}))
            st = env.array('st', 'i64', 2); q = I(env, 'q', 1); sz = I(env, 'sz', d); env.modifies(q, sz, st)
            def post(res):
                env.eq('bytes', st.at(0), 4 * d); env.eq('element size', st.at(1), 0)
                for k in range(d): env.eq('size %d' % k, sz.at(k), n[k])
            env.run('h_cr%d' % d, [b, st, q, sz] + [-1] * d, post)
    mk(d)
# one-dimensional with the number given; vectors; pairs
tadd('h_cwn', 'char* b, long* st, const int* p, int n, int m', 'LW w(b, 4); multi1d<int> d((int*)p, n); write(w, d, m); WEND')
tadd('h_crn', 'const char* b, long* st, int* q, int n, int m', 'LR r(b, 4); multi1d<int> d(q, n); read(r, d, m); REND')
tadd('h_cwv', 'char* b, long* st, const int* p, int n', 'LW w(b, 4); VEC(d, p, n) write(w, d); WEND')
tsrc[0] += """
#ifdef QVC_IR
struct FakeVec { const int *a, *e, *c; };
#define VEC(d, p, n) FakeVec d##_{(p), (p) + (n), (p) + (n)}; const std::vector<int>& d = *(const std::vector<int>*)&d##_;
#else
#define VEC(d, p, n) std::vector<int> d((p), (p) + (n));
#endif
"""
@contract('C16', CT, 'write multi1d, number given')
def _(env):
    n = env.int('n', 0, 1 << 20, pick=cnt); m = env.int('m', 0, n, pick=lambda r: r.randint(0, n)); b = I(env, 'b', m); st = env.array('st', 'i64', 2); p = I(env, 'p', n); env.modifies(b, st)
    def post(res):
        env.eq('bytes', st.at(0), 4 * m); env.eq('element size', st.at(1), 0); env.forall('i', 0, m, lambda i: env.eq('element', b.at(i), p.old(i)))
    env.run('h_cwn', [b, st, p, n, m], post)
@contract('C16', CT, 'read multi1d, number given')
def _(env):
    n = env.int('n', 0, 1 << 20, pick=cnt); m = env.int('m', 0, n, pick=lambda r: r.randint(0, n)); b = I(env, 'b', m); st = env.array('st', 'i64', 2); q = I(env, 'q', n); env.modifies(q, st)
    def post(res):
        env.eq('bytes', st.at(0), 4 * m); env.eq('element size', st.at(1), 0); env.forall('i', 0, m, lambda i: env.eq('element', q.at(i), b.old(i)))
        env.forall('i', m, n, lambda i: env.eq('kept', q.at(i), q.old(i)))
    env.run('h_crn', [b, st, q, n, m], post)
@contract('C16', CT, 'write std::vector')
def _(env):
    n = env.int('n', 0, 1 << 20, pick=cnt); b = I(env, 'b', n + 1); st = env.array('st', 'i64', 2); p = I(env, 'p', n); env.modifies(b, st)
    def post(res):
        env.eq('bytes', st.at(0), 4 * n + 4); env.eq('element size', st.at(1), 0); env.eq('size', b.at(0), n); env.forall('i', 0, n, lambda i: env.eq('element', b.at(i + 1), p.old(i)))
    env.run('h_cwv', [b, st, p, n], post)
# round trips through the other containers (their nodes are libstdc++'s): native runs only
tsrc.append("""
template<class T> static int rt(const T& a, char* b) { LW w(b, 4); write(w, a); LR r(b, 4); T c; read(r, c); return w.bad || r.bad || w.pos != r.pos || !(a == c) ? 0 : (int)w.pos; }
namespace QDP { static bool operator==(const multiNd<int>& a, const multiNd<int>& b) { if (a.numElem() != b.numElem() || a.size().size() != b.size().size()) return false; for (int i = 0; i < a.size().size(); ++i) if (a.size()[i] != b.size()[i]) return false; for (int i = 0; i < a.numElem(); ++i) if (a.getElem(i) != b.getElem(i)) return false; return true; } }
""")
tadd('h_rt', 'char* b, int* r, const int* p, int n', """
#ifndef QVC_IR
{ std::vector<int> v(p, p + n); r[0] = rt(v, b) - 4 * n - 4; }
{ std::list<int> v(p, p + n); r[1] = rt(v, b) - 4 * n - 4; }
{ std::map<int,int> v; for (int i = 0; i < n; ++i) v[p[i]] = i; r[2] = rt(v, b) - 8 * (int)v.size() - 4; }
{ std::pair<int,int> v(n, n + 1); r[3] = rt(v, b) - 8; if (((int*)b)[0] != n) r[3] = 1; }
{ multi1d<int> s(3); s[0] = 2; s[1] = 3; s[2] = 2; multiNd<int> v(s); for (int i = 0; i < v.numElem(); ++i) v.getElem(i) = p[i % n]; r[4] = rt(v, b) - 4 * 16; }
#endif
""".replace('\n', '\n'))
@contract('C16', CT, 'round trip: vector, list, map, pair, multiNd', bounded_ok=True)
def _(env):
    if env.sym: raise Undecided('native runs only')
    n = env.int('n', 1, 99, pick=lambda r: r.randint(1, 30)); b = I(env, 'b', 200); r = I(env, 'r', 5); p = I(env, 'p', n, lo=-50, hi=50); env.modifies(b, r)
    def post(res):
        for k in range(5): env.eq('round trip %d' % k, r.at(k), 0)
    env.run('h_rt', [b, r, p, n], post)
CT.text = '\n'.join(tsrc) + '\n'
# ---------------------------------------------------------------------------------- lattice fields: sites in lexicographic order, whatever the layout
# The layout is known by its contract (C01: linearSiteIndex is a bijection of the lexicographic numbers): an arbitrary injective table.
from .lat import TYPES, CTYPE, cdecl, size, lat_pad
from .common import VMAX
LHEAD = '#include "h.h"\n' + tsrc[0].replace('#include "h.h"\n', '').replace('b + pos', 'b + pos') + """
#ifdef QVC_IR
#define linearSiteIndex linearSiteIndex_body
namespace QDP { namespace Layout { int linearSiteIndex(const multi1d<int>& c); int linearSiteIndex(int site); } }
#endif
#include "qdp_scalar_layout.cc"
#ifdef QVC_IR
#undef linearSiteIndex
static const int* q_lin;
namespace QDP { namespace Layout { int linearSiteIndex(int site) { return q_lin[site]; }
  int linearSiteIndex(const multi1d<int>& c) { const multi1d<int>& n = _layout.nrow; return q_lin[c[0] + n[0]*(c[1] + n[1]*(c[2] + n[2]*c[3]))]; } } }
#define TABLE q_lin = tab;
#else
#define TABLE for (int i = 0; i < Layout::_layout.vol; ++i) tab[i] = Layout::linearSiteIndex(i);
#endif
#define N4 int n0, int n1, int n2, int n3, int* tab
#define SETN { Layout::_layout.nrow.resize(4); Layout::_layout.nrow[0] = n0; Layout::_layout.nrow[1] = n1; Layout::_layout.nrow[2] = n2; Layout::_layout.nrow[3] = n3; Layout::_layout.vol = n0*n1*n2*n3; Layout::_layout.subgrid_vol = Layout::_layout.vol; TABLE }
#define CRD multi1d<int> c(4); c[0] = x0; c[1] = x1; c[2] = x2; c[3] = x3;
"""
def lattice_io(key):
    ct, ss, cs, cplx, et = TYPES[key]
    U = LU[key]; et_c = CTYPE[et]; L = cdecl(key, True); Sc = cdecl(key, False)
    w = lat_pad(key) or size(ss) * size(cs) * (2 if cplx else 1); ws = {'float': 4, 'double': 8, 'i32': 4, 'i8': 1}[et]
    t = ''
    for nm, pre, code in (('w', 'char* b', 'LW w(b, %d); %%s WEND' % ws), ('r', 'const char* b', 'LR r(b, %d); %%s REND' % ws)):
        o = 'write(w, D' if nm == 'w' else 'read(r, D'
        t += 'H h_%ss(%s, long* st, %s* pD) { %s& D = *(%s*)pD; %s }\n' % (nm, pre, et_c, Sc, Sc, code % (o + ');'))
        t += 'H h_%sl(%s, long* st, %s* pD, N4) { SETN LAT(%s, D, pD); %s }\n' % (nm, pre, et_c, L, code % (o + ');'))
        t += 'H h_%sc(%s, long* st, %s* pD, N4, int x0, int x1, int x2, int x3) { SETN CRD LAT(%s, D, pD); %s }\n' % (nm, pre, et_c, L, code % (o + ', c);'))
        t += 'H h_%st(%s, long* st, %s* pD, N4, int lo, int hi) { SETN LAT(%s, D, pD); %s }\n' % (nm, pre, et_c, L, code % ('LatticeTimeSliceIO::%s(%s, D, lo, hi);' % (('writeSlice', 'w') if nm == 'w' else ('readSlice', 'r'))))
    U.text += t
    kw = dict(lo=0, hi=1) if et == 'i8' else {}
    W = lambda env, nm, n: env.array(nm, et, n, **kw)
    def common(env, wr, nsite, total, a):
        b = W(env, 'b', nsite * w); st = env.array('st', 'i64', 2); d = W(env, 'D', total * w)
        env.modifies(st, *a, *([b] if wr else [d]), globals_ok=('_layout', '3allE', 'Layout', 'q_lin', 'Singleton', 'Allocator'))
        return b, st, d
    def geom(env):
        h0 = env.int('h0', 1, VMAX, pick=lambda r: r.randint(1, 2)); n = [2 * h0] + [env.int('n%d' % k, 1, VMAX, pick=lambda r: r.randint(1, 3)) for k in (1, 2, 3)]
        V = n[0] * n[1] * n[2] * n[3]; env.assume(env.le(V, VMAX // w))
        return n, V, env.array('tab', 'i32', V, lo=0, hi=V - 1, injective=True)
    def sym(*a): return a
    for wr in (True, False):
        nm = 'write' if wr else 'read'; f = 'h_w' if wr else 'h_r'
        def mk(wr, nm, f):
            def moved(env, b, d, k, i):
                for q in range(w): env.eq('word %d' % q, *((b.at(k * w + q), d.old(i * w + q)) if wr else (d.at(i * w + q), b.old(k * w + q))))
            def fin(env, st, n): env.eq('bytes', st.at(0), n * w * ws); env.eq('element size', st.at(1), 0)
            @contract('C16', U, '%s %s' % (nm, Sc))
            def _(env):
                b, st, d = common(env, wr, 1, 1, [])
                def post(res): fin(env, st, 1); moved(env, b, d, 0, 0)
                env.run(f + 's', [b, st, d], post)
            @contract('C16', U, '%s %s' % (nm, L))
            def _(env):
                n, V, tab = geom(env); b, st, d = common(env, wr, V, V, [] if env.sym else [tab])
                T_ = tab.old if env.sym else tab.at
                def post(res): fin(env, st, V); env.forall('s', 0, V, lambda k: moved(env, b, d, k, T_(k)))
                env.run(f + 'l', [b, st, d] + n + [tab], post)
            @contract('C16', U, '%s one site of %s' % (nm, L))
            def _(env):
                n, V, tab = geom(env); b, st, d = common(env, wr, 1, V, [] if env.sym else [tab])
                x = [env.int('x%d' % k, 0, n[k] - 1) for k in range(4)]
                T_ = tab.old if env.sym else tab.at
                def post(res):
                    fin(env, st, 1); i = T_(x[0] + n[0] * (x[1] + n[1] * (x[2] + n[2] * x[3]))); moved(env, b, d, 0, i)
                    if not wr: env.forall('o', 0, V, lambda j: [env.eq('other sites', d.at(j * w + q), d.old(j * w + q)) for q in range(w)], cond=lambda j: env.nec(j, i))
                env.run(f + 'c', [b, st, d] + n + [tab] + x, post)
            @contract('C16', U, '%sSlice %s' % (nm, L))
            def _(env):
                n, V, tab = geom(env); lo = env.int('lo', 0, V, pick=lambda r: r.randint(0, V)); hi = env.int('hi', lo, V, pick=lambda r: r.randint(lo, V))
                b, st, d = common(env, wr, hi - lo, V, [] if env.sym else [tab])
                T_ = tab.old if env.sym else tab.at
                def post(res):
                    fin(env, st, hi - lo); env.forall('s', lo, hi, lambda k: moved(env, b, d, k - lo, T_(k)))
                    if not wr:
                        for a, z in ((0, lo), (hi, V)): env.forall('o', a, z, lambda k: [env.eq('other sites', d.at(T_(k) * w + q), d.old(T_(k) * w + q)) for q in range(w)])
                env.run(f + 't', [b, st, d] + n + [tab, lo, hi], post)
        mk(wr, nm, f)
LU = {}
for key in ('R', 'X', 'CV', 'CM', 'SM', 'F', 'HF', 'P', 'SF', 'D', 'DX', 'DCM', 'I', 'B'):
    LU[key] = unit('iolat_' + key, '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc')); LU[key].text = LHEAD
    lattice_io(key)
