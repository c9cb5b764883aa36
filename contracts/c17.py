"""The checksum.  rec(p) is the register after p bytes: rec(0) = ~start, rec(p+1) = eight steps of the reflected polynomial division on rec(p) xor
byte p.  The table form of that step and the bit form are equal (lemma, with all 256 entries of the table compared).  The result of the real loops
is ~rec(length) for every buffer, length and starting value, and only buf[0..length) is read."""
from qvc.reg import unit, contract
META = dict(assumptions=['at most 2^40 bytes'])
POLY = 0xEDB88320
def bits(i, n=8):
    for _ in range(n): i = (i >> 1) ^ (POLY if i & 1 else 0)
    return i
TAB = [bits(i) for i in range(256)]
U = unit('crc32', '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_crc32.cc'))
U.text = '''#include "h.h"
namespace QDPUtil { n_uint32_t crc32(n_uint32_t crc, const unsigned char* buf, size_t len); n_uint32_t crc32(n_uint32_t crc, const char* buf, size_t len); }
#include "qdp_crc32.cc"
H h_crc(unsigned* c, const unsigned char* b, size_t n) { *c = QDPUtil::crc32(*c, b, n); }
H h_crcs(unsigned* c, const char* b, size_t n) { *c = QDPUtil::crc32(*c, b, n); }
H h_two(unsigned* c, const unsigned char* b, size_t m, size_t n) { unsigned x = QDPUtil::crc32(*c, b, m); *c = QDPUtil::crc32(x, b + m, n); }
H h_three(unsigned* c, const char* b, size_t m, size_t n, size_t q) { unsigned x = QDPUtil::crc32(*c, b, m); x = QDPUtil::crc32(x, b + m, n); *c = QDPUtil::crc32(x, b + m + n, q); }
'''
CAP = 1 << 40
def setup(env, n):
    if not env.sym:
        import zlib
        b = env.array('b', 'i8', n, pick=lambda r: [r.randint(-128, 127) for _ in range(n)]); c = env.array('c', 'i32', 1, pick=lambda r: [r.choice((0, -1, r.randint(-2**31, 2**31 - 1)))])
        return b, c, lambda got: env.eq('CRC-32 of the bytes', got & 0xffffffff, zlib.crc32(bytes(b.old(i) & 255 for i in range(n)), c.old(0) & 0xffffffff))
    import z3
    from qvc import bvrec as B
    from qvc.exec import BV
    byte = lambda p: B.app_bv('byte', p, 8)
    b = env.array('b', 'i8', n, fn=lambda off, kind, nb: byte(off) if nb == 1 else None)
    c0 = z3.BitVec('c0', 32)
    c = env.array('c', 'i32', 1, fn=lambda off, kind, nb: BV(c0) if off == 0 and nb == 4 else None)
    T = B.table('crc', 8, 32)
    env.ex.bvtables = dict(crc=TAB)
    env.ex.bvrec = B.Rec('rec', 32, ~c0, lambda r, p: T(z3.Extract(7, 0, r) ^ byte(p).e) ^ z3.LShR(r, 8))
    return b, c, lambda got: env.eq('CRC-32 of the bytes', got, BV(~env.ex.bvrec.at(n)))
pick = lambda r: r.choice((r.randint(0, 9), r.randint(0, 70)))
def one(name, f):
    @contract('C17', U, name)
    def _(env):
        n = env.int('n', 0, CAP, pick=pick); b, c, chk = setup(env, n); env.modifies(c)
        env.run(f, [c, b, n], lambda res: chk(c.at(0)))
one('crc32 of unsigned bytes', 'h_crc'); one('crc32 of characters', 'h_crcs')
@contract('C17', U, 'two pieces, value threaded through')
def _(env):
    m = env.int('m', 0, CAP, pick=pick); n = env.int('n', 0, CAP, pick=pick); b, c, chk = setup(env, m + n); env.modifies(c)
    env.run('h_two', [c, b, m, n], lambda res: chk(c.at(0)))
@contract('C17', U, 'three pieces, value threaded through')
def _(env):
    m = env.int('m', 0, CAP, pick=pick); n = env.int('n', 0, CAP, pick=pick); q = env.int('q', 0, CAP, pick=pick); b, c, chk = setup(env, m + n + q); env.modifies(c)
    env.run('h_three', [c, b, m, n, q], lambda res: chk(c.at(0)))
@contract('C17', U, 'lemma: table step = eight division steps', no_native=True)
def _(env):
    import z3
    from qvc import bvrec as B
    r, x = z3.BitVecs('r x', 32); b = z3.BitVec('b', 8)
    def div(v, n):
        for _ in range(n): v = z3.LShR(v, 1) ^ (-(v & 1) & POLY)
        return v
    # division steps are linear: those of the low byte and those of the rest add up, and the rest only moves down
    env.true('linear', B.valid(div(r ^ x, 1) == div(r, 1) ^ div(x, 1)))
    env.true('no division in the upper bytes', B.valid(z3.Implies(r & 255 == 0, div(r, 8) == z3.LShR(r, 8))))
    env.true('split', B.valid(div(r, 8) == div(r & 255, 8) ^ div(r & ~z3.BitVecVal(255, 32), 8)))
    for i in range(256): env.true('entry %d' % i, z3.simplify(div(z3.BitVecVal(i, 32), 8)).as_long() == TAB[i])
