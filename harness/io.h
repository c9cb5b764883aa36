// A writer and a reader of the real classes over a byte array.
#ifndef QVC_IO_H
#define QVC_IO_H
#include "h.h"
#ifdef QVC_IR
extern "C" { extern char *qio_out, *qio_in, *qio_crc; extern long qio_opos, qio_ipos, qio_cpos, qio_k, qio_bad; extern unsigned* qio_tok; extern char qio_strm[512]; extern long qio_seekoff, qio_seekdir, qio_line, qio_slen; extern char* qio_str; void qio_line_begin(long); }
#define IO_BEGIN qio_out = out; qio_in = in; qio_crc = cb; qio_opos = st[0]; qio_ipos = st[1]; qio_cpos = 0; qio_k = 0; qio_bad = 0; qio_tok = tok; unsigned ck = tok[0]; \
  std::ostream& os = *(std::ostream*)qio_strm; std::istream& is = *(std::istream*)qio_strm; std::iostream& ios = *(std::iostream*)qio_strm;
#define IO_END st[0] = qio_opos; st[1] = qio_ipos; st[2] = qio_cpos; st[3] = qio_k; st[4] = qio_bad; st[5] = ck; st[6] = qio_seekoff; st[7] = qio_seekdir;
#else
struct SB : std::streambuf {
  SB(char* o, long op, char* i, long ip) { setp(o, o + (1 << 20)); pbump(op); setg(i, i + ip, i + (1 << 20)); }
  long so = 0, sd = 0;
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode w) { so = o; sd = (w == std::ios_base::out ? 100 : 0) + d; return 0; }
  pos_type seekpos(pos_type o, std::ios_base::openmode w) { so = o; sd = w == std::ios_base::out ? -101 : -1; return 0; }
  long op() { return pptr() - pbase(); } long ip() { return gptr() - eback(); }
};
#define IO_BEGIN SB sb(out, st[0], in, st[1]); std::ostream os(&sb); std::istream is(&sb); std::iostream ios(&sb); unsigned ck = tok[0];
#define IO_END st[0] = sb.op(); st[1] = sb.ip(); st[5] = ck; st[6] = sb.so; st[7] = sb.sd;
#endif
struct TW : BinaryWriter { unsigned& c; std::ostream& o; TW(unsigned& a, std::ostream& b) : c(a), o(b) {} ~TW() {} void flush() {} unsigned& internalChecksum() { return c; } std::ostream& getOstream() { return o; } };
struct TR : BinaryReader { unsigned& c; std::istream& i; TR(unsigned& a, std::istream& b) : c(a), i(b) {} ~TR() {} unsigned& internalChecksum() { return c; } std::istream& getIstream() { return i; } };
struct TRW : BinaryReaderWriter { unsigned& c; std::iostream& s; TRW(unsigned& a, std::iostream& b) : c(a), s(b) {} ~TRW() {} void flush() {} unsigned& internalChecksum() { return c; } std::istream& getIstream() { return s; } std::ostream& getOstream() { return s; } std::iostream& getIOstream() { return s; } };
#ifdef QVC_IR
struct FakeString { const char* p; size_t n; char b[16]; };
#define STRING(s, p, n) FakeString s##_{(p), (n), {}}; const std::string& s = *(const std::string*)&s##_;
#define STRIN(s, q) FakeString s##_{s##_.b, 0, {}}; qio_str = (q); std::string& s = *(std::string*)&s##_;
#define STROUT(s, q, n) *(n) = qio_slen;
#define LINE(l) qio_line_begin(l);
#define FOUT(f) FILE* f = (FILE*)qio_strm;
#define FIN(f) FOUT(f)
#define FDONE(f)
#else
#define STRING(s, p, n) std::string s((p), (n));
#define STRIN(s, q) std::string s;
#define STROUT(s, q, n) memcpy((q), s.data(), s.size()); *(n) = s.size();
#define LINE(l)
#include <cstdio>
static inline ssize_t io_cw(void* c, const char* p, size_t n) { return ((SB*)c)->sputn(p, n); }
static inline ssize_t io_cr(void* c, char* p, size_t n) { return ((SB*)c)->sgetn(p, n); }
#define FOUT(f) cookie_io_functions_t io_{io_cr, io_cw, 0, 0}; FILE* f = fopencookie(&sb, "r+", io_); setbuf(f, 0);
#define FIN(f) FOUT(f)
#define FDONE(f) fclose(f);
#endif
#define IOARGS char* out, char* in, char* cb, unsigned* tok, long* st
#endif
