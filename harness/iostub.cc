// Verifier side only: the contracts of the C++ stream members and of QDPUtil::crc32 that the binary readers and writers rely on.
// A stream is a byte array and a position.  The checksum function is arbitrary: the k-th call returns tok[k]; what it was given is recorded.
#ifdef QVC_IR
extern "C" {
char *qio_out, *qio_in, *qio_crc; long qio_opos, qio_ipos, qio_cpos, qio_k, qio_bad; unsigned* qio_tok; char qio_strm[512];
void* qio_write(void* s, const char* p, long n) __asm__("_ZNSo5writeEPKcl");
void* qio_write(void* s, const char* p, long n) { __builtin_memcpy(qio_out + qio_opos, p, n); qio_opos += n; return s; }
void* qio_read(void* s, char* p, long n) __asm__("_ZNSi4readEPcl");
void* qio_read(void* s, char* p, long n) { __builtin_memcpy(p, qio_in + qio_ipos, n); qio_ipos += n; return s; }
unsigned qio_crc32(unsigned c, const char* p, unsigned long n) __asm__("_ZN7QDPUtil5crc32EjPKcm");
unsigned qio_crc32(unsigned c, const char* p, unsigned long n) {
  if (c != qio_tok[qio_k]) qio_bad = 1;
  __builtin_memcpy(qio_crc + qio_cpos, p, n); qio_cpos += n; return qio_tok[++qio_k];
}
unsigned long qio_fread(void* p, unsigned long s, unsigned long n, void* f) __asm__("fread");
unsigned long qio_fread(void* p, unsigned long s, unsigned long n, void* f) { __builtin_memcpy(p, qio_in + qio_ipos, s * n); qio_ipos += s * n; return n; }
unsigned long qio_fwrite(const void* p, unsigned long s, unsigned long n, void* f) __asm__("fwrite");
unsigned long qio_fwrite(const void* p, unsigned long s, unsigned long n, void* f) { __builtin_memcpy(qio_out + qio_opos, p, s * n); qio_opos += s * n; return n; }
}
#endif
#ifdef QVC_IR
extern "C" {
long qio_seekoff, qio_seekdir, qio_line, qio_slen; char* qio_str;
// the parts of a stream object that istream::getline's inline part looks at: the virtual base at offset 0, the facet that widens '\n' to itself
long qio_vt[3]; char qio_ctype[512];
void qio_line_begin(long l) { qio_line = l; *(long**)qio_strm = qio_vt + 3; *(char**)(qio_strm + 240) = qio_ctype; qio_ctype[56] = 1; qio_ctype[57 + 10] = 10; }
void* qio_sg(void* s, long off, int dir) __asm__("_ZNSi5seekgElSt12_Ios_Seekdir");
void* qio_sg(void* s, long off, int dir) { qio_seekoff = off; qio_seekdir = dir; return s; }
void* qio_sp(void* s, long off, int dir) __asm__("_ZNSo5seekpElSt12_Ios_Seekdir");
void* qio_sp(void* s, long off, int dir) { qio_seekoff = off; qio_seekdir = 100 + dir; return s; }
void* qio_sga(void* s, long off, long x) __asm__("_ZNSi5seekgESt4fposI11__mbstate_tE");
void* qio_sga(void* s, long off, long x) { qio_seekoff = off; qio_seekdir = -1; return s; }
void* qio_spa(void* s, long off, long x) __asm__("_ZNSo5seekpESt4fposI11__mbstate_tE");
void* qio_spa(void* s, long off, long x) { qio_seekoff = off; qio_seekdir = -101; return s; }
// a line of qio_line characters, none of them a terminator, is next in the stream
void* qio_getline(void* s, char* p, long n, char e) __asm__("_ZNSi7getlineEPclc");
void* qio_getline(void* s, char* p, long n, char e) { if (e != 10) qio_bad = 1; __builtin_memcpy(p, qio_in + qio_ipos, qio_line); p[qio_line] = 0; qio_ipos += qio_line + 1; return s; }
unsigned long qio_strlen(const char* p) __asm__("strlen");
unsigned long qio_strlen(const char* p) { return qio_line; }
// std::string: replacing the whole of an empty string
void* qio_repl(void* s, unsigned long a, unsigned long b, const char* p, unsigned long n) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm");
void* qio_repl(void* s, unsigned long a, unsigned long b, const char* p, unsigned long n) { if (a || b) qio_bad = 1; __builtin_memcpy(qio_str, p, n); qio_slen = n; return s; }
}
#endif
