// In-memory replacement of the C file functions and of std::ofstream used by io.hpp.  Numbers that are symbolic are stored in the
// character stream as placeholders (~Innn integer, ~Dnnn double), everything else as characters.  Include after <cstdio>, before
// the library.
#ifndef MEMFILE_HPP
#define MEMFILE_HPP
#include <cstdio>
#include <fstream>
#include <iomanip>
#include <string>
#include <complex>
static const int MFN = 2600, MFT = 96;
struct MemFile { char c[MFN]; int n = 0, pos = 0, stall = 0; bool exists = true; };
static MemFile mf; static long mf_i[MFT]; static double mf_d[MFT]; static int mf_ni, mf_nd, mf_opened, mf_closed, mf_written;
static void mf_ch(char c) { mf.c[mf.n++] = c; }
static void mf_str(const char *s) { while (*s) mf_ch(*s++); }
static void mf_tag(char k, int id) { mf_ch('~'); mf_ch(k); mf_ch('0' + id / 10); mf_ch('0' + id % 10); }
static void mf_int(long v) { mf_i[mf_ni] = v; mf_tag('I', mf_ni++); }
static void mf_dbl(double v) { mf_d[mf_nd] = v; mf_tag('D', mf_nd++); }
static void mf_reset() { mf.n = mf.pos = mf.stall = 0; mf.exists = true; mf_ni = mf_nd = mf_opened = mf_closed = mf_written = 0; }
static bool mf_sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static bool mf_dig(char c) { return c >= '0' && c <= '9'; }
// scan one conversion at p; returns new position or -1 on mismatch
static int mf_scani(const char *s, int p, int e, long *v) {
  if (p + 3 < e && s[p] == '~' && s[p + 1] == 'I') { *v = mf_i[(s[p + 2] - '0') * 10 + s[p + 3] - '0']; return p + 4; }
  bool neg = false; if (p < e && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-'; if (p >= e || !mf_dig(s[p])) return -1; long r = 0; while (p < e && mf_dig(s[p])) { r = r * 10 + (s[p] - '0'); ++p; } *v = sx_conc(neg ? -r : r); return p;
}
static int mf_scand(const char *s, int p, int e, double *v) {
  if (p + 3 < e && s[p] == '~' && s[p + 1] == 'D') { *v = mf_d[(s[p + 2] - '0') * 10 + s[p + 3] - '0']; return p + 4; }
  bool neg = false, any = false; if (p < e && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-'; double r = 0, f = 1;
  while (p < e && mf_dig(s[p])) { r = r * 10 + (s[p] - '0'); ++p; any = true; } if (p < e && s[p] == '.') { ++p; while (p < e && mf_dig(s[p])) { f = f * 0.5; r = r + 0 * f; ++p; any = true; } } if (!any) return -1; *v = neg ? -r : r; return p;
}
// common scanner: format with %d %lg %lf %s %<w>s and white space; *pp advances
static int mf_vscan(const char *s, int *pp, int e, const char *f, void **ap) {
  int p = *pp, done = 0; bool eof = false, stop = false;
  while (*f && !stop) {
    if (mf_sp(*f)) { ++f; while (p < e && mf_sp(s[p])) ++p; continue; }
    if (*f != '%') { if (p < e && s[p] == *f) { ++p; ++f; continue; } eof = p >= e; break; }
    ++f; int w = 0; while (mf_dig(*f)) w = w * 10 + (*f++ - '0'); int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j') { ++l; ++f; }
    const char k = *f++; while (p < e && mf_sp(s[p])) ++p; if (p >= e) { eof = true; break; }
    if (k == 'd' || k == 'i' || k == 'u') { long v; const int q = mf_scani(s, p, e, &v); if (q < 0) { stop = true; break; } p = q; if (l) *(long *)*ap++ = v; else *(int *)*ap++ = (int)v; ++done; }
    else if (k == 'g' || k == 'f' || k == 'e') { double v; const int q = mf_scand(s, p, e, &v); if (q < 0) { stop = true; break; } p = q; if (l) *(double *)*ap++ = v; else *(float *)*ap++ = (float)v; ++done; }
    else if (k == 's') { char *o = (char *)*ap++; int m = 0; while (p < e && !mf_sp(s[p]) && (!w || m < w)) { *o++ = s[p++]; ++m; } *o = 0; ++done; }
    else { sx_assert(false, "memfile: unknown conversion"); break; }
  }
  *pp = p; return done == 0 && eof ? EOF : done;
}
extern "C" {
static FILE *mf_open(const char *, const char *) { if (!mf.exists) return nullptr; ++mf_opened; mf.pos = mf.stall = 0; return (FILE *)&mf; }
static int mf_getc(FILE *f) { sx_assert(f == (FILE *)&mf && mf_opened > mf_closed, "read from a closed file"); if (mf.pos < mf.n) { mf.stall = 0; return (unsigned char)mf.c[mf.pos++]; } sx_assert(++mf.stall < 4, "reader makes no progress"); return EOF; }
static int mf_ungetc(int c, FILE *) { if (c == EOF || !mf.pos) return EOF; --mf.pos; return c; }
static int mf_eof(FILE *f) { sx_assert(f == (FILE *)&mf && mf_opened > mf_closed, "read from a closed file"); return mf.pos >= mf.n; }
static int mf_err(FILE *) { return 0; }
static void mf_rewind(FILE *) { mf.pos = 0; }
static int mf_close(FILE *f) { sx_assert(f == (FILE *)&mf && mf_opened > mf_closed, "file closed twice or never opened"); ++mf_closed; return 0; }
static char *mf_gets(char *o, int n, FILE *f) { sx_assert(f == (FILE *)&mf && mf_opened > mf_closed, "read from a closed file"); if (mf.pos >= mf.n) return nullptr; int k = 0; while (k < n - 1 && mf.pos < mf.n) { const char c = mf.c[mf.pos++]; o[k++] = c; if (c == '\n') break; } o[k] = 0; return o; }
}
template <class... A> static int mf_fscanf(FILE *f, const char *fmt, A *...a) {
  void *d[] = {(void *)a..., nullptr}; sx_assert(f == (FILE *)&mf && mf_opened > mf_closed, "read from a closed file"); const int p0 = mf.pos; const int r = mf_vscan(mf.c, &mf.pos, mf.n, fmt, d);
  mf.stall = mf.pos == p0 && r <= 0 ? mf.stall + 1 : 0; sx_assert(mf.stall < 4, "reader makes no progress"); return r;
}
template <class... A> static int mf_sscanf(const char *s, const char *fmt, A *...a) { void *d[] = {(void *)a..., nullptr}; int e = 0; while (s[e]) ++e; int p = 0; return mf_vscan(s, &p, e, fmt, d); }
struct MfStream {
  bool op, sci = false; int prec = 6;
  explicit MfStream(const char *) { op = mf.exists; if (op) { mf.n = 0; mf_ni = mf_nd = 0; ++mf_opened; } }
  ~MfStream() { close(); }
  MfStream(const MfStream &) = delete;
  bool is_open() const { return op; } void close() { if (op) { ++mf_closed; op = false; mf_written = 1; } }
  bool good() const { return true; } bool fail() const { return false; } explicit operator bool() const { return true; } bool operator!() const { return false; }
  void setf(std::ios_base::fmtflags f) { if (f & std::ios_base::scientific) sci = true; } void precision(int p) { prec = p; }
  void setf(std::ios_base::fmtflags f, std::ios_base::fmtflags) { setf(f); }
  void open(const char *) { op = mf.exists; if (op) { mf.n = 0; mf_ni = mf_nd = 0; ++mf_opened; } } MfStream() : op(false) {}
  MfStream &operator<<(std::ios_base &(*m)(std::ios_base &)) { if (m == (std::ios_base & (*)(std::ios_base &)) std::scientific) sci = true; return *this; } MfStream &operator<<(std::ostream &(*)(std::ostream &)) { mf_ch('\n'); return *this; } MfStream &operator<<(std::_Setprecision p) { prec = p._M_n; return *this; }
  MfStream &operator<<(const std::string &s) { mf_str(s.c_str()); return *this; } MfStream &put(char c) { mf_ch(c); return *this; } MfStream &flush() { return *this; }
  MfStream &operator<<(const char *s) { mf_str(s); return *this; } MfStream &operator<<(char c) { mf_ch(c); return *this; }
  MfStream &operator<<(long v) { mf_int(v); return *this; } MfStream &operator<<(int v) { return *this << (long)v; } MfStream &operator<<(unsigned long v) { return *this << (long)v; } MfStream &operator<<(unsigned v) { return *this << (long)v; }
  MfStream &operator<<(double v) { sx_assert(prec + sci >= 17, "not enough digits written"); mf_dbl(v); return *this; } MfStream &operator<<(float v) { sx_assert(prec + sci >= 9, "not enough digits written"); mf_dbl(v); return *this; }
};
namespace std { using ::mf_open; using ::mf_close; using ::mf_gets; using ::mf_fscanf; using ::mf_sscanf; using ::mf_getc; using ::mf_ungetc; using ::mf_eof; using ::mf_err; using ::mf_rewind; typedef ::MfStream mf_ofstream; }
#define fopen mf_open
#define fclose mf_close
#define fgets mf_gets
#undef getc
#define getc mf_getc
#undef fgetc
#define fgetc mf_getc
#undef ungetc
#define ungetc mf_ungetc
#undef feof
#define feof mf_eof
#undef ferror
#define ferror mf_err
#undef rewind
#define rewind mf_rewind
#define fscanf mf_fscanf
#define sscanf mf_sscanf
#define ofstream mf_ofstream
#endif
