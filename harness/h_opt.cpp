// P16: options set by name, read from a stream, printed; verbose and reordering names.
#include "sx.hpp"
#include <unordered_map>
#include <functional>
#include <tuple>
#include <cmath>
#include <algorithm>
namespace std {  // decimal formatting of std::to_string(double) for quarters (libc formats in a shared object)
inline string sx_to_string(int v) { return to_string(v); }
inline string sx_to_string(double v) { const long q = sx_conc((long)(v * 4)); const long a = q < 0 ? -q : q; string s = to_string(int(a / 4)); s += a % 4 == 0 ? ".000000" : a % 4 == 1 ? ".250000" : a % 4 == 2 ? ".500000" : ".750000"; return q < 0 ? "-" + s : s; }
}
#define to_string sx_to_string
#include "hif/Options.h"
#undef to_string
#include "common.hpp"
using namespace hif;
#ifndef CLO
#define CLO 95
#define CHI 122
#endif
struct Fd { const char *name; double Options::*d; int Options::*i; };
// the documented option names, in the order of the option structure
static const Fd FD[28] = {{"tau_L", &Options::tau_L, 0}, {"tau_U", &Options::tau_U, 0}, {"kappa_d", &Options::kappa_d, 0}, {"kappa", &Options::kappa, 0}, {"alpha_L", &Options::alpha_L, 0}, {"alpha_U", &Options::alpha_U, 0}, {"rho", &Options::rho, 0}, {"c_d", &Options::c_d, 0}, {"c_h", &Options::c_h, 0}, {"N", 0, &Options::N}, {"verbose", 0, &Options::verbose}, {"rf_par", 0, &Options::rf_par}, {"reorder", 0, &Options::reorder}, {"spd", 0, &Options::spd}, {"check", 0, &Options::check}, {"pre_scale", 0, &Options::pre_scale}, {"symm_pre_lvls", 0, &Options::symm_pre_lvls}, {"threads", 0, &Options::threads}, {"mumps_blr", 0, &Options::mumps_blr}, {"fat_schur_1st", 0, &Options::fat_schur_1st}, {"rrqr_cond", &Options::rrqr_cond, 0}, {"pivot", 0, &Options::pivot}, {"gamma", &Options::gamma, 0}, {"beta", &Options::beta, 0}, {"is_symm", 0, &Options::is_symm}, {"no_pre", 0, &Options::no_pre}, {"nzp_thres", &Options::nzp_thres, 0}, {"dense_thres", 0, &Options::dense_thres}};
static void any(Options &o, double (&dv)[28], int (&iv)[28]) { for (int k = 0; k < 28; ++k) if (FD[k].d) o.*FD[k].d = dv[k] = sx_dbl(FD[k].name, -64, 64, -2); else o.*FD[k].i = iv[k] = sx_int(FD[k].name, -2000000000, 2000000000); }
static void same(const Options &o, const double (&dv)[28], const int (&iv)[28], int but, const char *l) { for (int k = 0; k < 28; ++k) if (k != but) { if (FD[k].d) sx_eq(o.*FD[k].d, dv[k], l); else sx_assert(o.*FD[k].i == iv[k], l); } }
extern "C" void setname() {
  Options o; double dv[28]; int iv[28]; any(o, dv, iv); const int k = sx_choose(28); const int how = sx_choose(3);
  if (how == 0) {  // by name, from a double or an int
    bool bad; const bool api = sx_choose(2); if (sx_choose(2)) { const int v = sx_int("v", -1000000, 1000000); bad = api ? set_option_attr(FD[k].name, v, o) : set_param_attr(FD[k].name, v, o); if (FD[k].d) sx_eq(o.*FD[k].d, v, "option not set"); else sx_assert(o.*FD[k].i == v, "option not set"); }
    else if (FD[k].d) { const double v = sx_dbl("v", -400, 400, -3); bad = set_option_attr(FD[k].name, v, o); sx_eq(o.*FD[k].d, v, "option not set"); }
    else { const double v = sx_dbl("v", -1000, 1000, 0); bad = set_option_attr(FD[k].name, v, o); sx_eq((double)(o.*FD[k].i), v, "option not set"); }
    sx_assert(!bad, "known option refused"); same(o, dv, iv, k, "another option changed"); sx_cover("set");
  } else {  // one character of a name replaced, or a character added or removed
    std::string s(FD[k].name); const int n = s.size(); int w = k; const int pos = sx_choose(n + 1);
    if (how == 1) { const int c = sx_int("c", CLO, CHI); if (pos < n) s[pos] = (char)c; else s.push_back((char)c); } else { if (pos < n) s.erase(pos, 1); else s.clear(); }
    w = -1; for (int j = 0; j < 28; ++j) { const char *t = FD[j].name; int m = 0; while (t[m]) ++m; if (m != (int)s.size()) continue; bool e = true; for (int i = 0; i < m; ++i) if (s[i] != t[i]) e = false; if (e) w = j; }
    bool bad = set_option_attr(s, 7, o); sx_assert(bad == (w < 0), "unknown names must be refused, known ones accepted");
    if (w >= 0) { if (FD[w].d) sx_eq(o.*FD[w].d, 7, "option not set"); else sx_assert(o.*FD[w].i == 7, "option not set"); sx_cover("edited into a known name"); } else sx_cover("unknown");
    same(o, dv, iv, w, "another option changed");
  }
}
struct Src { int at = 0; double dv[28]; int iv[28];
  Src &operator>>(double &v) { sx_assert(at < 28 && FD[at < 28 ? at : 0].d, "order of the options in the stream"); v = dv[at] = sx_dbl("s", -64, 64, -2); ++at; return *this; }
  Src &operator>>(int &v) { sx_assert(at < 28 && FD[at < 28 ? at : 0].i, "order of the options in the stream"); v = iv[at] = sx_int("s", -2000000000, 2000000000); ++at; return *this; } };
extern "C" void stream() {
  Options o; double dv[28]; int iv[28]; any(o, dv, iv); Src s; Src &r = s >> o; sx_assert(&r == &s, "stream returned"); sx_assert(s.at == 28, "number of options read"); same(o, s.dv, s.iv, -1, "option read from the stream"); sx_cover("read");
}
static bool line(const std::string &s, std::size_t &at, const char *name, const std::string &v) {  // "name<spaces>value\n"
  std::size_t a = at; for (int i = 0; name[i]; ++i, ++a) if (a >= s.size() || s[a] != name[i]) return false;
  if (a >= s.size() || s[a] != ' ') return false; while (a < s.size() && s[a] == ' ') ++a;
  for (std::size_t i = 0; i < v.size(); ++i, ++a) if (a >= s.size() || s[a] != v[i]) return false;
  if (a >= s.size() || s[a] != '\n') return false; at = a + 1; return true;
}
static std::string vname(int v) {
  if (!v) return "none"; std::string r; const char *n[7] = {"warning", "info", "pre", "fac", "pre_time", "mem", "info2"};
  for (int b = 0; b < 7; ++b) if (v >> b & 1) { if (r.size()) r += ","; r += n[b]; } return r;
}
extern "C" void print() {  // every option appears once under its name with its value
  Options o; for (int k = 0; k < 28; ++k) if (FD[k].d) o.*FD[k].d = (k + 1) * 0.25; else o.*FD[k].i = -k - 1; o.verbose = 0; o.reorder = 0; o.check = 1; o.pivot = 0;
  const int k = sx_choose(28); if (FD[k].d) o.*FD[k].d = sx_dbl("v", -20, 20, -2); else if (k == 10) o.verbose = sx_int("v", 0, 127); else if (k == 12) o.reorder = sx_int("v", -1, 6); else if (k == 21) o.pivot = sx_int("v", 0, 2); else o.*FD[k].i = sx_int("v", -12, 120);
  const int vb = sx_conc(o.verbose), ro = sx_conc(o.reorder), pv = sx_conc(o.pivot); if (k >= 9 && FD[k].i) o.*FD[k].i = sx_conc(o.*FD[k].i);
  const Options c = o; const std::string s = opt_repr(o); unsigned seen = 0; std::size_t at = 0;
  while (at < s.size()) {
    int f = -1; for (int j = 0; j < 28 && f < 0; ++j) { std::string v = FD[j].d ? std::sx_to_string(o.*FD[j].d) : j == 10 ? vname(vb) : j == 12 ? std::string(ro == 0 ? "Off" : ro == 1 ? "Auto" : ro == 2 ? "AMD" : ro == 3 ? "RCM" : "Null") : j == 14 ? std::string(o.check ? "yes" : "no") : j == 21 ? std::string(pv == 0 ? "off" : pv == 1 ? "on" : "auto") : std::to_string(o.*FD[j].i); if (!(seen >> j & 1) && line(s, at, FD[j].name, v)) f = j; }
    sx_assert(f >= 0, "line that is not an option with its value"); if (f < 0) return; seen |= 1u << f;
  }
  sx_assert((seen | 1u << 18) == (1u << 28) - 1, "option missing in print-out"); sx_cover("printed");
  for (int j = 0; j < 28; ++j) if (FD[j].d) sx_eq(o.*FD[j].d, c.*FD[j].d, "printing changed an option"); else sx_assert(o.*FD[j].i == c.*FD[j].i, "printing changed an option");
}
extern "C" void names() {
  Options o = get_default_options(); const int v = sx_int("verbose", 0, 127), f = sx_int("flag", -5, 127); o.verbose = v;
  enable_verbose(f, o); sx_assert(o.verbose == (f > 0 ? (v | f) : 0), "enable_verbose"); const Options d = get_default_options(); Options e = o; e.verbose = d.verbose;
  for (int k = 0; k < 28; ++k) if (FD[k].d) sx_eq(e.*FD[k].d, d.*FD[k].d, "enable_verbose changed another option"); else sx_assert(e.*FD[k].i == d.*FD[k].i, "enable_verbose changed another option");
  o.verbose = v; const std::string n = get_verbose(o), x = vname(sx_conc(v)); sx_assert(n == x, "name of the verbose flags");
  sx_assert((hif_verbose(WARN, o) != 0) == ((v & 1) != 0) && (hif_verbose(INFO2, o) != 0) == ((v & 64) != 0) && (hif_verbose(FAC, o) != 0) == ((v & 8) != 0), "verbose test");
  hif_enable_verbose(3, nullptr); sx_assert(std::string(hif_get_reorder_name(nullptr)) == "Null", "no options"); sx_cover("names");
}
