#include "SpiceUsr.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <array>
extern "C" {
#include "nrlmsise-00.h"
}
namespace {
struct Body { int id; const char* name; double gm; double r; };
const Body kBodies[] = {{10, "SUN", 132712440041.9394, 695700.0}, {399, "EARTH", 398600.4354360959, 6378.1366},
                        {301, "MOON", 4902.800066163796, 1737.4}, {4, "MARS_BARYCENTER", 42828.37362069909, 3396.19},
                        {499, "MARS", 42828.37362069909, 3396.19}, {199, "MERCURY", 22031.78, 2439.7}, {299, "VENUS", 324858.59, 6051.8}};
std::map<std::string, std::array<double, 6>>& State() {
  static std::map<std::string, std::array<double, 6>> s = {{"SUN", {149597870.0, 0, 0, 0, 0, 0}},
                                                           {"EARTH", {0, 0, 0, 0, 0, 0}},
                                                           {"MOON", {0, 384400.0, 0, -1.022, 0, 0}}};
  return s;
}
std::map<std::string, std::array<double, 6>>& Rate() { static std::map<std::string, std::array<double, 6>> s; return s; }
bool gSpin = false; double gSpinRate = 0, gSpinEt0 = 0;   // sxform: turned about x, deg/s
bool gOrigin = false;   // every observer at the origin: the centre body too can be placed anywhere
std::map<std::string, double>& Gm() { static std::map<std::string, double> s; return s; }
std::array<double, 6> Now(const std::string& n, double et) {
  std::array<double, 6> r{};
  if (State().count(n)) r = State()[n];
  if (Rate().count(n)) for (int i = 0; i < 6; i++) r[i] += Rate()[n][i] * et;
  return r;
}
}  // namespace
extern "C" {
void str2et_c(ConstSpiceChar* str, SpiceDouble* et) { double jd = 0; sscanf(str, "jd %lf", &jd); *et = (jd - 2451545.0) * 86400.0; }
void bodc2n_c(SpiceInt code, SpiceInt lenout, SpiceChar* name, SpiceBoolean* found) {
  *found = SPICEFALSE;
  for (auto& b : kBodies) if (b.id == code) { snprintf(name, (size_t)lenout, "%s", b.name); *found = SPICETRUE; return; }
}
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found) {
  *found = SPICEFALSE; *code = 0;
  for (auto& b : kBodies) if (!strcmp(b.name, name)) { *code = b.id; *found = SPICETRUE; return; }
}
void bodvcd_c(SpiceInt id, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values) {
  for (auto& b : kBodies) if (b.id == id) {
    if (!strcmp(item, "GM")) { *dim = 1; values[0] = Gm().count(b.name) ? Gm()[b.name] : b.gm; }
    else { *dim = maxn; for (int i = 0; i < maxn; i++) values[i] = b.r; }
    return;
  }
  *dim = 0;
}
void furnsh_c(ConstSpiceChar*) {}
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar*, ConstSpiceChar*, ConstSpiceChar* obs, SpiceDouble state[6], SpiceDouble* lt) {
  auto t = Now(target, et), o = gOrigin ? std::array<double, 6>{} : Now(obs, et);
  for (int i = 0; i < 6; i++) state[i] = t[i] - o[i];
  *lt = 0;
}
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble x[6][6]) {
  if (!gSpin) { for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) x[i][j] = i == j; return; }
  bool ok = !strcmp(from, "J2000") && !strcmp(to, "IAU_MOON");
  double t = gSpinRate * (et - gSpinEt0) * 3.14159265358979323846 / 180.0, c = cos(t), s = sin(t), m[3][3] = {{0, c, s}, {0, -s, c}, {1, 0, 0}};
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) x[i][j] = !ok ? 0.5 : i / 3 == j / 3 ? m[i % 3][j % 3] : i > j ? 7 : 0;
}
void stub_set_spin(double deg_s, double et0) { gSpin = true; gSpinRate = deg_s; gSpinEt0 = et0; }
void stub_set_body(const char* name, const double s[6]) { for (int i = 0; i < 6; i++) State()[name][i] = s[i]; }
void stub_set_gm(const char* name, double gm_km3_s2) { Gm()[name] = gm_km3_s2; }
void stub_observer_at_origin() { gOrigin = true; }
void stub_reset() { gOrigin = false; Gm().clear(); Rate().clear(); State() = {{"SUN", {149597870.0, 0, 0, 0, 0, 0}}, {"EARTH", {0, 0, 0, 0, 0, 0}}, {"MOON", {0, 384400.0, 0, -1.022, 0, 0}}}; }
void stub_set_rate(const char* name, const double s[6]) { for (int i = 0; i < 6; i++) Rate()[name][i] = s[i]; }
struct nrlmsise_input stub_msis_input;
int stub_msis_calls = 0;
void gtd7(struct nrlmsise_input* i, struct nrlmsise_flags*, struct nrlmsise_output* o) { stub_msis_input = *i; stub_msis_calls++; for (auto& d : o->d) d = 0; o->d[5] = 1e-15; }
void gtd7d(struct nrlmsise_input* i, struct nrlmsise_flags* f, struct nrlmsise_output* o) { gtd7(i, f, o); }
void ghp7(struct nrlmsise_input* i, struct nrlmsise_flags* f, struct nrlmsise_output* o, double) { gtd7(i, f, o); }
}
