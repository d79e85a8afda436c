// Driver for spec/Tle.tla: orbits from two-line elements.
#include "world.hpp"
#include <dynamics/orbit/initialize_orbit.hpp>
#include <dynamics/orbit/sgp4_orbit_propagation.hpp>
#include <memory>
using hx::Js;
using namespace s2e;
using namespace vw;
using namespace s2e::dynamics::orbit;
static World* w; static std::vector<std::unique_ptr<Orbit>> o; static std::vector<Js> conf; static int wgs; static bool ini;
static long days(long y, long m, long d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
static double epoch(const Js& e) { int y = (int)e.num("y"); return 2440587.5 + days(y < 57 ? 2000 + y : 1900 + y, 1, 1) + e.num("d") - 1 + e.num("f") / 8.0; }
static Orbit* make(const Js& e, double jd) {
  char a[80], b[80]; int bs = (int)e.num("b");
  snprintf(a, 80, "1 25544U 98067A   %02d%03d.%08d  .00001264  00000-0  %05d-%d 0  9992", (int)e.num("y"), (int)e.num("d"), (int)(e.num("f") * 12500000), bs, 3);
  snprintf(b, 80, "2 25544 %8.4f %8.4f %07d %8.4f %8.4f %11.8f 12345", e.num("i") / 1e3, e.num("o") / 1e3, (int)e.num("e") * 1000, e.num("w") / 1e3, e.num("m") / 1e3, e.num("n") / 1e4);
  strcat(b, "0");
  auto* c = &w->glo->GetCelestialInformation();
  if (!ini) return new Sgp4OrbitPropagation(c, a, b, wgs, jd);
  put(w->dir + "tle.ini", std::string("[ORBIT]\ncalculation = DISABLE\nlogging = DISABLE\npropagate_mode = SGP4\nwgs_setting = ") + std::to_string(wgs) + "\ntle1=" + a + "\ntle2=" + b + "\n");
  return InitOrbit(c, w->dir + "tle.ini", 1.0, jd, 3.986e14, "ORBIT", nullptr);
}
static double len(const V& a) { return sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); Js r = Js::obj();
    if (!w) { Opt k; k.mag = false; stub_reset(); w = new World(k, false); }
    if (op == "reset") {
      o.clear(); conf.clear(); wgs = (int)e.num("wgs"); ini = e.flag("ini");
      for (auto& s : e.at("s").a) { conf.push_back(s); o.emplace_back(make(s, epoch(s) + s.num("t0") / 1440.0)); }
      for (auto& x : o) x->SetIsCalcEnabled(true);
      r["p"] = Js::arr(); for (auto& x : o) r["p"].push(js(x->GetPosition_i_m(), 1e-2));
      return r;
    }
    size_t k = (size_t)e.num("k"); Orbit& x = *o[k];
    if (op == "flag") { x.SetIsCalcEnabled(e.flag("on")); return r; }
    double jd = epoch(conf[k]) + e.num("t") / 1440.0;
    x.Propagate(e.num("t") * 60.0, jd);
    V p = x.GetPosition_i_m(), v = x.GetVelocity_i_m_s(); r["p"] = js(p, 1e-2); r["v"] = js(v, 10);
    bool fin = true; for (int i = 0; i < 3; i++) fin = fin && std::isfinite(p[i]) && std::isfinite(v[i]) && fabs(p[i]) < 1e9 && fabs(v[i]) < 1e6;
    r["fin"] = fin; r["r"] = hx::rnd(len(p) / 1e3);
    if (op == "go") {
      std::unique_ptr<Orbit> f(make(conf[k], jd)), l(make(conf[k], jd - 1 / 86400.0)), n(make(conf[k], jd + 1 / 86400.0));
      r["d"] = hx::rnd(std::min(1e6, len(p - f->GetPosition_i_m()) * 100));
      r["dp"] = js(0.5 * (n->GetPosition_i_m() - l->GetPosition_i_m()), 10);
      V q = x.GetPosition_ecef_m(); r["q"] = hx::rnd(len(q) - len(p), 10);
    }
    return r;
  });
}
