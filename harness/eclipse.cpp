// Driver for spec/Eclipse.tla: SolarRadiationPressureEnvironment on real (local) celestial information with placed bodies.
#include "hx.hpp"
#include <environment/global/celestial_information.hpp>
#include <environment/global/physical_constants.hpp>
#include <environment/global/simulation_time.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
using hx::Js;
using namespace s2e;
extern "C" void stub_set_body(const char* name, const double s[6]);
static environment::SimulationTime* st;
static environment::CelestialInformation* ci;
static environment::LocalCelestialInformation* lci;
static environment::SolarRadiationPressureEnvironment* srp;
struct Disc { double r, s; int az; };
static std::map<std::string, Disc> disc;
static double sun_d; static int dir;
typedef math::Vector<3> V;
static V vec(double x, double y, double z) { V v; v[0] = x; v[1] = y; v[2] = z; return v; }
static const double dirs[6][3] = {{1, 0, 0}, {1, 2, 3}, {-2, 1, 5}, {0.3, -0.7, 0.1}, {0, 0, -1}, {-7, -3, 2}};
// positions: the spacecraft sees the Sun along u, each body at the wanted angle from it
static void place() {
  V u = vec(dirs[dir][0], dirs[dir][1], dirs[dir][2]).CalcNormalizedVector();
  V p = OuterProduct(u, vec(0.1, 0.9, -0.4)).CalcNormalizedVector(), q = OuterProduct(u, p);
  double D = sun_d * environment::astronomical_unit_m, a = asin(695700e3 / D);
  std::map<std::string, double> rad = {{"EARTH", 6378136.6}, {"MOON", 1737.4e3}, {"MARS", 3396.19e3}, {"VENUS", 6051.8e3}};
  auto rel = [&](const std::string& b) { const Disc& d = disc[b]; double c = d.s / 16.0 * a, w = d.az * 1.1; V m = cos(c) * u + sin(c) * (cos(w) * p + sin(w) * q); return (rad[b] / sin(d.r / 16.0 * a)) * m; };
  V sc = -1.0 * rel("EARTH");   // the Earth is the centre, so the spacecraft sits opposite
  auto put = [&](const char* n, const V& v) { double s[6] = {v[0] / 1000, v[1] / 1000, v[2] / 1000, 0, 0, 0}; stub_set_body(n, s); stub_set_body((std::string(n) + "_BARYCENTER").c_str(), s); };
  put("EARTH", vec(0, 0, 0)); put("SUN", sc + D * u);
  for (auto n : {"MOON", "MARS", "VENUS"}) put(n, sc + rel(n));
  ci->UpdateAllObjectsInformation(*st);
  lci->UpdateAllObjectsInformation(sc, vec(0, 0, 0), math::Quaternion(0, 0, 0, 1), vec(0, 0, 0));
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    if (op == "reset") {
      if (!st) st = new environment::SimulationTime(10, 1, 1, 1, 1, 1, 1, 1, 1, 1, "2020/01/01 11:00:00.0", 0);
      int* ids = new int[5]{10, 399, 301, 499, 299};
      delete srp; delete lci; delete ci;
      ci = new environment::CelestialInformation("J2000", "NONE", "EARTH", 5, ids, {"EARTH", "IDLE", "MOON", "IDLE"});
      lci = new environment::LocalCelestialInformation(ci);
      disc = {{"EARTH", {16, 64, 0}}, {"MOON", {16, 64, 1}}, {"MARS", {16, 64, 2}}, {"VENUS", {16, 64, 3}}};
      sun_d = 1; dir = e.num("dir");
      place();
      std::vector<std::string> third;
      for (auto& x : e.at("third").a) third.push_back(x.s);
      if (e.flag("ini")) {
        std::string f = std::string(getenv("VT_DIR")) + "/srp.ini";
        std::ofstream o(f);
        o << "[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation=" << (e.flag("calc") ? "ENABLE" : "DISABLE") << "\nlogging=DISABLE\nnumber_of_third_shadow_source=" << third.size() << "\n";
        for (size_t i = 0; i < third.size(); i++) o << "third_shadow_source_name(" << i << ")=" << third[i] << "\n";
        o.close();
        srp = new environment::SolarRadiationPressureEnvironment(environment::InitSolarRadiationPressureEnvironment(f, lci));
      } else {
        srp = new environment::SolarRadiationPressureEnvironment(lci);
        for (auto& t : third) srp->AddShadowSource(t);
        srp->IsCalcEnabled = e.flag("calc");
      }
      return r;
    }
    if (op == "place") { disc[e.str("b")] = {(double)e.num("q"), (double)e.num("s"), e.num("az")}; r["ok"] = true; return r; }
    if (op == "sun") { sun_d = e.num("d") / 2.0; r["ok"] = true; return r; }
    place();
    srp->UpdateAllStates();
    r["c"] = hx::rnd(srp->GetShadowCoefficient(), 1e4);
    r["ecl"] = srp->GetIsEclipsed();
    r["dens"] = hx::rnd(srp->GetPowerDensity_W_m2(), 100);
    r["full"] = hx::rnd(srp->GetPressureWithoutEclipse_Nm2() * environment::speed_of_light_m_s, 100);
    r["press"] = hx::rnd(srp->GetPressure_N_m2() * environment::speed_of_light_m_s, 100);
    double p = 0, c = -1; char comma;
    std::istringstream is(srp->GetLogValue()); is >> p >> comma >> c;
    r["logc"] = hx::rnd(c, 1e4);
    return r;
  });
}
