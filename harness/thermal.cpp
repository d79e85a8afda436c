// Driver for spec/Thermal.tla: HeaterController, Heatload, Temperature (built from CSV files) under a set sky.
#include "hx.hpp"
#include <dynamics/thermal/temperature.hpp>
#include <environment/global/celestial_information.hpp>
#include <environment/global/physical_constants.hpp>
#include <environment/global/simulation_time.hpp>
#include <environment/local/local_celestial_information.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::dynamics::thermal;
namespace s2e::dynamics::thermal { Heatload InitHeatload(const std::vector<std::string>& time_str, const std::vector<std::string>& internal_heatload_str); }
extern "C" void stub_set_body(const char* name, const double s[6]);
typedef math::Vector<3> V;
static environment::SimulationTime* st;
static environment::CelestialInformation* ci;
static environment::LocalCelestialInformation* lci;
static environment::SolarRadiationPressureEnvironment* srp;
static environment::EarthAlbedo* alb; static environment::EarthInfrared* ir;
static Heater* h; static HeaterController* hcn; static Heatload* hl; static Temperature* th;
static V v3(double a, double b, double c) { V v; v[0] = a; v[1] = b; v[2] = c; return v; }
static void sky(const std::string& ek, const std::string& sk, int af, int hot, int cold, int j = 0) {
  V e = ek == "ax" ? v3(1, 0, 0) : v3(1, 1, 1).CalcNormalizedVector();
  V s = sk == "anti" ? -1.0 * e : sk == "hid" ? e : ek == "ax" ? v3(0, 1, 0) : v3(1, -1, 0).CalcNormalizedVector();
  V sc = -1.1 * (1 + 1e-7 * j) *   // j: distances that differ too little to matter
          environment::earth_equatorial_radius_m * e;
  V sun = sc + environment::astronomical_unit_m * s;
  double p[6] = {sun[0] / 1000, sun[1] / 1000, sun[2] / 1000, 0, 0, 0}, z[6] = {0, 0, 0, 0, 0, 0};
  stub_set_body("SUN", p); stub_set_body("EARTH", z);
  ci->UpdateAllObjectsInformation(*st);
  lci->UpdateAllObjectsInformation(sc, V(0.0), math::Quaternion(0, 0, 0, 1), V(0.0));
  srp->UpdateAllStates();
  alb->SetIsCalcEarthAlbedoEnabled(true); alb->SetEarthAlbedoFactor(af / 10.0); alb->UpdateAllStates();
  auto T = [](int w) { return std::pow(w / 5.670374419e-8, 0.25); };
  ir->SetIsCalcEarthInfraredEnabled(true); ir->SetEarthTempHotSide_K(T(hot)); ir->SetEarthTempColdSide_K(T(cold)); ir->UpdateAllStates();
}
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
static Js hstate() { Js r = Js::obj(); r["on"] = h->GetHeaterStatus() == HeaterStatus::kOn; r["p"] = hx::exact(h->GetPowerOutput_W() * 1000, 1); r["lo"] = hx::exact(hcn->GetLowerThreshold_degC(), 8); r["up"] = hx::exact(hcn->GetUpperThreshold_degC(), 8); return r; }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    Js r = Js::obj(); r["ok"] = true;
    if (op == "reset") {
      if (!st) st = new environment::SimulationTime(10, 1, 1, 1, 1, 1, 1, 1, 1, 1, "2020/01/01 11:00:00.0", 0);
      delete th; th = nullptr; delete h; h = nullptr; delete hcn; hcn = nullptr; delete hl; hl = nullptr;
      delete ir; delete alb; delete srp; delete lci; delete ci;
      ci = new environment::CelestialInformation("J2000", "NONE", "EARTH", 2, new int[2]{10, 399}, {"IDLE", "IDLE"});
      lci = new environment::LocalCelestialInformation(ci);
      srp = new environment::SolarRadiationPressureEnvironment(lci); srp->IsCalcEnabled = true;
      alb = new environment::EarthAlbedo(lci, srp); ir = new environment::EarthInfrared(lci, srp);
      sky("ax", "anti", 3, 240, 180);
    } else if (op == "hc") {
      std::vector<std::string> s = {"1", num(e.num("p") / 1000.0), num(e.num("lo") / 8.0), num(e.num("up") / 8.0)};
      delete h; delete hcn;
      h = new Heater(InitHeater(s)); hcn = new HeaterController(InitHeaterController(s));
      return hstate();
    } else if (op == "hset") { if (e.flag("lower")) hcn->SetLowerThreshold(e.num("v") / 8.0); else hcn->SetUpperThreshold(e.num("v") / 8.0); return hstate(); }
    else if (op == "hctl") { hcn->ControlHeater(h, e.num("T") / 8.0); return hstate(); }
    else if (op == "hl") {
      std::vector<std::string> t = {"x"}, v = {"0"};
      for (int x : e.ints("ts")) t.push_back(num(x));
      for (int x : e.ints("vs")) v.push_back(num(x / 1000.0));
      delete hl; hl = new Heatload(InitHeatload(t, v));
    } else if (op == "hq") {
      hl->SetElapsedTime_s(e.num("t2") / 2.0); hl->CalcInternalHeatload();
      hl->SetSolarHeatload_W(e.num("so") / 1e3); hl->SetAlbedoHeatload_W(e.num("al") / 1e3); hl->SetEarthInfraredHeatload_W(e.num("ir") / 1e3); hl->SetHeaterHeatload_W(e.num("he") / 1e3);
      hl->UpdateTotalHeatload();
      r = Js::obj(); r["v"] = hx::rnd(hl->GetInternalHeatload_W(), 1e3); r["tot"] = hx::rnd(hl->GetTotalHeatload_W(), 1e3);
    } else if (op == "net") {
      std::string d = std::string(getenv("VT_DIR")) + "/";
      std::ofstream n(d + "node.csv"), l(d + "heatload.csv"), q(d + "heaters.csv"), c(d + "cij.csv"), ra(d + "rij.csv"), i(d + "th.ini");
      n << "Node_id,label,type,heater,capacity,alpha,epsilon,area,nx,ny,nz,t\n"; l << "NodeID/Times[s]"; c << "[W/K]"; ra << "[m^2]";
      auto& N = e.at("nodes").a;
      const char* nv[] = {"2,0,0", "-2,0,0", "0,2,0", "0,-2,0", "0,0,2", "0,0,-2", "2,2,2", "-2,-2,-2", "0.1,0.1,0.1", "-0.3,-0.3,-0.3"};
      for (int t : e.ints("times")) l << "," << t;
      l << "\n"; for (size_t k = 0; k < N.size(); k++) { c << ",N" << k; ra << ",N" << k; } c << "\n"; ra << "\n";
      for (size_t k = 0; k < N.size(); k++) {
        n << k << ",N" << k << "," << N[k].num("type") << "," << N[k].num("heater") << "," << (N[k].num("type") ? 0 : N[k].num("cap")) << "," << N[k].num("al") / 10.0 << "," << N[k].num("ep") / 10.0
          << "," << N[k].num("area") / 100.0 << "," << nv[N[k].num("nv") - 1] << "," << num(N[k].num("t") / 1e3) << "\n";
        l << k; for (auto& x : e.at("loads").a[k].a) l << "," << num(x.i / 1e3); l << "\n";
        c << "N" << k; for (auto& x : e.at("cij").a[k].a) c << "," << num(x.i / 10.0); c << "\n";
        ra << "N" << k; for (auto& x : e.at("rij").a[k].a) ra << "," << num(x.i / 100.0); ra << "\n";
      }
      q << "id,power,lower,upper\n";
      for (size_t k = 0; k < e.at("heaters").a.size(); k++) { auto& x = e.at("heaters").a[k]; q << k + 1 << "," << num(x.num("p") / 1e3) << "," << num(x.num("lo") / 8.0) << "," << num(x.num("up") / 8.0) << "\n"; }
      i << "[THERMAL]\ncalculation=ENABLE\ndebug=DISABLE\nsolar_calc_setting=" << (e.flag("solar") ? "ENABLE" : "DISABLE") << "\nthermal_file_directory=" << d << "\n";
      n.close(); l.close(); q.close(); c.close(); ra.close(); i.close();
      delete th; th = InitTemperature(d + "th.ini", e.num("step"), srp, alb, ir);
    } else if (op == "env") sky(e.str("ek"), e.str("sk"), e.num("af"), e.num("hot"), e.num("cold"), e.has("j") ? e.num("j") : 0);
    else if (op == "prop") {
      th->Propagate(lci, e.num("t"));
      r = Js::obj();
      auto ns = th->GetNodes(); Js T = Js::arr(), hp = Js::arr();
      for (size_t k = 0; k < ns.size(); k++) { T.push(hx::rnd(ns[k].GetTemperature_K(), 1e3)); hp.push(hx::rnd(th->GetHeaterPower_W(k), 1e3)); }
      r["T"] = T; r["hp"] = hp;
      std::vector<double> v; std::stringstream ss(th->GetLogValue()); std::string t;
      while (std::getline(ss, t, ',')) v.push_back(atof(t.c_str()));
      const char* f[] = {"lt", "he", "so", "al", "ir"};
      size_t m = v.size() / 5;
      for (int k = 0; k < 5; k++) { Js a = Js::arr(); for (size_t j = 0; j < m; j++) a.push(hx::rnd(v[k * m + j], 1e3)); r[f[k]] = a; }
    }
    return r;
  });
}
