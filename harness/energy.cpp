// Driver for spec/Energy.tla: SolarArrayPanel, Battery, PcuInitialStudy, CsvScenarioInterface on a real component clock.
#include "hx.hpp"
#include <components/real/power/battery.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <environment/global/celestial_information.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/global/physical_constants.hpp>
#include <environment/global/simulation_time.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::components;
extern "C" void stub_set_body(const char* name, const double s[6]);
static environment::SimulationTime* st;
static environment::CelestialInformation* ci;
static environment::LocalCelestialInformation* lci;
static environment::SolarRadiationPressureEnvironment* srp;
static environment::ClockGenerator* cg;
static std::vector<SolarArrayPanel*> saps;
static Battery* bat; static PcuInitialStudy* pcu;
typedef math::Vector<3> V;
static V vec(const std::vector<int>& x) { V v; for (int i = 0; i < 3; i++) v[i] = x[i]; return v; }
static void sky(V s, double d, bool ecl) {
  s = s.CalcNormalizedVector();
  V sc = (ecl ? -7.0e6 : 7.0e6) * s;   // behind the Earth, or between it and the Sun
  V sun = sc + d * environment::astronomical_unit_m * s;
  double p[6] = {sun[0] / 1000, sun[1] / 1000, sun[2] / 1000, 0, 0, 0}, z[6] = {0, 0, 0, 0, 0, 0};
  stub_set_body("SUN", p); stub_set_body("EARTH", z);
  ci->UpdateAllObjectsInformation(*st);
  lci->UpdateAllObjectsInformation(sc, V(0.0), math::Quaternion(0, 0, 0, 1), V(0.0));
  srp->UpdateAllStates();
}
static std::vector<double> log(const std::string& s) { std::vector<double> v; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) v.push_back(atof(t.c_str())); while (v.size() < 2) v.push_back(1e30); return v; }
static Js state() {
  Js r = Js::obj(), a = Js::arr();
  for (auto s : saps) a.push(hx::rnd(s->GetPowerGeneration_W(), 1000));
  r["sap"] = a;
  auto b = log(bat->GetLogValue()), p = log(pcu->GetLogValue());
  r["dod"] = hx::rnd(b[1], 1e6); r["vb"] = hx::rnd(bat->GetVoltage_V(), 1e4);
  r["cons"] = hx::rnd(p[0], 1e3); r["bus"] = hx::rnd(p[1], 1e4);
  return r;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    if (op == "reset") {
      std::string dir = std::string(getenv("VT_DIR")) + "/";
      if (!st) st = new environment::SimulationTime(10, 1, 1, 1, 1, 1, 1, 1, 1, 1, "2020/01/01 11:00:00.0", 0);
      delete pcu; delete bat; for (auto s : saps) delete s; saps.clear();
      delete srp; delete lci; delete ci; delete cg;
      ci = new environment::CelestialInformation("J2000", "NONE", "EARTH", 2, new int[2]{10, 399}, {"IDLE", "IDLE"});
      lci = new environment::LocalCelestialInformation(ci);
      srp = new environment::SolarRadiationPressureEnvironment(lci);
      srp->IsCalcEnabled = true;
      cg = new environment::ClockGenerator();
      {
        std::ofstream c(dir + "scen.csv");
        c << "time,x,y,z,flag,power\n";
        for (auto& row : e.at("rows").a) { auto d = row.ints("d"); c << row.num("t") << "," << d[0] << "," << d[1] << "," << d[2] << "," << row.num("flag") << "," << row.num("p") / 1000.0 << "\n"; }
        std::ofstream s(dir + "scen.ini");
        s << "[SCENARIO]\nis_csv_scenario_enabled=" << (e.flag("scen") ? "true" : "false") << "\ncsv_path=" << dir << "scen.csv\n";
      }
      CsvScenarioInterface::Initialize(dir + "scen.ini");
      double step = e.num("step");
      bool ini = e.flag("ini");
      auto& S = e.at("saps").a;
      // full power k mW = cell efficiency * transmission * 1366 * area * series * parallel
      auto area = [&](const Js& s) { return s.num("k") / 1000.0 / (0.25 * 0.5 * 1366.0 * 3 * 2); };
      double cap = e.num("cap") / 10.0, cc = e.num("cc") / 1000.0 / cap / e.num("par");
      if (ini) {
        std::ofstream o(dir + "pw.ini");
        o.precision(17);
        for (size_t i = 0; i < S.size(); i++) {
          auto nv = S[i].ints("nv");
          o << "[SOLAR_ARRAY_PANEL_" << i << "]\nprescaler=" << S[i].num("pre") << "\nnumber_of_series=3\nnumber_of_parallel=2\ncell_area_m2=" << area(S[i]) << "\nnormal_vector_b(0)=" << nv[0]
            << "\nnormal_vector_b(1)=" << nv[1] << "\nnormal_vector_b(2)=" << nv[2] << "\ncell_efficiency=0.25\ntransmission_efficiency=0.5\n";
        }
        o << "[BATTERY_0]\nprescaler=" << e.num("bpre") << "\nnumber_of_series=" << e.num("ser") << "\nnumber_of_parallel=" << e.num("par") << "\ncell_capacity_Ah=" << cap
          << "\napproximation_order=2\ncell_discharge_curve_coefficients(0)=" << e.num("c0") / 1e3 << "\ncell_discharge_curve_coefficients(1)=" << e.num("c1") / 1e3
          << "\ncell_discharge_curve_coefficients(2)=" << e.num("c2") / 1e3 << "\ninitial_dod=" << e.num("dod") / 1e6 << "\nconstant_charge_current_rate_C=" << cc
          << "\nconstant_voltage_charge_voltage_V=" << e.num("cv") / 1e4 << "\nbattery_resistance_Ohm=" << e.num("res") / 1e3 << "\n[PCU_INITIAL_STUDY_0]\nprescaler=" << e.num("ppre") << "\n";
        o.close();
      }
      // the battery and the panels must exist before the controller; the clock order is set by re-registering
      for (size_t i = 0; i < S.size(); i++)
        saps.push_back(ini ? new SolarArrayPanel(InitSAP(cg, (int)i, dir + "pw.ini", srp, lci, step))
                           : new SolarArrayPanel(S[i].num("pre"), cg, (int)i, 3, 2, area(S[i]), vec(S[i].ints("nv")), 0.25, 0.5, srp, lci, step));
      bat = ini ? new Battery(InitBAT(cg, 0, dir + "pw.ini", step))
                : new Battery(e.num("bpre"), cg, e.num("ser"), e.num("par"), cap, {e.num("c0") / 1e3, e.num("c1") / 1e3, e.num("c2") / 1e3}, e.num("dod") / 1e6, cc, e.num("cv") / 1e4, e.num("res") / 1e3, step);
      pcu = ini ? new PcuInitialStudy(InitPCU_InitialStudy(cg, 0, dir + "pw.ini", saps, bat, step)) : new PcuInitialStudy(e.num("ppre"), cg, saps, bat, step);
      for (auto s : saps) cg->RemoveComponent(s);
      cg->RemoveComponent(bat); cg->RemoveComponent(pcu);
      for (int c : e.ints("order")) { ITickable* t = c == 10 ? (ITickable*)bat : c == 11 ? (ITickable*)pcu : (ITickable*)saps[c - 1]; cg->RegisterComponent(t); }
      sky(vec({1, 0, 0}), 1, false);
    } else if (op == "env") sky(vec(e.ints("s")), e.num("d") / 2.0, e.flag("ecl"));
    else cg->TickToComponents();
    return state();
  });
}
