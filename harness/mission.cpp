// Driver for spec/Mission.tla: a whole simulation (SimulationCase, GlobalEnvironment, Spacecraft, Dynamics, Disturbances,
// Logger) with probe components.  `reset` runs the simulation to its end; the `step` operations return what was recorded.
#include "hx.hpp"
#include <SpiceUsr.h>
#include <filesystem>
#include <components/base/component.hpp>
#include <simulation/case/simulation_case.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <simulation/spacecraft/installed_components.hpp>
using hx::Js;
using namespace s2e;
namespace fs = std::filesystem;

static std::vector<std::string> g_ev;            // events of the current step
static std::vector<Js> g_steps;                  // recorded steps
struct Script { std::vector<int> f, t; };
static std::map<int, Script> g_script;
static double g_unit = 8.0;

struct Probe : components::Component, logger::ILoggable {
  int sc, pre; int latched = 0; int runs = 0; int idx = -1; int logged = 0;
  Probe(int sc_, int pre_, environment::ClockGenerator* cg) : Component(pre_, cg), sc(sc_), pre(pre_) {}
  void MainRoutine(const int t) override { runs++; idx = t; g_ev.push_back("m" + std::to_string(sc)); }
  std::string GetLogHeader() const override { return logger::WriteScalar("probe_runs") + logger::WriteVector("probe", "b", "-", 3); }
  std::string GetLogValue() const override { return logger::WriteScalar(runs) + logger::WriteVector(math::Vector<3>(runs)); }
};
struct Comps : spacecraft::InstalledComponents {
  Probe p; int ic = 0; bool g = false;
  Comps(int sc, int pre, environment::ClockGenerator* cg) : p(sc, pre, cg) {}
  void ev() { if (!g) { g_ev.push_back("g" + std::to_string(p.sc)); g = true; } }
  int at(const std::vector<int>& v) { return p.idx < 0 || v.empty() ? 0 : v[(size_t)p.idx % v.size()]; }
  math::Vector<3> GenerateForce_b_N() override { ev(); math::Vector<3> f(0.0); f[2] = at(g_script[p.sc].f) + ic; return f; }
  math::Vector<3> GenerateTorque_b_Nm() override { ev(); math::Vector<3> t(0.0); t[2] = (at(g_script[p.sc].t) + 2 * ic) / 1024.0; return t; }
  void ComponentInterference() override { ic++; g = false; g_ev.push_back("i" + std::to_string(p.sc)); }
  void LogSetup(logger::Logger& l) override { l.AddLogList(&p); }
};
struct Sc : spacecraft::Spacecraft {
  Comps* c;
  math::Vector<3> p0, v0; math::Quaternion q0;
  const math::Quaternion q() const { return dynamics_->GetAttitude().GetQuaternion_i2b(); }
  double srp_p = -1, sun_b = -1, mag = -1, acc = -1, frc = -1, trq = -1; 
  Sc(const simulation::SimulationConfiguration* s, const environment::GlobalEnvironment* g, int id, int pre) : Spacecraft(s, g, id) {
    c = new Comps(id, pre, &clock_generator_); components_ = c;
    p0 = dynamics_->GetOrbit().GetPosition_i_m(); v0 = dynamics_->GetOrbit().GetVelocity_i_m_s();
    snap(nullptr);
  }
  // what changed since the last look: [sun direction in body, solar pressure, magnetic field, position-only disturbance, attitude-dependent disturbance]
  void snap(Js* r) {
    auto le = local_environment_;
    double a = le->GetCelestialInformation().GetPositionFromSpacecraft_i_m("SUN")[0];
    double b = le->GetSolarRadiationPressure().GetPressure_N_m2();
    double m = le->GetGeomagneticField().GetGeomagneticField_i_nT()[0];
    double x = disturbances_->GetAcceleration_i_m_s2()[0], f = disturbances_->GetForce_b_N()[0], t = disturbances_->GetTorque_b_Nm()[2];
    if (r) { Js j = Js::arr(); j.push(a != sun_b); j.push(b != srp_p); j.push(m != mag); j.push(x != acc); j.push(f != frc); (*r)["chg"] = j; }
    sun_b = a; srp_p = b; mag = m; acc = x; frc = f; trq = t;
  }
  Js state(bool dist) {
    Js r = Js::obj();
    auto& o = dynamics_->GetOrbit(); auto& at = dynamics_->GetAttitude();
    if (dist) {
      snap(&r);
      r["df"] = hx::rnd(q0.InverseFrameConversion(disturbances_->GetForce_b_N())[0], 1e4); r["da"] = hx::rnd(disturbances_->GetAcceleration_i_m_s2()[0], 1e4);
      r["dt"] = hx::rnd(disturbances_->GetTorque_b_Nm()[2], 1e3);
      r["vx"] = hx::rnd((o.GetVelocity_i_m_s() - v0)[0], 1e4);
      r["w"] = hx::rnd(at.GetAngularVelocity_b_rad_s()[2] * 65536.0, 1e3);
    } else {
      math::Vector<3> p = o.GetPosition_i_m() - p0, v = o.GetVelocity_i_m_s() - v0;
      r["p"] = hx::rnd(p[2], 1024); r["v"] = hx::rnd(v[2], 1024);
      r["xy"] = hx::rnd(std::fabs(v[0]) + std::fabs(v[1]), 1024);
      r["w"] = hx::rnd(at.GetAngularVelocity_b_rad_s()[2] * 1024, 1024);
    }
    return r;
  }
};

static void put(const std::string& f, const std::string& s) { std::ofstream(f) << s; }
static const Js* g_cfg;
struct Case : simulation::SimulationCase {
  std::vector<std::unique_ptr<Sc>> scs; int updates = 0; bool dist;
  Case(const std::string& b, bool d) : SimulationCase(b), dist(d) {}
  ~Case() override {}
  environment::SimulationTime const& st() { return global_environment_->GetSimulationTime(); }
  void InitializeTargetObjects() override {
    auto pre = g_cfg->ints("pre");
    for (size_t i = 0; i < pre.size(); i++) { scs.emplace_back(new Sc(&simulation_configuration_, global_environment_, (int)i, pre[i])); scs.back()->LogSetup(*simulation_configuration_.main_logger_); }
  }
  void UpdateTargetObjects() override {
    Js r = Js::obj();
    updates++;
    if (updates > 5000) { fprintf(stderr, "run does not end\n"); abort(); }
    r["el"] = hx::exact(st().GetElapsedTime_s(), g_unit);
    Js a = Js::arr();
    for (auto& s : scs) {
      g_ev.clear();
      s->q0 = s->q();
      s->Update(&st());
      Js x = s->state(dist);
      x["ev"] = Js(std::vector<std::string>(g_ev));
      a.push(x);
    }
    r["sc"] = a;
    g_steps.push_back(r);
  }
};
static std::vector<std::string> split(const std::string& l) { std::vector<std::string> v; std::string c; for (char ch : l) { if (ch == ',') { v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back(c); return v; }

int main(int argc, char** argv) {
  std::string base = getenv("VT_DIR") ? getenv("VT_DIR") : "/tmp";
  int runno = 0; size_t at = 0; Js logres;
  return hx::run(argc, argv, [&](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    if (op == "reset") {
      g_cfg = &e; g_script.clear(); g_steps.clear(); at = 0;
      bool dist = e.flag("dist");
      stub_reset();
      if (!dist) stub_set_gm("EARTH", 0.0);
      else {
        stub_set_gm("EARTH", 0.0); stub_set_gm("SUN", 1.5e17);
        double rate[6] = {0.001, 1000.0, 0, 0, 0, 0}, b[6] = {149597870.0, 3e7 - 1000.0 * 639014400.0, 0, 0, 0, 0};
        stub_set_body("SUN", b); stub_set_rate("SUN", rate);
      }
      std::string d = base + "/run" + std::to_string(runno++) + "/";
      fs::create_directories(d + "logs");
      auto u = [&](const char* k) { char b[40]; snprintf(b, 40, "%.17g", e.num(k) / g_unit); return std::string(b); };
      auto pre = e.ints("pre");
      std::ostringstream o;
      o << "[TIME]\nsimulation_start_time_utc = 2020/04/01 12:00:00.0\nsimulation_duration_s = " << u("end") << "\nsimulation_step_s = " << u("step")
        << "\nattitude_update_period_s = " << u("att") << "\nattitude_integral_step_s = " << u("step") << "\norbit_update_period_s = " << u("orb")
        << "\norbit_integral_step_s = " << u("step") << "\nthermal_update_period_s = " << u("orb") << "\nthermal_integral_step_s = " << u("step")
        << "\ncomponent_update_period_s = " << u("comp") << "\nlog_output_period_s = " << u("log") << "\nsimulation_speed_setting = 0\n"
        << "[CELESTIAL_INFORMATION]\nlogging = ENABLE\ninertial_frame = J2000\ncenter_object = EARTH\naberration_correction = NONE\nnumber_of_selected_body = 3\n"
        << "selected_body_name(0) = EARTH\nselected_body_name(1) = SUN\nselected_body_name(2) = MOON\nrotation_mode(0) = SIMPLE\nrotation_mode(1) = DISABLE\nrotation_mode(2) = SIMPLE\n"
        << "[CSPICE_KERNELS]\ntls = x\ntpc1 = x\ntpc2 = x\ntpc3 = x\nbsp = x\n[HIPPARCOS_CATALOGUE]\ncatalogue_file_path = none.csv\nmax_magnitude = 3.0\ncalculation = DISABLE\nlogging = DISABLE\n"
        << "[SIMULATION_SETTINGS]\nsave_initialize_files = ENABLE\nnumber_of_simulated_spacecraft = " << pre.size() << "\nnumber_of_simulated_ground_station = 0\n";
      for (size_t i = 0; i < pre.size(); i++) o << "spacecraft_file(" << i << ")=" << d << "sc" << i << ".ini\n";
      o << "gnss_file=" << d << "gnss.ini\nlog_file_save_directory=" << d << "logs/\n";
      put(d + "base.ini", o.str());
      put(d + "gnss.ini", "[GNSS_SATELLITES]\ncalculation = DISABLE\nlogging = DISABLE\n");
      const char* en = dist ? "ENABLE" : "DISABLE";
      std::ostringstream le;
      le << "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = " << en << "\nlogging = ENABLE\ncoefficient_file = SETTINGS_DIR_FROM_EXE/environment/magnetic_field/igrf13.coef\n"
         << "magnetic_field_random_walk_standard_deviation_nT = 0.0\nmagnetic_field_random_walk_limit_nT = 0.0\nmagnetic_field_white_noise_standard_deviation_nT = 0.0\n"
         << "[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\nlogging = ENABLE\nnumber_of_third_shadow_source = 0\n[EARTH_ALBEDO]\ncalculation = DISABLE\nearth_albedo_factor = 0.3\n[EARTH_INFRARED]\ncalculation = DISABLE\n"
         << "[ATMOSPHERE]\ncalculation = DISABLE\nlogging = ENABLE\nmodel = STANDARD\nis_manual_parameter_used = ENABLE\nmanual_daily_f107 = 150\nmanual_average_f107 = 150\nmanual_ap = 3\nair_density_standard_deviation = 0.0\n"
         << "[LOCAL_CELESTIAL_INFORMATION]\nlogging = ENABLE\n";
      put(d + "le.ini", le.str());
      std::ostringstream di;
      for (const char* s : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "GRAVITY_GRADIENT"}) di << "[" << s << "]\ncalculation = DISABLE\nlogging = ENABLE\ndegree = 4\n";
      di << "[SOLAR_RADIATION_PRESSURE_DISTURBANCE]\ncalculation = " << en << "\nlogging = ENABLE\n[THIRD_BODY_GRAVITY]\ncalculation = " << en << "\nlogging = ENABLE\nnumber_of_third_body = 1\nthird_body_name(0) = SUN\n";
      put(d + "di.ini", di.str());
      std::ostringstream ss;
      ss << "[KINEMATIC_PARAMETERS]\n";
      for (int i = 0; i < 9; i++) ss << "inertia_tensor_kgm2(" << i << ") = " << (dist ? (i % 4 ? 0 : 65536) : (i % 4 ? 0 : 1)) << "\n";
      ss << "mass_kg = " << e.num("mass") << "\ncenter_of_gravity_b_m(0) = 0\ncenter_of_gravity_b_m(1) = 0\ncenter_of_gravity_b_m(2) = 0\n"
         << "[SURFACES]\nnumber_of_surfaces = 1\narea_0_m2 = 1000000\nposition_0_b_m(0) = 0\nposition_0_b_m(1) = 1\nposition_0_b_m(2) = 0\nnormal_vector_0_b(0) = 1\nnormal_vector_0_b(1) = 0\nnormal_vector_0_b(2) = 0\n"
         << "reflectivity_0 = 0.4\nspecularity_0 = 0.4\nair_specularity_0 = 0.4\n[RESIDUAL_MAGNETIC_MOMENT]\nrmm_constant_b_Am2(0) = 0\n";
      put(d + "st.ini", ss.str());
      Js fl = Js::arr();
      for (size_t i = 0; i < pre.size(); i++) {
        std::ostringstream sc;
        sc << "[ATTITUDE]\npropagate_mode = RK4\ninitialize_mode = MANUAL\ninitial_quaternion_i2b(0) = 0\ninitial_quaternion_i2b(1) = 0\ninitial_quaternion_i2b(2) = 0\ninitial_quaternion_i2b(3) = 1\n"
           << "[ORBIT]\ncalculation = ENABLE\nlogging = ENABLE\npropagate_mode = RK4\ninitialize_mode = POSITION_VELOCITY_I\ninitial_position_i_m(0) = " << 7000000 + 10000 * (int)i << "\ninitial_position_i_m(1) = 0\ninitial_position_i_m(2) = 0\n"
           << "initial_velocity_i_m_s(0) = 0\ninitial_velocity_i_m_s(1) = 4\ninitial_velocity_i_m_s(2) = 2\n[THERMAL]\ncalculation = DISABLE\n"
           << "[SETTING_FILES]\nlocal_environment_file=" << d << "le.ini\ndisturbance_file=" << d << "di.ini\nstructure_file=" << d << "st.ini\n";
        put(d + "sc" + std::to_string(i) + ".ini", sc.str());
        g_script[(int)i].f = std::vector<int>(); for (auto& x : e.at("f").a[i].a) g_script[(int)i].f.push_back((int)x.i);
        for (auto& x : e.at("t").a[i].a) g_script[(int)i].t.push_back((int)x.i);
      }
      std::cout.setstate(std::ios::failbit);
      logres = Js::obj();
      {
        Case c(d + "base.ini", dist);
        c.Initialize();
        c.Main();
        c.GetSimulationConfiguration();
        fs::path lp = c.GetSimulationConfiguration().main_logger_->GetLogPath();
        // close the log (SimulationConfiguration's destructor may do it too)
        c.scs.clear();
        delete c.GetSimulationConfiguration().main_logger_; c.GetSimulationConfiguration().main_logger_ = nullptr;
        int files = 0, inis = 0; std::string csv;
        for (auto& x : fs::directory_iterator(lp)) { if (x.path().extension() == ".csv") { files++; csv = x.path().string(); } std::string fn = x.path().filename().string(); if (fn == "base.ini" || fn == "le.ini" || fn == "di.ini" || fn == "st.ini" || fn.rfind("sc", 0) == 0) inis++; }
        std::ifstream in(csv); std::string l; std::getline(in, l);
        auto h = split(l);
        size_t probes = 0; std::vector<size_t> pc; size_t tc = h.size();
        for (size_t i = 0; i < h.size(); i++) { if (h[i].rfind("probe_runs", 0) == 0) pc.push_back(i); if (h[i].rfind("elapsed_time", 0) == 0) tc = i; }
        Js rows = Js::arr(); bool wide = true; int n = 0;
        while (std::getline(in, l)) {
          auto v = split(l); n++;
          if (v.size() != h.size()) { wide = false; continue; }
          Js row = Js::arr(); row.push(tc < v.size() ? hx::exact(atof(v[tc].c_str()), g_unit) : -1);
          for (size_t k : pc) row.push(atoi(v[k].c_str()));
          rows.push(row);
        }
        logres["rows"] = rows; logres["rect"] = wide; logres["n"] = n; logres["files"] = files; logres["inis"] = inis; logres["cols"] = (int)pc.size();
      }
      r["steps"] = (int)g_steps.size();
    } else if (op == "step") {
      if (at < g_steps.size()) r = g_steps[at++]; else r["none"] = true;
    } else if (op == "end") r = logres;
    return r;
  });
}
