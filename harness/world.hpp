// A complete spacecraft environment built from settings files written in the scratch directory: global and local
// environment, structure and dynamics, with the celestial bodies placed relative to the spacecraft (stub ephemeris).
#pragma once
#include "hx.hpp"
#include <dynamics/dynamics.hpp>
#include <environment/global/global_environment.hpp>
#include <environment/global/physical_constants.hpp>
#include <environment/local/local_environment.hpp>
#include <simulation/simulation_configuration.hpp>
#include <simulation/spacecraft/structure/structure.hpp>
extern "C" {
void stub_set_body(const char* name, const double s[6]);
void stub_set_gm(const char* name, double gm_km3_s2);
void stub_reset();
void stub_observer_at_origin();
}
namespace vw {
using namespace s2e;
typedef math::Vector<3> V;
inline V vec(double x, double y, double z) { V v; v[0] = x; v[1] = y; v[2] = z; return v; }
inline V vec(const std::vector<int>& x, double k = 1) { return vec(x[0] * k, x[1] * k, x[2] * k); }
inline math::Quaternion quat(const std::vector<int>& x) { math::Quaternion q(x[0], x[1], x[2], x[3]); q.Normalize(); return q; }
inline hx::Js js(const V& v, double k) { hx::Js a = hx::Js::arr(); for (int i = 0; i < 3; i++) a.push(hx::rnd(v[i], k)); return a; }
inline void put(const std::string& f, const std::string& s) { std::ofstream(f) << s; }
struct Opt {
  std::string start = "2020/04/01 12:00:00.0", gnss = "[GNSS_SATELLITES]\ncalculation = DISABLE\nlogging = DISABLE\n", hip = "none.csv", magmax = "3.0", catalogue;
  double step = 1, end = 1e6, mass = 10;
  double gm = 0;
  bool mag = true;
  std::string earth_rotation = "SIMPLE";
  std::vector<V> pos{vec(7e6, 0, 0)}, vel{vec(0, 0, 0)};
  std::vector<std::string> orbit;   // replaces the [ORBIT] section of the spacecraft
  V inertia = vec(1, 1, 1);
  std::string surfaces = "number_of_surfaces = 0\n", rmm, attitude;
  V cg = vec(0, 0, 0);
};
struct World {
  std::string dir; Opt o;
  simulation::SimulationConfiguration conf;
  environment::GlobalEnvironment* glo = nullptr;
  struct Sc { environment::LocalEnvironment* loc; spacecraft::Structure* str; dynamics::Dynamics* dyn; };
  std::vector<Sc> sc;
  World(const Opt& opt, bool with_sc = true, simulation::RelativeInformation* rel = nullptr) : o(opt) {
    dir = std::string(getenv("VT_DIR") ? getenv("VT_DIR") : "/tmp") + "/";
    files();
    std::cout.setstate(std::ios::failbit);
    conf.initialize_base_file_name_ = dir + "base.ini";
    conf.main_logger_ = new logger::Logger("x.csv", dir + "log", "", false, false);
    conf.number_of_simulated_spacecraft_ = (unsigned)o.pos.size();
    for (size_t i = 0; i < o.pos.size(); i++) conf.spacecraft_file_list_.push_back(dir + "sc" + std::to_string(i) + ".ini");
    conf.number_of_simulated_ground_station_ = 0;
    conf.gnss_file_ = dir + "gnss.ini";
    stub_set_gm("EARTH", o.gm);
    glo = new environment::GlobalEnvironment(&conf);
    glo->Reset();
    if (with_sc)
      for (size_t i = 0; i < o.pos.size(); i++) {
        Sc s; s.loc = new environment::LocalEnvironment(&conf, glo, (int)i); s.str = new spacecraft::Structure(&conf, (int)i);
        s.dyn = new dynamics::Dynamics(&conf, &glo->GetSimulationTime(), s.loc, (int)i, s.str, rel);
        sc.push_back(s);
      }
  }
  ~World() { for (auto& s : sc) { delete s.dyn; delete s.str; delete s.loc; } delete glo; }
  const environment::SimulationTime& time() const { return glo->GetSimulationTime(); }
  // body at a position relative to spacecraft i [m]
  void place(const char* name, const V& rel_m, size_t i = 0) {
    V p = sc[i].dyn->GetOrbit().GetPosition_i_m() + rel_m;
    double s[6] = {p[0] / 1000, p[1] / 1000, p[2] / 1000, 0, 0, 0};
    stub_set_body(name, s);
  }
  static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
  void files() {
    std::ostringstream b;
    b << "[TIME]\nsimulation_start_time_utc = " << o.start << "\nsimulation_duration_s = " << num(o.end) << "\n";
    for (const char* k : {"simulation_step_s", "attitude_update_period_s", "attitude_integral_step_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"})
      b << k << " = " << num(o.step) << "\n";
    b << "simulation_speed_setting = 0\n[CELESTIAL_INFORMATION]\nlogging = ENABLE\ninertial_frame = J2000\ncenter_object = EARTH\naberration_correction = NONE\nnumber_of_selected_body = 3\n"
      << "selected_body_name(0) = EARTH\nselected_body_name(1) = SUN\nselected_body_name(2) = MOON\nrotation_mode(0) = " << o.earth_rotation << "\nrotation_mode(1) = DISABLE\nrotation_mode(2) = SIMPLE\n"
      << "[CSPICE_KERNELS]\ntls = x\ntpc1 = x\ntpc2 = x\ntpc3 = x\nbsp = x\n[HIPPARCOS_CATALOGUE]\ncatalogue_file_path=" << (o.catalogue.empty() ? "none.csv" : dir + "hip.csv") << "\nmax_magnitude = " << o.magmax
      << "\ncalculation = " << (o.catalogue.empty() ? "DISABLE" : "ENABLE") << "\nlogging = DISABLE\n";
    put(dir + "base.ini", b.str());
    if (!o.catalogue.empty()) put(dir + "hip.csv", o.catalogue);
    put(dir + "gnss.ini", o.gnss);
    std::ostringstream le;
    le << "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = " << (o.mag ? "ENABLE" : "DISABLE") << "\nlogging = ENABLE\ncoefficient_file = SETTINGS_DIR_FROM_EXE/environment/magnetic_field/igrf13.coef\n"
       << "magnetic_field_random_walk_standard_deviation_nT = 0.0\nmagnetic_field_random_walk_limit_nT = 0.0\nmagnetic_field_white_noise_standard_deviation_nT = 0.0\n"
       << "[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\nlogging = ENABLE\nnumber_of_third_shadow_source = 0\n[EARTH_ALBEDO]\ncalculation = DISABLE\nearth_albedo_factor = 0.3\n[EARTH_INFRARED]\ncalculation = DISABLE\n"
       << "[ATMOSPHERE]\ncalculation = DISABLE\nlogging = ENABLE\nmodel = STANDARD\nis_manual_parameter_used = ENABLE\nmanual_daily_f107 = 150\nmanual_average_f107 = 150\nmanual_ap = 3\nair_density_standard_deviation = 0.0\n"
       << "[LOCAL_CELESTIAL_INFORMATION]\nlogging = ENABLE\n";
    put(dir + "le.ini", le.str());
    std::ostringstream di;
    for (const char* s : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY"})
      di << "[" << s << "]\ncalculation = DISABLE\nlogging = ENABLE\ndegree = 4\n";
    put(dir + "di.ini", di.str());
    std::ostringstream ss;
    ss << "[KINEMATIC_PARAMETERS]\n";
    for (int i = 0; i < 9; i++) ss << "inertia_tensor_kgm2(" << i << ") = " << num(i % 4 ? 0 : o.inertia[i / 4]) << "\n";
    ss << "mass_kg = " << num(o.mass) << "\n";
    for (int i = 0; i < 3; i++) ss << "center_of_gravity_b_m(" << i << ") = " << num(o.cg[i]) << "\n";
    ss << "[SURFACES]\n" << o.surfaces << "[RESIDUAL_MAGNETIC_MOMENT]\n" << (o.rmm.empty() ? "rmm_constant_b_Am2(0) = 0\n" : o.rmm);
    put(dir + "st.ini", ss.str());
    for (size_t i = 0; i < o.pos.size(); i++) {
      std::ostringstream sc;
      sc << "[ATTITUDE]\n" << (o.attitude.empty() ? "propagate_mode = RK4\ninitialize_mode = MANUAL\ninitial_quaternion_i2b(0) = 0\ninitial_quaternion_i2b(1) = 0\ninitial_quaternion_i2b(2) = 0\ninitial_quaternion_i2b(3) = 1\n" : o.attitude)
         << "[ORBIT]\ncalculation = ENABLE\nlogging = ENABLE\n";
      if (i < o.orbit.size() && !o.orbit[i].empty()) sc << o.orbit[i];
      else {
        sc << "propagate_mode = RK4\ninitialize_mode = POSITION_VELOCITY_I\n";
        for (int k = 0; k < 3; k++) sc << "initial_position_i_m(" << k << ") = " << num(o.pos[i][k]) << "\ninitial_velocity_i_m_s(" << k << ") = " << num(o.vel[i][k]) << "\n";
      }
      sc << "[THERMAL]\ncalculation = DISABLE\n[SETTING_FILES]\nlocal_environment_file=" << dir << "le.ini\ndisturbance_file=" << dir << "di.ini\nstructure_file=" << dir << "st.ini\n";
      put(dir + "sc" + std::to_string(i) + ".ini", sc.str());
    }
  }
};
}  // namespace vw
