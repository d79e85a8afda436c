// Driver for spec/Repeat.tla: whole simulations without random errors, run in processes of their own.  `reset` and `new` start
// a fresh process; `run` runs a simulation in the present one and returns a digest of every spacecraft after every step.
#include "hx.hpp"
#include <SpiceUsr.h>
#include <filesystem>
#include <simulation/case/simulation_case.hpp>
#include <simulation/spacecraft/installed_components.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
using hx::Js;
using namespace s2e;
namespace fs = std::filesystem;
static void put(const std::string& f, const std::string& s) { std::ofstream(f) << s; }
struct Dig {
  uint64_t h = 1469598103934665603ull;
  void d(double v) { if (v == 0) v = 0; unsigned char b[8]; memcpy(b, &v, 8); for (int i = 0; i < 8; i++) h = (h ^ b[i]) * 1099511628211ull; }
  template <size_t N> void v(const math::Vector<N>& x) { for (size_t i = 0; i < N; i++) d(x[i]); }
  int get() const { return (int)((h ^ (h >> 31)) & 0x3fffffff); }
};
struct Comps : spacecraft::InstalledComponents {};
struct Sc : spacecraft::Spacecraft {
  Sc(const simulation::SimulationConfiguration* s, const environment::GlobalEnvironment* g, int id) : Spacecraft(s, g, id) { components_ = new Comps; }
  int digest() {
    Dig x; auto& o = dynamics_->GetOrbit(); auto& a = dynamics_->GetAttitude(); auto& l = *local_environment_;
    x.v(o.GetPosition_i_m()); x.v(o.GetVelocity_i_m_s()); for (int i = 0; i < 4; i++) x.d(a.GetQuaternion_i2b()[i]);
    x.v(a.GetAngularVelocity_b_rad_s()); x.v(disturbances_->GetForce_b_N()); x.v(disturbances_->GetTorque_b_Nm()); x.v(disturbances_->GetAcceleration_i_m_s2());
    x.v(l.GetGeomagneticField().GetGeomagneticField_i_nT()); x.d(l.GetAtmosphere().GetAirDensity_kg_m3()); x.d(l.GetSolarRadiationPressure().GetPressure_N_m2());
    x.v(l.GetCelestialInformation().GetPositionFromSpacecraft_i_m("SUN"));
    return x.get();
  }
};
struct Case : simulation::SimulationCase {
  std::vector<std::unique_ptr<Sc>> scs; size_t n; std::vector<Js> out; int updates = 0;
  Case(const std::string& b, size_t n_) : SimulationCase(b), n(n_), out(n_, Js::arr()) {}
  void InitializeTargetObjects() override { for (size_t i = 0; i < n; i++) { scs.emplace_back(new Sc(&simulation_configuration_, global_environment_, (int)i)); scs.back()->LogSetup(*simulation_configuration_.main_logger_); } }
  void UpdateTargetObjects() override {
    if (++updates > 5000) { fprintf(stderr, "run does not end\n"); abort(); }
    for (size_t i = 0; i < n; i++) { scs[i]->Update(&global_environment_->GetSimulationTime()); out[i].push(scs[i]->digest()); }
  }
};
static std::string g_base; static int g_run = 0;
static const char* kDates[] = {"2001/03/05 08:00:00.0", "2012/07/09 20:30:00.0", "2020/04/01 12:00:00.0", "2019/12/31 23:59:50.0"};
static void coefs(const std::string& f, int shift) {
  std::ostringstream m; m << "   8 4 2000 2025\ny  0  0 2000.0 2010.0 2020.0 20-25\n";
  for (int n = 1; n <= 8; n++) for (int k = 0; k <= n; k++) for (int t = 0; t < (k ? 2 : 1); t++) {
    int b = (n == 1 ? (k ? 4000 - 7000 * t : -29000) : 3000 / n - 700 * t + 150 * k) + shift * n;
    m << (t ? "h " : "g ") << n << " " << k << " " << b << " " << b + 40 * k - 90 * n << " " << b + 70 - 33 * k << " " << (k - n) << ".5\n";
  }
  put(f, m.str());
}
static Js run(const Js& e) {
  std::cout.setstate(std::ios::failbit);
  stub_reset();
  double rs[6] = {0.001, 30.0, 0.002, 0, 0, 0}, bs[6] = {149000000.0, 2e6, 5e5, 0, 30, 0}, bm[6] = {300000.0, -200000.0, 30000, 0.4, 0.8, 0};
  stub_set_body("SUN", bs); stub_set_rate("SUN", rs); stub_set_body("MOON", bm); stub_set_gm("SUN", 1.3e11); stub_set_gm("MOON", 4902.8); stub_set_gm("EARTH", 398600.4);
  std::string d = g_base + "/rep" + std::to_string(getpid()) + "_" + std::to_string(g_run++) + "/"; fs::create_directories(d + "logs");
  auto sc = e.ints("sc"); int n = e.num("n"), log = e.num("log");
  coefs(d + "a13.coef", 0); coefs(d + "b13.coef", 111);
  for (int k = 0; k < 2; k++) { std::ostringstream f; for (int i = 2; i <= 5; i++) for (int m = 0; m <= i; m++) f << "  " << i << "  " << m << "  " << (i == 2 && !m ? -4.84e-4 : (1 + k) * 1e-6 / (i + m)) << "  " << (m ? 2e-6 / (i * m) : 0) << "  0.1e-10  0.1e-10\n"; put(d + "geo" + std::to_string(k), f.str()); }
  std::ostringstream o;
  o << "[TIME]\nsimulation_start_time_utc = " << kDates[e.num("d")] << "\nsimulation_duration_s = " << n << "\nsimulation_step_s = 1\nattitude_update_period_s = 1\nattitude_integral_step_s = 1\norbit_update_period_s = 1\n"
    << "orbit_integral_step_s = 1\nthermal_update_period_s = 1\nthermal_integral_step_s = 1\ncomponent_update_period_s = 1\nlog_output_period_s = " << log << "\nsimulation_speed_setting = 0\n"
    << "[CELESTIAL_INFORMATION]\nlogging = ENABLE\ninertial_frame = J2000\ncenter_object = EARTH\naberration_correction = NONE\nnumber_of_selected_body = 3\n"
    << "selected_body_name(0) = EARTH\nselected_body_name(1) = SUN\nselected_body_name(2) = MOON\nrotation_mode(0) = FULL\nrotation_mode(1) = DISABLE\nrotation_mode(2) = SIMPLE\n"
    << "[CSPICE_KERNELS]\ntls = x\ntpc1 = x\ntpc2 = x\ntpc3 = x\nbsp = x\n[HIPPARCOS_CATALOGUE]\ncatalogue_file_path = none.csv\nmax_magnitude = 3.0\ncalculation = DISABLE\nlogging = DISABLE\n"
    << "[SIMULATION_SETTINGS]\nsave_initialize_files = DISABLE\nnumber_of_simulated_spacecraft = " << sc.size() << "\nnumber_of_simulated_ground_station = 0\n";
  for (size_t i = 0; i < sc.size(); i++) o << "spacecraft_file(" << i << ")=" << d << "sc" << i << ".ini\n";
  o << "gnss_file=" << d << "gnss.ini\nlog_file_save_directory=" << d << "logs/\n";
  put(d + "base.ini", o.str());
  put(d + "gnss.ini", "[GNSS_SATELLITES]\ncalculation = DISABLE\nlogging = DISABLE\n");
  for (size_t i = 0; i < sc.size(); i++) {
    int v = sc[i]; std::string t = d, s = std::to_string(i);
    const char* orb = v == 1 ? "ENCKE" : v == 2 ? "KEPLER" : v == 3 ? "SGP4" : "RK4";
    const char* att = v == 2 ? "CONTROLLED" : v == 4 ? "CANTILEVER_VIBRATION" : "RK4";
    std::ostringstream le, di, st, ini;
    le << "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = ENABLE\nlogging = ENABLE\ncoefficient_file=" << d << (v == 5 ? "b13.coef" : "a13.coef")
       << "\nmagnetic_field_random_walk_standard_deviation_nT = 0.0\nmagnetic_field_random_walk_limit_nT = 0.0\nmagnetic_field_white_noise_standard_deviation_nT = 0.0\n"
       << "[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\nlogging = ENABLE\nnumber_of_third_shadow_source = 1\nthird_shadow_source_name(0) = MOON\n[EARTH_ALBEDO]\ncalculation = DISABLE\nearth_albedo_factor = 0.3\n[EARTH_INFRARED]\ncalculation = DISABLE\n"
       << "[ATMOSPHERE]\ncalculation = ENABLE\nlogging = ENABLE\nmodel = " << (v % 2 ? "HARRIS_PRIESTER" : v == 6 ? "NRLMSISE00" : "STANDARD") << "\nis_manual_parameter_used = ENABLE\nmanual_daily_f107 = 150\nmanual_average_f107 = 150\nmanual_ap = 3\nair_density_standard_deviation = 0.0\n"
       << "[LOCAL_CELESTIAL_INFORMATION]\nlogging = ENABLE\n";
    put(d + "le" + s, le.str());
    di << "[GEOPOTENTIAL]\ncalculation = ENABLE\nlogging = ENABLE\ndegree = " << (v == 6 ? 2 : 4) << "\ncoefficients_file_path=" << d << "geo" << (v == 6 ? 1 : 0) << "\n[LUNAR_GRAVITY_FIELD]\ncalculation = DISABLE\nlogging = DISABLE\ndegree = 4\n";
    for (const char* x : {"MAGNETIC_DISTURBANCE", "GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE"}) di << "[" << x << "]\ncalculation = ENABLE\nlogging = ENABLE\n";
    di << "[AIR_DRAG]\ncalculation = ENABLE\nlogging = ENABLE\nwall_temperature_degC = 30\nmolecular_temperature_degC = 3\nmolecular_weight_g_mol = 18\n[THIRD_BODY_GRAVITY]\ncalculation = ENABLE\nlogging = ENABLE\nnumber_of_third_body = 2\nthird_body_name(0) = SUN\nthird_body_name(1) = MOON\n";
    put(d + "di" + s, di.str());
    st << "[KINEMATIC_PARAMETERS]\n"; for (int k = 0; k < 9; k++) st << "inertia_tensor_kgm2(" << k << ") = " << (k % 4 ? 0.01 : 0.2 + 0.05 * k) << "\n";
    st << "mass_kg = " << 14 + v << "\ncenter_of_gravity_b_m(0) = 0.01\ncenter_of_gravity_b_m(1) = 0\ncenter_of_gravity_b_m(2) = -0.02\n[SURFACES]\nnumber_of_surfaces = 2\n";
    for (int k = 0; k < 2; k++) st << "area_" << k << "_m2 = 0.5\nposition_" << k << "_b_m(0) = " << (k ? -0.5 : 0.5) << "\nposition_" << k << "_b_m(1) = 0.1\nposition_" << k << "_b_m(2) = 0\nnormal_vector_" << k << "_b(0) = " << (k ? -1 : 1) << "\nnormal_vector_" << k << "_b(1) = 0\nnormal_vector_" << k << "_b(2) = 0\nreflectivity_" << k << " = 0.4\nspecularity_" << k << " = 0.4\nair_specularity_" << k << " = 0.4\n";
    st << "[RESIDUAL_MAGNETIC_MOMENT]\nrmm_constant_b_Am2(0) = 0.04\nrmm_constant_b_Am2(1) = 0.02\nrmm_constant_b_Am2(2) = -0.01\nrmm_random_walk_speed_Am2 = 0\nrmm_random_walk_limit_Am2 = 0\nrmm_white_noise_standard_deviation_Am2 = 0\n"
       << "[CANTILEVER_PARAMETERS]\n"; for (int k = 0; k < 9; k++) st << "inertia_tensor_cantilever_kgm2(" << k << ") = " << (k % 4 ? 0 : 0.05) << "\n";
    st << "damping_ratio_cantilever = 0.1\nintrinsic_angular_velocity_cantilever_rad_s = 1.5\n";
    put(d + "st" + s, st.str());
    ini << "[ATTITUDE]\npropagate_mode = " << att << "\ninitialize_mode = " << (v == 6 ? "CONTROLLED" : "MANUAL") << "\ninitial_angular_velocity_b_rad_s(0) = 0.02\ninitial_angular_velocity_b_rad_s(1) = " << (v == 6 ? 0 : -0.01) << "\ninitial_angular_velocity_b_rad_s(2) = 0.005\n"
        << "initial_quaternion_i2b(0) = 0.5\ninitial_quaternion_i2b(1) = 0.5\ninitial_quaternion_i2b(2) = -0.1\ninitial_quaternion_i2b(3) = 0.7\ninitial_torque_b_Nm(0) = 0\ninitial_torque_b_Nm(1) = 0\ninitial_torque_b_Nm(2) = 0.001\nmain_mode = SUN_POINTING\nsub_mode = EARTH_CENTER_POINTING\n"
        << "[CONTROLLED_ATTITUDE]\nmain_mode = SUN_POINTING\nsub_mode = EARTH_CENTER_POINTING\nmain_pointing_direction_b(0) = 1\nmain_pointing_direction_b(1) = 0\nmain_pointing_direction_b(2) = 0\nsub_pointing_direction_b(0) = 0\nsub_pointing_direction_b(1) = 0\nsub_pointing_direction_b(2) = 1\n"
        << "target_position_latitude_deg = 35\ntarget_position_longitude_deg = 139\ntarget_position_altitude_m = 0\n"
        << "[ORBIT]\ncalculation = ENABLE\nlogging = ENABLE\npropagate_mode = " << orb << "\ninitialize_mode = DEFAULT\ninitial_position_i_m(0) = -2111769.77\ninitial_position_i_m(1) = -5360353.22\ninitial_position_i_m(2) = " << 3596181.6 + 1000 * v << "\n"
        << "initial_velocity_i_m_s(0) = 414.49\ninitial_velocity_i_m_s(1) = -4354.45\ninitial_velocity_i_m_s(2) = -6291.06\nerror_tolerance = 0.0001\n"
        << "semi_major_axis_m = 6794500\neccentricity = 0.0015\ninclination_rad = 0.9012\nraan_rad = 0.1411\nargument_of_perigee_rad = 1.7952\nepoch_jday = 2458940\nwgs_setting = 2\n"
        << "tle1=1 25544U 98067A   20076.51604214  .00016717  00000-0  10270-3 0  9005\ntle2=2 25544  51.6412  86.9962 0006063  30.9353 329.2153 15.49228202 17647\n"
        << "[THERMAL]\ncalculation = DISABLE\n[SETTING_FILES]\nlocal_environment_file=" << d << "le" << s << "\ndisturbance_file=" << d << "di" << s << "\nstructure_file=" << d << "st" << s << "\n";
    put(d + "sc" + s + ".ini", ini.str());
  }
  Js r = Js::obj();
  {
    Case c(d + "base.ini", sc.size()); c.Initialize(); c.Main(); c.scs.clear();
    Js a = Js::arr(); for (auto& x : c.out) a.push(x); r["h"] = a;
  }
  fs::remove_all(d);
  return r;
}
// ---- processes
static pid_t g_pid = 0; static FILE *g_to = nullptr, *g_from = nullptr;
static void fresh() {
  if (g_pid) { fclose(g_to); fclose(g_from); kill(g_pid, SIGKILL); int st; waitpid(g_pid, &st, 0); }
  int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(95);
  fflush(nullptr);
  g_pid = fork();
  if (g_pid == 0) {
    close(a[1]); close(b[0]); FILE* in = fdopen(a[0], "r"); char* l = nullptr; size_t n = 0;
    while (getline(&l, &n, in) > 0) { std::string s = run(hx::Parser(l).val()).dump() + "\n"; for (size_t k = 0; k < s.size();) { ssize_t w = write(b[1], s.data() + k, s.size() - k); if (w <= 0) _exit(0); k += w; } }
    _exit(0);
  }
  close(a[0]); close(b[1]); g_to = fdopen(a[1], "w"); g_from = fdopen(b[0], "r");
}
int main(int argc, char** argv) {
  g_base = getenv("VT_DIR") ? getenv("VT_DIR") : "/tmp";
  signal(SIGPIPE, SIG_IGN);
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj(); const std::string& op = e.str("op");
    if (op == "reset" || op == "new") fresh();
    else if (op == "run") {
      fprintf(g_to, "%s\n", e.dump().c_str()); fflush(g_to);
      char* l = nullptr; size_t n = 0;
      if (getline(&l, &n, g_from) > 0) r = hx::Parser(l).val(); else r["died"] = true;
      free(l);
    }
    return r;
  });
}
