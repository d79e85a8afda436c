// Driver for spec/Sensors.tla: attitude sensors, magnetorquer, telescope and GNSS receiver in a complete spacecraft environment.
#include "world.hpp"
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/mission/telescope.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/global/hipparcos_catalogue.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::components;
using namespace vw;
struct Dev {
  std::string k; int pre; PowerPort* p = nullptr; Component* c = nullptr;
  GyroSensor* gy = nullptr; Magnetometer* ma = nullptr; Magnetorquer* mt = nullptr; StarSensor* st = nullptr; SunSensor* su = nullptr; Telescope* te = nullptr; GnssReceiver* gn = nullptr;
  environment::HipparcosCatalogue* hip = nullptr; int stars = 0;
};
static World* w; static environment::ClockGenerator* cg; static std::vector<Dev> ds; static std::vector<MtqMagnetometerInterference*> itf;
struct Body { V d; double dist; };
static std::map<std::string, Body> bodies;
static int ticks; static double step;
static const double kR = environment::earth_equatorial_radius_m;
static std::vector<double> nums(const std::string& s) { std::vector<double> v; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) v.push_back(t.empty() || t == " " ? 1e30 : atof(t.c_str())); return v; }
static void refresh(bool prop) {
  w->glo->Update();
  auto& d = *w->sc[0].dyn;
  if (prop) const_cast<dynamics::orbit::Orbit&>(d.GetOrbit()).Propagate(w->time().GetElapsedTime_s(), w->time().GetCurrentTime_jd());
  V p = d.GetOrbit().GetPosition_i_m();
  for (auto& b : bodies) w->place(b.first.c_str(), b.second.dist * b.second.d.CalcNormalizedVector());
  const_cast<environment::CelestialInformation&>(w->glo->GetCelestialInformation()).UpdateAllObjectsInformation(w->time());
  w->sc[0].loc->Update(&d, &w->time());
}
static Js state() {
  Js r = Js::obj(); r["d"] = Js::arr();
  auto& L = *w->sc[0].loc; auto& O = w->sc[0].dyn->GetOrbit();
  r["bi"] = js(L.GetGeomagneticField().GetGeomagneticField_i_nT(), 0.1);
  r["bb"] = js(L.GetGeomagneticField().GetGeomagneticField_b_nT(), 0.1);
  r["dens"] = hx::rnd(L.GetSolarRadiationPressure().GetPowerDensity_W_m2(), 100);
  for (auto& x : ds) {
    Js j = Js::obj();
    if (x.k == "gyro") { auto v = nums(x.gy->GetLogValue()); V a; for (int i = 0; i < 3; i++) a[i] = v.at(i); j["v"] = js(x.gy->GetMeasuredAngularVelocity_c_rad_s(), 1e5); }
    if (x.k == "mag") j["v"] = js(x.ma->GetMeasuredMagneticField_c_nT(), 0.1);
    if (x.k == "mtq") { j["c"] = js(x.mt->GetOutputMagneticMoment_c_Am2(), 1e2); auto v = nums(x.mt->GetLogValue()); j["b"] = js(vec(v.at(0), v.at(1), v.at(2)), 1e2); j["t"] = js(x.mt->GetOutputTorque_b_Nm(), 1e8); }
    if (x.k == "stt") { auto q = x.st->GetMeasuredQuaternion_i2c(); Js a = Js::arr(); for (int i = 0; i < 4; i++) a.push(hx::rnd(q[i], 1e4)); j["v"] = a; j["err"] = x.st->GetErrorFlag(); }
    if (x.k == "sun") { j["v"] = js(x.su->GetMeasuredSunDirection_c(), 1e4); j["det"] = x.su->GetSunDetectedFlag(); j["ill"] = hx::rnd(x.su->GetSolarIlluminance_W_m2(), 100); }
    if (x.k == "tel") {
      j["s"] = x.te->GetIsSunInForbiddenAngle(); j["e"] = x.te->GetIsEarthInForbiddenAngle(); j["m"] = x.te->GetIsMoonInForbiddenAngle();
      auto v = nums(((const logger::ILoggable*)x.te)->GetLogValue()); Js a = Js::arr();
      for (int i = 0; i < 3; i++) { Js b = Js::arr(); b.push(hx::rnd(v.at(3 + 2 * i), 100)); b.push(hx::rnd(v.at(4 + 2 * i), 100)); a.push(b); }
      j["img"] = a;
      Js s = Js::arr();
      for (size_t i = 11; i + 3 < v.size(); i += 4) { Js b = Js::arr(); b.push(hx::rnd(v[i])); b.push(hx::rnd(v[i + 1], 100)); b.push(hx::rnd(v[i + 2], 100)); b.push(hx::rnd(v[i + 3], 100)); s.push(b); }
      j["stars"] = s;
    }
    if (x.k == "gnss") {
      j["vis"] = x.gn->GetLogValue().size() > 0 ? nums(x.gn->GetLogValue()).at(15) != 0 : false;
      V p = x.gn->GetMeasuredPosition_ecef_m();
      j["d"] = hx::rnd(p.CalcNorm() / 100.0);
      j["err"] = hx::rnd((p - O.GetPosition_ecef_m()).CalcNorm(), 10);
    }
    r["d"].push(j);
  }
  return r;
}
static void quat_ini(std::ostream& o, const math::Quaternion& q) { for (int i = 0; i < 4; i++) o << "quaternion_b2c(" << i << ")=" << World::num(q[i]) << "\n"; }
static void vec_ini(std::ostream& o, const char* key, const std::vector<int>& v, double k) { for (size_t i = 0; i < v.size(); i++) o << key << "(" << i << ")=" << World::num(v[i] * k) << "\n"; }
template <int N> math::Matrix<N, N> mat(const std::vector<int>& s, double k) { math::Matrix<N, N> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m[i][j] = s[i * N + j] * k; return m; }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/", f = dir + "dev.ini";
    const char* pow = "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n";
    if (op == "reset") {
      for (auto& x : itf) delete x;
      for (auto& x : ds) { delete x.c; delete x.hip; }
      itf.clear(); ds.clear(); delete cg; cg = new environment::ClockGenerator();
      stub_reset(); stub_observer_at_origin(); bodies.clear();
      Opt o; o.step = step = 1.0 / e.num("dd");
      V pd = vec(e.ints("pos")).CalcNormalizedVector();
      o.pos[0] = (kR + 100e3 * e.num("alt")) * pd; o.vel[0] = 1024.0 * pd;
      std::string key = e.at("dd").dump() + e.at("pos").dump() + e.at("alt").dump();
      static std::string last;
      if (!w || key != last) { delete w; w = new World(o); last = key; }   // building an environment is slow; the previous one serves when it is the same
      w->sc[0].dyn->SetAttitude().SetQuaternion_i2b(math::Quaternion(0, 0, 0, 1)); w->sc[0].dyn->SetAttitude().SetAngularVelocity_b_rad_s(vec(0, 0, 0));
      ticks = 0;
      bodies["SUN"] = {vec(0, 0, 1), 1.495978707e11}; bodies["MOON"] = {vec(0, 1, 0), 3.8e8}; bodies["EARTH"] = {-1.0 * pd, 1e13};
      refresh(false);
    } else if (op == "att") w->sc[0].dyn->SetAttitude().SetQuaternion_i2b(quat(e.ints("q")));
    else if (op == "rate") w->sc[0].dyn->SetAttitude().SetAngularVelocity_b_rad_s(vec(e.ints("w"), 1e-3));
    else if (op == "body") {
      double d = e.num("d");
      const std::string& b = e.str("b");
      bodies[b] = {vec(e.ints("u")), b == "SUN" ? d / 2 * 1.495978707e11 : b == "EARTH" ? (d > 0 ? kR / sin(d * M_PI / 180) : 1e13) : d * 1e8};
    } else if (op == "add") {
      Dev x; x.k = e.str("k"); x.pre = e.num("pre"); x.p = new PowerPort();
      auto q = quat(e.ints("q")); auto& D = *w->sc[0].dyn; auto& L = *w->sc[0].loc;
      std::ostringstream o; int pre = x.pre; bool ini = e.flag("ini"), pw = e.flag("pp");
      if (x.k == "gyro" || x.k == "mag") {
        bool g = x.k == "gyro"; double u = g ? 1e-3 : 10.0; const char* unit = g ? "rad_s" : "nT"; std::string sec = g ? "GYRO_SENSOR_3" : "MAGNETOMETER_3";
        if (ini) {
          o << "[" << sec << "]\nprescaler=" << pre << "\n"; quat_ini(o, q);
          o << "[SENSOR_BASE_" << sec << "]\n";
          if (!e.flag("nos")) vec_ini(o, "scale_factor_c", e.ints("s"), 0.25);
          vec_ini(o, (std::string("constant_bias_c_") + unit).c_str(), e.ints("bias"), u);
          for (const char* k : {"normal_random_standard_deviation_c_", "random_walk_standard_deviation_c_", "random_walk_limit_c_"}) vec_ini(o, (std::string(k) + unit).c_str(), {0, 0, 0}, 0);
          o << "range_to_constant_" << unit << "=" << World::num(e.num("rc") * u) << "\nrange_to_zero_" << unit << "=" << World::num(e.num("rz") * u) << "\n" << pow;
          put(f, o.str());
          if (g) x.gy = pw ? new GyroSensor(InitGyroSensor(cg, x.p, 3, f, step, &D)) : new GyroSensor(InitGyroSensor(cg, 3, f, step, &D));
          else x.ma = pw ? new Magnetometer(InitMagnetometer(cg, x.p, 3, f, step, &L.GetGeomagneticField())) : new Magnetometer(InitMagnetometer(cg, 3, f, step, &L.GetGeomagneticField()));
        } else {
          math::Vector<3> z(0.0);
          Sensor<3> base(e.flag("nos") ? math::MakeIdentityMatrix<3>() : mat<3>(e.ints("s"), 0.25), math::Vector<3>(e.num("rc") * u), math::Vector<3>(e.num("rz") * u), vec(e.ints("bias"), u), z, step, z, z);
          if (g) x.gy = pw ? new GyroSensor(pre, cg, x.p, base, 3, q, &D) : new GyroSensor(pre, cg, base, 3, q, &D);
          else x.ma = pw ? new Magnetometer(pre, cg, x.p, base, 3, q, &L.GetGeomagneticField()) : new Magnetometer(pre, cg, base, 3, q, &L.GetGeomagneticField());
        }
        x.c = g ? (Component*)x.gy : (Component*)x.ma;
      } else if (x.k == "mtq") {
        math::Vector<3> z(0.0);
        if (ini) {
          o << "[MAGNETORQUER_4]\nprescaler=" << pre << "\n"; quat_ini(o, q);
          vec_ini(o, "scale_factor_c", e.ints("s"), 0.25); vec_ini(o, "max_output_magnetic_moment_c_Am2", e.ints("hi"), 1); vec_ini(o, "min_output_magnetic_moment_c_Am2", e.ints("lo"), 1); vec_ini(o, "constant_bias_noise_c_Am2", e.ints("bias"), 0.25);
          for (const char* k : {"random_walk_standard_deviation_c_Am2", "random_walk_limit_c_Am2", "white_noise_standard_deviation_c_Am2"}) vec_ini(o, k, {0, 0, 0}, 0);
          o << pow; put(f, o.str());
          x.mt = pw ? new Magnetorquer(InitMagnetorquer(cg, x.p, 4, f, step, &L.GetGeomagneticField())) : new Magnetorquer(InitMagnetorquer(cg, 4, f, step, &L.GetGeomagneticField()));
        } else if (pw) x.mt = new Magnetorquer(pre, cg, x.p, 4, q, mat<3>(e.ints("s"), 0.25), vec(e.ints("hi")), vec(e.ints("lo")), vec(e.ints("bias"), 0.25), step, z, z, z, &L.GetGeomagneticField());
        else x.mt = new Magnetorquer(pre, cg, 4, q, mat<3>(e.ints("s"), 0.25), vec(e.ints("hi")), vec(e.ints("lo")), vec(e.ints("bias"), 0.25), step, z, z, z, &L.GetGeomagneticField());
        x.c = x.mt;
      } else if (x.k == "stt") {
        int p1 = pre > 1 ? pre : 1; double dt = step * p1, dg = M_PI / 180;
        if (ini) {
          o << "[STAR_SENSOR_5]\nprescaler=" << pre << "\n"; quat_ini(o, q);
          o << "standard_deviation_orthogonal_direction_rad=0\nstandard_deviation_sight_direction_rad=0\noutput_delay_s=" << World::num(e.num("delay4") * 0.25 * dt) << "\noutput_interval_s=" << World::num(e.num("int4") * 0.25 * dt)
            << "\nsun_exclusion_angle_deg=" << e.num("sa") << "\nearth_exclusion_angle_deg=" << e.num("ea") << "\nmoon_exclusion_angle_deg=" << e.num("ma") << "\nangular_rate_limit_deg_s=" << e.num("rl") << "\n" << pow;
          put(f, o.str());
          x.st = pw ? new StarSensor(InitStarSensor(cg, x.p, 5, f, step, &D, &L)) : new StarSensor(InitStarSensor(cg, 5, f, step, &D, &L));
        } else {
          unsigned dl = (unsigned)std::max(1, e.num("delay4") / 4), iv = (unsigned)std::max(1, e.num("int4") / 4);
          x.st = pw ? new StarSensor(pre, cg, x.p, 5, q, 0, 0, dt, dl, iv, e.num("sa") * dg, e.num("ea") * dg, e.num("ma") * dg, e.num("rl") * dg, &D, &L)
                    : new StarSensor(pre, cg, 5, q, 0, 0, dt, dl, iv, e.num("sa") * dg, e.num("ea") * dg, e.num("ma") * dg, e.num("rl") * dg, &D, &L);
        }
        x.c = x.st;
      } else if (x.k == "sun") {
        o << "[SUN_SENSOR_6]\nprescaler=" << pre << "\n"; quat_ini(o, q);
        o << "field_of_view_deg=" << e.num("fov") << "\nwhite_noise_standard_deviation_deg=0\nbias_standard_deviation_deg=0\nintensity_lower_threshold_percent=" << e.num("pct") << "\n" << pow;
        put(f, o.str());
        x.su = pw ? new SunSensor(InitSunSensor(cg, x.p, 6, f, &L.GetSolarRadiationPressure(), &L.GetCelestialInformation())) : new SunSensor(InitSunSensor(cg, 6, f, &L.GetSolarRadiationPressure(), &L.GetCelestialInformation()));
        x.c = x.su;
      } else if (x.k == "tel") {
        std::ostringstream h; h << "hip_num,vmag,ra,de\n";
        x.stars = e.num("stars");
        bool first = true;
        for (auto& s : e.at("cat").a) {   // id, magnitude (1/10), direction
          V d; for (int i = 0; i < 3; i++) d[i] = (double)s.a[2 + i].i; d = d.CalcNormalizedVector();
          if (!first) h << "\n"; first = false;
          h << s.a[0].i << "," << World::num(s.a[1].i / 10.0) << "," << World::num(atan2(d[1], d[0]) * 180 / M_PI) << "," << World::num(asin(d[2]) * 180 / M_PI);
        }
        if (e.flag("nl")) h << "\n";
        put(dir + "h.csv", h.str());
        put(dir + "h.ini", "[HIPPARCOS_CATALOGUE]\ncatalogue_file_path=" + dir + "h.csv\nmax_magnitude=" + World::num(e.num("mm") / 10.0) + "\ncalculation=ENABLE\nlogging=DISABLE\n");
        x.hip = environment::InitHipparcosCatalogue(dir + "h.ini");
        o << "[TELESCOPE_7]\n"; quat_ini(o, q);
        o << "sun_exclusion_angle_deg=" << e.num("sa") << "\nearth_exclusion_angle_deg=" << e.num("ea") << "\nmoon_exclusion_angle_deg=" << e.num("ma") << "\nx_number_of_pixel=" << e.num("nx") << "\ny_number_of_pixel=" << e.num("ny")
          << "\nx_fov_deg_per_pixel=" << World::num((double)e.num("fx") / e.num("nx")) << "\ny_fov_deg_per_pixel=" << World::num((double)e.num("fy") / e.num("ny")) << "\nnumber_of_stars_for_log=" << x.stars << "\n";
        put(f, o.str());
        x.te = new Telescope(InitTelescope(cg, 7, f, &D.GetAttitude(), x.hip, &L.GetCelestialInformation(), nullptr));
        x.c = x.te;
      } else if (x.k == "gnss") {
        o << "[GNSS_RECEIVER_8]\nprescaler=" << pre << "\nantenna_model=SIMPLE\nantenna_position_b_m(0)=0\nantenna_position_b_m(1)=0\nantenna_position_b_m(2)=0\nantenna_half_width_deg=60\n"; quat_ini(o, q);
        vec_ini(o, "white_noise_standard_deviation_position_ecef_m", {0, 0, 0}, 0); vec_ini(o, "white_noise_standard_deviation_velocity_ecef_m_s", {0, 0, 0}, 0); o << pow;
        put(f, o.str());
        x.gn = pw ? new GnssReceiver(InitGnssReceiver(cg, x.p, 8, f, &D, &w->glo->GetGnssSatellites(), &w->time())) : new GnssReceiver(InitGnssReceiver(cg, 8, f, &D, &w->glo->GetGnssSatellites(), &w->time()));
        x.c = x.gn;
      }
      x.p->SetVoltage_V(5.0);
      ds.push_back(x);
    } else if (op == "cmd") ds[e.num("i") - 1].mt->SetOutputMagneticMoment_c_Am2(vec(e.ints("m"), 0.25));
    else if (op == "pow") ds[e.num("i") - 1].p->SetVoltage_V(e.flag("on") ? 5.0 : 0.0);
    else if (op == "itf") {
      std::ostringstream o; auto& C = e.at("c").a;
      o << "[MTQ_MAGNETOMETER_INTERFERENCE_2]\npolynomial_degree=" << C.size() << "\n";
      for (size_t k = 0; k < C.size(); k++) for (int i = 0; i < 9; i++) o << "additional_bias_by_mtq_coefficients_" << k + 1 << "(" << i << ")=" << C[k].a[i].i << "\n";
      put(f, o.str());
      itf.push_back(new MtqMagnetometerInterference(f, *ds[e.num("i") - 1].ma, *ds[e.num("j") - 1].mt, 2));
    } else if (op == "inter") { for (auto* x : itf) x->UpdateInterference(); }
    else if (op == "tick") { refresh(ticks > 0); ticks++; cg->TickToComponents(); }
    return state();
  });
}
