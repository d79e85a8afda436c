// Driver for spec/Disturb.tla: the forces and torques on a spacecraft that is simply put where the script says.
#include "world.hpp"
#include <disturbances/air_drag.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <environment/local/atmosphere.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include <simulation/spacecraft/structure/initialize_structure.hpp>
using hx::Js;
using namespace s2e;
using namespace vw;
static World* w; static std::map<std::string, disturbances::Disturbance*> d; static spacecraft::ResidualMagneticMoment* rmm[2];
struct Peek : dynamics::orbit::Orbit {
  static void put(const dynamics::orbit::Orbit& o, const V& p, const V& v) {
    auto& k = static_cast<Peek&>(const_cast<dynamics::orbit::Orbit&>(o));
    k.spacecraft_position_i_m_ = p; k.spacecraft_velocity_i_m_s_ = v; k.TransformEciToEcef(); k.TransformEcefToGeodetic();
  }
};
static std::vector<V> fromlog(const std::string& s) {
  std::vector<V> r; std::istringstream i(s); char c; V v; int k = 0;
  while (i >> v[k]) { i >> c; if (++k == 3) { r.push_back(v); k = 0; } }
  return r;
}
static bool same(const V& a, const V& b) { double n = a.CalcNorm(); for (int i = 0; i < 3; i++) if (!(fabs(a[i] - b[i]) <= 1e-4 * n)) return false; return true; }
static math::Matrix<3, 3> sym(const std::vector<int>& x) {
  math::Matrix<3, 3> m; int k[3][3] = {{0, 3, 4}, {3, 1, 5}, {4, 5, 2}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = x[k[i][j]];
  return m;
}
static std::string faces(const Js& e, const std::string& name, bool raw) {
  std::ostringstream o; auto& fs = e.at(name).a; o << "number_of_surfaces = " << fs.size() << "\n";
  for (size_t i = 0; i < fs.size(); i++) {
    auto& f = fs[i]; std::string s = "_" + std::to_string(i); V n = vec(f.ints("n")); if (!raw) n = n.CalcNormalizedVector();
    o << "area" << s << "_m2 = " << World::num(f.num("a") / 100.0) << "\nreflectivity" << s << " = " << World::num(f.num("rf") / 100.0) << "\nspecularity" << s << " = " << World::num(f.num("sp") / 100.0)
      << "\nair_specularity" << s << " = " << World::num(f.num("as") / 100.0) << "\n";
    auto p = f.ints("p");
    for (int k = 0; k < 3; k++) o << "position" << s << "_b_m(" << k << ") = " << World::num(p[k] / 100.0) << "\nnormal_vector" << s << "_b(" << k << ") = " << World::num(n[k]) << "\n";
  }
  return o.str();
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/";
    if (!w) {
      stub_reset(); stub_set_gm("SUN", 2e6); stub_set_gm("MOON", 1e6);
      Opt o; o.step = 5000; w = new World(o, true); w->glo->Update(); w->glo->Update();
      const_cast<environment::Atmosphere&>(w->sc[0].loc->GetAtmosphere()).SetCalcFlag(true);
    }
    auto& dyn = *w->sc[0].dyn; auto& loc = *w->sc[0].loc; auto& str = *w->sc[0].str;
    if (op == "reset") {
      for (auto& x : d) delete x.second;
      d.clear(); for (auto& m : rmm) { delete m; m = nullptr; }
      std::ostringstream s;
      s << "[SURFACES]\n" << faces(e, "faces", e.flag("raw")) << "[RESIDUAL_MAGNETIC_MOMENT]\n"; auto m = e.ints("m"), nz = e.ints("noise");
      for (int k = 0; k < 3; k++) s << "rmm_constant_b_Am2(" << k << ") = " << World::num(m[k] / 1000.0) << "\n";
      vw::put(dir + "s1.ini", s.str());
      vw::put(dir + "s2.ini", s.str() + "rmm_random_walk_speed_Am2 = " + World::num(nz[1] / 1000.0) + "\nrmm_random_walk_limit_Am2 = " + World::num(nz[2] / 1000.0) + "\nrmm_white_noise_standard_deviation_Am2 = " + World::num(nz[0] / 1000.0) + "\n");
      str.GetToSetSurfaces() = spacecraft::InitSurfaces(dir + "s1.ini");
      rmm[0] = new spacecraft::ResidualMagneticMoment(spacecraft::InitResidualMagneticMoment(dir + "s2.ini"));   // the noisy one first
      rmm[1] = new spacecraft::ResidualMagneticMoment(spacecraft::InitResidualMagneticMoment(dir + "s1.ini"));
      auto& kin = str.GetToSetKinematicsParameters(); kin.SetCenterOfGravityVector_b_m(vec(e.ints("cog"), .01)); kin.SetInertiaTensor_b_kgm2(sym(e.ints("in")));
      std::ostringstream f; std::set<std::string> on; for (auto& x : e.at("on").a) on.insert(x.s);
      for (const char* n : {"MAGNETIC_DISTURBANCE", "AIR_DRAG", "GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY"}) {
        f << "[" << n << "]\ncalculation = " << (on.count(n) ? "ENABLE" : "DISABLE") << "\nlogging = ENABLE\n";
        if (std::string(n) == "AIR_DRAG") f << "wall_temperature_degC = " << e.num("tw") - 273 << "\nmolecular_temperature_degC = " << e.num("tm") - 273 << "\nmolecular_weight_g_mol = " << e.num("mw") << "\n";
        if (std::string(n) == "THIRD_BODY_GRAVITY") { auto& b = e.at("third").a; f << "number_of_third_body = " << b.size() << "\n"; for (size_t i = 0; i < b.size(); i++) f << "third_body_name(" << i << ") = " << b[i].s << "\n"; }
      }
      vw::put(dir + "di.ini", f.str());
      using namespace disturbances; std::string ini = dir + "di.ini"; const V& cog = kin.GetCenterOfGravity_b_m();
      d["srp"] = new SolarRadiationPressureDisturbance(InitSolarRadiationPressureDisturbance(ini, str.GetSurfaces(), cog));
      d["drag"] = new AirDrag(InitAirDrag(ini, str.GetSurfaces(), cog));
      d["gg"] = e.num("mu") ? new GravityGradient(InitGravityGradient(ini, e.num("mu") * 1e12)) : new GravityGradient(InitGravityGradient(ini));
      d["magn"] = new MagneticDisturbance(InitMagneticDisturbance(ini, *rmm[0])); d["mag"] = new MagneticDisturbance(InitMagneticDisturbance(ini, *rmm[1]));
      d["third"] = new ThirdBodyGravity(InitThirdBodyGravity(ini, dir + "base.ini"));
      r["dep"] = Js::arr(); for (auto& x : d) r["dep"].push(x.second->IsAttitudeDependent());
    } else if (op == "set") {
      auto& kin = str.GetToSetKinematicsParameters();
      if (e.has("cog")) kin.SetCenterOfGravityVector_b_m(vec(e.ints("cog"), .01));
      if (e.has("in")) kin.SetInertiaTensor_b_kgm2(sym(e.ints("in")));
      if (e.has("area") && !str.GetToSetSurfaces().empty()) str.GetToSetSurfaces()[0].SetArea_m2(e.num("area") / 100.0);
    } else {
      for (std::string b : {"SUN", "MOON"}) { auto s = e.ints(b == "SUN" ? "sun" : "moon"); double k = e.num("k"), x[6] = {s[0] * k, s[1] * k, s[2] * k, 0, 0, 0}; stub_set_body(b.c_str(), x); }
      const_cast<environment::CelestialInformation&>(w->glo->GetCelestialInformation()).UpdateAllObjectsInformation(w->time());
      Peek::put(dyn.GetOrbit(), vec(e.ints("p"), 1e3), vec(e.ints("v")));
      const_cast<dynamics::attitude::Attitude&>(dyn.GetAttitude()).SetQuaternion_i2b(quat(e.ints("q")));
      loc.Update(&dyn, &w->time());
      double P = loc.GetSolarRadiationPressure().GetPressureWithoutEclipse_Nm2(), rho = loc.GetAtmosphere().GetAirDensity_kg_m3();
      double mu = e.num("mu") ? e.num("mu") * 1e12 : environment::earth_gravitational_constant_m3_s2;
      r["sh"] = hx::rnd(loc.GetSolarRadiationPressure().GetShadowCoefficient() * 1e4); r["b"] = js(loc.GetGeomagneticField().GetGeomagneticField_b_nT(), 1); r["ok"] = P > 0 && rho > 0;
      r["d"] = Js::obj();
      for (auto& x : d) {
        auto& y = *x.second; y.UpdateIfEnabled(loc, dyn);
        double f = x.first == "srp" ? 1e4 / P : x.first == "drag" ? 1e2 / (.5 * rho * 1e6) : 1, t = x.first == "gg" ? 1e4 * 1e21 / 3 / mu : x.first[0] == 'm' ? 1e12 : f, a = x.first == "third" ? 1e14 / 1e9 : 1;
        Js o = Js::obj();
        o["f"] = js(y.GetForce_b_N(), f); o["t"] = js(y.GetTorque_b_Nm(), t); o["a"] = js(y.GetAcceleration_i_m_s2(), a); o["z"] = y.GetForce_b_N().CalcNorm() == 0 && y.GetTorque_b_Nm().CalcNorm() == 0 && y.GetAcceleration_i_m_s2().CalcNorm() == 0 && y.GetAcceleration_b_m_s2().CalcNorm() == 0;
        auto l = fromlog(dynamic_cast<logger::ILoggable&>(y).GetLogValue());
        bool lg = true;
        if (x.first == "third") lg = l.size() == 1 && same(y.GetAcceleration_i_m_s2(), l[0]);
        else if (x.first == "gg") lg = l.size() == 1 && same(y.GetTorque_b_Nm(), l[0]);
        else if (x.first[0] == 'm') { lg = l.size() == 2 && same(y.GetTorque_b_Nm(), l[1]); o["m"] = js(l.empty() ? V(0.0) : l[0], 1e3); }
        else lg = l.size() == 2 && same(y.GetTorque_b_Nm(), l[0]) && same(y.GetForce_b_N(), l[1]);
        o["l"] = lg; r["d"][x.first] = o;
      }
    }
    return r;
  });
}
