// Driver for spec/Fields.tla: the gravity fields of the Earth and the Moon, the geomagnetic field and the air density,
// at a spacecraft that is simply put where the script says.
#include "world.hpp"
#include <disturbances/geopotential.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <environment/local/atmosphere.hpp>
#include <environment/local/geomagnetic_field.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <math_physics/atmosphere/harris_priester_model.hpp>
#include <math_physics/atmosphere/simple_air_density_model.hpp>
#include <math_physics/gravity/gravity_potential.hpp>
extern "C" {
#include "nrlmsise-00.h"
extern struct nrlmsise_input stub_msis_input;
extern int stub_msis_calls;
}
using hx::Js;
using namespace s2e;
using namespace vw;
static World* w; static disturbances::Disturbance* field; static gravity::GravityPotential* pot; static environment::GeomagneticField* geo[2]; static environment::Atmosphere* air;
static double R, GM; static std::string kind;
struct Peek : dynamics::orbit::Orbit {
  static void put(const dynamics::orbit::Orbit& o, const V& p, bool earth = true) {
    auto& k = static_cast<Peek&>(const_cast<dynamics::orbit::Orbit&>(o));
    k.spacecraft_position_i_m_ = p; k.spacecraft_velocity_i_m_s_ = V(0.0); k.TransformEciToEcef(); if (earth) k.TransformEcefToGeodetic();
  }
};
// three numbers of a log line
static V fromlog(const std::string& s) { V v; std::istringstream i(s); char c; for (int k = 0; k < 3; k++) { i >> v[k]; i >> c; } return v; }
static Js dcm(const math::Matrix<3, 3>& m) { Js a = Js::arr(); for (int i = 0; i < 3; i++) a.push(js(vec(m[i][0], m[i][1], m[i][2]), 1e4)); return a; }
static void stars(const std::string& sun, const std::vector<int>& s) {
  double b[6] = {s[0] * 1e3, s[1] * 1e3, s[2] * 1e3, 0, 0, 0};
  if (s.size() > 3) for (int i = 3; i < 6; i++) b[i] = s[i] * 1e-3;
  stub_set_body(sun.c_str(), b);
  const_cast<environment::CelestialInformation&>(w->glo->GetCelestialInformation()).UpdateAllObjectsInformation(w->time());
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/";
    if (!w) {
      Opt o; o.mag = false; o.step = 5000; stub_reset(); w = new World(o, true); w->glo->Update(); w->glo->Update();
      for (int sign : {1, -1}) {
      std::ostringstream m;   // a field of degree three, changing linearly over the years, and otherwise from 2020 and 2030; and its opposite
      m << "   8 4 2010 2040\ny  0  0 2010.0 2020.0 2030.0 30-35\n";
      std::map<std::pair<int, std::string>, std::pair<int, int>> c = {{{10, "g"}, {-20000, 40}}, {{11, "g"}, {-6000, -100}}, {{11, "h"}, {9000, 20}}, {{20, "g"}, {-4000, 0}}, {{21, "g"}, {5000, 60}}, {{21, "h"}, {-3000, 0}},
        {{22, "g"}, {2500, 0}}, {{22, "h"}, {-7000, 100}}, {{30, "g"}, {3000, 0}}, {{31, "g"}, {-2000, 0}}, {{31, "h"}, {1500, 0}}, {{32, "g"}, {1800, 0}}, {{32, "h"}, {2600, -40}}, {{33, "g"}, {-1200, 0}}, {{33, "h"}, {2200, 0}}};
      for (int n = 1; n <= 8; n++) for (int k = 0; k <= n; k++) for (std::string t : {"g", "h"}) if (k || t == "g") {
        auto x = c[{n * 10 + k, t}];
        m << t << " " << n << " " << k << " " << sign * x.first << " " << sign * (x.first + 10 * x.second) << " " << sign * (x.first - 10 * x.second) << " " << sign * 3 * x.second << "\n";
      }
      put(dir + (sign > 0 ? "field13.coef" : "other13.coef"), m.str());
      }
    }
    auto& dyn = *w->sc[0].dyn; auto& loc = *w->sc[0].loc;
    if (op == "reset") {
      kind = e.str("kind"); stars("SUN", {149000000, 0, 0});
      delete field; field = nullptr; delete pot; pot = nullptr; for (auto& m : geo) { delete m; m = nullptr; } delete air; air = nullptr;
      bool on = e.flag("on"), ini = e.flag("ini"); int deg = e.num("deg");
      if (kind == "earth" || kind == "moon") {
        R = kind == "earth" ? environment::earth_equatorial_radius_m : 1500e3; GM = kind == "earth" ? environment::earth_gravitational_constant_m3_s2 : 5000e9;
        std::ostringstream f; std::vector<std::vector<double>> c(8, std::vector<double>(8, 0.0)), s = c;
        for (auto& x : e.at("cs").a) { c[x.a[0].i][x.a[1].i] = x.a[2].i * 1e-3; s[x.a[0].i][x.a[1].i] = x.a[3].i * 1e-3; }
        if (kind == "moon") f << "1500.0,5000.0,0,7,7,1,0,0\n";
        for (int n = kind == "earth" ? 2 : 1; n <= 7; n++) for (int m = 0; m <= n; m++)
          if (kind == "earth") f << "  " << n << "  " << m << "  " << World::num(c[n][m]) << "  " << World::num(s[n][m]) << "  0.1e-10  0.1e-10\n";
          else f << n << ", " << m << ", " << World::num(c[n][m]) << ", " << World::num(s[n][m]) << ", 0.0, 0.0\n";
        put(dir + "coef", f.str());
        std::string path = dir + (e.flag("file") ? "coef" : "nothing");
        put(dir + "f.ini", std::string(kind == "earth" ? "[GEOPOTENTIAL]\n" : "[LUNAR_GRAVITY_FIELD]\n") + "calculation=" + (on ? "ENABLE" : "DISABLE") + "\nlogging=ENABLE\ndegree=" + std::to_string(deg) + "\ncoefficients_file_path=" + path + "\n");
        using namespace disturbances;
        if (kind == "earth") field = ini ? new Geopotential(InitGeopotential(dir + "f.ini")) : new Geopotential(deg, path, on);
        else field = ini ? new LunarGravityField(InitLunarGravityField(dir + "f.ini")) : new LunarGravityField(deg, path, on);
        pot = new gravity::GravityPotential(deg < 0 || deg > 7 ? 0 : deg, c, s, GM, R);
        r["dep"] = field->IsAttitudeDependent();
      } else if (kind == "mag") {
        for (int i = 0; i < 2; i++) {
          double sd = e.num("sd") && i == 1 ? e.num("sd") : 0.0; std::string file = e.flag("two") && i == 1 ? "other13.coef" : "field13.coef";
          if (ini) {
            std::ostringstream f; f << "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation=" << (on ? "ENABLE" : "DISABLE") << "\nlogging=ENABLE\ncoefficient_file=" << dir << file << "\nmagnetic_field_random_walk_standard_deviation_nT = 0\nmagnetic_field_random_walk_limit_nT=0\nmagnetic_field_white_noise_standard_deviation_nT=" << sd << "\n";
            put(dir + "f.ini", f.str()); geo[i] = new environment::GeomagneticField(environment::InitGeomagneticField(dir + "f.ini"));
          } else { geo[i] = new environment::GeomagneticField(dir + file, 0, 0, sd); geo[i]->IsCalcEnabled = on; }
        }
      } else {
        if (ini) {
          std::ostringstream f; f << "[ATMOSPHERE]\ncalculation=" << (on ? "ENABLE" : "DISABLE") << "\nlogging=ENABLE\nmodel=" << e.str("model") << "\nis_manual_parameter_used=ENABLE\nmanual_daily_f107=" << e.num("f") << "\nmanual_average_f107=" << e.num("fa") << "\nmanual_ap=" << e.num("ap") << "\nair_density_standard_deviation=" << e.num("sd") / 100.0 << "\nnrlmsise00_table_file=none\n";
          put(dir + "f.ini", f.str()); air = new environment::Atmosphere(environment::InitAtmosphere(dir + "f.ini", &loc.GetCelestialInformation(), &w->time()));
        } else { air = new environment::Atmosphere(e.str("model"), "none", e.num("sd") / 100.0, true, e.num("f"), e.num("fa"), e.num("ap"), &loc.GetCelestialInformation(), &w->time()); air->SetCalcFlag(on); }
      }
    } else if (op == "body") stars(e.str("b"), e.ints("s"));
    else if (op == "at" && field) {
      Peek::put(dyn.GetOrbit(), vec(e.ints("p"), R / 1000), false);
      const_cast<dynamics::attitude::Attitude&>(dyn.GetAttitude()).SetQuaternion_i2b(quat(e.ints("q")));
      field->UpdateIfEnabled(loc, dyn);
      auto& g = w->glo->GetCelestialInformation();
      r["m"] = dcm(kind == "earth" ? g.GetEarthRotation().GetDcmJ2000ToEcef() : g.GetMoonRotation().GetDcmJ2000ToMcmf());
      double k = 1e4 / (GM / R / R);
      r["a"] = js(field->GetAcceleration_i_m_s2(), k); r["x"] = js(fromlog(dynamic_cast<logger::ILoggable*>(field)->GetLogValue()), k);
      r["o"] = hx::rnd((field->GetForce_b_N().CalcNorm() + field->GetTorque_b_Nm().CalcNorm() + field->GetAcceleration_b_m_s2().CalcNorm()) * 1e9);
    } else if (op == "grad" && pot) {
      V p = vec(e.ints("p"), R / 1000); double k = 1e4 / (GM / R / R / R);
      math::Matrix<3, 3> J = pot->CalcPartialDerivative_xcxf_s2(p);
      r["j"] = Js::arr(); r["d"] = Js::arr();
      for (int i = 0; i < 3; i++) r["j"].push(js(vec(J[i][0], J[i][1], J[i][2]), k));
      for (int i = 0; i < 3; i++) {   // how the acceleration changes along each axis
        V d(0.0); d[i] = 1e-4 * R;
        r["d"].push(js(pot->CalcAcceleration_xcxf_m_s2(p + d) - pot->CalcAcceleration_xcxf_m_s2(p - d), 1e4 / (GM / R / R) / 2e-4));
      }
    } else if (op == "at" && geo[0]) {
      auto& m = *geo[e.num("w")];
      geodesy::GeodeticPosition g(e.num("lat") * M_PI / 180, e.num("lon") * M_PI / 180, e.num("alt") * 1000.0);
      m.CalcMagneticField(e.num("yr") / 10.0, e.num("g") * M_PI / 180, g, quat(e.ints("q")));
      r["p"] = js(g.CalcEcefPosition(), 1e4 / 6371200);
      r["i"] = js(m.GetGeomagneticField_i_nT(), 1); r["b"] = js(m.GetGeomagneticField_b_nT(), 1);
      r["l"] = js(fromlog(m.GetLogValue()), 1);
    } else if (op == "dens") {   // the models themselves, at an exact altitude
      geodesy::GeodeticPosition g(e.num("lat") * M_PI / 180, e.num("lon") * M_PI / 180, e.num("alt") * 100.0);
      double rho = e.str("model") == "STANDARD" ? atmosphere::CalcAirDensityWithSimpleModel(e.num("alt") * 100.0) : atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(g, vec(e.ints("s")).CalcNormalizedVector());
      r["p"] = js(g.CalcEcefPosition().CalcNormalizedVector(), 1e4);
      r["zero"] = rho == 0; r["ln"] = rho > 0 ? hx::rnd(log(rho) * 1e4) : 0; r["bad"] = !(rho >= 0 && rho < 1e9);
    } else if (op == "at" && air) {
      Peek::put(dyn.GetOrbit(), vec(e.ints("p"), 1000)); auto& o = dyn.GetOrbit();
      const_cast<environment::LocalCelestialInformation&>(loc.GetCelestialInformation()).UpdateAllObjectsInformation(o.GetPosition_i_m(), o.GetVelocity_i_m_s(), dyn.GetAttitude().GetQuaternion_i2b(), V(0.0));
      stub_msis_calls = 0; double yr = e.num("yr") + e.num("day") / 366.0 + e.num("h") / 8784.0;
      double rho = air->CalcAirDensity_kg_m3(yr, o), kept = air->GetAirDensity_kg_m3();
      r["alt"] = hx::rnd(o.GetGeodeticPosition().GetAltitude_m() / 10);
      r["zero"] = kept == 0; r["same"] = rho == kept; r["ln"] = kept > 0 ? hx::rnd(log(kept) * 1e4) : 0; r["bad"] = !(kept >= 0 && kept < 1e9);
      double logged = atof(air->GetLogValue().c_str()); r["log"] = fabs(logged - kept) <= 1e-5 * fabs(kept);
      r["ms"] = stub_msis_calls; air->CalcAirDensity_kg_m3(yr, o); r["again"] = air->GetAirDensity_kg_m3() == kept; auto& q = stub_msis_input;
      if (stub_msis_calls) {
        r["in"] = Js::obj(); auto& y = r["in"];
        y["sec"] = hx::rnd(q.sec); y["alt"] = hx::rnd(q.alt * 100); y["lst"] = hx::rnd(q.lst * 3600); y["lat"] = hx::rnd(q.g_lat * 100 - o.GetGeodeticPosition().GetLatitude_rad() * 18000 / M_PI); y["lon"] = hx::rnd(q.g_long * 100 - o.GetGeodeticPosition().GetLongitude_rad() * 18000 / M_PI);
        y["lo"] = hx::rnd(o.GetGeodeticPosition().GetLongitude_rad() * 180 / M_PI * 240); y["f"] = hx::rnd(q.f107); y["fa"] = hx::rnd(q.f107A); y["ap"] = hx::rnd(q.ap); y["doy"] = q.doy;
      }
    }
    return r;
  });
}
