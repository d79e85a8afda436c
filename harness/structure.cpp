// Driver for spec/Structure.tla: a whole spacecraft whose structure is read from a file and changed during the run, the sunlight on
// its faces, and its motion under the light and the forces and torques of its components.
#include "world.hpp"
#include <simulation/spacecraft/installed_components.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
using hx::Js;
using namespace vw;
static V g_f, g_t;
struct Comps : spacecraft::InstalledComponents { V GenerateForce_b_N() override { return g_f; } V GenerateTorque_b_Nm() override { return g_t; } };
struct Sc : spacecraft::Spacecraft {
  Sc(const simulation::SimulationConfiguration* s, const environment::GlobalEnvironment* g) : Spacecraft(s, g, 0) { components_ = new Comps; }
  spacecraft::Structure& str() { return *structure_; }
  dynamics::Dynamics& dyn() { return *dynamics_; }
  environment::LocalEnvironment& loc() { return *local_environment_; }
  disturbances::Disturbances& dis() { return *disturbances_; }
};
static math::Matrix<3, 3> sym(const std::vector<int>& s) {
  math::Matrix<3, 3> m; for (int i = 0; i < 3; i++) m[i][i] = s[i];
  m[0][1] = m[1][0] = s[3]; m[0][2] = m[2][0] = s[4]; m[1][2] = m[2][1] = s[5]; return m;
}
static void v3(std::ostringstream& o, const std::string& k, const std::vector<int>& v, double f) { for (int i = 0; i < 3; i++) o << k << "(" << i << ") = " << World::num(v[i] * f) << "\n"; }
int main(int argc, char** argv) {
  World* w = nullptr; Sc* sc = nullptr;
  return hx::run(argc, argv, [&](const Js& e) {
    Js r = Js::obj(); const std::string& op = e.str("op");
    if (op == "reset") {
      delete sc; sc = nullptr;
      if (!w || w->time().GetElapsedTime_s() > 200) { delete w; Opt o; o.mag = false; w = new World(o, false); }
      std::ostringstream s; auto I = e.ints("I");
      auto m = sym(I);
      s << "[KINEMATIC_PARAMETERS]\nmass_kg = " << World::num(e.num("m") / 10.0) << "\n"; v3(s, "center_of_gravity_b_m", e.ints("cog"), .1);
      for (int i = 0; i < 9; i++) s << "inertia_tensor_kgm2(" << i << ") = " << World::num(m[i / 3][i % 3]) << "\n";
      auto& fs = e.at("faces").a; s << "[SURFACES]\nnumber_of_surfaces = " << fs.size() << "\n";
      for (size_t k = 0; k < fs.size(); k++) {
        std::string n = "_" + std::to_string(k); auto& f = fs[k];
        s << "area" << n << "_m2 = " << World::num(f.num("a") * 1e5) << "\nreflectivity" << n << " = " << World::num(f.num("ref") / 10.0) << "\nspecularity" << n << " = " << World::num(f.num("spec") / 10.0)
          << "\nair_specularity" << n << " = " << World::num(f.num("air") / 10.0) << "\n";
        v3(s, "position" + n + "_b_m", f.ints("pos"), .1); v3(s, "normal_vector" + n + "_b", f.ints("n"), 1);
      }
      s << "[RESIDUAL_MAGNETIC_MOMENT]\nrmm_constant_b_Am2(0) = 0\n";
      put(w->dir + "st.ini", s.str());
      std::ostringstream di;
      for (const char* x : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY"})
        di << "[" << x << "]\ncalculation = " << (x[0] == 'S' ? "ENABLE" : "DISABLE") << "\nlogging = ENABLE\ndegree = 4\n";
      put(w->dir + "di.ini", di.str());
      g_f = g_t = vec(0, 0, 0);
      sc = new Sc(&w->conf, w->glo);
      w->glo->Update(); sc->dyn().ClearForceTorque(); sc->dyn().Update(&w->time(), &sc->loc().GetCelestialInformation());  // up to the present
    } else if (op == "set") {
      auto& k = sc->str().GetToSetKinematicsParameters(); const std::string& f = e.str("f"); auto v = e.ints("v");
      if (f == "mass") k.SetMass_kg(v[0] / 10.0); else if (f == "add") k.AddMass_kg(v[0] / 10.0);
      else if (f == "cog") k.SetCenterOfGravityVector_b_m(vec(v, .1)); else if (f == "I") k.SetInertiaTensor_b_kgm2(sym(v));
      else {
        auto& s = sc->str().GetToSetSurfaces();
        if (f == "drop") { if (!s.empty()) s.pop_back(); }
        else if (f == "face") s.push_back(spacecraft::Surface(vec(0, 0, 0), vec(1, 0, 0), v[0] * 1e5, .5, .5, .5));
        else if (e.num("k") < s.size()) {
          auto& x = s[e.num("k")];
          if (f == "a") x.SetArea_m2(v[0] * 1e5); else if (f == "ref") x.SetReflectivity(v[0] / 10.0); else if (f == "spec") x.SetSpecularity(v[0] / 10.0); else if (f == "air") x.SetAirSpecularity(v[0] / 10.0);
          else if (f == "pos") x.SetPosition_b_m(vec(v, .1)); else x.SetNormal_b(vec(v));
        }
      }
    } else if (op == "step") {
      auto& a = sc->dyn().SetAttitude(); a.SetQuaternion_i2b(math::Quaternion(0, 0, 0, 1)); a.SetAngularVelocity_b_rad_s(vec(0, 0, 0));
      V p = sc->dyn().GetOrbit().GetPosition_i_m() + 1.5e11 * vec(e.ints("sun")).CalcNormalizedVector(), v0 = sc->dyn().GetOrbit().GetVelocity_i_m_s();
      double b[6] = {p[0] / 1000, p[1] / 1000, p[2] / 1000, 0, 0, 0}; stub_set_body("SUN", b);
      g_f = vec(e.ints("fo"), 1e-3); g_t = vec(e.ints("to"), 1e-4);
      w->glo->Update(); sc->Update(&w->time());
      r["p"] = hx::rnd(sc->loc().GetSolarRadiationPressure().GetPressure_N_m2(), 1e9);
      r["df"] = js(sc->dis().GetForce_b_N(), 1e3); r["dt"] = js(sc->dis().GetTorque_b_Nm(), 1e4);
      r["dv"] = js(sc->dyn().GetOrbit().GetVelocity_i_m_s() - v0, 1e5); r["dw"] = js(a.GetAngularVelocity_b_rad_s(), 1e7);
    }
    auto& k = sc->str().GetKinematicsParameters(); auto& I = k.GetInertiaTensor_b_kgm2();
    r["m"] = hx::rnd(k.GetMass_kg(), 10); r["cog"] = js(k.GetCenterOfGravity_b_m(), 10);
    Js in = Js::arr(); for (int i = 0; i < 9; i++) in.push(hx::rnd(I[i / 3][i % 3], 1)); r["I"] = in;
    Js fs = Js::arr();
    for (auto& x : sc->str().GetSurfaces()) {
      Js f = Js::obj(); f["a"] = hx::rnd(x.GetArea_m2(), 1e-5); f["ref"] = hx::rnd(x.GetReflectivity(), 10); f["spec"] = hx::rnd(x.GetSpecularity(), 10); f["air"] = hx::rnd(x.GetAirSpecularity(), 10);
      f["pos"] = js(x.GetPosition_b_m(), 10); f["n"] = js(x.GetNormal_b(), 1e4); fs.push(f);
    }
    r["fs"] = fs;
    return r;
  });
}
