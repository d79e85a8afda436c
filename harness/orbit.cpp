// Driver for spec/Orbit.tla: the propagators of a single spacecraft.
#include "world.hpp"
#include <dynamics/orbit/encke_orbit_propagation.hpp>
#include <dynamics/orbit/initialize_orbit.hpp>
#include <dynamics/orbit/kepler_orbit_propagation.hpp>
#include <dynamics/orbit/rk4_orbit_propagation.hpp>
#include <math_physics/orbit/kepler_orbit.hpp>
#include <math_physics/orbit/orbital_elements.hpp>
using hx::Js;
using namespace s2e;
using namespace vw;
using namespace s2e::dynamics::orbit;
static const double kJd = 2458941.0;
static World* w; static Orbit* ob; static double a, n, mu, t; static bool seen_att;
static double tau = 2 * M_PI, rad = M_PI / 180;
// the state that starts a propagator (input only; what comes out is judged by the specification)
static void truth(double e, double i, double o, double ap, double M, V& p, V& v) {
  double lo = 0, hi = tau;
  for (int k = 0; k < 60; k++) { double x = (lo + hi) / 2; (x - e * sin(x) <= M ? lo : hi) = x; }
  double E = (lo + hi) / 2, b = sqrt(1 - e * e), x = a * (cos(E) - e), y = a * b * sin(E), d = 1 - e * cos(E), vx = -a * n * sin(E) / d, vy = a * n * b * cos(E) / d;
  V P = vec(cos(o) * cos(ap) - sin(o) * sin(ap) * cos(i), sin(o) * cos(ap) + cos(o) * sin(ap) * cos(i), sin(ap) * sin(i));
  V Q = vec(-cos(o) * sin(ap) - sin(o) * cos(ap) * cos(i), -sin(o) * sin(ap) + cos(o) * cos(ap) * cos(i), cos(ap) * sin(i));
  p = x * P + y * Q; v = vx * P + vy * Q;
}
static Js state() {
  Js r = Js::obj();
  V p = ob->GetPosition_i_m(), v = ob->GetVelocity_i_m_s(), pe = ob->GetPosition_ecef_m(), ve = ob->GetVelocity_ecef_m_s();
  double A = 1 / a, B = 1 / (n * a);
  r["p"] = js(p, A * 1e6); r["v"] = js(v, B * 1e6); r["pe"] = js(pe, A * 1e4); r["ve"] = js(ve, B * 1e4);
  math::Matrix<3, 3> m = w->glo->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef();
  r["g"] = hx::rnd(atan2(m[0][1], m[0][0]) / rad * 1000);
  V x = A * p, y = B * v; double R = x.CalcNorm();
  V h = math::OuterProduct(x, y), ev = math::OuterProduct(y, h) - (1 / R) * x;
  r["en"] = hx::rnd((math::InnerProduct(y, y) / 2 - 1 / R) * 1e6); r["h"] = js(h, 1e6); r["ev"] = js(ev, 1e6);
  math::Quaternion q = ob->CalcQuaternion_i2lvlh();
  r["lp"] = js(q.FrameConversion(x), 1e4); r["lv"] = js(q.FrameConversion(y), 1e4);
  r["vb"] = js(B * ob->GetVelocity_b_m_s(), 1e4);
  return r;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/";
    if (op == "reset") {
      if (!w) { Opt o; o.mag = false; o.step = 5000; stub_reset(); w = new World(o, false); w->glo->Update(); w->glo->Update(); }
      delete ob; ob = nullptr; t = 0;
      a = e.num("a") * 1e3; n = tau / e.num("P"); mu = n * n * a * a * a;
      double ec = e.num("e") / 100.0, i = e.num("i") * rad, o = e.num("o") * rad, ap = e.num("w") * rad, M = e.num("m") / 1000.0 * rad, step = e.num("step") / 1000.0, tol = e.num("tol") * 1e-6;
      double epoch = kJd - M / n / 86400;
      V p, v; truth(ec, i, o, ap, M, p, v);
      auto ci = &w->glo->GetCelestialInformation();
      const std::string &kind = e.str("kind"), &how = e.str("how");
      if (how == "direct") {
        if (kind == "kepler") ob = new KeplerOrbitPropagation(ci, kJd, s2e::orbit::KeplerOrbit(mu, s2e::orbit::OrbitalElements(epoch, a, ec, i, o, ap)));
        else if (kind == "rk4") ob = new Rk4OrbitPropagation(ci, mu, step, p, v);
        else ob = new EnckeOrbitPropagation(ci, mu, step, kJd, p, v, tol);
        ob->SetIsCalcEnabled(e.flag("on"));
      } else {
        std::ostringstream s;
        s << "[ORBIT]\ncalculation = " << (e.flag("on") ? "ENABLE" : "DISABLE") << "\nlogging = ENABLE\npropagate_mode = " << (kind == "rk4" ? "RK4" : kind == "kepler" ? "KEPLER" : kind == "encke" ? "ENCKE" : "RUNGE")
          << "\ninitialize_mode = " << (how == "pv" ? "POSITION_VELOCITY_I" : how == "oe" ? "ORBITAL_ELEMENTS" : "DEFAULT") << "\n";
        for (int k = 0; k < 3; k++) s << "initial_position_i_m(" << k << ") = " << World::num(p[k]) << "\ninitial_velocity_i_m_s(" << k << ") = " << World::num(v[k]) << "\n";
        s << "semi_major_axis_m = " << World::num(a) << "\neccentricity = " << World::num(ec) << "\ninclination_rad = " << World::num(i) << "\nraan_rad = " << World::num(o) << "\nargument_of_perigee_rad = " << World::num(ap)
          << "\nepoch_jday = " << World::num(epoch) << "\nerror_tolerance = " << World::num(tol) << "\n";
        put(dir + "orb.ini", s.str());
        ob = InitOrbit(ci, dir + "orb.ini", step, kJd, mu, "ORBIT", nullptr);
      }
      Js r = state();
      s2e::orbit::OrbitalElements oe(mu, kJd, p, v);
      Js q = Js::obj();
      double k = 1000 / rad, mm = n * (kJd - oe.GetEpoch_jday()) * 86400;
      q["a"] = hx::rnd(oe.GetSemiMajorAxis_m() / a, 1e6); q["e"] = hx::rnd(oe.GetEccentricity(), 1e6); q["i"] = hx::rnd(oe.GetInclination_rad(), k); q["o"] = hx::rnd(oe.GetRaan_rad(), k);
      q["w"] = hx::rnd(oe.GetArgPerigee_rad(), k); q["m"] = hx::rnd(mm, k);
      r["oe"] = q;
      return r;
    }
    double ka = n * n * a * 1e-6;
    if (op == "power") ob->SetIsCalcEnabled(e.flag("on"));
    else if (op == "acc") ob->SetAcceleration_i_m_s2(vec(e.ints("a"), ka));
    else if (op == "add") {
      if (e.str("f") == "accel") ob->AddAcceleration_i_m_s2(vec(e.ints("a"), ka));
      else if (e.str("f") == "force_i") ob->AddForce_i_N(vec(e.ints("a"), ka), e.num("mass"));
      else ob->AddForce_b_N(vec(e.ints("a"), ka), quat(e.ints("q")), e.num("mass"));
    } else if (op == "att") ob->UpdateByAttitude(quat(e.ints("q")));
    else for (int i = 0; i < e.num("n"); i++) { t += e.num("dt") / 1000.0; ob->Propagate(t, kJd + t / 86400); }
    return state();
  });
}
