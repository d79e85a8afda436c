// Driver for spec/Pointing.tla: the controlled attitude modes, on an orbit that is simply put where the script says.
#include "world.hpp"
#include <dynamics/attitude/controlled_attitude.hpp>
#include <dynamics/attitude/initialize_attitude.hpp>
#include <environment/local/local_celestial_information.hpp>
using hx::Js;
using namespace s2e;
using namespace vw;
using namespace s2e::dynamics::attitude;
struct Orb : dynamics::orbit::Orbit {
  Orb(const environment::CelestialInformation* c) : Orbit(c) {}
  void Propagate(const double, const double) {}
  void put(const V& p, const V& v) { spacecraft_position_i_m_ = p; spacecraft_velocity_i_m_s_ = v; TransformEciToEcef(); }
};
static World* w[2]; static int ro; static Orb* orb; static environment::LocalCelestialInformation* loc; static Attitude* at; static math::Matrix<3, 3> I; static double t;
static void place(const Js& e) {
  auto s = e.ints("sun"); double b[6] = {s[0] * 1e3, s[1] * 1e3, s[2] * 1e3, 0, 0, 0};
  stub_set_body("SUN", b);
  const_cast<environment::CelestialInformation&>(w[ro]->glo->GetCelestialInformation()).UpdateAllObjectsInformation(w[ro]->time());
  orb->put(vec(e.ints("p"), 1e6), vec(e.ints("v"), 1e3));
}
static Js state(double dt) {
  Js r = Js::obj();
  math::Matrix<3, 3> m = w[ro]->glo->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef();
  r["g"] = hx::rnd(atan2(m[0][1], m[0][0]) * 180 / M_PI * 1000);
  math::Quaternion q = at->GetQuaternion_i2b();
  double x = q[0], y = q[1], z = q[2], s = q[3], n = x * x + y * y + z * z + s * s;
  r["n"] = hx::rnd(n, 1e4);
  double a[3][3] = {{s * s + x * x - y * y - z * z, 2 * (x * y + s * z), 2 * (x * z - s * y)}, {2 * (x * y - s * z), s * s - x * x + y * y - z * z, 2 * (y * z + s * x)}, {2 * (x * z + s * y), 2 * (y * z - s * x), s * s - x * x - y * y + z * z}};
  r["a"] = Js::arr();
  for (auto& i : a) r["a"].push(js(vec(i[0], i[1], i[2]), 1e4));
  r["w"] = js(at->GetAngularVelocity_b_rad_s(), dt * 1e4);
  return r;
}
static AttitudeControlMode mode(const std::string& s) { return ConvertStringToCtrlMode(s); }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/";
    double dt = 0;
    if (op == "reset") {
      ro = e.flag("rot"); t = 0;
      if (!w[ro]) { Opt o; o.mag = false; o.step = 5000; o.earth_rotation = ro ? "SIMPLE" : "IDLE"; stub_reset(); w[ro] = new World(o, false); w[ro]->glo->Update(); w[ro]->glo->Update(); }
      delete at; delete orb; delete loc;
      orb = new Orb(&w[ro]->glo->GetCelestialInformation()); loc = new environment::LocalCelestialInformation(&w[ro]->glo->GetCelestialInformation());
      place(e);
      for (int i = 0; i < 9; i++) I[i / 3][i % 3] = i % 4 ? 0 : 2 + i;
      math::Quaternion q0 = quat(e.ints("q0")); auto bm = vec(e.ints("bm")), bs = vec(e.ints("bs"));
      if (e.str("how") == "direct")
        at = new ControlledAttitude(mode(e.str("main")), mode(e.str("sub")), q0, bm, bs, I, geodesy::GeodeticPosition(e.num("lat") * M_PI / 180, e.num("lon") * M_PI / 180, e.num("alt") * 1000.0), loc, orb);
      else {
        std::ostringstream o;
        o << "[ATTITUDE]\npropagate_mode = " << (e.str("how") == "init" ? "RK4" : "CONTROLLED") << "\ninitialize_mode = " << (e.str("how") == "both" || e.str("how") == "init" ? "CONTROLLED" : "MANUAL") << "\n";
        for (int i = 0; i < 4; i++) o << "initial_quaternion_i2b(" << i << ")=" << World::num(q0[i]) << "\n";
        for (int i = 0; i < 3; i++) o << "initial_angular_velocity_b_rad_s(" << i << ")=0\ninitial_torque_b_Nm(" << i << ")=0\n";
        o << "[CONTROLLED_ATTITUDE]\nmain_mode = " << e.str("main") << "\nsub_mode = " << e.str("sub") << "\n";
        for (int i = 0; i < 3; i++) o << "main_pointing_direction_b(" << i << ")=" << World::num(bm[i]) << "\nsub_pointing_direction_b(" << i << ")=" << World::num(bs[i]) << "\n";
        o << "target_position_latitude_deg = " << e.num("lat") << "\ntarget_position_longitude_deg = " << e.num("lon") << "\ntarget_position_altitude_m = " << e.num("alt") * 1000 << "\n";
        put(dir + "at.ini", o.str());
        at = InitAttitude(dir + "at.ini", orb, loc, 1.0, I, 0);
      }
    } else if (op == "move") place(e);
    else if (op == "see") loc->UpdateAllObjectsInformation(orb->GetPosition_i_m(), orb->GetVelocity_i_m_s(), at->GetQuaternion_i2b(), at->GetAngularVelocity_b_rad_s());
    else if (op == "mode") { auto& c = *dynamic_cast<ControlledAttitude*>(at); c.SetMainMode(mode(e.str("main"))); c.SetSubMode(mode(e.str("sub"))); }
    else if (op == "aim") { auto& c = *dynamic_cast<ControlledAttitude*>(at); c.SetMainTargetDirection_b(vec(e.ints("bm"))); c.SetSubTargetDirection_b(vec(e.ints("bs"))); }
    else if (op == "prop") { dt = e.num("dt") / 1000.0; at->Propagate(t += dt); }
    return state(dt);
  });
}
