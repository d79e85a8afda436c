// Driver for spec/Relative.tla: relative information of several spacecraft, and the relative orbit.
#include "world.hpp"
#include <simulation/multiple_spacecraft/relative_information.hpp>
using hx::Js;
using namespace s2e;
using namespace vw;
static World* w; static World* wh; static simulation::RelativeInformation* ri; static std::vector<double> clk; static std::vector<std::vector<int>> cur; static size_t nsc; static std::vector<bool> in;
static const double kH = 100;
static void accel(size_t i, const V& a) {
  auto& D = *w->sc[i].dyn; auto& O = const_cast<dynamics::orbit::Orbit&>(D.GetOrbit());
  D.ClearForceTorque(); D.AddAcceleration_i_m_s2(a); O.Propagate(clk[i] += kH, 2459000.5);
}
// no gravity here: three steps of acceleration, by way of a place far out, take a spacecraft to any position and velocity
static void put(size_t i, const V& p2, const V& v2, const math::Quaternion& q) {
  auto& D = *w->sc[i].dyn; auto& O = D.GetOrbit();
  accel(i, (2 / kH / kH) * (5.0 * p2 - O.GetPosition_i_m() - kH * O.GetVelocity_i_m_s()));
  V p = O.GetPosition_i_m(), v = O.GetVelocity_i_m_s();
  V S = (1 / kH) * (v2 - v), T = (1 / kH / kH) * (p2 - p - 2 * kH * v), a1 = T - 0.5 * S;
  accel(i, a1); accel(i, S - a1);
  D.SetAttitude().SetQuaternion_i2b(q);
}
static Js all() {
  Js r = Js::obj(); r["pairs"] = Js::arr();
  for (size_t t = 0; t < nsc; t++) for (size_t s = 0; s < nsc; s++) if (in[t] && in[s]) {
    Js o = Js::obj(); o["t"] = (int)t; o["s"] = (int)s;
    o["p"] = js(ri->GetRelativePosition_i_m(t, s), 1e-3); o["v"] = js(ri->GetRelativeVelocity_i_m_s(t, s), 1); o["d"] = hx::rnd(ri->GetRelativeDistance_m(t, s), 1e-3);
    o["pr"] = js(ri->GetRelativePosition_rtn_m(t, s), 1e-3); o["vr"] = js(ri->GetRelativeVelocity_rtn_m_s(t, s), 1);
    math::Quaternion q = ri->GetRelativeAttitudeQuaternion(t, s); double x = q[0], y = q[1], z = q[2], k = q[3];
    double a[3][3] = {{k * k + x * x - y * y - z * z, 2 * (x * y + k * z), 2 * (x * z - k * y)}, {2 * (x * y - k * z), k * k - x * x + y * y - z * z, 2 * (y * z + k * x)}, {2 * (x * z + k * y), 2 * (y * z - k * x), k * k - x * x - y * y + z * z}};
    o["c"] = Js::arr(); for (auto& l : a) o["c"].push(js(vec(l[0], l[1], l[2]), 1e4));
    r["pairs"].push(o);
  }
  r["hd"] = Js::arr(); r["lv"] = Js::arr();
  std::istringstream h(ri->GetLogHeader()), v(ri->GetLogValue()); std::string c;
  while (std::getline(h, c, ',')) {
    Js k = Js::arr(); int t = -1, s = -1; char ty[32] = "", rest[64] = "";
    if (sscanf(c.c_str(), "satellite%d_%8[a-z]_from_satellite%d_%60s", &t, ty, &s, rest) == 4) { std::string R = rest; int ax = R.find("_x") != std::string::npos ? 0 : R.find("_y") != std::string::npos ? 1 : R.find("_z") != std::string::npos ? 2 : 9; k.push((ty[0] == 'p' ? 0 : 1) + (R.compare(0, 3, "rtn") == 0 ? 2 : 0)); k.push(t); k.push(s); k.push(ax); }
    else for (int i = 0; i < 4; i++) k.push(-1);
    r["hd"].push(k);
  }
  int i = 0;
  while (std::getline(v, c, ',')) { bool pos = i < (int)r["hd"].a.size() && r["hd"].a[i].a[0].i % 2 == 0; r["lv"].push(hx::rnd(atof(c.c_str()), pos ? 1e-3 : 1)); i++; }
  return r;
}
static dynamics::Dynamics *d0, *d1; static double n, th;
static Js hill() {
  Js r = Js::obj(); ri->Update();
  V x = d1->GetOrbit().GetPosition_i_m() - d0->GetOrbit().GetPosition_i_m(), v = d1->GetOrbit().GetVelocity_i_m_s() - d0->GetOrbit().GetVelocity_i_m_s();
  r["xi"] = js(x, 1); r["vi"] = js(v, 1 / n); r["x"] = js(ri->GetRelativePosition_rtn_m(1, 0), 1); r["v"] = js(ri->GetRelativeVelocity_rtn_m_s(1, 0), 1 / n);
  return r;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    Js r = Js::obj();
    if (op == "reset" && !e.flag("hill")) {
      if (!w) {
        delete d1; delete d0; d0 = d1 = nullptr; delete wh; wh = nullptr;
        stub_reset(); Opt o; o.mag = false; o.step = kH; o.end = 1e12; o.pos.clear(); o.vel.clear();
        for (int i = 0; i < 4; i++) { o.pos.push_back(vec(7e6, 1e5 * i, 0)); o.vel.push_back(vec(0, 0, 0)); }
        w = new World(o); clk.assign(4, 0);
      }
      delete ri; ri = new simulation::RelativeInformation(); nsc = e.at("sp").a.size(); in.assign(4, false);
      for (size_t i = 0; i < nsc; i++) { const Js& s = e.at("sp").a[i]; put(i, vec(s.ints("p"), 1e6), vec(s.ints("v"), 1e3), quat(s.ints("q"))); }
    } else if (op == "reg") { ri->RegisterDynamicsInfo(e.num("id"), w->sc[e.num("id")].dyn); in[e.num("id")] = true; }
    else if (op == "rem") { ri->RemoveDynamicsInfo(e.num("id")); in[e.num("id")] = false; }
    else if (op == "put") put(e.num("id"), vec(e.ints("p"), 1e6), vec(e.ints("v"), 1e3), quat(e.ints("q")));
    else if (op == "upd") { ri->Update(); return all(); }
    else if (op == "reset") {
      if (w) { delete w; w = nullptr; }
      if (!wh) { stub_reset(); Opt o; o.mag = false; o.step = 20; o.gm = 398600.4418; o.pos = {vec(7e6, 0, 0), vec(7e6, 1e4, 0)}; o.vel = {vec(0, 7.5e3, 0), vec(0, 7.5e3, 0)}; wh = new World(o); for (auto& s : wh->sc) { delete s.dyn; s.dyn = nullptr; } }
      delete d1; delete d0; delete ri; ri = new simulation::RelativeInformation();
      n = 2 * M_PI / e.num("P"); double a = cbrt(398600.4418e9 / n / n), k = M_PI / 180; th = 0;
      std::ostringstream s, t;
      s << "propagate_mode = KEPLER\ninitialize_mode = ORBITAL_ELEMENTS\nsemi_major_axis_m = " << World::num(a) << "\neccentricity = 0\ninclination_rad = " << World::num(e.num("i") * k) << "\nraan_rad = " << World::num(e.num("o") * k)
        << "\nargument_of_perigee_rad = " << World::num(e.num("u") * k) << "\nepoch_jday = " << World::num(wh->time().GetCurrentTime_jd()) << "\n";
      t << "propagate_mode = RELATIVE\ninitialize_mode = DEFAULT\nrelative_orbit_update_method = " << (e.str("how") == "rk4" ? 0 : 1) << "\nrelative_dynamics_model_type = 0\nstm_model_type = 0\nreference_satellite_id = 0\n";
      auto x = e.ints("x"), v = e.ints("v");
      for (int i = 0; i < 3; i++) t << "initial_relative_position_lvlh_m(" << i << ") = " << x[i] << "\ninitial_relative_velocity_lvlh_m_s(" << i << ") = " << World::num(v[i] * n) << "\n";
      wh->o.orbit = {s.str(), t.str()}; wh->files();
      d0 = new dynamics::Dynamics(&wh->conf, &wh->time(), wh->sc[0].loc, 0, wh->sc[0].str, ri); ri->RegisterDynamicsInfo(0, d0);
      d1 = new dynamics::Dynamics(&wh->conf, &wh->time(), wh->sc[1].loc, 1, wh->sc[1].str, ri); ri->RegisterDynamicsInfo(1, d1);
      return hill();
    } else {
      for (int i = 0; i < e.num("n"); i++) {
        th += e.num("dt") / 1000.0;
        for (auto d : {d0, d1}) const_cast<dynamics::orbit::Orbit&>(d->GetOrbit()).Propagate(th, wh->time().GetCurrentTime_jd() + th / 86400);
      }
      return hill();
    }
    return r;
  });
}
