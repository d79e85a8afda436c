// Driver for spec/Ideal.tla: ideal force and torque generators and ideal observers of orbit, attitude and rate.
#include "world.hpp"
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
#include <environment/global/clock_generator.hpp>
#include <memory>
using hx::Js;
using namespace s2e;
using namespace vw;
using namespace s2e::components;
static World* w; static environment::ClockGenerator* clk;
struct Peek : dynamics::orbit::Orbit {
  static void put(const dynamics::orbit::Orbit& o, const V& p, const V& v) { auto& k = static_cast<Peek&>(const_cast<dynamics::orbit::Orbit&>(o)); k.spacecraft_position_i_m_ = p; k.spacecraft_velocity_i_m_s_ = v; }
};
struct Set {
  std::unique_ptr<ForceGenerator> f; std::unique_ptr<TorqueGenerator> t; std::unique_ptr<OrbitObserver> o; std::unique_ptr<AttitudeObserver> a; std::unique_ptr<AngularVelocityObserver> r;
};
static Set s[2]; static Js conf; static V tf, tt;
static std::string n17(double v) { return World::num(v); }
static void make(Set& s, const Js& e) {
  auto& dyn = *w->sc[0].dyn; const double deg = M_PI / 180; auto ns = e.ints("ns"), b = e.ints("bias");
  if (e.flag("ini")) {
    std::ostringstream o;
    o << "[COMPONENT_BASE]\nprescaler = 1\n[FORCE_GENERATOR]\nforce_magnitude_standard_deviation_N = " << n17(e.num("ms") / 1e3) << "\nforce_direction_standard_deviation_deg = " << n17(e.num("ds") / 1e3)
      << "\n[TORQUE_GENERATOR]\ntorque_magnitude_standard_deviation_Nm = " << n17(e.num("mt") / 1e3) << "\ntorque_direction_standard_deviation_deg = " << n17(e.num("dt") / 1e3)
      << "\n[ATTITUDE_OBSERVER]\nerror_angle_standard_deviation_deg = " << n17(e.num("as") / 1e3) << "\n[ORBIT_OBSERVER]\nnoise_frame = " << e.str("fr") << "\n";
    for (int i = 0; i < 6; i++) o << "noise_standard_deviation(" << i << ") = " << n17(i < 3 ? ns[i] : ns[i] / 1e3) << "\n";
    o << "[SENSOR_BASE_ANGULAR_VELOCITY_OBSERVER]\nrange_to_constant_rad_s = " << n17(e.num("rc") / 1e3) << "\nrange_to_zero_rad_s = " << n17(e.num("rz") / 1e3) << "\n";
    for (int i = 0; i < 3; i++) o << "constant_bias_c_rad_s(" << i << ") = " << n17(b[i] / 1e3) << "\n";
    std::string f = w->dir + "ideal.ini"; put(f, o.str());
    s.f.reset(new ForceGenerator(InitializeForceGenerator(clk, f, &dyn))); s.t.reset(new TorqueGenerator(InitializeTorqueGenerator(clk, f, &dyn)));
    s.o.reset(new OrbitObserver(InitializeOrbitObserver(clk, f, dyn.GetOrbit()))); s.a.reset(new AttitudeObserver(InitializeAttitudeObserver(clk, f, dyn.GetAttitude())));
    s.r.reset(new AngularVelocityObserver(InitializeAngularVelocityObserver(clk, f, 0.1, dyn.GetAttitude())));
  } else {
    s.f.reset(new ForceGenerator(1, clk, e.num("ms") / 1e3, e.num("ds") / 1e3 * deg, &dyn)); s.t.reset(new TorqueGenerator(1, clk, e.num("mt") / 1e3, e.num("dt") / 1e3 * deg, &dyn));
    math::Vector<6> sd; for (int i = 0; i < 6; i++) sd[i] = i < 3 ? ns[i] : ns[i] / 1e3;
    s.o.reset(new OrbitObserver(1, clk, SetNoiseFrame(e.str("fr")), sd, dyn.GetOrbit())); s.a.reset(new AttitudeObserver(1, clk, e.num("as") / 1e3 * deg, dyn.GetAttitude()));
    Sensor<3> base(math::MakeIdentityMatrix<3>(), V(e.num("rc") / 1e3), V(e.num("rz") / 1e3), vec(b, 1e-3), V(0.0), 0.1, V(0.0), V(0.0));
    s.r.reset(new AngularVelocityObserver(1, clk, base, dyn.GetAttitude()));
  }
}
static std::vector<V> fromlog(const logger::ILoggable& l, bool& ok) {
  std::string h = l.GetLogHeader(), v = l.GetLogValue(); ok = ok && std::count(h.begin(), h.end(), ',') == std::count(v.begin(), v.end(), ',');
  std::vector<V> r; std::istringstream i(v); char c; V x; int k = 0;
  while (i >> x[k]) { i >> c; if (++k == 3) { r.push_back(x); k = 0; } }
  return r;
}
static double dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double len(const V& a) { return sqrt(dot(a, a)); }
static V off(Set& s) {   // error of the attitude (small rotation vector)
  s.a->MainRoutine(1); math::Quaternion x = s.a->GetQuaternion_i2b() * w->sc[0].dyn->GetAttitude().GetQuaternion_i2b().Conjugate(); double k = x[3] < 0 ? -2 : 2; return vec(x[0] * k, x[1] * k, x[2] * k);
}
// mean, mean square and product with the next of n samples of a normalised error, each in 1e-3
struct Stat {
  std::vector<double> x;
  Js js() const { double m = 0, v = 0, c = 0; size_t n = x.size(); for (size_t i = 0; i < n; i++) { m += x[i]; v += x[i] * x[i]; if (i) c += x[i] * x[i - 1]; } Js a = Js::arr(); a.push(hx::rnd(m / n, 1e3)); a.push(hx::rnd(v / n, 1e3)); a.push(hx::rnd(c / n, 1e3)); return a; }
};
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); Js r = Js::obj();
    if (!w) { Opt o; o.mag = false; stub_reset(); w = new World(o); clk = new environment::ClockGenerator; }
    auto& dyn = *w->sc[0].dyn; auto& att = const_cast<dynamics::attitude::Attitude&>(dyn.GetAttitude());
    auto unit = [](const std::vector<int>& x) { V v = vec(x); return 1.0 / len(v) * v; };
    if (op == "reset") {
      conf = e; for (auto& x : s) { x = Set(); make(x, e); }
      tf = tt = V(0.0);
      att.SetQuaternion_i2b(quat({0, 0, 0, 1})); att.SetAngularVelocity_b_rad_s(V(0.0)); Peek::put(dyn.GetOrbit(), vec(7e6, 0, 0), vec(0, 7000, 0));
    } else if (op == "pose") {
      att.SetQuaternion_i2b(quat(e.ints("q"))); att.SetAngularVelocity_b_rad_s(vec(e.ints("w"), 1e-3));
      V a = unit(e.ints("ra")), b = unit(e.ints("rb")); Peek::put(dyn.GetOrbit(), e.num("x") * 1e3 * a, e.num("vr") * 1.0 * a + e.num("vt") * 1.0 * b);
    } else if (op == "force") {
      V v = vec(e.ints("v")); if (e.str("f") == "b") s[0].f->SetForce_b_N(v); else if (e.str("f") == "i") s[0].f->SetForce_i_N(v); else s[0].f->SetForce_rtn_N(v);
    } else if (op == "torque") s[0].t->SetTorque_b_Nm(vec(e.ints("v")));
    else if (op == "run" || op == "off") {
      auto& x = s[0]; if (op == "run") { x.f->MainRoutine(1); x.t->MainRoutine(1); } else { x.f->PowerOffRoutine(); x.t->PowerOffRoutine(); }
      V b = x.f->GetGeneratedForce_b_N(), i = x.f->GetGeneratedForce_i_N(), l = x.f->GetGeneratedForce_rtn_N(), t = x.t->GetGeneratedTorque_b_Nm(); bool ok = true;
      auto lf = fromlog(*x.f, ok), lt = fromlog(*x.t, ok); ok = ok && lf.size() == 4 && lt.size() == 2 && len(lf[1] - b) < 2e-3 && len(lf[2] - i) < 2e-3 && len(lf[3] - l) < 2e-3 && len(lt[1] - t) < 2e-3;
      r["b"] = js(b, 1e4); r["i"] = js(i, 1e4); r["l"] = js(l, 1e4); r["t"] = js(t, 1e4); r["log"] = ok;
      r["of"] = ok ? js(lf[0], 1e3) : js(V(1e9), 1); r["ot"] = ok ? js(lt[0], 1e3) : js(V(1e9), 1);
    } else if (op == "see") {
      auto& x = s[0]; x.o->MainRoutine(1); x.a->MainRoutine(1); x.r->MainRoutine(1); bool ok = true;
      auto lo = fromlog(*x.o, ok), la = fromlog(*x.a, ok), lr = fromlog(*x.r, ok); V p = x.o->GetPosition_i_m(), v = x.o->GetVelocity_i_m_s(), g = x.r->GetAngularVelocity_b_rad_s();
      math::Quaternion q = x.a->GetQuaternion_i2b(); Js qj = Js::arr(); for (int i = 0; i < 4; i++) qj.push(hx::rnd(q[i], 1e4));
      ok = ok && lo.size() == 2 && lr.size() == 1 && len(lo[0] - p) < 1e-3 && len(lo[1] - v) < 1e-6 && len(lr[0] - g) < 1e-4 && !la.empty() && fabs(la[0][0] - q[0]) < 1e-4;
      r["p"] = js(p, 1); r["v"] = js(v, 1e3); r["q"] = qj; r["w"] = js(g, 1e5); r["log"] = ok;
    } else if (op == "stats") {
      int n = (int)e.num("n"); V a = unit(e.ints("ra")), b = unit(e.ints("rb")), c = unit(e.ints("rc")); const double deg = M_PI / 180; const std::string& k = e.str("of");
      std::vector<Stat> st;
      if (k == "force" || k == "torque") {
        bool f = k == "force"; double F = e.num("k"), ms = conf.num(f ? "ms" : "mt") / 1e3, ds = conf.num(f ? "ds" : "dt") / 1e3 * deg; st.resize(4);
        if (f) s[0].f->SetForce_b_N(F * a); else s[0].t->SetTorque_b_Nm(F * a);
        for (int i = 0; i < n; i++) {
          if (f) s[0].f->MainRoutine(1); else s[0].t->MainRoutine(1);
          V g = f ? s[0].f->GetGeneratedForce_b_N() : s[0].t->GetGeneratedTorque_b_Nm(); double m = len(g), x = dot(g, b) / m / ds, y = dot(g, c) / m / ds;
          st[0].x.push_back((m - F) / ms); st[1].x.push_back(x); st[2].x.push_back(y); st[3].x.push_back(x * y);
        }
        if (f) s[0].f->SetForce_b_N(tf); else s[0].t->SetTorque_b_Nm(tt);
      } else if (k == "orbit") {
        st.resize(6); auto ns = conf.ints("ns"); bool rtn = conf.str("fr") == "RTN"; V ax[3] = {rtn ? a : vec(1, 0, 0), rtn ? b : vec(0, 1, 0), rtn ? c : vec(0, 0, 1)};
        V p = dyn.GetOrbit().GetPosition_i_m(), v = dyn.GetOrbit().GetVelocity_i_m_s();
        for (int i = 0; i < n; i++) { s[0].o->MainRoutine(1); V dp = s[0].o->GetPosition_i_m() - p, dv = s[0].o->GetVelocity_i_m_s() - v; for (int j = 0; j < 3; j++) { st[j].x.push_back(dot(dp, ax[j]) / ns[j]); st[j + 3].x.push_back(dot(dv, ax[j]) / ns[j + 3] * 1e3); } }
      } else {
        st.resize(3); double as = conf.num("as") / 1e3 * deg;
        for (int i = 0; i < n; i++) { V x = off(s[0]); for (int j = 0; j < 3; j++) st[j].x.push_back(x[j] / as); }
      }
      r["s"] = Js::arr(); for (auto& x : st) r["s"].push(x.js());
    } else if (op == "two") {
      // two of the same kind, side by side, new: are their errors the same?
      Set x[2]; for (auto& y : x) { make(y, conf); y.f->SetForce_b_N(vec(5, 0, 0)); y.t->SetTorque_b_Nm(vec(5, 0, 0)); y.f->MainRoutine(1); y.t->MainRoutine(1); y.o->MainRoutine(1); }
      r["f"] = len(x[0].f->GetGeneratedForce_b_N() - x[1].f->GetGeneratedForce_b_N()) == 0; r["t"] = len(x[0].t->GetGeneratedTorque_b_Nm() - x[1].t->GetGeneratedTorque_b_Nm()) == 0;
      r["o"] = len(x[0].o->GetPosition_i_m() - x[1].o->GetPosition_i_m()) == 0; r["a"] = len(off(x[0]) - off(x[1])) == 0;
    }
    if (op == "force") tf = V(0.0);
    return r;
  });
}
