// Driver for spec/Actuators.tla: ReactionWheel and SimpleThruster on a real component clock with real power ports.
#include "hx.hpp"
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <environment/global/clock_generator.hpp>
#include <simulation/spacecraft/structure/structure.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::components;
typedef math::Vector<3> V;
static environment::ClockGenerator* cg;
static double step;
struct W { ReactionWheel* w; PowerPort* p; ReactionWheelJitter* j; math::Quaternion q; V pos; bool jit; };
struct T { SimpleThruster* t; PowerPort* p; spacecraft::Structure* s; };
static std::vector<W> ws; static std::vector<T> ts;
static math::Quaternion axisq(int a) {   // the frame whose z axis is the given body axis
  const double s = std::sqrt(0.5);
  switch (a) {
    case 1: return math::Quaternion(0, s, 0, s); case -1: return math::Quaternion(0, -s, 0, s);
    case 2: return math::Quaternion(-s, 0, 0, s); case -2: return math::Quaternion(s, 0, 0, s);
    case -3: return math::Quaternion(1, 0, 0, 0); default: return math::Quaternion(0, 0, 0, 1);
  }
}
static V dirv(int a, double n = 1) { V v(0.0); v[std::abs(a) - 1] = a > 0 ? n : -n; return v; }
static V vec(const std::vector<int>& x) { V v; for (int i = 0; i < 3; i++) v[i] = x[i]; return v; }
static Js js(const V& v, double k) { Js a = Js::arr(); for (int i = 0; i < 3; i++) a.push(hx::rnd(v[i], k)); return a; }
static std::vector<double> log(const std::string& s) { std::vector<double> v; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) v.push_back(atof(t.c_str())); return v; }
static Js state() {
  Js r = Js::obj(); r["w"] = Js::arr(); r["t"] = Js::arr();
  for (auto& x : ws) {
    Js j = Js::obj();
    j["w"] = hx::rnd(x.w->GetAngularVelocity_rad_s(), 1e5);
    j["drv"] = x.w->GetDriveFlag();
    j["h"] = js(x.w->GetAngularMomentum_b_Nms(), 1e5);
    V tq = x.w->GetOutputTorque_b_Nm();
    if (x.jit) {
      auto l = log(x.w->GetLogValue()); while (l.size() < 11) l.push_back(1e30);
      V f, t; for (int i = 0; i < 3; i++) { f[i] = l[5 + i]; t[i] = l[8 + i]; }
      tq = tq + math::OuterProduct(x.pos, x.q.InverseFrameConversion(f)) + x.q.InverseFrameConversion(t);
      j["jf"] = hx::rnd(f.CalcNorm(), 1e5); j["jt"] = hx::rnd(t.CalcNorm(), 1e5); j["jx"] = hx::rnd(std::fabs(f[2]) + std::fabs(t[2]), 1e5);
    }
    j["tq"] = js(tq, 1e5);
    r["w"].push(j);
  }
  for (auto& x : ts) { Js j = Js::obj(); j["f"] = js(x.t->GetOutputThrust_b_N(), 1e5); j["t"] = js(x.t->GetOutputTorque_b_Nm(), 1e5); r["t"].push(j); }
  return r;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/";
    if (op == "reset") {
      for (auto& x : ws) { delete x.w; delete x.j; }
      for (auto& x : ts) { delete x.t; delete x.s; }
      ws.clear(); ts.clear(); delete cg; cg = new environment::ClockGenerator(); step = 1.0 / e.num("dd");
    } else if (op == "wheel") {
      W w; w.p = new PowerPort(); w.q = axisq(e.num("axis")); w.pos[0] = 0.1; w.pos[1] = -0.2; w.pos[2] = 0.3; w.j = nullptr; w.jit = e.num("jc") > 0;
      int pre = e.num("pre"); double dt = step * (pre > 0 ? pre : 1), dead = e.num("dead4") * 0.25 * dt;
      double jc = e.num("jc") * 1e-6;
      if (e.flag("ini")) {
        std::ofstream h(dir + "f.csv"), g(dir + "t.csv"), o(dir + "rw.ini");
        h << "1," << jc << "\n"; g << "1," << jc / 2 << "\n"; o.precision(17);
        o << "[REACTION_WHEEL_1]\nprescaler=" << pre << "\nmoment_of_inertia_kgm2=0.125\nmax_output_torque_Nm=" << e.num("tmax") / 1000.0 << "\nmax_angular_velocity_rpm=" << e.num("rmax") << "\n";
        if (e.flag("byq")) { o << "direction_determination_mode=QUATERNION\n"; for (int i = 0; i < 4; i++) o << "quaternion_b2c(" << i << ")=" << w.q[i] << "\n"; }
        else { V d = dirv(e.num("axis")); o << "direction_determination_mode=DIRECTION\n"; for (int i = 0; i < 3; i++) o << "direction_b(" << i << ")=" << d[i] << "\n"; }
        for (int i = 0; i < 3; i++) o << "position_b_m(" << i << ")=" << w.pos[i] << "\n";
        o << "dead_time_s=" << dead << "\ntime_constant_s=" << e.num("m") * dt << "\nfriction_order=2\nfriction_coefficients(0)=" << e.num("f0") / 1e5 << "\nfriction_coefficients(1)=" << e.num("f1") / 100.0
          << "\nstop_limit_angular_velocity_rad_s=" << e.num("stop") / 1e5 << "\ninitial_motor_drive_flag=" << (e.flag("drv") ? "true" : "false") << "\ninitial_angular_velocity_rad_s=" << e.num("w0") / 1e5
          << "\n[REACTION_WHEEL_JITTER_1]\njitter_calculation=" << (w.jit ? "ENABLE" : "DISABLE") << "\njitter_logging=" << (w.jit ? "ENABLE" : "DISABLE") << "\nfast_prescaler=" << e.num("fp")
          << "\nradial_force_harmonics_coefficient_file=" << dir << "f.csv\nradial_torque_harmonics_coefficient_file=" << dir << "t.csv\nharmonics_degree=1\nconsiders_structural_resonance=DISABLE\n"
          << "structural_resonance_frequency_Hz=10\ndamping_factor=0.1\nbandwidth=0.001\n[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n";
        h.close(); g.close(); o.close();
        // the direction mode turns about another axis; only the wheel's own axis is observed
        if (!e.flag("byq")) { math::Quaternion q(dirv(e.num("axis")), dirv(3)); w.q = q.Conjugate(); }
        w.w = new ReactionWheel(InitReactionWheel(cg, w.p, 1, dir + "rw.ini", step));
      } else {
        w.j = new ReactionWheelJitter({{1, jc}}, {{1, jc / 2}}, step * e.num("fp"), w.q, 10, 0.1, 0.001, false);
        w.w = new ReactionWheel(pre, cg, w.p, 1, dt, 0.125, e.num("tmax") / 1000.0, e.num("rmax"), w.q, w.pos, dead, e.num("m") * dt, {e.num("f0") / 1e5, e.num("f1") / 100.0}, e.num("stop") / 1e5, w.jit, w.jit,
                                e.num("fp"), *w.j, e.flag("drv"), e.num("w0") / 1e5);
      }
      w.p->SetVoltage_V(5.0);
      ws.push_back(w);
    } else if (op == "thr") {
      T t; t.p = new PowerPort();
      {
        std::ofstream o(dir + "sat.ini"), s(dir + "st.ini");
        o << "[SETTING_FILES]\nstructure_file=" << dir << "st.ini\n";
        auto g = e.ints("cg");
        s << "[KINEMATIC_PARAMETERS]\n"; for (int i = 0; i < 3; i++) s << "center_of_gravity_b_m(" << i << ")=" << g[i] << "\n";
        s << "mass_kg=10\n"; for (int i = 0; i < 9; i++) s << "inertia_tensor_kgm2(" << i << ")=" << (i % 4 == 0) << "\n";
        s << "[SURFACES]\nnumber_of_surfaces=0\n[RESIDUAL_MAGNETIC_MOMENT]\n";
      }
      static simulation::SimulationConfiguration* sc = nullptr;
      if (!sc) { sc = new simulation::SimulationConfiguration(); sc->main_logger_ = new logger::Logger("x.csv", dir + "log", "", false, false); sc->spacecraft_file_list_ = {dir + "sat.ini"}; }
      t.s = new spacecraft::Structure(sc, 0);
      int pre = e.num("pre"); double dt = step * (pre > 0 ? pre : 1), dead = e.num("dead4") * 0.25 * dt;
      V d = dirv(e.num("dir"), e.num("dn"));
      if (e.flag("ini")) {
        std::ofstream o(dir + "th.ini"); o.precision(17);
        auto p = e.ints("pos");
        o << "[THRUSTER_2]\nprescaler=" << pre << "\nthrust_magnitude_N=" << e.num("mag") / 1000.0 << "\nthrust_error_standard_deviation_N=0\ndirection_error_standard_deviation_deg=0\ndead_time_s=" << dead
          << "\ntime_constant_s=" << e.num("m") * dt << "\nstep_width_s=" << dt << "\n";
        for (int i = 0; i < 3; i++) o << "thruster_position_b_m(" << i << ")=" << p[i] << "\nthruster_direction_b(" << i << ")=" << d[i] << "\n";
        o << "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n";
        o.close();
        t.t = new SimpleThruster(InitSimpleThruster(cg, t.p, 2, dir + "th.ini", t.s, nullptr));
      } else
        t.t = new SimpleThruster(pre, cg, t.p, 2, vec(e.ints("pos")), d, e.num("mag") / 1000.0, 0.0, 0.0, dead, e.num("m") * dt, dt, t.s, nullptr);
      t.p->SetVoltage_V(5.0);
      ts.push_back(t);
    } else if (op == "tick") cg->TickToComponents();
    else if (op == "wt") { if (e.flag("body")) ws[e.num("i") - 1].w->SetTargetTorque_b_Nm(e.num("T") / 1000.0); else ws[e.num("i") - 1].w->SetTargetTorque_rw_Nm(e.num("T") / 1000.0); }
    else if (op == "wlim") ws[e.num("i") - 1].w->SetVelocityLimit_rpm(e.num("v"));
    else if (op == "wdrv") ws[e.num("i") - 1].w->SetDriveFlag(e.flag("on"));
    else if (op == "wpow") ws[e.num("i") - 1].p->SetVoltage_V(e.flag("on") ? 5.0 : 0.0);
    else if (op == "duty") ts[e.num("i") - 1].t->SetDuty(e.num("v") / 1000.0);
    else if (op == "tpow") ts[e.num("i") - 1].p->SetVoltage_V(e.flag("on") ? 5.0 : 0.0);
    return state();
  });
}
