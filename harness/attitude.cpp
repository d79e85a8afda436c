// Driver for spec/Attitude.tla: the attitude propagators, observed in the principal axes of the body.
#include "world.hpp"
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include <dynamics/attitude/initialize_attitude.hpp>
using hx::Js;
using namespace s2e;
using namespace vw;
using namespace s2e::dynamics::attitude;
typedef std::vector<std::vector<double>> M;
static const double D = M_PI / 180, MD = D / 1000;
static M rot(std::vector<double> q) {
  double n = 0; for (double v : q) n += v * v; n = sqrt(n);
  double x = q[0] / n, y = q[1] / n, z = q[2] / n, w = q[3] / n;
  return {{w * w + x * x - y * y - z * z, 2 * (x * y + w * z), 2 * (x * z - w * y)}, {2 * (x * y - w * z), w * w - x * x + y * y - z * z, 2 * (y * z + w * x)}, {2 * (x * z + w * y), 2 * (y * z - w * x), w * w - x * x - y * y + z * z}};
}
static M rot(const std::vector<int>& q) { return rot(std::vector<double>(q.begin(), q.end())); }
static V to(const M& m, const V& v) { V r; for (int i = 0; i < 3; i++) { r[i] = 0; for (int j = 0; j < 3; j++) r[i] += m[i][j] * v[j]; } return r; }
static V back(const M& m, const V& v) { V r; for (int i = 0; i < 3; i++) { r[i] = 0; for (int j = 0; j < 3; j++) r[i] += m[j][i] * v[j]; } return r; }
static math::Matrix<3, 3> inertia(const M& p, const std::vector<int>& d) {
  math::Matrix<3, 3> r;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[i][j] = 0; for (int k = 0; k < 3; k++) r[i][j] += p[k][i] * d[k] * p[k][j]; }
  return r;
}
static M P; static math::Matrix<3, 3> I; static Attitude* at; static double t;
static void vecini(std::ostream& o, const char* k, const V& v) { for (int i = 0; i < 3; i++) o << k << "(" << i << ")=" << World::num(v[i]) << "\n"; }
static void matini(std::ostream& o, const char* k, const math::Matrix<3, 3>& m) { for (int i = 0; i < 9; i++) o << k << "(" << i << ")=" << World::num(m[i / 3][i % 3]) << "\n"; }
static Js state() {
  Js r = Js::obj();
  math::Quaternion q = at->GetQuaternion_i2b();
  double n = sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  M m = rot(std::vector<double>{q[0], q[1], q[2], q[3]});
  r["c"] = Js::arr();
  for (int j = 0; j < 3; j++) { V v; for (int i = 0; i < 3; i++) v[i] = m[i][j]; r["c"].push(js(to(P, v), 1e4)); }
  r["w"] = js(to(P, at->GetAngularVelocity_b_rad_s()), 1 / MD);
  V x = vec(0, 0, 0), y = x;
  if (dynamic_cast<AttitudeWithCantileverVibration*>(at)) {
    std::istringstream s(at->GetLogValue()); std::string c; std::vector<double> v;
    while (std::getline(s, c, ',')) v.push_back(atof(c.c_str()));
    if (v.size() >= 18) { x = vec(v[12], v[13], v[14]); y = vec(v[15], v[16], v[17]); }
  }
  r["x"] = js(to(P, x), 1 / MD); r["y"] = js(to(P, y), 1 / MD);
  r["n"] = hx::rnd(n, 1e4);
  r["l"] = hx::rnd(at->GetTotalAngularMomentNorm_Nms(), 1 / MD / 16);
  r["e"] = hx::rnd(at->GetKineticEnergy_J(), 1e4 / D / D);
  return r;
}
int main(int argc, char** argv) {
  std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/";
    if (op == "reset") {
      delete at; t = 0;
      P = rot(e.ints("q")); I = inertia(P, e.ints("I"));
      math::Matrix<3, 3> J = inertia(P, e.ints("J"));
      V w = back(P, vec(e.ints("w"), MD)), T = back(P, vec(e.ints("T"), MD));
      math::Quaternion q = quat(e.ints("att"));
      double kf = e.num("kf") * D, ze = e.num("ze") / 100.0, step = e.num("step") / 1000.0; bool can = e.flag("can");
      if (!e.flag("ini")) {
        if (can) at = new AttitudeWithCantileverVibration(w, q, I, J, ze, kf, T, step, "attitude0");
        else at = new AttitudeRk4(w, q, I, T, step, "attitude0");
      } else {
        std::ostringstream o, s;
        o << "[ATTITUDE]\npropagate_mode = " << (can ? "CANTILEVER_VIBRATION" : e.num("step") % 20 ? "RK4" : "SOMETHING") << "\ninitialize_mode = MANUAL\n";
        vecini(o, "initial_angular_velocity_b_rad_s", w); vecini(o, "initial_torque_b_Nm", T);
        for (int i = 0; i < 4; i++) o << "initial_quaternion_i2b(" << i << ")=" << World::num(q[i]) << "\n";
        o << "[SETTING_FILES]\nstructure_file=" << dir << "st.ini\n";
        s << "[CANTILEVER_PARAMETERS]\ndamping_ratio_cantilever=" << World::num(ze) << "\nintrinsic_angular_velocity_cantilever_rad_s=" << World::num(kf) << "\n";
        matini(s, "inertia_tensor_cantilever_kgm2", J);
        put(dir + "at.ini", o.str()); put(dir + "st.ini", s.str());
        at = InitAttitude(dir + "at.ini", nullptr, nullptr, step, I, 0);
      }
    } else if (op == "spin") at->SetAngularVelocity_b_rad_s(back(P, vec(e.ints("w"), MD)));
    else if (op == "turn") at->SetQuaternion_i2b(quat(e.ints("q")));
    else if (op == "wheel") at->SetRwAngularMomentum_b_Nms(back(P, vec(e.ints("h"), MD)));
    else if (op == "torque") { at->SetTorque_b_Nm(vec(0, 0, 0)); at->AddTorque_b_Nm(back(P, vec(e.ints("T"), MD))); }
    else if (op == "mass") I = inertia(P, e.ints("I"));
    else if (op == "again") at->Propagate(t);
    else if (op == "go") {
      double t0 = t; int n = e.num("n");
      for (int i = 1; i <= n; i++) at->Propagate(t = t0 + e.num("dt") / 1000.0 * i / n);
    }
    return state();
  });
}
