// Driver for spec/Monte.tla: Monte-Carlo execution, randomized parameters, simulation objects, the log of a case.
#include "hx.hpp"
#include <SpiceUsr.h>
#include <filesystem>
#include <math_physics/math/constants.hpp>
#include <simulation/case/simulation_case.hpp>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
#include <simulation/monte_carlo_simulation/simulation_object.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::simulation;
namespace fs = std::filesystem;
typedef InitializedMonteCarloParameters P;
static std::string dir; static int seq = 0;
static MonteCarloSimulationExecutor* ex;
struct Obj : SimulationObject {
  double d = 7; math::Vector<3> v{7.0}; math::Quaternion q{0, 0.6, 0, 0.8}; int n = 0;
  explicit Obj(const std::string& s) : SimulationObject(s) {}
  void SetParameters(const MonteCarloSimulationExecutor& m) override {
    n++; d = 7; v = math::Vector<3>(7.0); q = math::Quaternion(0, 0.6, 0, 0.8);
    GetInitializedMonteCarloParameterDouble(m, "d", d); GetInitializedMonteCarloParameterVector(m, "v", v); GetInitializedMonteCarloParameterQuaternion(m, "q", q);
  }
};
static std::map<std::string, Obj*> objs;
static const char* kTypes[] = {"NoRandomization", "CartesianUniform", "CartesianNormal", "CircularNormalUniform", "CircularNormalNormal", "SphericalNormalUniformUniform", "SphericalNormalNormal", "QuaternionUniform", "QuaternionNormal"};
static int type_of(const std::string& t) { for (int i = 0; i < 9; i++) if (t == kTypes[i]) return i; _exit(97); }
// settings are whole numbers; angles are in 30 degrees, deviations of angles in 0.1 rad
static std::vector<double> conv(const std::string& t, const std::vector<int>& a, bool hi) {
  std::vector<double> v; const double deg30 = math::pi / 6;
  for (size_t i = 0; i < a.size(); i++) {
    double k = 1;
    if (t == "CircularNormalUniform" && i == 1) k = deg30;
    if (t == "CircularNormalNormal" && i == 1) k = hi ? 0.1 : deg30;
    if (t == "SphericalNormalUniformUniform" && i >= 1) k = deg30;
    if (t == "SphericalNormalNormal" && hi && i == 1) k = 0.1;
    if (t == "QuaternionNormal" && hi) k = 0.1;
    v.push_back(a[i] * k);
  }
  return v;
}
template <size_t N> static math::Vector<N> vec(const std::vector<double>& a) { math::Vector<N> v(0.0); for (size_t i = 0; i < N; i++) v[i] = a[i]; return v; }
template <class F> static void dims(const std::vector<double>& lo, const std::vector<double>& hi, F f) {
  auto g = [&](auto l) { if (hi.size() == 1) f(l, vec<1>(hi)); else if (hi.size() == 2) f(l, vec<2>(hi)); else f(l, vec<3>(hi)); };
  if (lo.size() == 1) g(vec<1>(lo)); else if (lo.size() == 2) g(vec<2>(lo)); else g(vec<3>(lo));
}
template <class V> static Js arr(const V& v, int n) { Js a = Js::arr(); for (int i = 0; i < n; i++) a.push(hx::rnd(v[i], 1e4)); return a; }
static Js show() {
  Js r = Js::obj(); r["en"] = ex->IsEnabled(); r["total"] = (long long)ex->GetTotalNumberOfExecutions(); r["done"] = (long long)ex->GetNumberOfExecutionsDone();
  r["save"] = ex->GetSaveLogHistoryFlag(); r["will"] = ex->WillExecuteNextCase(); return r;
}
struct Case : SimulationCase {
  Case(const std::string& b, const MonteCarloSimulationExecutor& m, const std::string& p) : SimulationCase(b, m, p) {}
  void InitializeTargetObjects() override {}
  void UpdateTargetObjects() override {}
};
static void put(const std::string& f, const std::string& s) { std::ofstream(f) << s; }
template <class V> static void mean_dev(Js& r, const std::vector<V>& s, int n) {
  Js m = Js::arr(), d = Js::arr(), lo = Js::arr(), hi = Js::arr();
  for (int i = 0; i < n; i++) {
    double a = 0, b = 0, x = 1e300, y = -1e300;
    for (auto& v : s) { a += v[i]; x = std::min(x, (double)v[i]); y = std::max(y, (double)v[i]); }
    a /= s.size(); for (auto& v : s) b += (v[i] - a) * (v[i] - a);
    m.push(hx::rnd(a, 1e4)); d.push(hx::rnd(std::sqrt(b / s.size()), 1e4)); lo.push(hx::rnd(x, 1e4)); hi.push(hx::rnd(y, 1e4));
  }
  r["mean"] = m; r["dev"] = d; r["min"] = lo; r["max"] = hi;
}
int main(int argc, char** argv) {
  dir = std::string(getenv("VT_DIR")) + "/";
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    Js r = Js::obj();
    auto add = [](MonteCarloSimulationExecutor* m, const Js& x) {
      auto lo = conv(x.str("ty"), x.ints("lo"), false), hi = conv(x.str("ty"), x.ints("hi"), true);
      dims(lo, hi, [&](auto l, auto h) { m->AddInitializedMonteCarloParameter(x.str("so"), x.str("ip"), l, h, (P::RandomizationType)type_of(x.str("ty"))); });
    };
    if (op == "reset") { for (auto& o : objs) delete o.second; objs.clear(); delete ex; ex = nullptr; r["ok"] = true; }
    else if (op == "new") { delete ex; ex = new MonteCarloSimulationExecutor(e.num("total")); r = show(); }
    else if (op == "en") { ex->SetEnable(e.flag("b")); r = show(); }
    else if (op == "tot") { ex->SetTotalNumberOfExecutions(e.num("n")); r = show(); }
    else if (op == "save") { ex->SetSaveLogHistoryFlag(e.flag("b")); r = show(); }
    else if (op == "begin") { ex->AtTheBeginningOfEachCase(); r = show(); }
    else if (op == "end") { ex->AtTheEndOfEachCase(); r = show(); }
    else if (op == "loop") { int n = 0; while (ex->WillExecuteNextCase() && n++ < 1000) { ex->AtTheBeginningOfEachCase(); ex->AtTheEndOfEachCase(); } r = show(); }
    else if (op == "add") { r["ok"] = true; try { add(ex, e); } catch (...) { r["ok"] = false; } }
    else if (op == "ini") {
      std::string f = dir + "mc" + std::to_string(seq++ % 50) + ".ini";
      std::ostringstream o; o.precision(17);
      o << "[MONTE_CARLO_EXECUTION]\nmonte_carlo_enable = " << (e.flag("en") ? "ENABLE" : "DISABLE") << "\nlog_enable = " << (e.flag("save") ? "ENABLE" : "DISABLE") << "\nnumber_of_executions = " << e.num("total") << "\n[MONTE_CARLO_RANDOMIZATION]\n";
      int i = 0;
      for (auto& p : e.at("ps").a) {
        std::string n = p.str("so") + "." + p.str("ip");
        o << "parameter(" << i++ << ") = " << n << "\n" << n << ".randomization_type = " << p.str("ty") << "\n";
        auto lo = conv(p.str("ty"), p.ints("lo"), false), hi = conv(p.str("ty"), p.ints("hi"), true);
        for (size_t k = 0; k < lo.size(); k++) o << n << ".mean_or_min(" << k << ") = " << lo[k] << "\n";
        for (size_t k = 0; k < hi.size(); k++) o << n << ".sigma_or_max(" << k << ") = " << hi[k] << "\n";
      }
      put(f, o.str());
      delete ex; ex = InitMonteCarloSimulation(f); r = show();
    }
    else if (op == "seed") { MonteCarloSimulationExecutor::SetSeed(e.num("s"), true); r["ok"] = true; }
    else if (op == "rnd") { r["ok"] = true; try { ex->RandomizeAllParameters(); } catch (...) { r["ok"] = false; } }
    else if (op == "get") {
      const std::string& k = e.str("kind"); r["exc"] = false; const std::string &s = e.str("so"), &p = e.str("ip");
      try {
        if (k == "d") { double d = 7; ex->GetInitializedMonteCarloParameterDouble(s, p, d); Js a = Js::arr(); a.push(hx::rnd(d, 1e4)); r["v"] = a; }
        else if (k == "v2") { math::Vector<2> v(7.0); ex->GetInitializedMonteCarloParameterVector(s, p, v); r["v"] = arr(v, 2); }
        else if (k == "v3") { math::Vector<3> v(7.0); ex->GetInitializedMonteCarloParameterVector(s, p, v); r["v"] = arr(v, 3); }
        else { math::Quaternion q(0, 0.6, 0, 0.8); ex->GetInitializedMonteCarloParameterQuaternion(s, p, q); r["v"] = arr(q, 4); }
      } catch (...) { r["exc"] = true; }
    }
    else if (op == "so") { r["ok"] = true; const std::string& n = e.str("name"); try { Obj* o = new Obj(n); objs[n] = o; } catch (...) { r["ok"] = false; } }
    else if (op == "del") { delete objs[e.str("name")]; objs.erase(e.str("name")); r["ok"] = true; }
    else if (op == "setall") {
      SimulationObject::SetAllParameters(*ex);
      Js o = Js::obj();
      for (auto& x : objs) { Js j = Js::obj(); j["n"] = x.second->n; Js d = Js::arr(); d.push(hx::rnd(x.second->d, 1e4)); j["d"] = d; j["v"] = arr(x.second->v, 3); j["q"] = arr(x.second->q, 4); o[x.first] = j; }
      r["objs"] = o;
    }
    else if (op == "stat") {
      P::SetSeed(e.num("s"), true);
      MonteCarloSimulationExecutor m(10); Js x = e; x["so"] = Js("S"); x["ip"] = Js("x"); add(&m, x);
      int n = e.num("n"); const std::string& t = e.str("ty"); int k = (int)e.ints("lo").size();
      if (t[0] == 'C' && t[1] == 'i') k = 2; else if (t[0] == 'S') k = 3; else if (t[0] == 'Q') k = 4;
      std::vector<std::vector<double>> s; std::vector<std::vector<double>> nr; double dcm[9] = {0}, ang2 = 0;
      auto lo = e.ints("lo"); double ln = 0; for (int c : lo) ln += (double)c * c; ln = std::sqrt(ln);
      for (int i = 0; i < n; i++) {
        m.RandomizeAllParameters(); std::vector<double> v;
        if (k == 1) { double d = 0; m.GetInitializedMonteCarloParameterDouble("S", "x", d); v = {d}; }
        if (k == 2) { math::Vector<2> a(0.0); m.GetInitializedMonteCarloParameterVector("S", "x", a); v = {a[0], a[1]}; }
        if (k == 3) { math::Vector<3> a(0.0); m.GetInitializedMonteCarloParameterVector("S", "x", a); v = {a[0], a[1], a[2]}; }
        if (k == 4) { math::Quaternion q; m.GetInitializedMonteCarloParameterQuaternion("S", "x", q); v = {q[0], q[1], q[2], q[3]}; auto c = q.ConvertToDcm(); for (int a = 0; a < 9; a++) dcm[a] += c[a / 3][a % 3] / n; ang2 += std::pow(2 * std::acos(std::min(1.0, std::fabs(q[3]))), 2) / n; }
        double n2 = 0, dot = 0; for (int c = 0; c < k; c++) { n2 += v[c] * v[c]; if (c < (int)lo.size()) dot += v[c] * lo[c]; }
        if (t == "SphericalNormalNormal") ang2 += std::pow(std::acos(std::max(-1.0, std::min(1.0, dot / std::sqrt(n2) / ln))), 2) / n;
        s.push_back(v); nr.push_back({std::sqrt(n2)});
      }
      mean_dev(r, s, k);
      Js q = Js::obj(); mean_dev(q, nr, 1); r["nmean"] = q.at("mean").a[0]; r["ndev"] = q.at("dev").a[0];
      Js d = Js::arr(); for (double x : dcm) d.push(hx::rnd(x, 1e4)); r["dcm"] = d; r["ang"] = hx::rnd(std::sqrt(ang2), 1e5); r["ok"] = true;
    }
    else if (op == "case") {
      std::string d = dir + "case" + std::to_string(seq++) + "/"; fs::create_directories(d + "logs");
      stub_reset();
      put(d + "base.ini", "[TIME]\nsimulation_start_time_utc = 2020/04/01 12:00:00.0\nsimulation_duration_s = 1\nsimulation_step_s = 1\nattitude_update_period_s = 1\nattitude_integral_step_s = 1\norbit_update_period_s = 1\norbit_integral_step_s = 1\nthermal_update_period_s = 1\nthermal_integral_step_s = 1\ncomponent_update_period_s = 1\nlog_output_period_s = 1\nsimulation_speed_setting = 0\n[CELESTIAL_INFORMATION]\nlogging = ENABLE\ninertial_frame = J2000\ncenter_object = EARTH\naberration_correction = NONE\nnumber_of_selected_body = 1\nselected_body_name(0) = EARTH\nrotation_mode(0) = SIMPLE\n[CSPICE_KERNELS]\ntls = x\ntpc1 = x\ntpc2 = x\ntpc3 = x\nbsp = x\n[HIPPARCOS_CATALOGUE]\ncatalogue_file_path = none.csv\nmax_magnitude = 3.0\ncalculation = DISABLE\nlogging = DISABLE\n[SIMULATION_SETTINGS]\nsave_initialize_files = " + std::string(e.flag("ini") ? "ENABLE" : "DISABLE") + "\nnumber_of_simulated_spacecraft = 0\nnumber_of_simulated_ground_station = 0\ngnss_file=" + d + "gnss.ini\nlog_file_save_directory=" + d + "logs/\n");
      put(d + "gnss.ini", "[GNSS_SATELLITES]\ncalculation = DISABLE\nlogging = DISABLE\n");
      { Case c(d + "base.ini", *ex, d + "logs/"); c.Initialize(); c.Main(); }
      std::string name; int csv = 0; bool ini = false;
      for (auto& f : fs::recursive_directory_iterator(d + "logs")) { if (f.path().extension() == ".csv") { csv++; name = f.path().filename().string(); name = name.substr(name.rfind('_') + 1); } if (f.path().filename() == "base.ini") ini = true; }
      r["one"] = csv == 1; r["name"] = ex->IsEnabled() ? name : std::string(); r["ini"] = ini;
      fs::remove_all(d);
    }
    return r;
  });
}
