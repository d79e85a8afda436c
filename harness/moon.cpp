// Driver for spec/Moon.tla: the orientation of the Moon.
#include "hx.hpp"
#include <environment/global/celestial_information.hpp>
#include <environment/global/moon_rotation.hpp>
#include <environment/global/simulation_time.hpp>
#include <memory>
using hx::Js;
using namespace s2e;
extern "C" { void stub_set_body(const char* name, const double s[6]); void stub_set_spin(double deg_s, double et0); }
static std::unique_ptr<environment::SimulationTime> st; static std::unique_ptr<environment::CelestialInformation> ci;
static void place(const Js& o) {
  auto q = o.ints("q"), f = o.ints("f"); double x = q[0], y = q[1], z = q[2], w = q[3];
  double ex[3] = {w*w + x*x - y*y - z*z, 2*(x*y + w*z), 2*(x*z - w*y)}, ey[3] = {2*(x*y - w*z), w*w - x*x + y*y - z*z, 2*(y*z + w*x)};
  double k = o.num("k"), a = o.num("a"), b = o.num("b"), E[6] = {(double)f[0], (double)f[1], (double)f[2], 3, -4, 5}, M[6];
  for (int i = 0; i < 3; i++) { M[i] = E[i] + k * ex[i]; M[3 + i] = E[3 + i] + a * ex[i] + b * ey[i]; }
  stub_set_body("EARTH", E); stub_set_body("MOON", M);
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); Js r = Js::obj();
    if (op == "reset") {
      st.reset(new environment::SimulationTime(1e9, 1, 1, 1, 1, 1, 1, 1, 1, 1, "2020/01/01 11:00:00.0", 0)); st->SetParameters();
      double s[6] = {1e8, 2e7, 3, 10, 20, 30}; for (auto n : {"SUN", "MARS", "MARS_BARYCENTER"}) stub_set_body(n, s);
      Js o = Js::obj(); o["q"] = Js::arr(); for (int i = 0; i < 4; i++) o["q"].push(i == 3); o["f"] = Js::arr(); for (int i = 0; i < 3; i++) o["f"].push(0); o["k"] = 380000; o["a"] = 0; o["b"] = 1;
      place(o); stub_set_spin(e.num("spin"), st->GetCurrentEphemerisTime());
      std::string f = std::string(getenv("VT_DIR")) + "/moon.ini"; std::ofstream g(f); auto& sel = e.at("sel").a;
      g << "[CELESTIAL_INFORMATION]\ninertial_frame=J2000\naberration_correction=NONE\ncenter_object=" << e.str("c") << "\nnumber_of_selected_body=" << sel.size() << "\nlogging=ENABLE\n";
      for (size_t i = 0; i < sel.size(); i++) g << "selected_body_name(" << i << ")=" << sel[i].str("b") << "\nrotation_mode(" << i << ")=" << sel[i].str("m") << "\n";
      g << "[CSPICE_KERNELS]\ntls=a\ntpc1=a\ntpc2=a\ntpc3=a\nbsp=a\n"; g.close();
      ci.reset(environment::InitCelestialInformation(f));
    } else if (op == "orbit") place(e.at("o"));
    else for (long i = 0, n = (long)e.num("n"); i < n; i++) { st->UpdateTime(); ci->UpdateAllObjectsInformation(*st); }
    auto d = ci->GetMoonRotation().GetDcmJ2000ToMcmf(); auto m = ci->GetEarthRotation().GetDcmJ2000ToEcef(); bool id = true;
    r["d"] = Js::arr(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r["d"].push(hx::rnd(d[i][j], 1e6)); id = id && std::fabs(m[i][j] - (i == j)) < 1e-6; }
    r["ei"] = id; return r;
  });
}
