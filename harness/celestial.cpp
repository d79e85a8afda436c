// Driver for spec/Celestial.tla: CelestialInformation and LocalCelestialInformation with scripted ephemerides.
#include "hx.hpp"
#include <environment/global/celestial_information.hpp>
#include <environment/global/simulation_time.hpp>
#include <environment/local/local_celestial_information.hpp>
using hx::Js;
using namespace s2e;
extern "C" void stub_set_body(const char* name, const double s[6]);
static environment::SimulationTime* st;
static environment::CelestialInformation* ci;
static environment::LocalCelestialInformation* lci;
static std::vector<std::string> sel;
typedef math::Vector<3> V;
static Js vec(const V& v, double k) { Js a = Js::arr(); for (int i = 0; i < 3; i++) { double w = v[i] * k; a.push(std::fabs(w - std::nearbyint(w)) < 1e-4 ? hx::rnd(w) : hx::kBad); } return a; }
static Js app(const V& v, double k) { Js a = Js::arr(); for (int i = 0; i < 3; i++) a.push(hx::rnd(v[i] * k)); return a; }
static V in(const Js& e, const char* f, double k) { V v; auto x = e.ints(f); for (int i = 0; i < 3; i++) v[i] = x[i] * k; return v; }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    if (op == "reset") {
      if (!st) st = new environment::SimulationTime(10, 1, 1, 1, 1, 1, 1, 1, 1, 1, "2020/01/01 11:00:00.0", 0);
      std::map<std::string, int> id = {{"SUN", 10}, {"EARTH", 399}, {"MOON", 301}, {"MARS", 499}, {"VENUS", 299}};
      sel.clear(); for (auto& x : e.at("sel").a) sel.push_back(x.s);
      double z[6] = {0, 0, 0, 0, 0, 0};
      for (auto& p : id) { stub_set_body(p.first.c_str(), z); stub_set_body((p.first + "_BARYCENTER").c_str(), z); }
      delete lci; delete ci;
      std::string f = std::string(getenv("VT_DIR")) + "/ci.ini";
      std::ofstream o(f);
      o << "[CELESTIAL_INFORMATION]\ninertial_frame=J2000\naberration_correction=NONE\ncenter_object=" << e.str("center") << "\nnumber_of_selected_body=" << sel.size() << "\nlogging=ENABLE\n";
      for (size_t i = 0; i < sel.size(); i++) o << "selected_body_name(" << i << ")=" << sel[i] << "\nrotation_mode(" << i << ")=IDLE\n";
      o << "[CSPICE_KERNELS]\ntls=a\ntpc1=a\ntpc2=a\ntpc3=a\nbsp=a\n";
      o.close();
      ci = environment::InitCelestialInformation(f);
      ci->UpdateAllObjectsInformation(*st);
      lci = new environment::LocalCelestialInformation(ci);
      r["ok"] = true;
    } else if (op == "body") {
      auto p = e.ints("x"), v = e.ints("v");
      double s[6] = {(double)p[0], (double)p[1], (double)p[2], (double)v[0], (double)v[1], (double)v[2]};
      stub_set_body(e.str("b").c_str(), s); stub_set_body((e.str("b") + "_BARYCENTER").c_str(), s);
      r["ok"] = true;
    } else if (op == "upd") {
      ci->UpdateAllObjectsInformation(*st);
      Js a = Js::arr();
      for (size_t i = 0; i < sel.size(); i++) {
        Js b = Js::arr();
        V p = ci->GetPositionFromCenter_i_m(sel[i].c_str()), v = ci->GetVelocityFromCenter_i_m_s(sel[i].c_str());
        b.push(vec(p, 1e-3)); b.push(vec(v, 1e-3)); a.push(b);
      }
      r["g"] = a;
    } else if (op == "rel") {
      r["p"] = vec(ci->GetPositionFromSelectedBody_i_m(e.str("a").c_str(), e.str("b").c_str()), 1e-3);
      r["v"] = vec(ci->GetVelocityFromSelectedBody_i_m_s(e.str("a").c_str(), e.str("b").c_str()), 1e-3);
    } else if (op == "id") {
      r["p"] = vec(ci->GetPositionFromCenter_i_m((unsigned)e.num("i")), 1e-3);
      r["v"] = vec(ci->GetVelocityFromCenter_i_m_s((unsigned)e.num("i")), 1e-3);
      V rad = ci->GetRadii_m((unsigned)e.num("i"));
      if ((size_t)e.num("i") >= sel.size() && rad.CalcNorm() != 0) r["rad"] = 1;
    } else if (op == "loc") {
      auto q = e.ints("q");
      math::Quaternion Q(q[0], q[1], q[2], q[3]);
      Q.Normalize();
      lci->UpdateAllObjectsInformation(in(e, "x", 1e3), in(e, "v", 1e3), Q, in(e, "w", 1 / 1024.0));
      std::vector<double> lg; std::stringstream ss(lci->GetLogValue()); std::string t;
      while (std::getline(ss, t, ',')) lg.push_back(atof(t.c_str()));
      Js a = Js::arr();
      for (size_t i = 0; i < sel.size(); i++) {
        Js b = Js::obj();
        b["i"] = vec(lci->GetPositionFromSpacecraft_i_m(sel[i].c_str()), 1e-3);
        b["b"] = app(lci->GetPositionFromSpacecraft_b_m(sel[i].c_str()), 1e-3);
        V v; for (int k = 0; k < 3; k++) v[k] = 6 * i + 3 + k < lg.size() ? lg[6 * i + 3 + k] : 1e30;
        b["vb"] = app(v, 1.024);
        a.push(b);
      }
      r["l"] = a;
      r["zci"] = vec(lci->GetCenterBodyPositionFromSpacecraft_i_m(), 1e-3);
      r["zcb"] = app(lci->GetCenterBodyPositionFromSpacecraft_b_m(), 1e-3);
    }
    return r;
  });
}
