// Driver for spec/Rand.tla: random generators.
#include "hx.hpp"
#include <math_physics/randomization/global_randomization.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp>
#include <math_physics/randomization/normal_randomization.hpp>
#include <math_physics/randomization/random_walk.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::randomization;
static MinimalStandardLcg* l; static MinimalStandardLcgWithShuffle* s; static GlobalRandomization* g; static NormalRand* n;
const double kM = 2147483647.0;
static long long state(double v, bool& in) { if (!(v > 0.0 && v < 1.0)) in = false; double w = v * kM, k = std::nearbyint(w); return std::fabs(w - k) < 1e-3 ? (long long)k : hx::kBad; }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    Js r = Js::obj(); bool in = true;
    if (op == "reset") { delete l; delete s; delete g; delete n; l = new MinimalStandardLcg(); s = nullptr; g = nullptr; n = nullptr; r["ok"] = true; }
    else if (op == "lnew") {
      r["ok"] = true;
      try { if (e.str("how") == "def") { auto p = new MinimalStandardLcg(); delete l; l = p; } else if (e.str("how") == "new") { auto p = new MinimalStandardLcg((long)e.num("s")); delete l; l = p; } else l->Initialize(e.num("s")); }
      catch (const std::invalid_argument&) { r["ok"] = false; }
    }
    else if (op == "lnext") { Js a = Js::arr(); for (int i = 0; i < e.num("n"); i++) a.push(state(*l, in)); r["vs"] = a; r["in"] = in; }
    else if (op == "snew") {
      r["ok"] = true;
      try { if (e.str("how") == "def") { auto p = new MinimalStandardLcgWithShuffle(); delete s; s = p; } else if (e.str("how") == "new" || !s) { auto p = new MinimalStandardLcgWithShuffle((long)e.num("s")); delete s; s = p; } else s->InitSeed(e.num("s")); }
      catch (const std::invalid_argument&) { r["ok"] = false; }
    }
    else if (op == "snext") { Js a = Js::arr(); for (int i = 0; i < e.num("n"); i++) a.push(state(*s, in)); r["vs"] = a; r["ok"] = in; }
    else if (op == "gnew") {
      r["ok"] = true;
      try { if (e.str("how") == "def") { delete g; g = new GlobalRandomization(); } else { GlobalRandomization* p = (e.str("how") == "new" || !g) ? new GlobalRandomization() : g; try { p->SetSeed(e.num("s")); } catch (...) { if (p != g) delete p; throw; } if (p != g) { delete g; g = p; } } }
      catch (const std::invalid_argument&) { r["ok"] = false; }
    }
    else if (op == "gnext") { Js a = Js::arr(); for (int i = 0; i < e.num("n"); i++) { long v = g->MakeSeed(); a.push((long long)std::max(-2147483647L, std::min(2147483647L, v))); } r["vs"] = a; r["ok"] = true; }
    else if (op == "nnew") {
      const std::string& h = e.str("how"); double a = e.num("avg"), d = e.num("sd");
      if (h == "def") { delete n; n = new NormalRand(a, d); } else if (h == "new" || !n) { delete n; n = new NormalRand(a, d, (long)e.num("s")); } else n->SetParameters(a, d, e.num("s"));
      r["ok"] = n->GetAverage() == a && n->GetStandardDeviation() == d;
    }
    else if (op == "nset") { if (e.num("avg") % 2) n->SetParameters(e.num("avg"), e.num("sd")); else { n->SetAverage(e.num("avg")); n->SetStandardDeviation(e.num("sd")); } r["ok"] = n->GetAverage() == e.num("avg") && n->GetStandardDeviation() == e.num("sd"); }
    else if (op == "nnext") { Js a = Js::arr(); for (int i = 0; i < e.num("n"); i++) a.push(hx::rnd(*n, 1e5)); r["vs"] = a; r["ok"] = true; }
    else if (op == "stat") {
      NormalRand q(0.0, 1.0, (long)e.num("s")); int k = e.num("n"); double m = 0, d = 0, c = 0, prev = 0; int one = 0, up = 0, two = 0; std::vector<double> v;
      for (int i = 0; i < k; i++) { double z = q; v.push_back(z); m += z / k; one += std::fabs(z) < 1; two += std::fabs(z) < 2; up += z > 0; if (i) c += z * prev / k; prev = z; }
      for (double z : v) d += (z - m) * (z - m) / k;
      r["mean"] = hx::rnd(m, 1000); r["dev"] = hx::rnd(std::sqrt(d), 1000); r["one"] = one * 1000 / k; r["two"] = two * 1000 / k; r["up"] = up * 1000 / k; r["cor"] = hx::rnd(c, 1000);
    }
    else if (op == "walk") {
      math::Vector<3> sd(0.0), lim(0.0), st(0.0), rhs(0.0); int up[3] = {0}, dn[3] = {0};
      for (int i = 0; i < 3; i++) { sd[i] = e.ints("sd")[i]; lim[i] = e.ints("lim")[i]; st[i] = e.ints("st")[i]; }
      RandomWalk<3> w(0.1, sd, lim);
      for (int k = 0; k < e.num("n"); k++) { w.DerivativeFunction(0.1 * k, st, rhs); for (int i = 0; i < 3; i++) { up[i] += rhs[i] > 0; dn[i] += rhs[i] < 0; } }
      Js a = Js::arr(), b = Js::arr(); for (int i = 0; i < 3; i++) { a.push(up[i]); b.push(dn[i]); } r["up"] = a; r["down"] = b;
    }
    return r;
  });
}
