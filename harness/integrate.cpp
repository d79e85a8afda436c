// Driver for spec/Integrate.tla: the numerical integrators on problems whose solutions are known exactly; the first order lag.
// State: a polynomial in time, a chain of integrators (6), 1/(c-t) and its square, 1/(c2-t^2).  Unit of time: 1/20.
#include "hx.hpp"
#include <math_physics/control_utilities/first_order_lag.hpp>
#include <math_physics/math/ordinary_differential_equation.hpp>
#include <cfloat>
#include <math_physics/numerical_integration/numerical_integrator_manager.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::numerical_integration;
static const int N = 10; typedef math::Vector<N> X;
static std::vector<int> pc(5);
static X rate(double t, const X& x) {
  X d(0.0); double p = 1;
  for (int i = 0; i < 5; i++, p *= t) d[0] += pc[i] * p;
  for (int i = 1; i < 6; i++) d[i] = x[i + 1];
  d[6] = 0; d[7] = x[8]; d[8] = 2 * x[7] * x[8]; d[9] = 2 * t * x[9] * x[9];
  return d;
}
struct P : InterfaceOde<N> { X DerivativeFunction(const double t, const X& x) const override { return rate(t, x); } };
struct Old : math::OrdinaryDifferentialEquation<N> {
  Old(double h) : OrdinaryDifferentialEquation(h) {}
  void DerivativeFunction(double t, const X& x, X& d) override { d = rate(t, x); }
};
static P prob; static std::shared_ptr<NumericalIntegrator<N>> in; static Old* old; static control_utilities::FirstOrderLag* lag;
// a problem with an error of its own: x' = a, or x' = -2 t x^2
struct E1 : InterfaceOde<1> { int a; E1(int v) : a(v) {} math::Vector<1> DerivativeFunction(const double t, const math::Vector<1>& x) const override { math::Vector<1> d; d[0] = a ? a : -2 * t * x[0] * x[0]; return d; } };
template <class I> static Js control(const Js& e) {
  E1 o((int)e.num("a")); I i(e.num("H") / 20.0, o); math::Vector<1> x; x[0] = 1; Js r = Js::obj(); r["e"] = Js::arr();
  auto once = [&] { i.SetState(0.5, x); i.Integrate(); return i.GetLocalTruncationError(); };
  double e0 = once(); i.SetStepWidth(e.num("H") / 40.0); double e1 = once(); i.SetStepWidth(e.num("H") / 20.0);
  r["half"] = e1 > 0 && e0 > 0 ? hx::rnd(log(e0 / e1), 1e3) : 0; r["zero"] = e0 == 0;
  double tol = pow(10.0, e.num("tol"));
  for (int k = 0; k < 25; k++) { double q = once(); if (k > 20) r["e"].push(q > 0 ? hx::rnd(log(q / tol), 1e3) : -1000000); i.ControlStepWidth(tol); }
  double q = once(); r["good"] = std::isfinite(q) && std::isfinite(i.GetState()[0]) && (o.a == 0 || fabs(i.GetState()[0] - 1) > 1e-9);
  return r;
}
static Js state(const X& x) {
  Js a = Js::arr(); for (int i = 0; i < 7; i++) a.push(hx::rnd(x[i], 1e6)); for (int i = 7; i < N; i++) a.push(hx::rnd(x[i], 1e8)); Js r = Js::obj(); r["x"] = a; return r;
}
static X start(const Js& e) {
  X x(0.0); double t = e.num("T") / 20.0, c = e.num("C") / 20.0, c2 = e.num("C2") / 400.0; auto ch = e.ints("ch"); double p = t;
  for (int i = 0; i < 5; i++, p *= t) x[0] += pc[i] * p / (i + 1);
  for (int i = 0; i < 6; i++) x[i + 1] = ch[i];
  x[7] = 1 / (c - t); x[8] = x[7] * x[7]; x[9] = 1 / (c2 - t * t); return x;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); Js r = Js::obj();
    if (op == "reset" || op == "set") {
      double h = e.num("H") / 20.0; pc = e.ints("pc");
      if (op == "reset") {
        const std::string& m = e.str("m"); delete old; old = nullptr; in.reset(); delete lag; lag = nullptr;
        if (m == "ode") old = new Old(h);
        else if (e.flag("mgr")) in = NumericalIntegratorManager<N>(h, prob, m == "rkf" ? NumericalIntegrationMethod::kRkf : m == "dp5" ? NumericalIntegrationMethod::kDp5 : NumericalIntegrationMethod::kRk4).GetIntegrator();
        else if (m == "rkf") in.reset(new RungeKuttaFehlberg<N>(h, prob)); else if (m == "dp5") in.reset(new DormandPrince5<N>(h, prob)); else in.reset(new RungeKutta4<N>(h, prob));
      } else if (in) in->SetStepWidth(h); else old->SetStepWidth(h);
      X x = start(e); if (in) in->SetState(e.num("T") / 20.0, x); else old->Setup(e.num("T") / 20.0, x);
    } else if (op == "width") { if (in) in->SetStepWidth(e.num("H") / 20.0); else old->SetStepWidth(e.num("H") / 20.0); return r; }
    else if (op == "step") for (int k = 0; k < e.num("n"); k++) { if (in) in->Integrate(); else if (k % 2) old->Update(); else ++*old; }
    else if (op == "mid") return state(in->CalcInterpolationState(e.num("s") / 4.0));
    else if (op == "ctl") return e.str("m") == "rkf" ? control<RungeKuttaFehlberg<1>>(e) : control<DormandPrince5<1>>(e);
    else if (op == "lag") { delete lag; lag = new control_utilities::FirstOrderLag(e.num("h") / 10.0, e.num("c") / 10.0, e.num("g") / 10.0); r["y"] = hx::rnd(lag->GetOutput(), 1e3); return r; }
    else if (op == "in") { double y = lag->Update(e.num("u")); r["y"] = hx::rnd(y, 1e3); r["same"] = y == lag->GetOutput(); return r; }
    r = state(in ? in->GetState() : static_cast<const Old*>(old)->GetState());
    if (old) r["t"] = hx::rnd(old->GetIndependentVariable() * 20, 1000);
    return r;
  });
}
