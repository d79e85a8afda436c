// Driver for spec/Geo.tla: geodetic positions.
#include "hx.hpp"
#include <math_physics/geodesy/geodetic_position.hpp>
using hx::Js;
using namespace s2e;
typedef math::Vector<3> V;
static V vec(double x, double y, double z) { V v; v[0] = x; v[1] = y; v[2] = z; return v; }
static Js js(const V& v, double k) { Js a = Js::arr(); for (int i = 0; i < 3; i++) a.push(hx::rnd(v[i], k)); return a; }
static geodesy::GeodeticPosition* g; static double err;
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); err = 0;
    if (op == "reset") { delete g; g = new geodesy::GeodeticPosition(); }
    else if (op == "set") {
      auto a = e.ints("la"), o = e.ints("lo"); delete g;
      g = new geodesy::GeodeticPosition(atan2(a[0], a[1]), atan2(o[0], o[1]) + e.num("turns") * 2 * M_PI, e.num("h"));
    } else {
      V p = op == "self" ? g->CalcEcefPosition() : vec(e.ints("p")[0], e.ints("p")[1], e.ints("p")[2]);
      double la = g->GetLatitude_rad(), h = g->GetAltitude_m();
      g->UpdateFromEcef(p);
      err = (g->CalcEcefPosition() - p).CalcNorm() * 1000;                                   // mm
      if (op == "self") err = std::max(err, std::max(fabs(g->GetLatitude_rad() - la) * 1e9, fabs(g->GetAltitude_m() - h) * 1000));
    }
    Js r = Js::obj();
    double la = g->GetLatitude_rad(), lo = g->GetLongitude_rad();
    r["h"] = hx::rnd(g->GetAltitude_m());
    Js t = Js::arr(); for (double x : {sin(la), cos(la), sin(lo), cos(lo)}) t.push(hx::rnd(x, 1e6)); r["t"] = t;
    Js d = Js::arr(); d.push(hx::rnd(la * 180 / M_PI, 100)); d.push(hx::rnd(lo * 180 / M_PI, 100)); r["deg"] = d;
    r["p"] = js(g->CalcEcefPosition(), 1);
    auto q = g->GetQuaternionXcxfToLtc();
    r["x"] = js(q.FrameConversion(vec(1, 0, 0)), 1e6); r["y"] = js(q.FrameConversion(vec(0, 1, 0)), 1e6); r["z"] = js(q.FrameConversion(vec(0, 0, 1)), 1e6);
    r["err"] = hx::rnd(err);
    return r;
  });
}
