// Driver for spec/Earth.tla: the orientation of the Earth.
#include "hx.hpp"
#include <environment/global/earth_rotation.hpp>
#include <memory>
using hx::Js;
using namespace s2e;
typedef environment::EarthRotation ER;
static std::unique_ptr<ER> a, b;
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    if (e.str("op") == "reset") { a.reset(new ER(environment::ConvertEarthRotationMode(e.str("m")))); b.reset(new ER(environment::ConvertEarthRotationMode("SIMPLE"))); }
    else { double jd = 2451545.0 + e.num("d") + e.num("m") / 1440.0; a->Update(jd); b->Update(jd); }
    auto d = a->GetDcmJ2000ToEcef(), s = b->GetDcmJ2000ToEcef(); bool id = true;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) id = id && d[i][j] == (i == j);
    if (id) s = d;  // nothing turned: compare with the identity
    auto x = s.Transpose() * d; Js g = Js::arr(), h = Js::arr();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { g.push(hx::rnd(s[i][j], 1e5)); h.push(hx::rnd(x[i][j] - (i == j), 1e8)); }
    r["s"] = g; r["e"] = h; r["id"] = id; return r;
  });
}
