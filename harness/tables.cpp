// Driver for spec/Tables.tla: GNSS satellites streamed from SP3 files, and the orbit given as a time series.
#include "world.hpp"
#include <dynamics/orbit/initialize_orbit.hpp>
#include <environment/global/gnss_satellites.hpp>
using hx::Js;
using namespace s2e;
using namespace vw;
static const double kQ = 1440, kJd0 = 2451545.0;     // a quarter of the interval; the start of the series
static World* w; static dynamics::orbit::Orbit* ob; static environment::GnssSatellites* gn; static environment::SimulationTime* st; static environment::EarthRotation* er;
static std::vector<int> list(const Js& x) { std::vector<int> v; for (auto& y : x.a) v.push_back((int)y.i); return v; }
static void put_file(const std::string& f, const std::string& s) { vw::put(f, s); }
static int now_t, steps, nsat; static time_system::EpochTime day0;
static void sp3file(const std::string& path, const std::vector<Js>& rows, size_t first, size_t n, size_t sats, int day) {
  std::string s; char b[400];
  auto put = [&](auto... a) { snprintf(b, sizeof b, a...); s += b; s += "\n"; };
  auto date = [&](size_t i, int* h, int* m) { int sec = (int)(i - first) * 5760; *h = sec / 3600; *m = sec % 3600 / 60; return day + (sec >= 86400); };
  put("#dP2020  4 %2d  0  0  0.00000000 %7zu ORBIT WGS84 FIT VRFY", day, n); put("## 2099 259200.00000000  5760.00000000 58940 0.0000000000000");
  std::string id; for (size_t k = 0; k < 17; k++) { if (k < sats) { snprintf(b, 9, "G%02zu", k + 1); id += b; } else id += "  0"; }
  put("+  %3zu   %s", sats, id.c_str()); put("++         7  7  7  7  7  7  7  7  7  7  7  7  7  7  7  7  7");
  put("%%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"); put("%%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  put("%%f  1.2500000  1.025000000  0.00000000000  0.000000000000000"); put("%%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
  put("%%i    0    0    0    0      0      0      0      0         0"); put("%%i    0    0    0    0      0      0      0      0         0");
  for (size_t i = first; i < first + n; i++) {
    int h, m, d = date(i, &h, &m); put("*  2020  4 %2d %2d %2d  0.00000000", d, h % 24, m);
    for (size_t k = 0; k < sats; k++) { auto x = list(rows[i].a[k]); put("PG%02zu%14.6f%14.6f%14.6f%14.6f", k + 1, (double)x[0], (double)x[1], (double)x[2], (double)x[3]); }
  }
  put("EOF"); put_file(path, s);
}
static Js gobs(const time_system::EpochTime* at) {
  Js s = Js::arr();
  for (int i = 0; i < nsat + 2; i++) {
    Js o = Js::obj(); V p = at ? gn->GetPosition_ecef_m(i, *at) : gn->GetPosition_ecef_m(i); o["p"] = js(p, 1e-3); o["c"] = hx::rnd((at ? gn->GetClock_s(i, *at) : gn->GetClock_s(i)) * 1e6); s.push(o);
  }
  return s;
}
static Js gstate() {
  Js r = Js::obj(); r["s"] = gobs(nullptr); r["n"] = (int)gn->GetNumberOfCalculatedSatellite();
  auto c = [](const std::string& x) { return std::count(x.begin(), x.end(), ','); };
  r["log"] = c(gn->GetLogHeader()) == c(gn->GetLogValue());
  bool ok = true; for (int i = 0; i <= nsat; i++) ok = ok && (er->GetDcmJ2000ToEcef() * gn->GetPosition_eci_m(i) - gn->GetPosition_ecef_m(i)).CalcNorm() <= 1e-3; r["eci"] = ok;
  return r;
}
static Js sstate() { V p = ob->GetPosition_i_m() - vec(3e7, 0, 0), v = ob->GetVelocity_i_m_s(); Js a = js(p, 1e-3), b = js(v, 1); for (auto& x : b.a) a.push(x); Js r = Js::obj(); r["pv"] = a; return r; }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); std::string dir = std::string(getenv("VT_DIR")) + "/";
    Js r = Js::obj();
    if (op == "reset") { delete ob; ob = nullptr; delete gn; gn = nullptr; delete st; st = nullptr; delete er; er = nullptr; }
    else if (op == "series") {
      if (!w) { Opt o; o.mag = false; o.step = 5000; stub_reset(); w = new World(o, false); w->glo->Update(); w->glo->Update(); }
      std::string s = "time,x,y,z,vx,vy,vz\n"; auto& rows = e.at("rows").a;
      for (size_t i = 0; i < rows.size(); i++) { auto x = list(rows[i]); char b[300]; snprintf(b, 300, "%.3f,%d,%d,%d,%d,%d,%d\n", i * 4 * kQ, 30000000 + x[0] * 1000, x[1] * 1000, x[2] * 1000, x[3], x[4], x[5]); s += b; }
      put_file(dir + "series.csv", s);
      double period = 180 * kQ / (e.num("u") * 1e-6);
      put_file(dir + "orb.ini", "[ORBIT]\ncalculation = ENABLE\nlogging = ENABLE\npropagate_mode = TIME_SERIES_FILE\ntime_series_file_path=" + dir + "series.csv\nnumber_of_interpolation = " + std::to_string(e.num("n")) + "\ninterpolation_method = " + std::to_string(e.num("m")) + "\norbital_period_correction_s = " + World::num(period) + "\n");
      delete ob; ob = nullptr; ob = dynamics::orbit::InitOrbit(&w->glo->GetCelestialInformation(), dir + "orb.ini", 1, kJd0 + e.num("t") * kQ / 86400, 3.986004418e14, "ORBIT", nullptr); ob->SetIsCalcEnabled(true);
      r = sstate();
    } else if (op == "go") { ob->Propagate(0, kJd0 + e.num("t") * kQ / 86400); r = sstate(); }
    else if (op == "gnss") {
      auto& rows = e.at("rows").a; int days = (int)rows.size() / 15; now_t = e.num("t"); steps = e.num("s"); nsat = e.num("sats");
      for (int d = 0; d < days; d++) { char b[100]; snprintf(b, 100, "%sTEST_2020%03d0000_01D_15M_ORB.SP3", dir.c_str(), 92 + d); sp3file(b, rows, 15 * d, 15 + (e.flag("dup") && d + 1 < days ? 1 : 0), nsat, 1 + d); }
      put_file(dir + "gn.ini", std::string("[GNSS_SATELLITES]\ncalculation = ") + (e.flag("on") ? "ENABLE" : "DISABLE") + "\nlogging = ENABLE\ndirectory_path=" + dir + "\nfile_name_header = TEST\norbit_data_period = 15M\nclock_file_name_footer = 15M_ORB.SP3\nstart_date = 2020092\nend_date = " + std::to_string(2020092 + days - 1) + "\n");
      int sec = now_t * (int)kQ, day = 1; while (sec < 0) { sec += 86400; day--; } while (sec >= 86400) { sec -= 86400; day++; }
      char b[60]; snprintf(b, 60, "2020/%02d/%02d %02d:%02d:00.0", day < 1 ? 3 : 4, day < 1 ? 31 + day : day, sec / 3600, sec % 3600 / 60);
      double q = kQ * steps; delete st; st = nullptr; st = new environment::SimulationTime(1e9, q, q, q, q, q, q, q, q, q, b, 0);
      delete er; er = new environment::EarthRotation(environment::EarthRotationMode::kSimple); er->Update(2458940.5 + now_t * kQ / 86400);
      day0 = time_system::EpochTime(time_system::DateTime(2020, 4, 1, 0, 0, 0));
      delete gn; gn = nullptr; gn = environment::InitGnssSatellites(dir + "gn.ini", *er, *st);
      r = gstate();
    } else if (op == "step") { st->UpdateTime(); now_t += steps; er->Update(2458940.5 + now_t * kQ / 86400); gn->Update(*st); r = gstate(); }
    else { int s = (now_t + e.num("d")) * (int)kQ; time_system::EpochTime d((uint64_t)abs(s), 0.0), x = s < 0 ? day0 - d : day0 + d; r["s"] = gobs(&x); }
    return r;
  });
}
