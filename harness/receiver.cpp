// Driver for spec/Receiver.tla: a GNSS receiver under satellites that stand still (an SP3 file with constant positions).
#include "world.hpp"
#include <components/real/aocs/gnss_receiver.hpp>
using hx::Js;
using namespace s2e;
using namespace vw;
struct Peek : dynamics::orbit::Orbit {
  static void put(const dynamics::orbit::Orbit& o, const V& p, const V& v) {
    auto& k = static_cast<Peek&>(const_cast<dynamics::orbit::Orbit&>(o));
    k.spacecraft_position_i_m_ = p; k.spacecraft_velocity_i_m_s_ = v; k.TransformEciToEcef(); k.TransformEcefToGeodetic();
  }
};
static World* w; static environment::GnssSatellites* gn; static environment::SimulationTime* st; static environment::EarthRotation* er; static components::GnssReceiver* rx; static environment::ClockGenerator* cg; static components::PowerPort* pp;
static std::string sp3(const std::vector<Js>& sats) {
  std::string s; char b[400]; auto put = [&](auto... a) { snprintf(b, sizeof b, a...); s += b; s += "\n"; };
  put("#dP2020  4  1  0  0  0.00000000      15 ORBIT WGS84 FIT VRFY"); put("## 2099 259200.00000000  5760.00000000 58940 0.0000000000000");
  std::string id; for (size_t k = 0; k < 17; k++) { if (k < sats.size()) { snprintf(b, 9, "G%02zu", k + 1); id += b; } else id += "  0"; }
  put("+  %3zu   %s", sats.size(), id.c_str()); put("++         7  7  7  7  7  7  7  7  7  7  7  7  7  7  7  7  7");
  put("%%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc"); put("%%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  put("%%f  1.2500000  1.025000000  0.00000000000  0.000000000000000"); put("%%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
  put("%%i    0    0    0    0      0      0      0      0         0"); put("%%i    0    0    0    0      0      0      0      0         0");
  for (int i = 0; i < 15; i++) {
    int m = i * 96; put("*  2020  4  1 %2d %2d  0.00000000", m / 60, m % 60);
    for (size_t k = 0; k < sats.size(); k++) put("PG%02zu%14.6f%14.6f%14.6f%14.6f", k + 1, (double)sats[k].a[0].i, (double)sats[k].a[1].i, (double)sats[k].a[2].i, 1.0);
  }
  put("EOF"); return s;
}
static std::vector<double> nums(const std::string& s) { std::vector<double> v; std::stringstream i(s); std::string x; while (std::getline(i, x, ',')) if (!x.empty() && x.find_first_not_of(" \n") != std::string::npos) v.push_back(atof(x.c_str())); return v; }
static Js geo(const geodesy::GeodeticPosition& g) { Js a = Js::arr(); a.push(hx::rnd(g.GetLatitude_rad(), 1e5)); a.push(hx::rnd(g.GetLongitude_rad(), 1e5)); a.push(hx::rnd(g.GetAltitude_m(), 0.1)); return a; }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); std::string dir = std::string(getenv("VT_DIR")) + "/";
    Js r = Js::obj();
    if (!w) { Opt o; o.mag = false; o.step = 5000; o.earth_rotation = "IDLE"; stub_reset(); w = new World(o, true); er = new environment::EarthRotation(environment::EarthRotationMode::kIdle); }
    auto& dyn = *w->sc[0].dyn;
    if (op == "reset") {
      delete rx; rx = nullptr; delete gn; gn = nullptr; delete st; delete pp; delete cg;
      double q = e.num("s");
      st = new environment::SimulationTime(1e9, q, q, q, q, q, q, q, q, q, "2020/04/01 06:00:00.0", 0);
      put(dir + "TEST_20200920000_01D_15M_ORB.SP3", sp3(e.at("sats").a));
      put(dir + "gn.ini", std::string("[GNSS_SATELLITES]\ncalculation = ") + (e.flag("on") ? "ENABLE" : "DISABLE") + "\nlogging = ENABLE\ndirectory_path=" + dir + "\nfile_name_header = TEST\norbit_data_period = 15M\nclock_file_name_footer = 15M_ORB.SP3\nstart_date = 2020092\nend_date = 2020092\n");
      gn = environment::InitGnssSatellites(dir + "gn.ini", *er, *st);
      std::ostringstream o; auto qc = quat(e.ints("qc")); auto pos = e.ints("pos");
      o << "[GNSS_RECEIVER_3]\nprescaler=" << e.num("pre") << "\nantenna_model=" << e.str("model") << "\nantenna_half_width_deg=" << e.num("half") << "\n";
      for (int i = 0; i < 4; i++) o << "quaternion_b2c(" << i << ")=" << World::num(qc[i]) << "\n";
      for (int i = 0; i < 3; i++) o << "antenna_position_b_m(" << i << ")=" << pos[i] * 1000 << "\nwhite_noise_standard_deviation_position_ecef_m(" << i << ")=0\nwhite_noise_standard_deviation_velocity_ecef_m_s(" << i << ")=0\n";
      o << "[POWER_PORT]\nminimum_voltage_V=3\nassumed_power_consumption_W=1\n";
      put(dir + "rx.ini", o.str());
      cg = new environment::ClockGenerator; pp = new components::PowerPort;
      rx = e.flag("pp") ? new components::GnssReceiver(components::InitGnssReceiver(cg, pp, 3, dir + "rx.ini", &dyn, gn, st)) : new components::GnssReceiver(components::InitGnssReceiver(cg, 3, dir + "rx.ini", &dyn, gn, st));
      pp->SetVoltage_V(5.0);
      return r;
    }
    if (op == "pow") { pp->SetVoltage_V(e.flag("on") ? 5.0 : 1.0); }
    else {
      Peek::put(dyn.GetOrbit(), vec(e.ints("p"), 1e3), vec(e.ints("v")));
      auto q = quat(e.ints("q")); dyn.SetAttitude().SetQuaternion_i2b(q);
      st->UpdateTime(); cg->TickToComponents();
    }
    r["p"] = js(rx->GetMeasuredPosition_ecef_m(), 0.01); r["v"] = js(rx->GetMeasuredVelocity_ecef_m_s(), 1);
    r["g"] = geo(rx->GetMeasuredGeodeticPosition()); r["tg"] = geo(dyn.GetOrbit().GetGeodeticPosition()); r["tv"] = js(dyn.GetOrbit().GetVelocity_ecef_m_s(), 1);
    auto l = nums(rx->GetLogValue());
    r["vis"] = l.at(15) != 0; int n = (int)l.at(16); r["n"] = n;
    r["utc"] = hx::rnd(((l.at(2) * 24 + l.at(3)) * 60 + l.at(4)) * 60 + l.at(5), 10); r["ym"] = (int)(l.at(0) * 12 + l.at(1));
    Js a = Js::arr();
    if (n < 0 || n > 32) n = 0;
    for (int i = 0; i < n; i++) {
      auto g = rx->GetGnssInfo(i); Js x = Js::obj(); x["id"] = (int)g.gnss_id; x["d"] = hx::rnd(g.distance_m, 1e-3); x["lat"] = hx::rnd(g.latitude_rad, 1e4);
      x["u"] = js(vec(cos(g.latitude_rad) * cos(g.longitude_rad), cos(g.latitude_rad) * sin(g.longitude_rad), sin(g.latitude_rad)), 1e4); a.push(x);
    }
    r["l"] = a;
    return r;
  });
}
