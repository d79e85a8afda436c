// Driver for spec/Products.tla: writes GNSS product files in their formats (SP3-d, ANTEX 1.4, bias SINEX 1.00) and reads them back.
#include "hx.hpp"
#include <math_physics/gnss/antex_file_reader.hpp>
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
#include <math_physics/gnss/gnss_satellite_number.hpp>
#include <math_physics/gnss/sp3_file_reader.hpp>
using hx::Js;
using namespace s2e::gnss;
using s2e::time_system::DateTime;
static Sp3FileReader* sp3; static AntexFileReader* atx; static BiasSinexFileReader* bsx; static std::vector<int> first;
struct Lines {
  std::string s; int left; bool trim = false;      // records left before the file breaks off
  template <class... A> void put(const char* f, A... a) { char b[2000]; snprintf(b, sizeof b, f, a...); if (!left) return; s += b; if (trim) s.resize(s.find_last_not_of(' ') + 1); s += "\n"; }
  void record() { if (left > 0) left--; }
  void to(const std::string& p) { std::ofstream o(p); o << s; }
};
static Js date(const DateTime& x) {
  Js a = Js::arr(); for (size_t v : {x.GetYear(), x.GetMonth(), x.GetDay(), x.GetHour(), x.GetMinute()}) a.push((int)v);
  a.push(hx::rnd(x.GetSecond() * 100)); return a;
}
static void sp3file(const Js& f, const std::string& path) {
  Lines l{"", -1}; auto t = f.ints("first"), g = f.ints("gps"); auto ids = f.at("ids").a; auto acc = f.ints("acc"); bool vel = f.str("mode") == "V";
  l.put("#d%s%4d %2d %2d %2d %2d %11.8f %7zu %5s %5s %3s %4s", f.str("mode").c_str(), t[0], t[1], t[2], t[3], t[4], t[5] / 100.0, f.at("ep").a.size(), f.str("used").c_str(), f.str("sys").c_str(), f.str("orb").c_str(), f.str("ag").c_str());
  l.put("## %4d %15.8f %14.8f %5d %15.13f", g[0], (double)g[1], f.num("dt") / 1000.0, f.num("mjd"), f.num("frac") / 1e6);
  for (size_t i = 0; i == 0 || i < ids.size(); i += 17) { std::string s = i ? "+        " : "+  " + std::string(ids.size() < 10 ? "  " : ids.size() < 100 ? " " : "") + std::to_string(ids.size()) + "   "; for (size_t k = i; k < i + 17; k++) s += k < ids.size() ? ids[k].s : "  0"; l.put("%s", s.c_str()); }
  for (size_t i = 0; i == 0 || i < ids.size(); i += 17) { std::string s = "++       "; for (size_t k = i; k < i + 17; k++) { char b[8]; snprintf(b, 8, "%3d", k < ids.size() ? acc[k] : 0); s += b; } l.put("%s", s.c_str()); }
  l.put("%%c %2s cc %3s ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", f.str("ft").c_str(), f.str("ts").c_str());
  l.put("%%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  l.put("%%f %10.7f %12.9f  0.00000000000  0.000000000000000", f.num("bp") / 1e6, f.num("bc") / 1e6);
  l.put("%%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
  l.put("%%i    0    0    0    0      0      0      0      0         0"); l.put("%%i    0    0    0    0      0      0      0      0         0");
  for (int i = 0; i < f.num("com"); i++) l.put("/* A comment");
  l.left = f.num("cut") < 0 ? -1 : f.num("cut"); l.trim = f.flag("trim");
  for (auto& e : f.at("ep").a) {
    auto t = e.ints("t"); l.put("*  %4d %2d %2d %2d %2d %11.8f", t[0], t[1], t[2], t[3], t[4], t[5] / 100.0); l.record();
    for (size_t k = 0; k < ids.size(); k++) {
      auto& x = e.at("s").a[k]; auto p = x.ints("p"), sd = x.ints("sd"); auto& fl = x.at("fl").a;
      char b[200]; snprintf(b, 200, "P%s%14.6f%14.6f%14.6f%14.6f", ids[k].s.c_str(), p[0] / 1e4, p[1] / 1e4, p[2] / 1e4, x.num("c") / 1e3); std::string s = b;
      if (!sd.empty() || !fl.empty()) {
        for (int i = 0; i < 4; i++) { char c[8]; snprintf(c, 8, i < 3 ? " %2d" : " %3d", sd.empty() ? 0 : sd[i]); s += sd.empty() || sd[i] < 0 ? std::string(i < 3 ? 3 : 4, ' ') : c; }
      }
      if (!fl.empty()) s += std::string(" ") + (fl[0].i ? "E" : " ") + (fl[1].i ? "P" : " ") + "  " + (fl[2].i ? "M" : " ") + (fl[3].i ? "P" : " ");
      l.put("%s", s.c_str());
      if (f.flag("corr")) l.put("EP  %4d %4d %4d %7d %8d %8d %8d %8d %8d %8d", 55, 55, 55, 222, 1234567, -1234567, 5999999, -30, 21, -1230000);
      if (vel) {
        l.put("V%s%14.6f%14.6f%14.6f%14.6f%s", ids[k].s.c_str(), 20298.88, -18462.044, -1381.38, -4.534317, sd.empty() ? "" : " 14 14 14 191");
        if (f.flag("corr")) l.put("EV  %4d %4d %4d %7d %8d %8d %8d %8d %8d %8d", 22, 22, 22, 111, 1234567, 1234567, 1234567, 1234567, 1234567, 1234567);
      }
      l.record();
    }
  }
  l.left = f.num("cut") < 0 ? -1 : 0; l.put("EOF"); l.to(path);
}
static void atxfile(const Js& f, const std::string& path) {
  Lines l{"", -1};
  auto put = [&](const std::string& a, const char* b) { l.put("%-60s%-20s", a.c_str(), b); };
  auto fmt = [](const char* s, auto... a) { char b[200]; snprintf(b, 200, s, a...); return std::string(b); };
  put("     1.4            M", "ANTEX VERSION / SYST"); put("A", "PCV TYPE / REFANT"); put("START OF ANTENNA in a comment", "COMMENT"); l.put("short"); put("", "END OF HEADER");
  l.left = f.num("cut") < 0 ? -1 : f.num("cut"); if (l.left >= 0 && f.num("part") && (size_t)l.left < f.at("ants").a.size()) l.left++;
  for (size_t i = 0; i < f.at("ants").a.size(); i++) {
    auto& a = f.at("ants").a[i]; bool brk = f.num("cut") >= 0 && f.num("part") && (int)i == f.num("cut");
    put("", "START OF ANTENNA");
    if (a.flag("rx")) put(fmt("%-20s%-20s", a.str("type").c_str(), ""), "TYPE / SERIAL NO"); else put(fmt("%-20s%s%02d%-17s%-10s%-10s", a.str("type").c_str(), a.str("s").c_str(), a.num("n"), "", "G032", "1992-079A"), "TYPE / SERIAL NO");
    put("                                             0    29-JAN-17", "METH / BY / # / DATE"); put(fmt("  %6.1f", a.num("dazi") / 10.0), "DAZI");
    auto g = a.ints("g"); put(fmt("  %6.1f%6.1f%6.1f", g[0] / 10.0, g[1] / 10.0, g[2] / 10.0), "ZEN1 / ZEN2 / DZEN"); put(fmt("%6zu", a.at("f").a.size()), "# OF FREQUENCIES");
    for (const char* k : {"from", "to"}) { auto t = a.ints(k); if (t[0]) put(fmt("%6d%6d%6d%6d%6d%13.7f", t[0], t[1], t[2], t[3], t[4], t[5] / 100.0), k[0] == 'f' ? "VALID FROM" : "VALID UNTIL"); }
    put("IGS14_2247", "SINEX CODE");
    if (brk) { l.record(); l.left = 0; }
    for (auto& x : a.at("f").a) {
      auto o = x.ints("o"), v = x.ints("v");
      put("   " + x.str("name"), "START OF FREQUENCY"); put(fmt("%10.2f%10.2f%10.2f", o[0] / 100.0, o[1] / 100.0, o[2] / 100.0), "NORTH / EAST / UP");
      std::string s = "   NOAZI"; for (int y : v) s += fmt("%8.2f", y / 100.0); l.put("%s", s.c_str());
      if (a.num("dazi")) for (int z = 0; z <= 3600; z += a.num("dazi")) { s = fmt("%8.1f", z / 10.0); for (size_t k = 0; k < v.size(); k++) s += fmt("%8.2f", 7.77); l.put("%s", s.c_str()); }
      put("   " + x.str("name"), "END OF FREQUENCY");
    }
    put("", "END OF ANTENNA"); l.record();
  }
  l.to(path);
}
static void bsxfile(const Js& f, const std::string& path) {
  Lines l{"", -1};
  l.put("%%=BIA 1.00 GFZ 2023:092:50740 IGS 2023:091:00000 2023:091:86399 R %08zu", f.at("b").a.size()); l.put("*-------");
  if (f.flag("ref")) { l.put("+FILE/REFERENCE"); l.put(" DESCRIPTION        +BIAS/SOLUTION"); l.put("-FILE/REFERENCE"); l.put("+FILE/COMMENT"); l.put(" +BIAS/SOLUTION"); l.put("-FILE/COMMENT"); l.put("+INPUT/ACKNOWLEDGMENTS"); l.put(" x"); l.put("-INPUT/ACKNOWLEDGMENTS"); }
  l.put("+BIAS/DESCRIPTION"); l.put("*KEYWORD"); l.put(" BIAS_MODE                               RELATIVE"); l.put("-BIAS/DESCRIPTION");
  if (f.flag("ref")) { l.put("+BIAS/RECEIVER_INFORMATION"); l.put(" x"); l.put("-BIAS/RECEIVER_INFORMATION"); }
  l.put("+BIAS/SOLUTION"); l.put("*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ UNIT __ESTIMATED_VALUE____ _STD_DEV___ __ESTIMATED_SLOPE____ _STD_DEV___");
  l.left = f.num("cut") < 0 ? -1 : f.num("cut");
  for (auto& b : f.at("b").a) {
    auto sl = b.ints("sl"); std::string s;
    auto add = [&](const char* q, auto v) { char c[60]; snprintf(c, 60, q, v); s += c; };
    add(" %-4s", b.str("id").c_str()); add(" %-4s", b.str("svn").c_str()); add(" %-3s", b.str("prn").c_str()); add(" %-9s", b.str("st").c_str()); add(" %-4s", b.str("o1").c_str()); add(" %-4s", b.str("o2").c_str());
    s += " 2023:091:00000 2023:091:86399"; add(" %-4s", b.str("unit").c_str()); add(" %21.14E", b.num("v") / 1e3); add(" %11.5E", b.num("sd") / 1e3);
    if (sl.size() > 0) add(" %21.14E", sl[0] / 1e6);
    if (sl.size() > 1) add(" %11.5E", sl[1] / 1e6);
    l.put("%s", s.c_str()); if (f.flag("ref")) l.put("* a comment"); l.record();
  }
  l.left = f.num("cut") < 0 ? -1 : 0; l.put("-BIAS/SOLUTION"); l.put("*-------"); l.put("%%=ENDBIA"); l.to(path);
}
static std::string trim(const std::string& s) { auto p = s.find_last_not_of(' '); return p == std::string::npos ? "" : s.substr(0, p + 1); }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    std::string path = std::string(getenv("VT_DIR")) + "/product." + op; unlink(path.c_str());
    if (op == "reset") { delete sp3; delete atx; delete bsx; sp3 = nullptr; atx = nullptr; bsx = nullptr; }
    else if (op == "sp3") {
      auto& f = e.at("f"); if (f.flag("there")) sp3file(f, path);
      delete sp3; sp3 = nullptr; sp3 = new Sp3FileReader(path); Sp3Header h = sp3->GetHeader(); first = f.ints("first");
      r["n"] = (int)sp3->GetNumberOfEpoch(); r["sats"] = (int)sp3->GetNumberOfSatellites();
      if (f.flag("there")) {
        r["mode"] = h.mode_ == Sp3Mode::kPosition ? "P" : h.mode_ == Sp3Mode::kVelocity ? "V" : "?"; r["first"] = date(sp3->GetStartEpochDateTime()); r["dt"] = hx::rnd(h.epoch_interval_s_ * 1e3);
        Js g = Js::arr(); g.push((int)sp3->GetStartEpochGpsTime().GetWeek()); g.push(hx::rnd(sp3->GetStartEpochGpsTime().GetElapsedTimeFromWeek_s())); r["gps"] = g;
        r["mjd"] = (int)h.start_time_mjday_; r["frac"] = hx::rnd(h.start_time_mjday_fractional_day_ * 1e6);
        r["ids"] = Js::arr(); for (auto& s : h.satellite_ids_) r["ids"].push(s);
        r["acc"] = Js::arr(); for (auto a : h.satellite_accuracy_) r["acc"].push((int)a);
        r["used"] = h.used_data_; r["sys"] = h.coordinate_system_; r["ag"] = h.agency_name_; r["ft"] = h.file_type_; r["ts"] = h.time_system_; r["bp"] = hx::rnd(h.base_number_position_ * 1e6); r["bc"] = hx::rnd(h.base_number_clock_ * 1e6);
        const char* o[] = {"FIT", "EXT", "BCT", "HLM", "???"}; r["orb"] = o[(int)h.orbit_type_];
      }
    } else if (op == "get") {
      Sp3PositionClock x = sp3->GetPositionClock(e.num("i"), e.num("k")); Js p = Js::arr(), sd = Js::arr(), fl = Js::arr();
      auto q = sp3->GetSatellitePosition_km(e.num("i"), e.num("k"));
      for (int i = 0; i < 3; i++) { p.push(hx::rnd(q[i] == x.position_km_[i] ? q[i] * 1e4 : NAN)); sd.push(hx::rnd(x.position_standard_deviation_[i])); }
      sd.push(hx::rnd(x.clock_standard_deviation_)); for (bool b : {x.clock_event_flag_, x.clock_prediction_flag_, x.maneuver_flag_, x.orbit_prediction_flag_}) fl.push(b);
      double c = sp3->GetSatelliteClockOffset(e.num("i"), e.num("k"));
      r["id"] = x.satellite_id_; r["p"] = p; r["c"] = hx::rnd(c == x.clock_us_ ? c * 1e3 : NAN); r["sd"] = sd; r["fl"] = fl;
    } else if (op == "epoch") r["t"] = date(sp3->GetEpochData(e.num("i")));
    else if (op == "near") {
      using s2e::time_system::EpochTime; EpochTime t(DateTime(first[0], first[1], first[2], first[3], first[4], first[5] / 100.0)); int ms = e.num("ms"), a = abs(ms); EpochTime d(a / 1000, a % 1000 / 1000.0);
      r["i"] = (int)sp3->SearchNearestEpochId(ms < 0 ? t - d : t + d);
    } else if (op == "atx") { if (e.at("f").flag("there")) atxfile(e.at("f"), path); delete atx; atx = nullptr; atx = new AntexFileReader(path); r["ok"] = atx->GetFileReadSuccessFlag(); r["n"] = (int)atx->GetNumberOfSatelliteData(); }
    else if (op == "ant") {
      char s[8]; snprintf(s, 8, "%s%02d", e.str("s").c_str(), e.num("n")); auto v = atx->GetAntexSatelliteData(ConvertGnssSatelliteNumberToIndex(s)); r["n"] = (int)v.size();
      if (e.num("j") < (int)v.size()) {
        auto& a = v[e.num("j")]; Js o = Js::obj(); o["type"] = trim(a.GetAntennaType()); o["nf"] = (int)a.GetNumberOfFrequency(); o["from"] = date(a.GetValidStartTime()); o["to"] = date(a.GetValidEndTime());
        AntexPhaseCenterData f = a.GetPhaseCenterData(e.num("f")); o["name"] = f.GetFrequencyName(); Js p = Js::arr(), q = Js::arr(), g = Js::arr();
        for (int i = 0; i < 3; i++) p.push(hx::rnd(f.GetPhaseCenterOffset_mm()[i] * 100));
        auto var = f.GetPhaseCenterVariationMatrix_mm(); for (double x : var.at(0)) q.push(hx::rnd(x * 100));
        auto gi = f.GetGridInformation(); for (double x : {gi.GetZenithStartAngle_deg(), gi.GetZenithEndAngle_deg(), gi.GetZenithStepAngle_deg()}) g.push(hx::rnd(x * 10));
        o["o"] = p; o["v"] = q; o["grid"] = g; o["nz"] = (int)gi.GetNumberOfZenithGrid(); r["v"] = o;
      }
    } else if (op == "bsx") { if (e.at("f").flag("there")) bsxfile(e.at("f"), path); delete bsx; bsx = nullptr; bsx = new BiasSinexFileReader(path); r["ok"] = bsx->GetFileReadSuccessFlag(); r["n"] = (int)bsx->GetNumberOfBiasData(); }
    else if (op == "bias") {
      BiasSolutionData b = bsx->GetBiasData(e.num("i"));
      r["id"] = (int)b.GetIdentifier(); r["svn"] = trim(b.GetSatelliteSvnCode()); r["st"] = trim(b.GetStationName()); r["sig"] = (int)b.GetTargetSignal(); r["unit"] = (int)b.GetUnit();
      r["v"] = hx::rnd(b.GetBias() * 1e3); r["sd"] = hx::rnd(b.GetBiasStandardDeviation() * 1e3); r["sl"] = hx::rnd(b.GetSlope() * 1e6); r["ssd"] = hx::rnd(b.GetSlopeStandardDeviation() * 1e6);
    } else if (op == "grid") { auto g = e.ints("g"); AntexGridDefinition d(g[0] / 10.0, g[1] / 10.0, g[2] / 10.0); r["i"] = (int)d.CalcClosestZenithIndex(e.num("z") / 10.0); r["n"] = (int)d.GetNumberOfZenithGrid(); }
    else if (op == "azi") { AntexGridDefinition d(0, 90, 10, e.num("a") / 10.0); r["i"] = (int)d.CalcClosestAzimuthIndex(e.num("z") / 10.0); r["n"] = (int)d.GetNumberOfAzimuthGrid(); }
    else if (op == "num") { char s[8]; snprintf(s, 8, "%s%02d", e.str("s").c_str(), e.num("n")); size_t i = ConvertGnssSatelliteNumberToIndex(s); r["i"] = i == UINT32_MAX ? -1 : (int)i; }
    else r["s"] = ConvertIndexToGnssSatelliteNumber(e.num("i"));
    return r;
  });
}
