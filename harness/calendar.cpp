// Driver for spec/Calendar.tla: calendar dates, epochs, GPS weeks, days of a year.
#include "hx.hpp"
#include <math_physics/gnss/igs_product_name_handling.hpp>
#include <math_physics/time_system/date_time_format.hpp>
#include <math_physics/time_system/epoch_time.hpp>
#include <math_physics/time_system/gps_time.hpp>
using hx::Js;
using namespace s2e::time_system;
static EpochTime t;
static Js date(const DateTime& x) {
  Js a = Js::arr(); for (size_t v : {x.GetYear(), x.GetMonth(), x.GetDay(), x.GetHour(), x.GetMinute()}) a.push((int)v);
  a.push(hx::rnd(x.GetSecond() * 64)); return a;
}
static DateTime from(const std::vector<int>& x) { return DateTime(x[0], x[1], x[2], x[3], x[4], x[5] / 64.0); }
static EpochTime span(const Js& e) { return EpochTime((uint64_t)e.num("d") * 86400 + e.num("s"), e.num("u") / 64.0); }
static Js view(const DateTime* given, const GpsTime* week) {
  Js r = Js::obj(), a = Js::arr();
  a.push((int)(t.GetTime_s() / 86400)); a.push((int)(t.GetTime_s() % 86400)); a.push(hx::rnd(t.GetFraction_s() * 64)); r["t"] = a;
  DateTime d = given ? *given : DateTime(t);
  if (week && date(week->GetDateTime()).dump() != date(d).dump()) d = week->GetDateTime();
  r["date"] = date(d);
  std::string s = d.GetAsString(); size_t p = s.rfind(':') + 1;
  r["text"] = s.substr(0, p); r["back"] = hx::rnd(DateTime(s).GetSecond() * 64); r["ex"] = hx::rnd((t.GetTimeWithFraction_s() - floor(t.GetTimeWithFraction_s())) * 64);
  if (t.GetTime_s() / 86400 >= 3657) {
    GpsTime g = week ? *week : given ? GpsTime(*given) : GpsTime(t); double w = g.GetElapsedTimeFromWeek_s();
    Js b = Js::arr(); b.push((int)g.GetWeek()); b.push((int)floor(w)); b.push(hx::rnd((w - floor(w)) * 64));
    r["gps"] = b; r["utc"] = date(g.GetDateTimeAsUtc());
    if (!(g.GetEpochTime() == t)) r["gps"] = "epoch";
  }
  return r;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    if (op == "reset") t = EpochTime(0, 0.0);
    else if (op == "date") { DateTime d = from(e.ints("x")); t = EpochTime(d); r = view(nullptr, nullptr); if (date(GpsTime(d).GetDateTime()).dump() != date(d).dump()) r["date"] = "gps"; }
    else if (op == "parse") {
      auto x = e.ints("x"); char b[64]; snprintf(b, 64, e.num("form", 0) ? "%d/%02d/%02d %02d:%02d:%09.6f" : "%d/%d/%d %d:%d:%.6f", x[0], x[1], x[2], x[3], x[4], x[5] / 64.0);
      DateTime d{std::string(b)}; t = EpochTime(d); r = view(&d, nullptr);
    } else if (op == "gps") { GpsTime g(e.num("w"), e.num("s") + e.num("u") / 64.0); t = g.GetEpochTime(); r = view(nullptr, &g); }
    else if (op == "plus") { t = t + span(e); r = view(nullptr, nullptr); }
    else if (op == "minus") { t = t - span(e); r = view(nullptr, nullptr); }
    else if (op == "cmp") { EpochTime b = span(e); r["lt"] = t < b; r["gt"] = t > b; r["le"] = t <= b; r["ge"] = t >= b; r["eq"] = t == b; r["ne"] = t != b; }
    else if (op == "doy") {
      using namespace s2e::gnss; size_t m = MergeYearDoy(e.num("y"), e.num("n"));
      r["m"] = (int)m; r["y"] = (int)PerseYearFromYearDoy(m); r["n"] = (int)PerseDoyFromYearDoy(m); r["next"] = (int)IncrementYearDoy(m);
    } else {
      using namespace s2e::gnss; size_t m = MergeYearDoy(e.num("y"), e.num("n")); std::string p = e.str("p"), f = e.str("f");
      r["s"] = p.empty() && f.empty() ? GetOrbitClockFinalFileName(e.str("head"), m) : f.empty() ? GetOrbitClockFinalFileName(e.str("head"), m, p) : GetOrbitClockFinalFileName(e.str("head"), m, p.empty() ? "15M" : p, f);
    }
    return r;
  });
}
