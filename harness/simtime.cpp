// Driver for spec/SimTime.tla: the real SimulationTime.  Units: 1/8 s.
#include "hx.hpp"
#include <environment/global/simulation_time.hpp>
using hx::Js;
using namespace s2e;
static std::unique_ptr<environment::SimulationTime> st;
static double et0;
static void instant(Js& r) {
  auto u = st->GetCurrentUtc();
  Js c = Js::arr();
  c.push(u.year); c.push(u.month); c.push(u.day); c.push(u.hour); c.push(u.minute); c.push(hx::rnd(u.second * 1000.0));
  r["cal"] = c;
  double jd = st->GetCurrentTime_jd() + 0.5, fl = std::floor(jd);
  Js j = Js::arr(); j.push((long long)fl); j.push(hx::rnd((jd - fl) * 86400000.0)); r["jd"] = j;
  r["gst"] = hx::rnd(std::fmod(st->GetCurrentSiderealTime() * 180.0 / 3.14159265358979323846, 360.0) * 1e5);
  double y = st->GetCurrentDecimalYear(), yf = std::floor(y);
  Js d = Js::arr(); d.push((long long)yf); d.push(hx::rnd((y - yf) * 365.25 * 1e4)); r["dec"] = d;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    auto u = [&](const char* k) { return e.num(k) / 8.0; };
    if (op == "reset") {
      auto s = e.ints("start");
      char b[80]; snprintf(b, 80, "%04d/%02d/%02d %02d:%02d:%.3f", s[0], s[1], s[2], s[3], s[4], s[5] / 1000.0);
      st.reset(new environment::SimulationTime(u("end"), u("step"), u("att"), u("att"), u("orb"), u("orb"), u("th"), u("th"), u("comp"), u("log"), b, 0));
      et0 = st->GetCurrentEphemerisTime();
      r["el"] = hx::exact(st->GetElapsedTime_s(), 8);
      r["log"] = st->GetState().log_output; r["fin"] = st->GetState().finish;
      r["freq"] = st->GetComponentPropagateFrequency_Hz();
      Js c = Js::arr();
      for (double v : {st->GetEndTime_s(), st->GetSimulationStep_s(), st->GetAttitudeUpdateInterval_s(), st->GetOrbitUpdateInterval_s(), st->GetThermalUpdateInterval_s(), st->GetComponentStepTime_s()}) c.push(hx::exact(v, 8));
      r["cfg"] = c;
      instant(r);
    } else if (op == "step" || op == "restart") {
      if (op == "step") st->UpdateTime(); else st->SetParameters();
      auto s = st->GetState();
      r["el"] = hx::exact(st->GetElapsedTime_s(), 8);
      r["log"] = s.log_output;
      Js f = Js::arr();
      f.push(st->GetAttitudePropagateFlag()); f.push(st->GetOrbitPropagateFlag()); f.push(st->GetThermalPropagateFlag()); f.push(st->GetCompoUpdateFlag());
      r["fl"] = f;
      if (op == "step") {
        r["fin"] = s.finish; r["run"] = s.running; r["disp"] = s.disp_output;
        r["prog"] = st->GetProgressionRate();
        r["et"] = hx::rnd(st->GetCurrentEphemerisTime() - et0, 8);
        instant(r);
        int y = 0, mo = 0, d = 0, h = 0, mi = 0; double sec = -1;
        std::string lv = st->GetLogValue();
        sscanf(lv.c_str() + lv.find(',') + 1, "%d/%d/%d %d:%d:%lf,", &y, &mo, &d, &h, &mi, &sec);
        Js c = Js::arr(); for (int v : {y, mo, d, h, mi}) c.push(v); c.push(hx::rnd(sec * 1000.0)); r["lcal"] = c;
      }
    }
    return r;
  });
}
