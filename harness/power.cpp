// Driver for spec/Power.tla: PowerPort and PowerControlUnit.
#include "hx.hpp"
#include <components/ports/power_port.hpp>
#include <components/real/power/power_control_unit.hpp>
#include <environment/global/clock_generator.hpp>
#include <set>
using hx::Js;
using namespace s2e::components;
static std::unique_ptr<s2e::environment::ClockGenerator> cg;
static std::unique_ptr<PowerControlUnit> pcu;
static std::unique_ptr<PowerPort> def;
static std::set<int> ids;
static PowerPort* get(int p) { return p == 0 ? def.get() : pcu->GetPowerPort(p); }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    int ret = 0;
    auto x = [&](const char* k) { return e.num(k) / 16.0; };
    if (op == "reset") {
      pcu.reset(); cg.reset(new s2e::environment::ClockGenerator()); pcu.reset(new PowerControlUnit(e.num("pre", 1), cg.get()));
      def.reset(new PowerPort()); ids = {0};
    } else if (op == "conn") { ret = pcu->ConnectPort(e.num("p"), x("l")); ids.insert(e.num("p")); }
    else if (op == "connf") { ret = pcu->ConnectPort(e.num("p"), x("l"), x("m"), x("w")); ids.insert(e.num("p")); }
    else if (op == "close") { ret = pcu->ClosePort(e.num("p")); ids.erase(e.num("p")); }
    else if (op == "get") { try { ret = get(e.num("p")) != nullptr; } catch (const std::out_of_range&) { ret = 0; } }
    else if (op == "tick") cg->TickToComponents();
    else {
      PowerPort* p = get(e.num("p"));
      if (!p) { r["none"] = 1; return r; }
      if (op == "volt") ret = p->SetVoltage_V(x("x"));
      else if (op == "upd") ret = p->Update();
      else if (op == "setp") p->SetAssumedPowerConsumption_W(x("x"));
      else if (op == "addp") p->AddAssumedPowerConsumption_W(x("x"));
      else if (op == "subp") p->SubtractAssumedPowerConsumption_W(x("x"));
      else if (op == "setm") p->SetMinimumVoltage_V(x("x"));
      else if (op == "setl") p->SetCurrentLimit_A(x("x"));
      else if (op == "ini") {
        std::string f = std::string(getenv("VT_DIR")) + "/pp.ini";
        std::ofstream(f) << "[OTHER]\nminimum_voltage_V=99\n[POWER_PORT]\nminimum_voltage_V=" << x("m") << "\nassumed_power_consumption_W=" << x("w") << "\n";
        p->InitializeWithInitializeFile(f);
      }
    }
    r["ret"] = ret;
    Js a = Js::arr();
    for (int i : ids) {
      PowerPort* p = get(i);
      if (!p) continue;
      Js b = Js::arr();
      b.push(i); b.push(hx::exact(p->GetVoltage_V(), 16)); b.push(p->GetIsOn()); b.push(hx::exact(p->GetAssumedPowerConsumption_W(), 16));
      b.push(hx::clampi(std::floor(p->GetCurrentConsumption_A() * 65536 + 1e-6)));
      a.push(b);
    }
    r["ports"] = a;
    return r;
  });
}
