// Driver for spec/Clock.tla: the real ClockGenerator, Component, PowerPort and SimulationTime.
#include "hx.hpp"
#include <components/base/component.hpp>
#include <components/ports/power_port.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/global/simulation_time.hpp>
using hx::Js;
using namespace s2e;

static Js g_calls = Js::arr();
static void note(int id, int kind, int arg) { Js t = Js::arr(); t.push(id); t.push(kind); t.push(arg); g_calls.push(t); }

class Probe : public components::Component {
 public:
  Probe(int id, int pre, environment::ClockGenerator* cg, int fpre) : Component(pre, cg, fpre), id_(id) {}
  Probe(int id, int pre, environment::ClockGenerator* cg, components::PowerPort* pp, int fpre) : Component(pre, cg, pp, fpre), id_(id) {}
  Probe(const Probe& o) = default;
  int id_;
 protected:
  void MainRoutine(const int t) override { note(id_, 1, t); }
  void FastUpdate() override { note(id_, 3, 0); }
  void PowerOffRoutine() override { note(id_, 2, 0); }
};

static std::unique_ptr<environment::ClockGenerator> cg;
static std::unique_ptr<environment::SimulationTime> st;
static std::map<int, std::unique_ptr<components::PowerPort>> ports;
static std::map<int, std::unique_ptr<Probe>> comps;

int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    g_calls = Js::arr();
    if (op == "reset") {
      comps.clear(); ports.clear();
      // memory handed to the scheduler is dirty, as it may be in a real program
      void* mem = malloc(sizeof(environment::ClockGenerator));
      memset(mem, 0x5a, sizeof(environment::ClockGenerator)); free(mem);
      cg.reset(new environment::ClockGenerator);  // default-initialised, as the member of Spacecraft is
      int n = e.num("n");
      st.reset(new environment::SimulationTime(1e6, 1, n, 1, n, 1, n, 1, n, n, "2020/01/01 00:00:00.0", 0));
      if (e.has("clear")) cg->ClearTimerCount();
      r["ok"] = true;
    } else if (op == "port") {
      int p = e.num("p");
      if (!ports.count(p)) ports[p].reset(new components::PowerPort(p, 10.0));
      r["on"] = ports[p]->SetVoltage_V(e.flag("on") ? 5.0 : 0.0);
    } else if (op == "new") {
      int p = e.num("p");
      Probe* c = p ? new Probe(e.num("c"), e.num("pre"), cg.get(), ports.at(p).get(), e.num("fpre"))
                   : new Probe(e.num("c"), e.num("pre"), cg.get(), e.num("fpre"));
      c->SetNeedsFastUpdate(e.flag("fast"));
      comps[e.num("c")].reset(c);
      r["ok"] = true;
    } else if (op == "copy") {
      Probe* d = new Probe(*comps.at(e.num("c")));
      d->id_ = e.num("d");
      comps[e.num("d")].reset(d);
      r["ok"] = true;
    } else if (op == "del") { comps.erase(e.num("c")); r["ok"] = true; }
    else if (op == "reg") { cg->RegisterComponent(comps.at(e.num("c")).get()); r["ok"] = true; }
    else if (op == "unreg") { cg->RemoveComponent(comps.at(e.num("c")).get()); r["ok"] = true; }
    else if (op == "fast") { comps.at(e.num("c"))->SetNeedsFastUpdate(e.flag("fast")); r["ok"] = true; }
    else if (op == "tick") { cg->TickToComponents(); r["calls"] = g_calls; }
    else if (op == "step") { st->UpdateTime(); cg->UpdateComponents(st.get()); r["calls"] = g_calls; r["flag"] = st->GetCompoUpdateFlag(); }
    else if (op == "clear") { cg->ClearTimerCount(); r["ok"] = true; }
    return r;
  });
}
