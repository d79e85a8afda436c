// Driver for spec/Bus.tla: the real UartPort, I2cPort and GpioPort.
#include "hx.hpp"
#include <components/base/interface_gpio_component.hpp>
#include <components/ports/gpio_port.hpp>
#include <components/ports/i2c_port.hpp>
#include <components/ports/uart_port.hpp>
using hx::Js;
using namespace s2e::components;
static Js g_ev = Js::arr();
struct Dev : IGPIOCompo { void GpioStateChanged(const int p, const bool pos) override { Js t = Js::arr(); t.push(p); t.push(pos ? 1 : 0); g_ev.push(t); } };
static Dev dev;
static std::unique_ptr<UartPort> uart;
static std::unique_ptr<I2cPort> i2c;
static std::map<int, std::unique_ptr<GpioPort>> pins;

int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    g_ev = Js::arr();
    auto wr = [&](bool tx) {
      auto d = e.bytes("d"); int off = e.num("off");
      std::vector<unsigned char> b(off, 0xEE); b.insert(b.end(), d.begin(), d.end()); b.push_back(0xDD);
      r["n"] = tx ? uart->WriteTx(b.data(), off, d.size()) : uart->WriteRx(b.data(), off, d.size());
    };
    auto rd = [&](bool tx) {
      int n = e.num("n"), off = e.num("off");
      std::vector<unsigned char> b(off + n + 3, 0xEE);
      int k = tx ? uart->ReadTx(b.data(), off, n) : uart->ReadRx(b.data(), off, n);
      bool clean = k >= 0 && k <= n;
      Js d = Js::arr();
      for (int i = 0; i < (int)b.size(); i++) {
        if (clean && i >= off && i < off + k) d.push((int)b[i]);
        else if (b[i] != 0xEE) clean = false;
      }
      r["d"] = d; r["clean"] = clean;
    };
    if (op == "reset") {
      uart.reset(new UartPort(e.num("rx"), e.num("tx"))); i2c.reset(e.num("max") == 255 ? new I2cPort() : new I2cPort((unsigned char)e.num("max"))); pins.clear();
      for (int p = 1; p <= e.num("pins"); p++) pins[p].reset(p % 2 ? new GpioPort(p, &dev) : new GpioPort(p));
      r["ok"] = true;
    } else if (op == "wtx") wr(true);
    else if (op == "wrx") wr(false);
    else if (op == "rtx") rd(true);
    else if (op == "rrx") rd(false);
    else if (op == "dev") { i2c->RegisterDevice(e.num("a")); r["ok"] = true; }
    else if (op == "point") r["ret"] = i2c->WriteRegister(e.num("a"), e.num("reg"));
    else if (op == "write") r["ret"] = i2c->WriteRegister(e.num("a"), e.num("reg"), e.num("v"));
    else if (op == "next") r["v"] = (int)i2c->ReadRegister(e.num("a"));
    else if (op == "read") r["v"] = (int)i2c->ReadRegister(e.num("a"), e.num("reg"));
    else if (op == "wcmd") { auto d = e.bytes("d"); r["ret"] = (int)i2c->WriteCommand(e.num("a"), d.data(), d.size()); }
    else if (op == "rcmd") { std::vector<unsigned char> d(e.num("n"), 0xEE); r["ret"] = (int)i2c->ReadCommand(e.num("a"), d.data(), d.size()); Js a = Js::arr(); for (auto x : d) a.push((int)x); r["d"] = a; }
    else if (op == "pin") {
      r["ret"] = pins.at(e.num("p"))->DigitalWrite(e.flag("v")); r["ev"] = g_ev;
      Js l = Js::arr(); for (auto& p : pins) l.push(p.second->DigitalRead());
      r["lv"] = l;
    }
    return r;
  });
}
