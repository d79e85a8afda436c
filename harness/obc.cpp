// Driver for spec/Obc.tla: OnBoardComputer / ObcWithC2a and the component side communication classes.
#include "hx.hpp"
#include <components/base/gpio_connection_with_obc.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/base/uart_communication_with_obc.hpp>
#include <components/real/cdh/on_board_computer.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <components/real/cdh/c2a_communication.hpp>
#include <environment/global/clock_generator.hpp>
using hx::Js;
using namespace s2e::components;
static int g_base = 0;
struct Uart : UartCommunicationWithObc {
  std::vector<unsigned char> tlm; unsigned off = 0; bool parsed = false; std::vector<unsigned char> got;
  unsigned txs;
  Uart(int p, int tx, int rx, OnBoardComputer* o) : UartCommunicationWithObc(p, (unsigned)tx, (unsigned)rx, o), txs(tx > 1024 ? 1024 : tx) {}
  int ParseCommand(const int n) override {
    parsed = true; got.clear();
    for (int i = 0; i < n; i++) got.push_back(off + i < rx_buffer_.size() ? rx_buffer_[off + i] : 0xEE);
    return 40 + n;
  }
  int GenerateTelemetry() override {
    if (off + tlm.size() <= txs) for (size_t i = 0; i < tlm.size(); i++) tx_buffer_[off + i] = tlm[i];
    return (int)tlm.size();
  }
  int recv(unsigned o, unsigned n) { off = o; parsed = false; got.clear(); return ReceiveCommand(o, n); }
  int send(unsigned o, const std::vector<unsigned char>& d) { off = o; tlm = d; return SendTelemetry(o); }
};
struct Target : I2cTargetCommunicationWithObc {
  Target(int p, int a, OnBoardComputer* o) : I2cTargetCommunicationWithObc((unsigned)p, (unsigned char)a, o) {}
  Target(Target&& o) = default;
  using I2cTargetCommunicationWithObc::ReadCommand;
  using I2cTargetCommunicationWithObc::ReadRegister;
  using I2cTargetCommunicationWithObc::WriteRegister;
};
struct Gpio : GpioConnectionWithObc { using GpioConnectionWithObc::GpioConnectionWithObc; using GpioConnectionWithObc::Read; using GpioConnectionWithObc::Write; };
static std::unique_ptr<s2e::environment::ClockGenerator> cg;
static std::unique_ptr<OnBoardComputer> obc;
static std::map<int, std::unique_ptr<Uart>> wr;
static std::map<int, std::unique_ptr<Target>> tg;
static std::map<int, std::unique_ptr<Gpio>> gc;
static Js bytes(const std::vector<unsigned char>& d) { Js a = Js::arr(); for (auto x : d) a.push((int)x); return a; }

int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    bool c2a = dynamic_cast<ObcWithC2a*>(obc.get()) != nullptr;
    int p = e.has("p") ? e.num("p") + g_base : 0;
    auto payload = [&]() { auto d = e.bytes("d"); std::vector<unsigned char> b(e.num("off", 0), 0xEE); b.insert(b.end(), d.begin(), d.end()); b.push_back(0xDD); return b; };
    auto recv = [&](auto f) {
      int n = e.num("n"), off = e.num("off");
      std::vector<unsigned char> b(off + n + 3, 0xEE);
      int k = f(b.data(), off, n);
      r["ret"] = k; Js d = Js::arr();
      for (int i = 0; i < (int)b.size(); i++) { if (i >= off && i < off + k) d.push((int)b[i]); else if (b[i] != 0xEE) d.push(-1); }
      r["d"] = d;
    };
    if (op == "reset") {
      wr.clear(); tg.clear(); gc.clear();
      if (obc) for (int q = 0; q < 20; q++) { obc->CloseComPort(g_base + q); obc->I2cCloseComPort(g_base + q); }
      obc.reset(); g_base += 100;   // the ports of ObcWithC2a are static: a history uses numbers of its own
      cg.reset(new s2e::environment::ClockGenerator);
      if (e.num("kind")) obc.reset(new ObcWithC2a(cg.get())); else obc.reset(new OnBoardComputer(cg.get()));
      r["ok"] = true;
    } else if (op == "conn") r["ret"] = obc->ConnectComPort(p, e.num("n"), e.num("n"));
    else if (op == "close") r["ret"] = obc->CloseComPort(p);
    else if (op == "sfo") { auto b = payload(); int off = e.num("off"); int n = (int)b.size() - 1 - off; r["ret"] = c2a && n % 2 ? OBC_C2A_SendFromObc(p, b.data(), off, n) : obc->SendFromObc(p, b.data(), off, n); }
    else if (op == "sfc") { auto b = payload(); int off = e.num("off"); r["ret"] = obc->SendFromCompo(p, b.data(), off, (int)b.size() - 1 - off); }
    else if (op == "rbc") recv([&](unsigned char* b, int o, int n) { return obc->ReceivedByCompo(p, b, o, n); });
    else if (op == "rbo") recv([&](unsigned char* b, int o, int n) { return c2a && n % 2 ? OBC_C2A_ReceivedByObc(p, b, o, n) : obc->ReceivedByObc(p, b, o, n); });
    else if (op == "wnew") { auto w = new Uart(p, e.num("tx"), e.num("rx"), obc.get()); wr[e.num("w")].reset(w); r["conn"] = w->IsConnected(); }
    else if (op == "wdel") { wr.erase(e.num("w")); r["ok"] = true; }
    else if (op == "wrecv") { auto& w = *wr.at(e.num("w")); int k = w.recv(e.num("off"), e.num("n")); r["ret"] = k; r["parsed"] = w.parsed; r["d"] = bytes(w.got); }
    else if (op == "wsend") r["ret"] = wr.at(e.num("w"))->send(e.num("off"), e.bytes("d"));
    else if (op == "iconn") r["ret"] = obc->I2cConnectPort(p, e.num("a"));
    else if (op == "iclose") r["ret"] = obc->I2cCloseComPort(p);
    else if (op == "icw") { auto d = e.bytes("d"); r["ret"] = obc->I2cComponentWriteRegister(p, e.num("a"), e.num("reg"), d.data(), d.size()); }
    else if (op == "icr") { std::vector<unsigned char> d(e.num("n"), 0xEE); r["ret"] = obc->I2cComponentReadRegister(p, e.num("a"), e.num("reg"), d.data(), d.size()); r["d"] = bytes(d); }
    else if (op == "icc") { std::vector<unsigned char> d(e.num("n"), 0xEE); r["ret"] = obc->I2cComponentReadCommand(p, e.num("a"), d.data(), d.size()); r["d"] = bytes(d); }
    else if (op == "ocmd") { auto d = e.bytes("d"); r["ret"] = OBC_C2A_I2cWriteCommand(p, e.num("a"), d.data(), d.size()); }
    else if (op == "owr") { auto d = e.bytes("d"); r["ret"] = OBC_C2A_I2cWriteRegister(p, e.num("a"), d.data(), d.size()); }
    else if (op == "ord") { std::vector<unsigned char> d(e.num("n"), 0xEE); r["ret"] = OBC_C2A_I2cReadRegister(p, e.num("a"), d.data(), d.size()); r["d"] = bytes(d); }
    else if (op == "tnew") { tg[e.num("t")].reset(new Target(p, e.num("a"), obc.get())); r["ok"] = true; }
    else if (op == "tdel") { tg.erase(e.num("t")); r["ok"] = true; }
    else if (op == "tmove") { auto u = new Target(std::move(*tg.at(e.num("t")))); tg.erase(e.num("t")); tg[e.num("u")].reset(u); r["ok"] = true; }
    else if (op == "tw") { auto d = e.bytes("d"); tg.at(e.num("t"))->WriteRegister(e.num("reg"), d.data(), d.size()); r["ok"] = true; }
    else if (op == "tr") { std::vector<unsigned char> d(e.num("n"), 0xEE); tg.at(e.num("t"))->ReadRegister(e.num("reg"), d.data(), d.size()); r["d"] = bytes(d); }
    else if (op == "tc") { std::vector<unsigned char> d(e.num("n"), 0xEE); tg.at(e.num("t"))->ReadCommand(d.data(), d.size()); r["d"] = bytes(d); }
    else if (op == "gconn") r["ret"] = obc->GpioConnectPort(p);
    else if (op == "gpw") r["ret"] = c2a && e.num("p") % 2 ? OBC_C2A_GpioWrite(p, e.flag("v")) : obc->GpioComponentWrite(p, e.flag("v"));
    else if (op == "gpr") r["v"] = c2a && e.num("p") % 2 == 0 ? OBC_C2A_GpioRead(p) : obc->GpioComponentRead(p);
    else if (op == "gnew") { auto ps = e.ints("ps"); for (auto& x : ps) x += g_base; gc[e.num("g")].reset(new Gpio(ps, obc.get())); r["ok"] = true; }
    else if (op == "gw") { gc.at(e.num("g"))->Write(e.num("i"), e.flag("v")); r["ok"] = true; }
    else if (op == "gr") r["v"] = gc.at(e.num("g"))->Read(e.num("i"));
    return r;
  });
}
