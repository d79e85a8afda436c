// Driver for spec/Wings.tla: the operation file sender, compiled with its C2A interface (recorded by stand-ins).
#include "hx.hpp"
#define USE_C2A
#include <components/real/communication/wings_command_sender_to_c2a.cpp>
#include <environment/global/clock_generator.hpp>
using hx::Js;
static Js sent = Js::arr();
static Js rec(const char* k, unsigned id, unsigned ti, const uint8_t* p, unsigned n) {
  Js r = Js::obj(); r["k"] = k; r["id"] = id; r["ti"] = ti;
  Js a = Js::arr(); for (unsigned i = 0; i < n; i++) a.push((int)p[i]);
  r["p"] = a; return r;
}
void CCP_register_rtc(CMD_CODE id, const uint8_t* p, uint16_t n) { sent.push(rec("rt", id, 0, p, n)); }
void CCP_register_tlc(uint32_t ti, int, CMD_CODE id, const uint8_t* p, uint16_t n) { sent.push(rec("tl", id, ti, p, n)); }
static s2e::environment::ClockGenerator* clk;
static s2e::components::WingsCommandSenderToC2a* cs;
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    if (e.str("op") == "reset") {
      delete cs; cs = nullptr; delete clk; clk = new s2e::environment::ClockGenerator();
      std::string d = getenv("VT_DIR");
      std::ofstream db(d + "/db.csv");
      db << "Component,Name,Target,Code,Params\n,NOP,OBC,0x10,0,,,,\n,SET,OBC,300,2,uint8_t,x,int16_t,y,,,\n,BIG,OBC,0xffff,3,uint32_t,x,int64_t,y,uint8_t,z,,\n";
      db.close();
      std::ofstream f(d + "/x.ops");
      for (auto& l : e.at("lines").a) {
        const std::string& k = l.str("kind");
        if (l.num("dot", 0)) f << ".";
        if (l.num("sp", 0)) f << " ";
        if (k == "comment") f << "# .MOBC_RT.NOP";
        else if (k == "blank") f << std::string(l.num("n"), ' ');
        else if (k == "rt" || k == "tl") {
          f << (k == "rt" ? "MOBC_RT." : "MOBC_TL.") << l.str("c");
          if (k == "tl") f << " " << l.num("ti");
          for (int v : l.ints("v")) f << " " << v;
        } else if (k == "wait") { char b[32]; snprintf(b, 32, "wait_sec %.4f", l.num("t") / 16.0); f << b; }
        else if (k == "check") f << "check_value MOBC.TLM == 1";
        else if (k == "let") f << "let abc = 2";
        else if (k == "brace") f << "MOBC_RT.SET {abc} 2";
        if (l.num("note", 0)) f << (k == "blank" ? "# note" : " # MOBC_RT.NOP");
        f << "\n";
      }
      f.close();
      std::ofstream i(d + "/w.ini");
      i << "[WINGS_COMMAND_SENDER_TO_C2A]\ncommand_send_enable=" << (e.flag("en") ? "ENABLE" : "DISABLE") << "\nprescaler=" << e.num("pre")
        << "\nc2a_command_database_file=" << d << "/db.csv\nwings_operation_file=" << d << "/x.ops\n";
      i.close();
      cs = new s2e::components::WingsCommandSenderToC2a(s2e::components::InitWingsCommandSenderToC2a(clk, e.num("step") / 16.0, d + "/w.ini"));
      r["ok"] = true;
    } else { sent = Js::arr(); clk->TickToComponents(); r["sent"] = sent; }
    return r;
  });
}
