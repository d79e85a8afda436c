// Driver for spec/Codec.tla: slip, endian, quantization, C2A command database and argument encoding.
#include "hx.hpp"
#include <setting_file_reader/c2a_command_database.hpp>
#include <utilities/endian.hpp>
#include <utilities/quantization.hpp>
#include <utilities/slip.hpp>
using hx::Js;
using namespace s2e;
typedef std::vector<uint8_t> B;
static B line;
static setting_file_reader::C2aCommandDatabase* db;
static Js bytes(const B& d) { Js a = Js::arr(); for (auto x : d) a.push((int)x); return a; }
static const char* kNames[] = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double", "raw", "error"};
static setting_file_reader::C2aArgumentType type(const std::string& t) {
  using T = setting_file_reader::C2aArgumentType;
  const T ts[] = {T::kUint8t, T::kUint16t, T::kUint32t, T::kUint64t, T::kInt8t, T::kInt16t, T::kInt32t, T::kInt64t, T::kFloat, T::kDouble, T::kRaw, T::kError};
  for (int i = 0; i < 12; i++) if (t == kNames[i]) return ts[i];
  return T::kError;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    Js r = Js::obj();
    const std::string& op = e.str("op");
    if (op == "reset") { line.clear(); delete db; db = nullptr; std::string f = std::string(getenv("VT_DIR")) + "/none.csv"; std::ofstream(f) << "x\n"; db = new setting_file_reader::C2aCommandDatabase(f); r["ok"] = true; }
    else if (op == "send") {
      B d = e.bytes("d"), o = e.flag("h") ? utilities::encode_slip_with_header(d) : utilities::encode_slip(d);
      line.insert(line.end(), o.begin(), o.end()); r["d"] = bytes(o);
    } else if (op == "recv") {
      bool h = e.flag("h");
      r["d"] = bytes(h ? utilities::decode_slip_with_header(line) : utilities::decode_slip(line));
      if (h && !line.empty()) line.erase(line.begin());
      size_t n = 0; while (n < line.size() && line[n] != 0xc0) n++;
      line.erase(line.begin(), line.begin() + (n < line.size() ? n + 1 : n));
    } else if (op == "raw") r["d"] = bytes(e.flag("h") ? utilities::decode_slip_with_header(e.bytes("d")) : utilities::decode_slip(e.bytes("d")));
    else if (op == "copy") {
      B d = e.bytes("d"), o(d.size() + 16, 0xEE), c;
      B src = d; src.push_back(0x77);
      utilities::endian_memcpy(o.data() + 8, src.data(), d.size());
      bool clean = true;
      for (size_t i = 0; i < o.size(); i++) { if (i >= 8 && i < 8 + d.size()) c.push_back(o[i]); else clean &= o[i] == 0xEE; }
      r["d"] = bytes(c); r["clean"] = clean;
    } else if (op == "quant") {
      r["v"] = hx::exact(utilities::quantization(e.num("n") / 64.0, e.num("q") / 64.0), 64);
      r["f"] = hx::exact(utilities::quantization_float(e.num("n") / 64.0, e.num("q") / 64.0), 64);
    } else if (op == "arg") {
      const std::string& t = e.str("t");
      std::string txt;
      if (e.has("n")) { char b[64]; snprintf(b, 64, "%.17g", e.num("n") * std::pow(2.0, -e.num("k"))); txt = b; }
      else {
        B d = e.bytes("d");
        unsigned long long v = 0; for (auto x : d) v = v << 8 | x;
        if (t[0] == 'i') { int sh = 64 - 8 * (int)d.size(); txt = std::to_string(((long long)(v << sh)) >> sh); } else txt = std::to_string(v);
      }
      B o(24, 0xEE), c; size_t n = 0;
      setting_file_reader::DecodeC2aCommandArgument(type(t), txt, o.data() + 8, n);
      bool clean = true;
      for (size_t i = 0; i < o.size(); i++) { if (i >= 8 && i < 8 + n) c.push_back(o[i]); else clean &= o[i] == 0xEE; }
      r["d"] = bytes(c); r["clean"] = clean;
    } else if (op == "load") {
      std::string f = std::string(getenv("VT_DIR")) + "/db.csv";
      std::ofstream o(f);
      for (auto& l : e.at("lines").a) {
        if (l.str("kind") == "head") o << "Component,Name,Target,Code,Params,,,,,,,,,,,,Danger Flag,Is Restricted,Description,Note\n";
        else if (l.str("kind") == "note") o << "* Cmd_A,Cmd_A,OBC,0x1,0,,,,\n";
        else if (l.str("kind") == "blank") o << ",,,,,,,,,,,\n";
        else {
          char id[32]; snprintf(id, 32, l.flag("hex") ? "0x%04X" : "%d", l.num("id"));
          o << "," << l.str("name") << ",OBC," << id << "," << l.at("a").a.size();
          for (auto& a : l.at("a").a) o << "," << a.s << ",text";
          for (size_t i = l.at("a").a.size(); i < 6; i++) o << ",,";
          o << ",,,note\n";
        }
      }
      o.close();
      delete db; db = new setting_file_reader::C2aCommandDatabase(f); r["ok"] = true;
    } else if (op == "ask") {
      auto c = db->GetCommandInformation(e.str("name"));
      r["name"] = c.GetCommandName(); r["id"] = (long)c.GetCommandId();
      Js a = Js::arr();
      for (size_t i = 0; i < c.GetNumberOfArgument(); i++) for (int k = 0; k < 12; k++) if (type(kNames[k]) == c.GetArgumentType(i)) a.push(kNames[k]);
      using T = setting_file_reader::C2aArgumentType;
      if (c.GetArgumentType(c.GetNumberOfArgument()) != T::kError) a.push("?");
      r["a"] = a;
    }
    return r;
  });
}
