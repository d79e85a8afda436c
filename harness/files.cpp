// Driver for spec/Files.tla: IniAccess, CSV readers, CsvScenarioInterface, Logger, column titles.
#include "hx.hpp"
#include <dirent.h>
#include <components/real/power/csv_scenario_interface.hpp>
#include <logger/log_utility.hpp>
#include <logger/logger.hpp>
#include <setting_file_reader/initialize_file_access.hpp>
using hx::Js;
using namespace s2e;
using setting_file_reader::IniAccess;
static std::string dir;
static int seq = 0, logn = 0;
struct Mock : logger::ILoggable {
  int id, n = 0; int* cnt; Mock(int i, int* c) : id(i), cnt(c) { is_log_enabled_ = true; }
  std::string GetLogHeader() const override { std::string s; for (int k = 1; k <= id; k++) s += std::to_string(10 * id + k) + ","; return s; }
  std::string GetLogValue() const override { std::string s; for (int k = 1; k <= id; k++) s += logger::WriteScalar(1000 * id + 100 * k + *cnt); return s; }
};
static int cnt = 0;
static Mock* mk[4];
static logger::Logger* lg; static std::string ldir;
static std::string inif;
static std::string dec(int v) { char b[40]; snprintf(b, 40, v % 1000 ? "%.3f" : "%.1f", v / 1000.0); return b; }
static std::string real_dir() { return CORE_DIR_FROM_EXE; }
// the settings use a variable for a directory; the specification knows it as /d/CORE and friends
static std::string back(std::string s) {
  struct { std::string to, from; } m[] = {{"/d/EXT", EXT_LIB_DIR_FROM_EXE}, {"/d/SET", SETTINGS_DIR_FROM_EXE}, {"/d/CORE", CORE_DIR_FROM_EXE}};
  for (auto& x : m) if (s.compare(0, x.from.size(), x.from) == 0) return x.to + s.substr(x.from.size());
  return s;
}
static std::string fore(const std::string& s) {
  struct { std::string to, from; } m[] = {{"EXT_LIB_DIR_FROM_EXE", "/d/EXT"}, {"SETTINGS_DIR_FROM_EXE", "/d/SET"}, {"CORE_DIR_FROM_EXE", "/d/CORE"}};
  for (auto& x : m) if (s.compare(0, x.from.size(), x.from) == 0) return x.to + s.substr(x.from.size());
  return s;
}
static std::vector<std::string> ls(const std::string& d) {
  std::vector<std::string> v; DIR* p = opendir(d.c_str()); if (!p) return v;
  while (dirent* x = readdir(p)) if (x->d_name[0] != '.') v.push_back(x->d_name);
  closedir(p); return v;
}
static Js nums(const std::vector<double>& v) { Js a = Js::arr(); for (double x : v) a.push(hx::rnd(x, 1000)); return a; }
int main(int argc, char** argv) {
  dir = std::string(getenv("VT_DIR")) + "/";
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    Js r = Js::obj(); r["ok"] = true;
    if (op == "reset") { delete lg; lg = nullptr; }
    else if (op == "ini") {
      inif = dir + "f" + std::to_string(seq++ % 50) + ".ini";
      std::ofstream o(inif);
      std::map<std::string, std::vector<std::string>> sec; std::vector<std::string> order;
      int st = 0;
      for (auto& x : e.at("ents").a) {
        std::string k = x.str("k"), i = "(" + std::to_string(x.num("i")) + ")";
        int f = x.num("f"); if (f == 1) k += i; if (f == 2) k += "_" + i; if (f == 3) k += "7" + i;
        const std::string& t = x.str("t");
        std::string v = t == "int" ? std::to_string(x.num("v")) : t == "dec" ? dec(x.num("v")) : fore(x.str("v"));
        std::string line = (st % 3 == 0 ? k + " = " + v : k + "=" + v) + (t != "path" && st % 4 == 1 ? " // note" : "");
        st++;
        if (!sec.count(x.str("s"))) order.push_back(x.str("s"));
        sec[x.str("s")].push_back(line);
      }
      for (auto& s : order) { o << "[" << s << "]\n// a comment\n"; for (auto& l : sec[s]) o << l << "\n"; o << "\n"; }
    } else if (op == "get") {
      IniAccess a(inif); r = Js::obj();
      const char *s = e.str("s").c_str(), *k = e.str("k").c_str(); const std::string& h = e.str("how"); size_t n = e.num("n");
      if (h == "int") r["v"] = a.ReadInt(s, k);
      else if (h == "dec") r["v"] = hx::rnd(a.ReadDouble(s, k), 1000);
      else if (h == "bool") r["v"] = a.ReadBoolean(s, k);
      else if (h == "enable") r["v"] = a.ReadEnable(s, k);
      else if (h == "str") r["v"] = back(a.ReadString(s, k));
      else if (h == "char") { char b[400]; memset(b, 1, 400); a.ReadChar(s, k, 400, b); r["v"] = back(b); }
      else if (h == "ivec") r["v"] = Js(a.ReadVectorInt(s, k, n));
      else if (h == "dvec") r["v"] = nums(a.ReadVectorDouble(s, k, n));
      else if (h == "vec3") { math::Vector<3> v(7.0); a.ReadVector(s, k, v); r["v"] = nums({v[0], v[1], v[2]}); }
      else if (h == "cvec") { Js q = Js::arr(); for (auto c : a.ReadVectorUnsignedChar(s, k, n)) q.push((int)c); r["v"] = q; }
      else if (h == "arr") { std::vector<double> d(n, 7); a.ReadDoubleArray(s, k, 7, (int)n, d.data()); r["v"] = nums(d); }
      else if (h == "svec") { Js q = Js::arr(); for (auto& x : a.ReadVectorString(s, k, n)) q.push(back(x)); r["v"] = q; }
      else if (h == "slist") { Js q = Js::arr(); for (auto& x : a.ReadStrVector(s, k)) q.push(back(x)); r["v"] = q; }
      else { math::Quaternion q(9, 9, 9, 9); a.ReadQuaternion(s, k, q); r["v"] = nums({q[0], q[1], q[2], q[3]}); }
    } else if (op == "csv") {
      std::string f = dir + "t.csv"; std::ofstream o(f);
      const std::string& k = e.str("kind");
      int rh = e.num("rh"), ch = e.num("ch"), n = 0;
      for (auto& row : e.at("rows").a) {
        int c = 0;
        for (auto& x : row.a) { if (c) o << ","; if (k == "hdr" && (n < rh || c < ch)) o << "text"; else o << dec((int)x.i); c++; }
        o << "\n"; n++;
      }
      o.close();
      IniAccess a(f); std::vector<std::vector<double>> d; r = Js::obj(); Js v = Js::arr();
      if (k == "dbl") a.ReadCsvDouble(d, 10);
      else if (k == "hdr") a.ReadCsvDoubleWithHeader(d, 10, rh, ch);
      else { std::vector<std::vector<std::string>> s; a.ReadCsvString(s, 10); for (auto& x : s) { d.push_back({}); for (auto& y : x) d.back().push_back(atof(y.c_str())); } }
      for (auto& x : d) v.push(nums(x));
      r["v"] = v;
    } else if (op == "scen") {
      std::ofstream c(dir + "s.csv"); c << "time,x,y,z,flag,power\n";
      for (auto& x : e.at("rows").a) { auto d = x.ints("d"); c << x.num("t") << "," << d[0] << "," << d[1] << "," << d[2] << "," << x.num("flag") << "," << x.num("p") << "\n"; }
      c.close();
      std::ofstream i(dir + "s.ini"); i << "[SCENARIO]\nis_csv_scenario_enabled=" << (e.flag("en") ? "true" : "false") << "\ncsv_path=" << dir << "s.csv\n"; i.close();
      components::CsvScenarioInterface::Initialize(dir + "s.ini");
    } else if (op == "ask") {
      using C = components::CsvScenarioInterface; r = Js::obj();
      auto d = C::GetSunDirectionBody(e.num("t")); Js v = Js::arr(); for (int i = 0; i < 3; i++) v.push(hx::exact(d[i]));
      r["d"] = v; r["flag"] = C::GetSunFlag(e.num("t")); r["p"] = hx::exact(C::GetPowerConsumption(e.num("t"))); r["en"] = C::IsCsvScenarioEnabled();
    } else if (op == "title") {
      r = Js::obj(); const std::string &k = e.str("kind"), &nm = e.str("name"), &f = e.str("frame"), &u = e.str("unit");
      std::string v; int n = e.num("n"), m = e.num("m");
      if (k == "scalar") { r["t"] = logger::WriteScalar(nm, u); v = logger::WriteScalar(1.5); }
      else if (k == "vector") {
        r["t"] = logger::WriteVector(nm, f, u, n);
        v = n == 1 ? logger::WriteVector(math::Vector<1>(1.0)) : n == 2 ? logger::WriteVector(math::Vector<2>(1.0)) : n == 3 ? logger::WriteVector(math::Vector<3>(1.0)) : logger::WriteVector(math::Vector<4>(1.0));
      } else if (k == "quaternion") { r["t"] = logger::WriteQuaternion(nm, f); v = logger::WriteQuaternion(math::Quaternion(0, 0, 0, 1)); }
      else {
        r["t"] = logger::WriteMatrix(nm, f, u, n, m);
        v = n == 1 ? logger::WriteMatrix(math::Matrix<1, 2>(0.5)) : n == 2 ? logger::WriteMatrix(math::Matrix<2, 2>(0.5)) : n == 3 ? logger::WriteMatrix(math::Matrix<3, 2>(0.5)) : logger::WriteMatrix(math::Matrix<4, 2>(0.5));
      }
      int c = 0; for (char x : v) c += x == ','; r["n"] = !v.empty() && v.back() == ',' ? c : -1;
    } else if (op == "log") {
      ldir = dir + "log" + std::to_string(logn++);
      std::ofstream(dir + "f0.src").close();
      for (int v = 0; v < 3; v++) { std::string d = dir + "src" + std::to_string(v); (void)!system(("mkdir -p " + d).c_str()); for (int f = 0; f < 4; f++) std::ofstream(d + "/file" + std::to_string(f) + ".ini") << v << "\n"; }
      lg = new logger::Logger("t.csv", ldir, dir + "src0/file0.ini", e.flag("save"), e.flag("en"));
      cnt = 0; for (int i = 1; i < 4; i++) { delete mk[i]; mk[i] = new Mock(i, &cnt); }
    } else if (op == "add") lg->AddLogList(mk[e.num("c")]);
    else if (op == "clear") lg->ClearLogList();
    else if (op == "flag") mk[e.num("c")]->is_log_enabled_ = e.flag("b");
    else if (op == "enable") lg->Enable(e.flag("b"));
    else if (op == "copy") lg->CopyFileToLogDirectory(dir + "src" + std::to_string(e.num("ver")) + "/file" + std::to_string(e.num("f")) + ".ini");
    else if (op == "head") lg->WriteHeaders(e.flag("nl"));
    else if (op == "vals") { lg->WriteValues(e.flag("nl")); cnt++; }
    else if (op == "close") {
      delete lg; lg = nullptr; r = Js::obj();
      Js rows = Js::arr(), fs = Js::arr(); bool file = false; int ver[4] = {-1, -1, -1, -1}, stray = 0;
      std::vector<std::string> ds = ls(ldir);
      std::vector<std::string> all;
      for (auto& x : ds) { if (x.find(".csv") != std::string::npos) all.push_back(ldir + "/" + x); for (auto& y : ls(ldir + "/" + x)) all.push_back(ldir + "/" + x + "/" + y); }
      for (auto& p : all) {
        std::ifstream in(p); std::string l;
        if (p.find("_t.csv") != std::string::npos) {
          file = true;
          while (std::getline(in, l)) { Js row = Js::arr(); std::stringstream ss(l); std::string c; while (std::getline(ss, c, ',')) row.push((long)atol(c.c_str())); rows.push(row); }
        } else { size_t q = p.find("/file"); if (q != std::string::npos && std::getline(in, l)) ver[p[q + 5] - '0'] = atoi(l.c_str()); else stray++; }
      }
      for (int f = 0; f < 4; f++) fs.push(ver[f]);
      for (auto& x : ls(dir)) if (x.find("file") == 0) { stray++; unlink((dir + x).c_str()); }
      r["rows"] = rows; r["file"] = file; r["files"] = fs; r["stray"] = stray;
    }
    return r;
  });
}
