// Driver for spec/Link.tla: ground station visibility and the link budget, with real spacecraft objects placed around the station.
#include "world.hpp"
#include <components/real/communication/antenna.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/spacecraft/installed_components.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
using hx::Js;
using namespace s2e;
using namespace s2e::components;
using namespace vw;
struct Comps : spacecraft::InstalledComponents {
  math::Vector<3> GenerateForce_b_N() { return math::Vector<3>(0.0); }
  math::Vector<3> GenerateTorque_b_Nm() { return math::Vector<3>(0.0); }
  void LogSetup(logger::Logger&) {}
};
struct Sc : spacecraft::Spacecraft {
  Sc(const simulation::SimulationConfiguration* c, const environment::GlobalEnvironment* g, int id) : Spacecraft(c, g, id, nullptr) { components_ = new Comps(); }
};
struct Place { std::vector<int> d{0, 0, 1}, q{0, 0, 0, 1}; int kk = 0; };
static World* w; static std::vector<Sc*> sc; static std::vector<Place> pl; static ground_station::GroundStation* gs; static Antenna* ant[2]; static GroundStationCalculator* cal;
static double lat, lon, hgt; static int gid;
static const double kDt = 997; static std::vector<double> clk;
static math::Matrix<3, 3> dcm() { return w->glo->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef(); }
static V mul(const math::Matrix<3, 3>& m, const V& v, bool t = false) { V r; for (int i = 0; i < 3; i++) { r[i] = 0; for (int j = 0; j < 3; j++) r[i] += (t ? m[j][i] : m[i][j]) * v[j]; } return r; }
typedef std::vector<double> Q;
static Q qm(const Q& l, const Q& r) {
  return {l[3] * r[0] - l[2] * r[1] + l[1] * r[2] + l[0] * r[3], l[2] * r[0] + l[3] * r[1] - l[0] * r[2] + l[1] * r[3], -l[1] * r[0] + l[0] * r[1] + l[3] * r[2] + l[2] * r[3], -l[0] * r[0] - l[1] * r[1] - l[2] * r[2] + l[3] * r[3]};
}
// the station (WGS84) and its axes, by our own formulas
static V station() { double f = environment::earth_flattening, e2 = f * (2 - f), n = environment::earth_equatorial_radius_m / sqrt(1 - e2 * sin(lat) * sin(lat)); return vec((n + hgt) * cos(lat) * cos(lon), (n + hgt) * cos(lat) * sin(lon), (n * (1 - e2) + hgt) * sin(lat)); }
static void build(size_t i) {
  math::Matrix<3, 3> m = dcm();
  V d = vec(pl[i].d).CalcNormalizedVector();
  V E = vec(-sin(lon), cos(lon), 0), N = vec(-sin(lat) * cos(lon), -sin(lat) * sin(lon), cos(lat)), U = vec(cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat));
  V p = station() + 1e6 * pow(2, pl[i].kk) * (d[0] * E + d[1] * N + d[2] * U);
  // no gravity here: an acceleration over one integration step takes the spacecraft exactly there
  auto& D = const_cast<dynamics::Dynamics&>(sc[i]->GetDynamics()); auto& O = const_cast<dynamics::orbit::Orbit&>(D.GetOrbit());
  D.ClearForceTorque();
  D.AddAcceleration_i_m_s2((2.0 / kDt / kDt) * (mul(m, p, true) - O.GetPosition_i_m() - kDt * O.GetVelocity_i_m_s()));
  O.Propagate(clk[i] += kDt, w->time().GetCurrentTime_jd());
  // attitude: inertial -> earth fixed -> local (turn by lon + 90 deg about z, then by 90 deg - lat about x) -> body
  double g = atan2(m[0][1], m[0][0]), a = lon + M_PI / 2, b = M_PI / 2 - lat;
  math::Quaternion ql = quat(pl[i].q);
  Q q = qm(qm(qm({0, 0, sin(g / 2), cos(g / 2)}, {0, 0, sin(a / 2), cos(a / 2)}), {sin(b / 2), 0, 0, cos(b / 2)}), {ql[0], ql[1], ql[2], ql[3]});
  D.SetAttitude().SetQuaternion_i2b(math::Quaternion(q[0], q[1], q[2], q[3]));
}
static void upd(size_t i) { gs->Update(w->glo->GetCelestialInformation().GetEarthRotation(), *sc[i]); }
static Js state() {
  Js r = Js::obj(); r["vis"] = Js::arr();
  for (size_t i = 0; i < sc.size(); i++) r["vis"].push(gs->IsVisible((unsigned)i));
  r["pos"] = js(mul(dcm(), gs->GetPosition_i_m()), 0.1);
  Js l = Js::obj();
  if (cal) { double b = cal->GetMaxBitrate_Mbps(); l["has"] = b > 0; l["b"] = b > 0 ? hx::rnd(10 * log10(b * 1e6), 1000) : Js(0); l["m"] = hx::rnd(cal->GetReceiveMargin_dB(), 1000); if (std::isnan(b)) { l["has"] = true; l["b"] = hx::rnd(b); } }
  r["link"] = l;
  return r;
}
static double db(const Js& e, const char* k) { return e.num(k) / 1000.0; }
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op");
    std::string dir = std::string(getenv("VT_DIR")) + "/", f = dir + "dev.ini";
    if (op == "reset") {
      delete gs; gs = nullptr; for (auto& a : ant) { delete a; a = nullptr; } delete cal; cal = nullptr;
      // building spacecraft is slow: the same three serve again as long as the Earth rotates the same way
      static std::vector<Sc*> all; static int rot = -1;
      size_t n = e.num("n");
      if (rot != (int)e.flag("rot")) {
        for (auto& s : all) delete s; all.clear(); delete w; stub_reset(); rot = e.flag("rot");
        Opt o; o.mag = false; o.earth_rotation = rot ? "SIMPLE" : "IDLE"; o.step = kDt; o.end = 1e9;
        o.pos.assign(3, vec(1e7, 0, 0)); o.vel.assign(3, vec(0, 0, 0));
        w = new World(o, false); stub_set_gm("EARTH", 0.0); w->glo->Update();
        for (size_t i = 0; i < 3; i++) all.push_back(new Sc(&w->conf, w->glo, (int)i));
        clk.assign(3, 0);
      }
      sc = all; sc.resize(n);
      w->conf.number_of_simulated_spacecraft_ = (unsigned)n;
      lat = e.num("lat") * M_PI / 180; lon = e.num("lon") * M_PI / 180; hgt = e.num("h") * 1000.0; gid = e.num("id");
      std::ostringstream b;
      for (int i = 0; i < 3; i++) b << "[GROUND_STATION_" << i << "]\nlatitude_deg = " << (i == gid ? e.num("lat") : 33) << "\nlongitude_deg = " << (i == gid ? e.num("lon") : 44) << "\nheight_m = " << (i == gid ? e.num("h") * 1000 : 7) << "\nelevation_limit_angle_deg = " << (i == gid ? e.num("lim") : 5) << "\n";
      put(dir + "gs.ini", b.str());
      w->conf.ground_station_file_list_.assign(1, dir + "gs.ini"); w->conf.number_of_simulated_ground_station_ = 3;
      gs = new ground_station::GroundStation(&w->conf, gid);
      pl.assign(n, Place());
      for (size_t i = 0; i < n; i++) build(i);
    } else if (op == "place") {
      size_t i = e.num("i") - 1; pl[i].d = e.ints("d"); pl[i].kk = e.num("kk"); pl[i].q = e.ints("q"); build(i);
    } else if (op == "upd") upd(e.num("i") - 1);
    else if (op == "turn") {
      w->glo->Update();
      for (size_t i = 0; i < sc.size(); i++) { build(i); upd(i); }
    } else if (op == "ant") {
      int a = e.str("a") == "g"; delete ant[a]; ant[a] = nullptr;
      auto q = quat(e.ints("q")); bool tx = e.flag("tx"), rx = e.flag("rx"), pat = e.flag("pat");
      double fr = 300 * pow(2, e.num("m")), P = pow(2, e.num("p")), nt = 100 * pow(2, e.num("nb")), br = pow(10, e.num("bc")) * pow(2, e.num("bd"));
      int NT = e.num("nt"), NP = e.num("np"); double tm = NT * e.num("st") * M_PI / 180, pm = NP * e.num("sp") * M_PI / 180;
      std::string files[2];
      for (int k = 0; k < 2; k++) {
        std::ostringstream c; files[k] = dir + (k ? "rx.csv" : "tx.csv");
        for (int i = 0; i < NT; i++) { for (int j = 0; j < NP; j++) c << (j ? "," : "") << World::num((e.num(k ? "rg0" : "g0") + 400 * i + 70 * j) / 1000.0); c << "\n"; }
        put(files[k], c.str());
      }
      if (e.flag("ini")) {
        std::ostringstream o; o << "[ANTENNA_7]\nis_transmitter=" << !tx << "\n[ANTENNA_2]\n";
        for (int i = 0; i < 4; i++) o << "quaternion_b2c(" << i << ")=" << World::num(q[i]) << "\n";
        o << "is_transmitter=" << (tx ? "true" : "false") << "\nis_receiver=" << (rx ? "true" : "false") << "\nfrequency_MHz=" << World::num(fr) << "\ntx_bitrate_bps=" << World::num(br) << "\ntx_output_W=" << World::num(P) << "\nrx_system_noise_temperature_K=" << World::num(nt) << "\n";
        for (int k = 0; k < 2; k++) {
          std::string x = k ? "rx_" : "tx_";
          o << x << "gain_dBi=" << World::num(db(e, k ? "rg0" : "g0")) << "\n" << x << "loss_feeder_dB=" << World::num(db(e, k ? "rlf" : "lf")) << "\n" << x << "loss_pointing_dB=" << World::num(db(e, k ? "rlp" : "lp")) << "\n"
            << x << "antenna_gain_model=" << (pat ? "RADIATION_PATTERN_CSV" : "ISOTROPIC") << "\n" << x << "antenna_radiation_pattern_file=" << files[k] << "\n" << x << "length_theta=" << NT << "\n" << x << "length_phi=" << NP << "\n" << x << "theta_max_rad=" << World::num(tm) << "\n" << x << "phi_max_rad=" << World::num(pm) << "\n";
        }
        put(f, o.str()); ant[a] = new Antenna(InitAntenna(2, f));
      } else if (!pat) {
        math::Vector<5> t; t[0] = P; t[1] = db(e, "g0"); t[2] = db(e, "lf"); t[3] = db(e, "lp"); t[4] = br;
        math::Vector<4> r; r[0] = db(e, "rg0"); r[1] = db(e, "rlf"); r[2] = db(e, "rlp"); r[3] = nt;
        ant[a] = new Antenna(2, q, tx, rx, fr, t, r);
      } else {
        AntennaParameters p[2];
        for (int k = 0; k < 2; k++) { p[k].gain_dBi_ = 77; p[k].loss_feeder_dB_ = db(e, k ? "rlf" : "lf"); p[k].loss_pointing_dB_ = db(e, k ? "rlp" : "lp"); p[k].antenna_gain_model = AntennaGainModel::kRadiationPatternCsv; p[k].radiation_pattern = AntennaRadiationPattern(files[k], NT, NP, tm, pm); }
        ant[a] = new Antenna(2, q, tx, rx, fr, br, P, p[0], nt, p[1]);
      }
    } else if (op == "cal") {
      delete cal; cal = nullptr;
      // the bit rate set here is the same as the antenna's would be: which of the two counts is not judged
      if (e.flag("ini")) {
        std::ostringstream o; o << "[GROUND_STATION_CALCULATOR]\nloss_polarization_dB=" << World::num(db(e, "a")) << "\nloss_atmosphere_dB=" << World::num(db(e, "b")) << "\nloss_rainfall_dB=" << World::num(db(e, "c")) << "\nloss_others_dB=" << World::num(db(e, "d"))
          << "\nebn0_dB=" << World::num(db(e, "eb")) << "\nhardware_deterioration_dB=" << World::num(db(e, "hw")) << "\ncoding_gain_dB=" << World::num(db(e, "cg")) << "\nmargin_requirement_dB=" << World::num(db(e, "mr")) << "\ndownlink_bitrate_bps=1000\n";
        put(f, o.str()); cal = new GroundStationCalculator(InitGsCalculator(f));
      } else cal = new GroundStationCalculator(db(e, "a"), db(e, "b"), db(e, "c"), db(e, "d"), db(e, "eb"), db(e, "hw"), db(e, "cg"), db(e, "mr"));
    } else if (op == "link") {
      cal->SetDownlinkBitrate_bps(ant[0]->GetBitrate_bps());
      cal->Update(*sc[e.num("i") - 1], *ant[0], *gs, *ant[1]);
    }
    return state();
  });
}
