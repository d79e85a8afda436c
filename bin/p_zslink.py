def _lk_quat(rng):
    while True:
        q = _qt(rng)
        if sum(x * x for x in q) <= 25: return q
def _lk_place(rng, i):
    import math
    while True:
        d = _dir(rng); kk = rng.randint(0, 5)
        if rng.random() < .15: d = [0, 0, 1]
        n = math.isqrt(sum(x * x for x in d))
        if d[2] < 0 and rng.random() < .6: d[2] = -d[2]
        sn = d[2] * 1000 // n
        if 2 ** kk * 1000 + 1276 * sn // 100 > (0 if d[2] > 0 else 1600 // 2 ** kk): return {"op": "place", "i": i, "d": d, "kk": kk, "q": _lk_quat(rng)}
def _lk_reset(rng):
    return {"op": "reset", "lat": rng.choice([0, 90, -90, rng.randint(-89, 89)]), "lon": rng.choice([0, 90, 180, 270, rng.randint(-180, 360)]), "h": rng.choice([0, 0, 1, 5]), "lim": rng.choice([0, 5, 10, 30, 60, 89, -10]), "rot": rng.random() < .6, "n": rng.choice([1, 1, 2, 3]), "id": rng.randint(0, 2)}
def _lk_ant(rng, a):
    st = rng.choice([60, 90, 120])
    return {"op": "ant", "a": a, "ini": rng.random() < .5, "q": _lk_quat(rng), "tx": rng.random() < (.95 if a == "s" else .5), "rx": rng.random() < (.5 if a == "s" else .95), "pat": rng.random() < .5, "p": rng.randint(-2, 6), "m": rng.randint(0, 5), "nb": rng.randint(0, 3), "bc": rng.randint(3, 6), "bd": rng.randint(0, 3),
            "g0": rng.randint(-3000, 30000), "lf": -rng.randint(0, 3000), "lp": -rng.randint(0, 3000), "rg0": rng.randint(-3000, 30000), "rlf": -rng.randint(0, 3000), "rlp": -rng.randint(0, 3000),
            "nt": rng.choice([1, 2, 180 // st, 180 // st + 1]), "np": rng.choice([1, 2, 3, 4]), "st": st, "sp": rng.choice([60, 90, 120])}
def _lk_cal(rng): return {"op": "cal", "ini": rng.random() < .5, **{k: -rng.randint(0, 3000) for k in "abcd"}, "eb": rng.randint(0, 12000), "hw": rng.randint(0, 3000), "cg": rng.randint(-8000, 3000), "mr": rng.choice([0, rng.randint(0, 90000)])}
def _lk_vis(R, tier, rng):
    hs = []
    for _ in range(200 if tier == "quick" else 4000):
        r = _lk_reset(rng); h = [r]
        for _ in range(rng.randint(4, 14)):
            x = rng.random(); i = rng.randint(1, r["n"])
            h += [{"op": "turn"}] if x < .2 else [{"op": "upd", "i": i}] if x < .4 else [_lk_place(rng, i), {"op": "upd", "i": i}]
        hs.append(h)
    return sorted(hs, key=lambda h: h[0]["rot"])
def _lk_link(R, tier, rng):
    hs = []
    for _ in range(250 if tier == "quick" else 5000):
        r = _lk_reset(rng); r["lim"] = rng.choice([0, 5, 20]); h = [r, _lk_ant(rng, "s"), _lk_ant(rng, "g"), _lk_cal(rng)]; up = set()
        for _ in range(rng.randint(3, 12)):
            x = rng.random(); i = rng.randint(1, r["n"])
            if x < .1: h += [{"op": "turn"}]; up = set(range(1, r["n"] + 1))
            elif x < .2: h.append(rng.choice([lambda: _lk_ant(rng, "s"), lambda: _lk_ant(rng, "g"), lambda: _lk_cal(rng)])())
            else:
                h.append(_lk_place(rng, i))
                if x < .9: h.append({"op": "upd", "i": i}); up.add(i)
                if i in up: h.append({"op": "link", "i": i})
        hs.append(h)
    return sorted(hs, key=lambda h: h[0]["rot"])
_LK = dict(module="Link", driver="link")
prop("C44", title="A ground station sees a spacecraft exactly above its elevation limit",
  statement="After each of its updates a ground station sees a spacecraft exactly when its elevation above the local horizontal exceeds the station's limit, each spacecraft by itself, wherever the station stands and however the Earth has turned. A spacecraft it was not updated with keeps its last visibility (none at first). The station turns with the Earth.",
  over=["inputs", "histories"], qtext="all stations, limits, spacecraft directions and distances, and orders of updates",
  why=TESTS + "No test has a ground station; visibility is a matter of the local horizon at every latitude and longitude and of several spacecraft.",
  files=["src/simulation/ground_station/ground_station.cpp", "src/math_physics/geodesy/geodetic_position.cpp", "src/environment/global/earth_rotation.cpp"],
  mech=[("visibility", "GroundStation::CalcIsVisible"), ("update", "GroundStation::Update"), ("settings", "GroundStation::Initialize")],
  observe=["visibility per spacecraft, position of the station"],
  note="Every bounded sequence of placements and updates, and random ones at random stations; elevations within 0.003 deg or so of the limit are not judged. The position is judged at the poles and the quarters of the equator here (elsewhere in C46).",
  parts=[dict(_LK, ops=["place", "upd", "turn"], groups=[mc(({"Fam": 1, "Deep": 3}, {"Fam": 1, "Deep": 4}), limit=(1500, 12000)), gen("random", _lk_vis)])])
prop("C45", title="The link budget adds up, with the gains of the antennas' own directions",
  statement="For a visible spacecraft the receive margin and the maximum bit rate follow from transmit power, losses, free space loss over the distance, the gains of both antennas in the direction of the other end, noise temperature and required levels. The gain is constant for an isotropic antenna and that of the nearest grid point of its pattern otherwise, the direction taken in the frame in which the antenna is mounted, straight ahead included. Without visibility, or without a transmitter and a receiver, there is no bit rate.",
  over=["inputs", "histories"], qtext="all antennas, mountings, attitudes, directions, distances and link parameters",
  why=TESTS + "No test has an antenna or a link; a wrong frame shows only with mountings and attitudes that do not commute, a wrong edge only straight ahead.",
  files=["src/components/real/communication/ground_station_calculator.cpp", "src/components/real/communication/antenna.cpp", "src/components/real/communication/antenna_radiation_pattern.cpp"],
  mech=[("budget", "GroundStationCalculator::CalcCn0OnGs, CalcMaxBitrate, CalcReceiveMarginOnGs"), ("antenna", "Antenna::CalcTxEirp_dBW, CalcRxGt_dB_K, InitAntenna"), ("pattern", "AntennaRadiationPattern::GetGain_dBi")],
  observe=["maximum bit rate, receive margin after each evaluation"],
  note="Every bounded sequence of placements, attitudes and evaluations; random antennas and mountings. Directions in the half of a pattern with negative azimuth fall into a column the code leaves open, and are judged by row only; the bit rate of the link is the antenna's.",
  parts=[dict(_LK, ops=["place", "upd", "ant", "cal", "link"], groups=[mc(({"Fam": 2, "Deep": 6}, {"Fam": 2, "Deep": 8}), limit=(1500, 12000)), gen("random", _lk_link)])])
