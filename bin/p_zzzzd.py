# The GNSS receiver (C60)
def _rx_vec(rng, lo, hi):
    while True:
        p = [rng.choice([0, rng.randint(-hi, hi), rng.randint(-hi, hi), rng.randint(-hi, hi)]) for _ in range(3)]
        if lo * lo <= sum(x * x for x in p) <= hi * hi: return p
def _rx_gen(R, tier, rng):
    hs = []
    def q():
        while True:
            x = [rng.randint(-5, 5) for _ in range(4)]
            if any(x): return x
    for _ in range(250 if tier == "quick" else 6000):
        h = [{"op": "reset", "sats": [_rx_vec(rng, 25000, 30000) for _ in range(rng.randint(1, 15))], "on": rng.random() < .93, "model": rng.choice(["CONE", "CONE", "CONE", "SIMPLE", "OTHER"]), "half": rng.choice([0, 30, 60, 75, 89, 91, 120, 150, 180, rng.randint(1, 179)]),
              "qc": rng.choice([[0, 0, 0, 1], q()]), "pos": rng.choice([[0, 0, 0], [rng.randint(-400, 400) for _ in range(3)]]), "pre": rng.choice([1, 1, 2, 3]), "s": rng.choice([1, 30, 60, 600, 3599]), "pp": rng.random() < .4}]
        p = _rx_vec(rng, 6900, 9000); a = q()
        for _ in range(rng.randint(1, 6)):
            if h[0]["pp"] and rng.random() < .25: h.append({"op": "pow", "on": rng.random() < .6})
            else:
                if rng.random() < .5: p = rng.choice([_rx_vec(rng, 7200, 9000), _rx_vec(rng, 7200, 9000), _rx_vec(rng, 9000, 20000)])
                if rng.random() < .5: a = q()
                h.append({"op": "at", "p": p, "v": [rng.randint(-8000, 8000) for _ in range(3)], "q": a})
        if h[0]["pp"]: h.append({"op": "pow", "on": True})
        for _ in range(h[0]["pre"]): h.append({"op": "at", "p": _rx_vec(rng, 7200, 9000), "v": [1, -2, 3], "q": a})
        hs.append(h)
    return hs
prop("C60", title="A GNSS receiver sees the satellites its antenna can see, and no others",
  statement="With a cone-shaped antenna, a receiver sees exactly the satellites within the cone about the antenna's axis that the Earth does not hide, and reports each with its number, distance and direction in the antenna's frame. With four or more it reports the true position and velocity, otherwise the last ones; its clock goes on in both cases. Without satellites to compute, the antenna is the simple one that only needs to face away from the Earth.",
  over=["inputs", "histories"], qtext="all constellations, positions, attitudes and antennas, and all sequences of motion and power",
  why=TESTS + "No test runs a receiver: hidden satellites and frames of the antenna matter only in some geometries.",
  files=["src/components/real/aocs/gnss_receiver.cpp", "src/environment/global/gnss_satellites.hpp"],
  mech=[("cone", "GnssReceiver::CheckAntennaCone"), ("list", "GnssReceiver::SetGnssInfo"), ("fix", "GnssReceiver::MainRoutine"), ("settings", "ReadGnssReceiverIni")],
  observe=["visibility, list of satellites, measured position, velocity, latitude, longitude, altitude and time after every step"],
  note="Directions to 1.2e-3, distances to 7 km, altitudes above 500 km, where a satellite in the same half of the sky is never hidden. Satellites stand still.",
  parts=[dict(module="Receiver", driver="receiver", groups=[mc(({"Deep": 2}, {"Deep": 3}), tag="small", limit=(2500, 25000)), gen("random", _rx_gen)])])
