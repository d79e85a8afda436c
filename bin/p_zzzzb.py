# The orientation of the Earth (C58)
def _ea_gen(R, tier, rng):
    hs = []
    for _ in range(500 if tier == "quick" else 12000):
        h = [{"op": "reset", "m": rng.choice(["FULL", "FULL", "FULL", "SIMPLE", "IDLE", "other"])}]
        for _ in range(rng.randint(2, 8)):
            d = rng.choice([rng.randint(-18000, 18000), rng.randint(5000, 12000), rng.randint(7000, 9500)])
            h.append({"op": "go", "d": d, "m": rng.randint(0, 1439)})
        hs.append(h)
    return hs
prop("C58", title="The Earth is turned as its rotation model says for the time",
  statement="With the simple model the Earth-fixed frame is the inertial one turned about the pole by the mean sidereal angle of the time; the full model adds the precession of the equinoxes and the nutation of the pole with all its terms, and turns by the apparent sidereal angle. The orientation depends on the time of the last update only, is always a rotation, and without a model it stays the inertial frame.",
  over=["inputs", "histories"], qtext="all times from 1950 to 2049 and orders of times, and all models",
  why=TESTS + "No test computes the orientation; each term of the nutation shows at particular times only.",
  files=["src/environment/global/earth_rotation.cpp"],
  mech=[("rotation", "EarthRotation::Update, AxialRotation"), ("precession and nutation", "EarthRotation::Precession, Nutation")],
  observe=["matrix from the inertial to the Earth-fixed frame, also relative to that of the simple model"],
  note="Precession and nutation to about 1.2e-7 rad (2e-6 fifty years from 2000), the sidereal angle to 6e-5; polar motion is not modelled in the code.",
  parts=[dict(module="Earth", driver="earth", groups=[mc(({"Deep": 2}, {"Deep": 3}), tag="times", limit=(2500, 30000)), gen("random", _ea_gen)])])
