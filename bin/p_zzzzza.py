# The orientation of the Moon (C57)
def _mo_gen(R, tier, rng):
    hs = []
    for _ in range(600 if tier == "quick" else 15000):
        sel = [{"b": "MOON", "m": rng.choice(["SIMPLE", "SIMPLE", "IAU_MOON", "IDLE", "FULL", "simple"])}, {"b": "EARTH", "m": rng.choice(["IDLE", "SIMPLE", "IAU_MOON"])}] + [{"b": b, "m": rng.choice(["IDLE", "SIMPLE", "IAU_MOON"])} for b in rng.sample(["SUN", "MARS"], rng.randint(0, 2))]
        rng.shuffle(sel); h = [{"op": "reset", "sel": sel, "spin": rng.choice([0, 1, 90, rng.randint(0, 359)]), "c": rng.choice(["EARTH", "MOON", "SUN"])}]
        for _ in range(rng.randint(2, 9)):
            if rng.random() < .5: h.append({"op": "step", "n": rng.choice([0, 1, 1, 2, 30, 200])})
            else:
                q = [rng.randint(-9, 9) for _ in range(4)]
                if not any(q): q[0] = 1
                n = sum(x * x for x in q)
                h.append({"op": "orbit", "o": {"q": q, "k": rng.randint(350000, 410000) // n, "a": rng.randint(-3, 3), "b": rng.choice([-3, -1, 1, 2, 5]), "f": rng.choice([[0, 0, 0], [rng.randint(-10 ** 8, 10 ** 8) for _ in range(3)]])}})
        h.append({"op": "step", "n": rng.randint(1, 3)}); hs.append(h)
    return hs
prop("C57", title="The Moon turns as its rotation mode says",
  statement="Kept, from its orbit, or from the ephemeris, as set for it in the list of bodies, whatever the order of the list and the centre: from its orbit, its first axis points to the Earth and its third along the momentum of its orbit, turned by the fixed small angles to the principal axes; from the ephemeris, it is the rotation of the present time. It follows every update of the environment, is always a right-handed frame, and goes with the Moon only, as the Earth's rotation with the Earth.",
  over=["inputs", "histories"], qtext="all orbits of the Moon and lists of bodies, and all sequences of motion and update",
  why=TESTS + "No test turns the Moon: signs of the axes and the small angles are not visible in a single case.",
  files=["src/environment/global/moon_rotation.cpp", "src/math_physics/planet_rotation/moon_rotation_utilities.cpp", "src/environment/global/celestial_information.cpp"],
  mech=[("modes", "MoonRotation::Update, ConvertMoonRotationMode"), ("axes", "CalcDcmEciToPrincipalAxis")],
  observe=["matrix from the inertial to the Moon-fixed frame after every step"],
  note="Matrices to 2e-6 from the orbit, 1.2e-5 from the ephemeris (a stand-in that turns about an inclined axis).",
  parts=[dict(module="Moon", driver="moon", groups=[mc(({"Deep": 3}, {"Deep": 4}), tag="moon", limit=(3000, 30000)), gen("random", _mo_gen)])])
