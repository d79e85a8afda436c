def _eclipse_random(R, tier, rng):
    hs = []
    for i in range({"quick": 300, "thorough": 4000}[tier]):
        third = rng.choice([[], [], ["MOON"], ["MOON", "MARS"], ["VENUS", "MARS", "MOON"]])
        h = [{"op": "reset", "third": third, "calc": rng.random() < .95, "ini": rng.random() < .5, "dir": rng.randint(0, 5)}]
        for _ in range(rng.randint(3, 10)):
            if rng.random() < .2: h.append({"op": "sun", "d": rng.choice([1, 2, 3, 4])})
            for b in ["EARTH", "MOON", "MARS", "VENUS"]:
                if rng.random() < .6:
                    r = rng.choice([4, 8, 12, 15, 16, 17, 24, 40, 300, 1500]) if b != "MOON" else rng.choice([4, 12, 15, 16, 17, 30])
                    s = rng.choice([0, 0, 1, abs(r - 16), max(0, abs(r - 16) - 2), r, r + 8, r + 14, r + 18, r + 40, rng.randint(0, r + 40)])
                    h.append({"op": "place", "b": b, "q": r, "s": s, "az": rng.randint(0, 5)})
            h.append({"op": "upd"})
        hs.append(h)
    return hs
prop("C40", title="Eclipses dim the sunlight by exactly the covered part of the Sun",
  statement="The sunlight at a spacecraft is undimmed while no shadow body's disc touches the Sun's disc as seen from there, none while a body covers it, also in exact alignment, and otherwise the uncovered fraction of the disc, an annular eclipse included; several bodies multiply their effects, and every configured body counts. Pressure and power density follow the inverse square of the distance to the Sun times that fraction, and the eclipse flag is set exactly when something is missing.",
  over=["inputs", "histories"], qtext="all placements of the Sun and of any shadow bodies, and sequences of them",
  why=TESTS + "The dimming regimes meet in thin regions that a run seldom visits, and combined bodies hardly ever.",
  files=["src/environment/local/solar_radiation_pressure_environment.cpp"], mech=[("shadow coefficient", "SolarRadiationPressureEnvironment::CalcShadowCoefficient, UpdateAllStates")],
  observe=["shadow coefficient, eclipse flag, pressures and power density, log values"],
  note="The specification derives the uncovered fraction by integer summation over the disc; partial fractions are compared to 2.5 %, total and absent eclipses exactly. Sizes and separations on a grid, random placements of up to four bodies.",
  parts=[dict(module="Eclipse", driver="eclipse", ops=["reset", "place", "upd"], groups=[
    mc(({"Rs": "{12,16,300}", "Ss": "{0,2,20,300,330}", "Thirds": "{0,1}", "Ds": "{2,4}"}, {"Rs": "{8,12,16,300}", "Ss": "{0,2,8,20,300,330}", "Thirds": "{0,1}", "Ds": "{1,2}"}), limit=(1500, 12000)),
    gen("random", _eclipse_random)])])
def _celestial_random(R, tier, rng):
    hs = []; N = ["SUN", "EARTH", "MOON", "MARS", "VENUS"]
    v3 = lambda m: [rng.randint(-m, m) for _ in range(3)]
    for i in range({"quick": 150, "thorough": 3000}[tier]):
        sel = rng.sample(N, rng.randint(1, 5)); c = rng.choice(N[:3])
        h = [{"op": "reset", "sel": sel, "center": c}]
        for _ in range(rng.randint(4, 25)):
            k = rng.random()
            if k < .25: h.append({"op": "body", "b": rng.choice(N), "x": v3(30000), "v": v3(40)})
            elif k < .4: h.append({"op": "upd"})
            elif k < .5: h.append({"op": "rel", "a": rng.choice(sel), "b": rng.choice(sel)})
            elif k < .6: h.append({"op": "id", "i": rng.randint(0, len(sel) + 2)})
            else:
                q = [rng.randint(-3, 3) for _ in range(4)]
                if not any(q): q[3] = 1
                h.append({"op": "loc", "x": v3(9000), "v": v3(8), "q": q, "w": v3(20) if rng.random() < .5 else [0, 0, 0]})
        hs.append(h)
    return hs
prop("C42", title="Celestial bodies are seen where the ephemeris puts them, from any origin and frame",
  statement="After an update every selected body has the position and velocity the ephemeris gives relative to the centre body, whatever the order of the list, and relations between two bodies are the differences; an index outside the list gives zero. Seen from a spacecraft, a body is at that position less the spacecraft's own, in the inertial frame and, turned by the attitude, in the body frame, and its velocity in the body frame is the turned relative velocity less the rotation of the spacecraft.",
  over=["inputs", "histories"], qtext="all lists of bodies, ephemerides, spacecraft states and attitudes",
  why=TESTS + "A mixed-up frame or index agrees with the right one in most simple situations.",
  files=["src/environment/global/celestial_information.cpp", "src/environment/local/local_celestial_information.cpp"],
  mech=[("ephemeris lists", "CelestialInformation::UpdateAllObjectsInformation, CalcBodyIdFromName"), ("frames", "LocalCelestialInformation::UpdateAllObjectsInformation, CalcAllPosVel_b")],
  observe=["positions and velocities by name and by index; logged velocities"],
  note="The ephemeris library, absent here, is replaced by a stand-in with scripted integer positions. Rotations are integer quaternions, exact in the specification; body-frame positions are compared to 1 km in tens of thousands.",
  parts=[dict(module="Celestial", driver="celestial", ops=["body", "upd", "rel", "id", "loc"], groups=[
    mc(({"Sels": "{1,2,4}", "Cens": '{"EARTH","SUN"}', "Qs": "{0,1,5}", "Wide": 0}, {"Sels": "{1,2,3,4}", "Cens": '{"EARTH","SUN","MOON"}', "Qs": "{0,1,2,3,4,5,6}", "Wide": 0}), limit=(1500, 20000)),
    gen("random", _celestial_random)])])
