# Algebra (C41)
def _al_gen(R, tier, rng):
    import itertools, math
    qs = [x for x in itertools.product(range(-4, 5), repeat=4) if any(x) and math.isqrt(sum(y * y for y in x)) ** 2 == sum(y * y for y in x)]
    vs = lambda: _dir(rng)
    sm = lambda: [rng.choice([0, 0, 1, 1, -1]) * y for y in _dir(rng)]
    hs = []
    det = lambda a: a[0][0] if len(a) == 1 else sum((-1) ** j * a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]]) for j in range(len(a)))
    def other():
        o = rng.choice(["euler", "rot", "axis2", "turn", "turn", "vec", "pair", "mat", "inv", "inv", "wrap"])
        if o == "euler": return {"op": o, "a": [rng.randint(-179, 180) * 1000, rng.randint(-90, 90) * 1000, rng.randint(-179, 180) * 1000], "v": [rng.randint(-4, 4) for _ in range(3)]}
        if o == "rot": return {"op": o, "a": rng.randint(-360, 360) * 1000, "v": [rng.randint(-4, 4) for _ in range(3)]}
        if o == "axis2": return {"op": o, "u": vs(), "a": rng.randint(-180, 180) * 1000, "v": [rng.randint(-4, 4) for _ in range(3)]}
        if o == "turn": a = vs(); return {"op": o, "a": a, "b": rng.choice([vs(), a, [-x for x in a], [2 * x for x in a], [-3 * x for x in a]])}
        if o == "vec": return {"op": o, "v": rng.choice([vs(), vs(), [0, 0, 0], [0, 0, rng.choice([-2, 5])]])}
        if o == "pair": a = vs(); return {"op": o, "a": a, "b": rng.choice([vs(), vs(), a, [-x for x in a]]), "n": rng.randint(1, 9)}
        n = rng.randint(2, 4); m = lambda k: [[rng.choice([0, rng.randint(-k, k)]) for _ in range(n)] for _ in range(n)]
        if o == "mat": return {"op": o, "a": m(99), "b": m(99), "v": [rng.randint(-99, 99) for _ in range(n)]}
        if o == "inv":
            mat = m(9)
            while 0 < abs(det(mat)) and max(abs(det([r[:j] + r[j + 1:] for k, r in enumerate(mat) if k != i])) for i in range(n) for j in range(n)) > 20 * abs(det(mat)): mat = m(9)
            return {"op": o, "a": mat, "v": [rng.randint(-2, 2) for _ in range(n)]}
        return {"op": o, "a": rng.choice([rng.randint(-4000000, 4000000), 360000 * rng.randint(-9, 9), 360000 * rng.randint(-9, 9) + rng.choice([-1, 1])])}
    for _ in range(250 if tier == "quick" else 6000):
        h = [{"op": "reset"}]; n = 1
        for _ in range(rng.randint(5, 12)):
            o = rng.choice(["set", "mul", "mul", "conj", "conv", "conv", "other", "other", "axis"])
            if o == "other": h.append(other()); continue
            if o in ("set", "mul"):
                p = rng.choice(qs); m = math.isqrt(sum(y * y for y in p))
                if o == "set": n = m
                elif n * m <= 130: n *= m
                else: continue
                h.append({"op": o, "q": list(p)})
            elif o == "axis":
                v = vs(); n = math.isqrt(sum(y * y for y in v)); h.append({"op": o, "v": v, "a": rng.choice([-180, 0, 180, 360])})
            elif o == "conv": h.append({"op": o, "v": [rng.randint(-9, 9) for _ in range(3)]})
            else: h.append({"op": o})
        h.append({"op": "conj"}); hs.append(h)
    return hs
prop("C41", title="Vectors, matrices and rotations obey the laws of algebra",
  statement="Sums, products, norms, angles, transposes, inverses and solutions of linear systems are the ones algebra defines. A quaternion, its matrix and its Euler angles stand for the same rotation in every attitude, also where formulas are singular (half turns, pitch of ninety degrees, opposite directions); rotations compose by multiplication, are undone by the conjugate and keep lengths, and the rotation between two directions is the shortest that takes the first to the second.",
  over=["inputs", "histories"], qtext="all chains of rotations, vectors, directions and matrices",
  why=TESTS + "Tests check single examples; every frame conversion of the simulator rests on these for all attitudes, including the singular ones.",
  files=["src/math_physics/math/quaternion.cpp", "src/math_physics/math/vector.cpp", "src/math_physics/math/s2e_math.cpp", "src/math_physics/math/matrix_vector_template_functions.hpp", "src/math_physics/math/matrix_template_functions.hpp", "src/math_physics/math/vector_template_functions.hpp"],
  mech=[("rotations", "Quaternion"), ("vectors", "Vector"), ("matrices and linear systems", "Matrix, CalcInverseMatrix, SolveLinearSystemWithLu"), ("angles", "WrapTo2Pi, CalcAngleTwoVectors_rad")],
  observe=["components of the results"],
  note="Integers up to 99, matrices up to 4 by 4, quaternions with integer norm, results to 1e-3 or 1e-4. A matrix without inverse may be refused or not.",
  parts=[dict(module="Algebra", driver="algebra", groups=[mc(({"Deep": 3}, {"Deep": 4}), tag="laws", limit=(3000, 30000)), gen("random", _al_gen)])])
