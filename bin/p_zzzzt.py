# Calendar (C35)
def _cal_gen(R, tier, rng):
    hs = []
    def date():
        y = rng.randint(1970, 2099); m = rng.randint(1, 12); last = 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else 29 if y % 4 == 0 else 28
        return [y, m, rng.choice([1, last, rng.randint(1, last)]), rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 63, 3839, rng.randint(0, 3839)])]
    for _ in range(300 if tier == "quick" else 6000):
        h = [{"op": "reset"}, {"op": "date", "x": date()}]
        for _ in range(rng.randint(4, 12)):
            o = rng.choice(["date", "parse", "gps", "plus", "minus", "cmp", "plus", "minus", "doy"])
            if o == "date": h.append({"op": o, "x": date()})
            elif o == "parse": x = date(); x[5] -= x[5] % 4 if x[5] >= 640 else 0; h.append({"op": o, "x": x, "form": rng.randint(0, 1)})
            elif o == "gps": h.append({"op": o, "w": rng.randint(0, 6200), "s": rng.randint(0, 604799), "u": rng.randint(0, 63)})
            elif o == "doy": h.append({"op": o, "y": rng.randint(1970, 2098), "n": rng.choice([365, rng.randint(1, 365)])})
            else:
                if o != "cmp": h.append({"op": "date", "x": date()}) if rng.random() < .5 or h[-1]["op"] in ("plus", "minus") else None
                if o == "plus" and h[-1].get("x", [2099])[0] > 2090 or o == "plus" and "x" not in h[-1]: h.append({"op": "date", "x": [2015] + date()[1:2] + [3, 4, 5, 6]})
                if o == "minus" and h[-1].get("x", [1970])[0] < 1990 or o == "minus" and "x" not in h[-1]: h.append({"op": "date", "x": [2015] + date()[1:2] + [3, 4, 5, rng.randint(0, 3839)]})
                h.append({"op": o, "d": rng.choice([0, rng.randint(0, 3000)]), "s": rng.choice([0, rng.randint(0, 86399)]), "u": rng.choice([0, 63, rng.randint(0, 63)])})
        hs.append(h)
    return hs
prop("C35", title="Dates, epochs and GPS weeks name the same instants",
  statement="Between 1970 and 2099 every instant is the same instant as a calendar date, as text, as seconds since 1970 and as GPS week and time of week, and converting it back and forth changes nothing; UTC is 18 seconds behind GPS time. Sums and differences of instants are exact, with a fraction below one second, and comparisons order them as they follow each other. The day after the last day of a year is the first of the next, and product files are named after header, day, period and type.",
  over=["inputs", "histories"], qtext="all instants, dates, texts, weeks and spans",
  why=TESTS + "Tests convert a handful of dates; leap days, ends of months and fractions that add up to exactly one second are elsewhere.",
  files=["src/math_physics/time_system/epoch_time.cpp", "src/math_physics/time_system/date_time_format.cpp", "src/math_physics/time_system/gps_time.cpp", "src/math_physics/gnss/igs_product_name_handling.hpp"],
  mech=[("calendar", "EpochTime(DateTime), DateTime(EpochTime), GetAsString"), ("arithmetic", "EpochTime operators"), ("GPS weeks", "GpsTime"), ("days of a year", "IncrementYearDoy, GetOrbitClockFinalFileName")],
  observe=["fields of dates, text, seconds and fraction, week and time of week, comparisons, names"],
  note="Fractions in 64ths of a second, so that equality is demanded; the text keeps six digits of the seconds. Every pair of a special date or week with a few spans, and random ones.",
  parts=[dict(module="Calendar", driver="calendar", groups=[mc(({"Deep": 2}, {"Deep": 3}), tag="dates", limit=(3000, 20000)), gen("random", _cal_gen)])])
