def _time_random(kind):
    def fn(R, tier, rng):
        hs = []
        for _ in range({"quick": 80, "thorough": 1000}[tier]):
            if kind == "cal":
                y = rng.choice([1901, 1950, 1999, 2000, 2004, 2019, 2020, 2023, 2024, 2038, 2060, 2095, rng.randint(1901, 2094)])
                m = rng.choice([1, 2, 2, 12, rng.randint(1, 12)]); dm = [31, 29 if y % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
                start = [y, m, rng.choice([1, dm, dm, rng.randint(1, dm)])] + rng.choice([[0, 0, 0], [23, 59, 59000], [23, 59, 59875], [12, 0, 0], [rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59999)]])
                step = rng.choice([1, 3, 8, 480, 28800, 28801, 691200, 691200 * 7 + 13, rng.randint(1, 691200 * 20)])
                n = {"quick": 25, "thorough": 60}[tier]
                end = step * n
            else:
                start = [2020, 1, 1, 0, 0, 0]
                step = rng.choice([1, 1, 2, 4, 8, 3, 80])
                n = {"quick": 60, "thorough": 250}[tier]
                end = max(1, rng.choice([step * rng.randint(1, n), step * rng.randint(1, n) + rng.randint(0, step), step * 500, step * 250 + 1, step * 101]))
            iv = lambda: rng.choice([step, step * rng.randint(1, 20), step * rng.randint(1, 20) + rng.randint(0, step)])
            h = [{"op": "reset", "step": step, "end": end, "att": iv(), "orb": iv(), "th": iv(), "comp": iv(), "log": iv(), "start": start}]
            for i in range(n):
                h.append({"op": "step"})
                if rng.random() < (.03 if kind != "cal" else 0): h.append({"op": "restart"})
            hs.append(h)
        return hs
    return fn
_T = dict(module="SimTime", driver="simtime")
_TF = ["src/environment/global/simulation_time.cpp", "src/environment/global/simulation_time.hpp"]
prop("C01", title="The simulation clock counts whole steps and ends the run exactly once past its duration",
  statement="After k steps the elapsed time is exactly k times the configured step, the clock reports itself running, and the end of the simulation is signalled in exactly those steps whose elapsed time exceeds the configured duration. The progress percentage is the whole percentage of the duration elapsed and a progress display is due each time one percent of the duration has passed; starting a new case puts the clock back to zero with all its counters.",
  over=["histories", "configurations"], qtext="all step sizes and durations (exactly representable), all numbers of steps, restarts at any point",
  why=TESTS + "An off-by-one in the end condition or a counter left over from a previous case shows only in particular configurations and histories.",
  files=_TF, mech=[("clock", "SimulationTime::UpdateTime, SetParameters")], observe=["SimulationTime getters after every step"],
  note="Exhaustive over small steps, intervals, durations with restarts; every explored behaviour replayed; random long runs. Step sizes are multiples of 1/8 s so the arithmetic is exact; real-time pacing is not modelled.",
  parts=[dict(_T, ops=["step", "restart"], groups=[
    mc(({"Steps": "{1,2,3}", "Ivals": "{1}", "Ends": "{1,2,5,7,8}", "MaxSteps": 9, "MaxRestarts": 2, "Starts": 1}, {"Steps": "{1,2,3,4,5}", "Ivals": "{1}", "Ends": "{1,2,3,5,7,8,12,13}", "MaxSteps": 16, "MaxRestarts": 2, "Starts": 1}), limit=(2500, 20000)),
    gen("random", _time_random("rate"))])])
prop("C02", title="Every rate group is due once per its own period, independently of the others",
  statement="Attitude, orbit, thermal and component updates each have their own interval; counted in whole steps n (rounded up), each update is due in exactly the steps n-1, 2n-1, 3n-1, ... of a case (every step when n is one) and in no other, whatever the other intervals are. A log record is due at the start of a case and then in steps n, 2n, 3n, ... of its own interval. Starting a new case restores these phases.",
  over=["histories", "configurations"], qtext="all combinations of the five intervals with the step, all run lengths, restarts at any step",
  why=TESTS + "Groups sharing a counter or drifting phase show only for particular interval combinations late in a run.",
  files=_TF, mech=[("rate group counters", "SimulationTime::UpdateTime")], observe=["the four update flags and the log flag after every step"],
  note="Exhaustive over all combinations of small intervals; invariants give the closed form; every behaviour replayed; random long runs with intervals that are not multiples of the step.",
  parts=[dict(_T, ops=["step", "restart"], groups=[
    mc(({"Steps": "{2}", "Ivals": "{1,2,3}", "Ends": "{100}", "MaxSteps": 8, "MaxRestarts": 1, "Starts": 1}, {"Steps": "{2,3}", "Ivals": "{1,2,3,4}", "Ends": "{100}", "MaxSteps": 14, "MaxRestarts": 1, "Starts": 1}), limit=(2500, 25000)),
    gen("random", _time_random("rate"))])])
prop("C03", title="All representations of the current time describe the same instant",
  statement="At every step the calendar date and time, the Julian date, the decimal year (year plus day of year over 365.25), the ephemeris time, the Greenwich mean sidereal angle and the time column of the log all describe the start date plus the elapsed time, to the millisecond (sidereal angle to a thousandth of a degree). This holds across minute, day, month, leap day and year boundaries between 1901 and 2099, and the calendar fields are always a valid date and time of day.",
  over=["inputs", "histories"], qtext="all start instants 1901-2099, all steps from 1/8 s to weeks",
  why=TESTS + "Calendar carries go wrong only at particular boundaries.",
  files=_TF + ["src/math_physics/orbit/sgp4/sgp4ext.cpp"], mech=[("calendar", "ConvJDtoCalendarDay / invjday / days2mdhms / jday / JdToDecyear / gstime")],
  observe=["GetCurrentUtc, GetCurrentTime_jd, GetCurrentSiderealTime, GetCurrentDecimalYear, GetCurrentEphemerisTime, GetLogValue"],
  note="The specification's calendar is an odometer of valid dates; TLC checks it against the day-number formula and validates traces recorded from the real clock over random and boundary dates. CSPICE is replaced by a stand-in for the ephemeris epoch.",
  parts=[dict(_T, ops=["step"], groups=[
    mc({"Steps": "{1,8,691200}", "Ivals": "{1}", "Ends": "{100}", "MaxSteps": 12, "MaxRestarts": 1, "Starts": 1}),
    gen("random", _time_random("cal"))])])
