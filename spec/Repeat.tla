------------------------------- MODULE Repeat -------------------------------
(* The same settings give the same course of a spacecraft, to the last digit: run again, in the same process or a new one, after
   other simulations, longer or shorter, with more or less logging, next to other spacecraft.
   Anchors: src/simulation/case/simulation_case.cpp, src/simulation/spacecraft/spacecraft.cpp, src/environment/*, src/dynamics/*,
   src/disturbances/*, src/math_physics/geomagnetic/igrf.cpp.
   A spacecraft is known by its settings e.sc[i] and the start date e.d; observed is a digest of its state, its surroundings and
   what acts on it after each step.                                                                                            *)
EXTENDS VTLib, TLC
VARIABLES memo,    \* <<settings, date>> -> the longest course seen
          proc,    \* what was run in this process: sequence of <<date, settings of all spacecraft>>
          out
vars == <<memo, proc, out>>
Init == memo = EmptyFn /\ proc = <<>> /\ out = "none"
Reset(e) == memo' = EmptyFn /\ proc' = <<>> /\ out' = "none"
New(e) == proc' = <<>> /\ out' = "none" /\ UNCHANGED memo
Key(e, i) == <<e.sc[i], e.d>>
Longer(a, b) == IF Len(a) >= Len(b) THEN a ELSE b
RECURSIVE Learn(_, _, _, _)
Learn(m, e, hs, i) == IF i > Len(e.sc) THEN m
  ELSE Learn(TLCEval((Key(e, i) :> Longer(hs[i], IF Key(e, i) \in DOMAIN m THEN m[Key(e, i)] ELSE <<>>)) @@ m), e, hs, i + 1)
Run(e) == /\ memo' = (IF "r" \in DOMAIN e /\ "h" \in DOMAIN e.r THEN Learn(memo, e, e.r.h, 1) ELSE Learn(memo, e, [i \in 1..Len(e.sc) |-> <<>>], 1))
          /\ proc' = Append(proc, <<e.d, e.sc>>) /\ out' = "run"
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ e.op = "new" /\ New(e)
         \/ e.op = "run" /\ Run(e)
Same(a, b) == \A k \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[k] = b[k]
\* memo: what was known before
Match(e, o) ==
  IF e.op # "run" THEN TRUE
  ELSE /\ "h" \in DOMAIN e.r /\ Len(e.r.h) = Len(e.sc)
       /\ \A i \in 1..Len(e.sc) : /\ Len(e.r.h[i]) >= e.n
                                  /\ (Key(e, i) \in DOMAIN memo => Same(memo[Key(e, i)], e.r.h[i]))
                                  /\ \A j \in 1..(i - 1) : (e.sc[i] = e.sc[j] => e.r.h[i] = e.r.h[j])
=============================================================================
