----------------------------- MODULE MC_Monte -----------------------------
EXTENDS Monte, VTGen
CONSTANTS Fam, Deep
VARIABLES hist
Types == {[ty |-> "NoRandomization", lo |-> <<1>>, hi |-> <<1>>], [ty |-> "CartesianUniform", lo |-> <<-1, 0, 2>>, hi |-> <<1, 3, 4>>],
          [ty |-> "CartesianNormal", lo |-> <<5>>, hi |-> <<0>>], [ty |-> "CircularNormalUniform", lo |-> <<3>>, hi |-> <<0>>], [ty |-> "QuaternionUniform", lo |-> <<0>>, hi |-> <<0>>]}
Sizes == {[so |-> "A", ip |-> "d", p |-> [ty |-> "CartesianUniform", lo |-> <<-1>>, hi |-> <<1>>]], [so |-> "B", ip |-> "v", p |-> [ty |-> "CartesianUniform", lo |-> <<0, 0, 0>>, hi |-> <<1, 2, 3>>]],
          [so |-> "A", ip |-> "q", p |-> [ty |-> "QuaternionNormal", lo |-> <<0>>, hi |-> <<1>>]], [so |-> "C", ip |-> "v", p |-> [ty |-> "CartesianUniform", lo |-> <<0, 0, 0>>, hi |-> <<1, 2, 3>>]]}
AddOp(so, ip, p) == [op |-> "add", so |-> so, ip |-> ip, ty |-> p.ty, lo |-> p.lo, hi |-> p.hi]
Rndd == \E i \in 1..Len(hist) : hist[i].op = "rnd"
Ops == IF Len(hist) = 0 THEN {[op |-> "reset"]}
       ELSE IF Fam = 1 THEN
            (IF ex = <<>> THEN {[op |-> "new", total |-> n] : n \in 0..3} ELSE {})
            \cup (IF ex # <<>> /\ Len(hist) < Deep THEN {[op |-> "en", b |-> b] : b \in BOOLEAN} \cup {[op |-> "save", b |-> b] : b \in BOOLEAN} \cup {[op |-> "tot", n |-> n] : n \in 0..2}
                                  \cup {[op |-> "begin"], [op |-> "end"], [op |-> "loop"]} ELSE {})
            \cup (IF ex # <<>> /\ Len(hist) = Deep THEN {[op |-> "case", ini |-> b] : b \in BOOLEAN} ELSE {})
       ELSE IF Fam = 2 THEN
            (IF ex = <<>> THEN {[op |-> "new", total |-> n] : n \in {1, 2}} ELSE {})
            \cup (IF Len(hist) \in {2, 3} THEN {AddOp(so, "x", p) : so \in {"A", "B"}, p \in Types} ELSE {})
            \cup (IF Len(hist) \in {3, 4} THEN {[op |-> "rnd"]} ELSE {})
            \cup (IF Len(hist) \in {4, 5} /\ \A nm \in DOMAIN vals : vals[nm].st # "bad" THEN {[op |-> "get", so |-> so, ip |-> "x", kind |-> k] : so \in {"A", "C"}, k \in {"d", "v2", "v3", "q"}} ELSE {})
       ELSE (IF ex = <<>> THEN {[op |-> "new", total |-> n] : n \in {1, 2}} ELSE {})
            \cup (IF ex # <<>> /\ ~Rndd /\ Cardinality(DOMAIN pars) < 2 THEN {AddOp(x.so, x.ip, x.p) : x \in {y \in Sizes : y.so \o "." \o y.ip \notin DOMAIN pars}} ELSE {})
            \cup (IF ex # <<>> /\ ~Rndd /\ pars # EmptyFn THEN {[op |-> "rnd"]} ELSE {})
            \cup (IF Rndd THEN {[op |-> "so", name |-> n] : n \in {"A", "B"}} \cup {[op |-> "del", name |-> n] : n \in DOMAIN objs} ELSE {})
            \cup (IF Rndd /\ objs # EmptyFn THEN {[op |-> "setall"]} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == (Fam = 3 => Len(hist) < Deep) /\ (\E e \in Ops : Do(e) /\ hist' = Append(hist, e))
View == <<ex, pars, [nm \in DOMAIN vals |-> vals[nm].st], objs, Len(hist), IF Len(hist) = 0 THEN "" ELSE hist[Len(hist)].op>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
\* a loop leaves nothing to execute, and executes one case when disabled, the asked number when enabled
Counted == ex # <<>> /\ hist[Len(hist)].op = "loop" => ~out.will
Disabled == ex # <<>> /\ ~ex[1].en /\ hist[Len(hist)].op = "get" => ~out.exc /\ ~out.free
Once == \A nm \in DOMAIN objs : objs[nm].n <= Len(SelectSeq(hist, LAMBDA h : h.op = "setall"))
Inv == Counted /\ Disabled /\ Once
=============================================================================
