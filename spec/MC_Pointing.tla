---------------------------- MODULE MC_Pointing ----------------------------
EXTENDS Pointing, VTGen
CONSTANTS Deep
VARIABLES hist
Places == {[sun |-> s, p |-> v[1], v |-> v[2]] : s \in {<<200, 30, -40>>, <<-50, 120, 60>>}, v \in {<<<<7, 0, 1>>, <<1, 6, 4>>>>, <<<<-3, 8, 2>>, <<-4, -2, 5>>>>, <<<<5, 5, -5>>, <<-5, 5, 1>>>>}}
Rs == {[op |-> "reset", how |-> h, main |-> m, sub |-> s, bm |-> b[1], bs |-> b[2], q0 |-> <<1, 2, 2, 4>>, lat |-> 0, lon |-> 90, alt |-> 300, rot |-> rt, sun |-> w.sun, p |-> w.p, v |-> w.v] :
       h \in {"direct", "ini", "init"}, m \in Known, s \in {"SUN_POINTING", "ORBIT_NORMAL_POINTING", "NO_CONTROL"}, b \in {<<<<0, 0, 1>>, <<1, 0, 0>>>>, <<<<1, 2, -2>>, <<0, 3, 4>>>>, <<<<1, 0, 0>>, <<3, 1, 0>>>>}, rt \in {TRUE, FALSE}, w \in {x \in Places : x.p[1] = 7 /\ x.sun[1] = 200}}
Mv == {[op |-> "move", sun |-> w.sun, p |-> w.p, v |-> w.v] : w \in Places \ {wd}}
Ops == IF ~Is(cf) THEN Rs ELSE IF Len(hist) > Deep THEN {} ELSE
       Mv \cup {[op |-> "see"]} \cup {[op |-> "prop", dt |-> 1000]}
       \cup {[op |-> "mode", main |-> m, sub |-> "EARTH_CENTER_POINTING"] : m \in {"SUN_POINTING"} \ {cf.main}} \cup {[op |-> "aim", bm |-> <<0, 5, 0>>, bs |-> <<1, 2, -2>>]}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in Ops : Do(e) /\ hist' = Append(hist, e)
View == <<cf, wd, loc, a, seen, out, Len(hist)>>
EmitStep == EmitHist(hist')
EmitLong == Len(hist) = GenLen => EmitHist(hist)
\* --- properties
LastOp == IF hist = <<>> THEN [op |-> ""] ELSE hist[Len(hist)]
\* a disabled controller never moves the attitude
Off == Is(cf) /\ ~cf.on => a = A0(<<1, 2, 2, 4>>)
\* the targets are well defined: ground speed is the velocity less that of the ground, so both agree on the axis; the normal is perpendicular to both
Geom == Is(cf) => LET n == Target("ORBIT_NORMAL_POINTING", 0) IN
   /\ Abs(Dot(Down([i \in 1..3 |-> n[i] * 100]), Target("VELOCITY_DIRECTION_POINTING", 0))) < 50000
   /\ Abs(Dot(Down([i \in 1..3 |-> n[i] * 100]), Target("EARTH_CENTER_POINTING", 0))) < 50000 \/ Is(loc)
   /\ \A m \in Modes : S3(Target(m, 0)) > 5000
   \* looking down at the sub-satellite point or at the centre is the same on the equator plane axis
   /\ (cf.lat = 0 => Surf(0, cf)[3] = 0) /\ Surf(360000, cf) = Surf(0, cf)
Inv == Off /\ Geom
=============================================================================
