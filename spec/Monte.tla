------------------------------- MODULE Monte -------------------------------
(* Monte-Carlo execution: counting of cases, the registry of randomized parameters,
   the registry of simulation objects, and what each case is given.
   Anchors: src/simulation/monte_carlo_simulation/*, src/simulation/case/simulation_case.cpp
   Values are observed in 1/10000.  A randomized value is not known before it is read: the first reading
   of a case must satisfy the law of its randomization, the others must agree with it.                 *)
EXTENDS VTLib, TLC
VARIABLES ex,      \* <<>> or <<[total, done, en, save]>>
          pars,    \* name -> [ty, lo, hi]
          vals,    \* name -> [st: "none" | "fresh" | "known" | "bad", v, old]
          objs,    \* name -> [n, d, v, q]
          sd,      \* [s, hist]: seed and what was drawn since
          book,    \* <<sd, name>> -> value
          out
vars == <<ex, pars, vals, objs, sd, book, out>>
None == [st |-> "none", v |-> <<>>, old |-> <<>>]
Size(p) == CASE p.ty \in {"CartesianUniform", "CartesianNormal"} -> Len(p.lo)
             [] p.ty \in {"CircularNormalUniform", "CircularNormalNormal"} -> 2
             [] p.ty \in {"SphericalNormalUniformUniform", "SphericalNormalNormal"} -> 3
             [] p.ty \in {"QuaternionUniform", "QuaternionNormal"} -> 4 [] OTHER -> 0
\* has it the settings its randomization needs?
Fits(p) == CASE p.ty \in {"CircularNormalUniform", "CircularNormalNormal"} -> Len(p.lo) >= 2 /\ Len(p.hi) >= 2
             [] p.ty = "SphericalNormalUniformUniform" -> Len(p.lo) >= 3 /\ Len(p.hi) >= 3
             [] p.ty = "SphericalNormalNormal" -> Len(p.lo) >= 3 /\ Len(p.hi) >= 2
             [] p.ty = "QuaternionNormal" -> Len(p.hi) >= 1 [] OTHER -> TRUE
\* settings are integers; angles are in steps of 30 degrees
Cos30(k) == LET m == k % 12 IN CASE m = 0 -> 10000 [] m \in {1, 11} -> 8660 [] m \in {2, 10} -> 5000 [] m \in {3, 9} -> 0 [] m \in {4, 8} -> -5000 [] m \in {5, 7} -> -8660 [] OTHER -> -10000
Sin30(k) == Cos30(k + 9)
Sq(x) == x * x
\* squared norm in 1/10000 of a vector whose parts are below 20 (200000)
N2(v) == LET f[k \in 0..Len(v)] == IF k = 0 THEN 0 ELSE f[k - 1] + Sq(v[k] \div 10) IN f[Len(v)] \div 100
\* is direction (x, y) of norm r between the angles a <= b (in 30 degrees, at most 180 apart)?
Between(x, y, r, a, b) ==
  /\ (Cos30(a) \div 10) * (y \div 10) - (Sin30(a) \div 10) * (x \div 10) >= -(20 * r + 20000)
  /\ (Cos30(b) \div 10) * (y \div 10) - (Sin30(b) \div 10) * (x \div 10) <= 20 * r + 20000
\* the law of a randomization (normal values stay within 7 deviations)
Law(p, v) ==
  LET lo == p.lo  hi == p.hi IN
  /\ \A i \in 1..Len(v) : OkNum(v[i]) /\ Abs(v[i]) <= 200000
  /\ CASE p.ty = "CartesianUniform" -> \A i \in 1..Len(v) : (lo[i] * 10000 <= v[i] /\ v[i] <= hi[i] * 10000)
       [] p.ty = "CartesianNormal" -> \A i \in 1..Len(v) : Abs(v[i] - lo[i] * 10000) <= 70000 * hi[i]
       [] p.ty \in {"CircularNormalUniform", "CircularNormalNormal"} ->
            /\ (hi[1] = 0 => Near(N2(v), 10000 * Sq(lo[1]), 100 + 60 * Abs(lo[1])))
            /\ N2(v) <= 10000 * Sq(lo[1] + 7 * hi[1]) + 2000
            /\ p.ty = "CircularNormalUniform" /\ hi[1] = 0 /\ lo[1] > 0 /\ hi[2] - lo[2] <= 6 => Between(v[1], v[2], lo[1], lo[2], hi[2])
            /\ p.ty = "CircularNormalNormal" /\ hi[1] = 0 /\ hi[2] = 0 => Near(v[1], lo[1] * Cos30(lo[2]), 5) /\ Near(v[2], lo[1] * Sin30(lo[2]), 5)
       [] p.ty = "SphericalNormalUniformUniform" ->
            /\ (hi[1] = 0 => /\ Near(N2(v), 10000 * Sq(lo[1]), 100 + 60 * Abs(lo[1]))
                             /\ lo[1] * Cos30(hi[2]) - 5 <= v[3] /\ v[3] <= lo[1] * Cos30(lo[2]) + 5
                             /\ (hi[3] - lo[3] <= 6 => Between(v[1], v[2], lo[1], lo[3], hi[3])))
            /\ N2(v) <= 10000 * Sq(lo[1] + 7 * hi[1]) + 2000
       [] p.ty = "SphericalNormalNormal" ->
            LET m == lo[1] * lo[1] + lo[2] * lo[2] + lo[3] * lo[3] IN
            /\ (hi[1] = 0 => Near(N2(v), 10000 * m, 100 + 60 * m))
            /\ hi[1] = 0 /\ hi[2] = 0 => \A i \in 1..3 : Near(v[i], lo[i] * 10000, 3)
       [] p.ty \in {"QuaternionUniform", "QuaternionNormal"} ->
            /\ Near(N2(v), 10000, 60)
            /\ p.ty = "QuaternionNormal" /\ hi[1] = 0 => Abs(v[4]) >= 9999
       [] OTHER -> TRUE
\* does it vary from case to case?
Varies(p) == CASE p.ty = "CartesianUniform" -> \E i \in 1..Len(p.lo) : p.hi[i] # p.lo[i]
               [] p.ty \in {"QuaternionUniform"} -> TRUE
               [] p.ty \in {"SphericalNormalUniformUniform", "CircularNormalUniform"} -> p.hi[1] # 0 \/ (p.lo[1] # 0 /\ p.hi[2] # p.lo[2])
               [] p.ty = "QuaternionNormal" -> p.hi[1] # 0
               [] OTHER -> \E i \in 1..Min2(2, Len(p.hi)) : p.hi[i] # 0

Init == ex = <<>> /\ pars = EmptyFn /\ vals = EmptyFn /\ objs = EmptyFn /\ sd = <<>> /\ book = EmptyFn /\ out = [ok |-> TRUE]
Reset(e) == ex' = <<>> /\ pars' = EmptyFn /\ vals' = EmptyFn /\ objs' = EmptyFn /\ sd' = <<>> /\ book' = EmptyFn /\ out' = [ok |-> TRUE]
Show(x) == [en |-> x.en, total |-> x.total, done |-> x.done, save |-> (~x.en) \/ x.save, will |-> IF x.en THEN x.done < x.total ELSE x.done < 1]
SetEx(x) == ex' = <<x>> /\ out' = Show(x)
New(e) == SetEx([total |-> e.total, done |-> 0, en |-> e.total > 1, save |-> ~(e.total > 1)]) /\ pars' = EmptyFn /\ vals' = EmptyFn /\ UNCHANGED <<objs, sd, book>>
En(e) == SetEx([ex[1] EXCEPT !.en = e.b]) /\ UNCHANGED <<pars, vals, objs, sd, book>>
Tot(e) == SetEx([ex[1] EXCEPT !.total = e.n]) /\ UNCHANGED <<pars, vals, objs, sd, book>>
Save(e) == SetEx([ex[1] EXCEPT !.save = e.b]) /\ UNCHANGED <<pars, vals, objs, sd, book>>
Begin(e) == SetEx(ex[1]) /\ UNCHANGED <<pars, vals, objs, sd, book>>
End(e) == SetEx([ex[1] EXCEPT !.done = @ + 1]) /\ UNCHANGED <<pars, vals, objs, sd, book>>
\* a whole loop as the main program runs it
Loop(e) == LET x == ex[1]  k == IF x.en THEN Max2(0, x.total - x.done) ELSE Max2(0, 1 - x.done)
           IN SetEx([x EXCEPT !.done = @ + k]) /\ UNCHANGED <<pars, vals, objs, sd, book>>
Name(e) == e.so \o "." \o e.ip
Add(e) == LET nm == Name(e) IN
  IF nm \in DOMAIN pars THEN out' = [ok |-> FALSE] /\ UNCHANGED <<ex, pars, vals, objs, sd, book>>
  ELSE /\ pars' = Put(pars, nm, [ty |-> e.ty, lo |-> e.lo, hi |-> e.hi]) /\ vals' = Put(vals, nm, None)
       /\ out' = [ok |-> TRUE] /\ UNCHANGED <<ex, objs, sd, book>>
\* an executor made from a settings file
Ini(e) == LET names == [i \in 1..Len(e.ps) |-> e.ps[i].so \o "." \o e.ps[i].ip]
              p2 == [nm \in SeqRange(names) |-> LET p == e.ps[CHOOSE i \in 1..Len(e.ps) : names[i] = nm] IN [ty |-> p.ty, lo |-> p.lo, hi |-> p.hi]]
          IN /\ SetEx([total |-> e.total, done |-> 0, en |-> e.en, save |-> e.save])
             /\ pars' = p2 /\ vals' = [nm \in DOMAIN p2 |-> None] /\ UNCHANGED <<objs, sd, book>>
Seed(e) == sd' = <<[s |-> e.s, hist |-> <<>>]>> /\ out' = [ok |-> TRUE] /\ UNCHANGED <<ex, pars, vals, objs, book>>
Rnd(e) ==
  LET good == \A nm \in DOMAIN pars : Fits(pars[nm]) IN
  /\ out' = [ok |-> good]
  /\ sd' = IF sd = <<>> THEN <<>> ELSE <<[sd[1] EXCEPT !.hist = Append(@, pars)]>>
  /\ vals' = [nm \in DOMAIN pars |-> IF good THEN [st |-> "fresh", v |-> <<>>, old |-> IF vals[nm].st = "known" /\ ~(sd # <<>> /\ sd[1].hist = <<>>) THEN vals[nm].v ELSE <<>>]
                                     ELSE [st |-> "bad", v |-> <<>>, old |-> <<>>]]
  /\ UNCHANGED <<ex, pars, objs, book>>
Want(kind) == CASE kind = "d" -> 1 [] kind = "v2" -> 2 [] kind = "v3" -> 3 [] OTHER -> 4
Default(kind) == CASE kind = "d" -> <<70000>> [] kind = "v2" -> <<70000, 70000>> [] kind = "v3" -> <<70000, 70000, 70000>> [] OTHER -> <<0, 6000, 0, 8000>>
\* nothing is given when disabled, unknown or not randomized
Given(nm) == ex[1].en /\ nm \in DOMAIN pars /\ pars[nm].ty # "NoRandomization"
Short(nm, kind) == (IF vals[nm].st = "none" THEN 0 ELSE Size(pars[nm])) < Want(kind)
\* the result of reading parameter nm: [exc, free (not known before), v]
Key(nm) == <<sd, nm>>
\* is an observation x of parameter nm (of kind) possible?
Pref(a, b, tol) == \A i \in 1..Min2(Len(a), Len(b)) : Near(a[i], b[i], tol)
Possible(nm, kind, x) ==
  /\ Len(x) = Want(kind)
  /\ IF kind = "q" /\ pars[nm].ty \notin {"QuaternionUniform", "QuaternionNormal"} THEN TRUE
     ELSE /\ IF Len(x) < Size(pars[nm]) /\ pars[nm].ty \notin {"CartesianUniform", "CartesianNormal"} THEN TRUE ELSE Law(pars[nm], x)
          /\ vals[nm].st = "known" => Pref(vals[nm].v, x, 0)
          /\ sd # <<>> /\ Key(nm) \in DOMAIN book => Pref(book[Key(nm)], x, 0)
          /\ vals[nm].st = "fresh" /\ Varies(pars[nm]) /\ Len(vals[nm].old) >= Len(x) /\ Len(x) = Size(pars[nm]) => \E i \in 1..Len(x) : x[i] # vals[nm].old[i]
Longer(a, b) == IF Len(a) >= Len(b) THEN a ELSE b
Exact(nm, kind) == kind # "q" \/ pars[nm].ty \in {"QuaternionUniform", "QuaternionNormal"}
Get(e) ==
  LET nm == Name(e)
      give == Given(nm)
      exc == give /\ Short(nm, e.kind)
      obs == "r" \in DOMAIN e
      x == IF obs /\ give /\ ~exc /\ "v" \in DOMAIN e.r THEN e.r.v ELSE <<>>
      ok == x # <<>> /\ vals[nm].st # "bad" /\ Possible(nm, e.kind, x)
      \* a quaternion is given with norm 1, whatever it was
  IN /\ out' = [bad |-> give /\ vals[nm].st = "bad", exc |-> exc, free |-> give /\ ~exc, ok |-> IF give /\ ~exc /\ obs THEN ok \/ vals[nm].st = "bad" ELSE TRUE, v |-> Default(e.kind)]
     /\ IF ok /\ Exact(nm, e.kind)
        THEN /\ vals' = [vals EXCEPT ![nm] = [st |-> "known", v |-> Longer(IF @.st = "known" THEN @.v ELSE <<>>, x), old |-> <<>>]]
             /\ book' = IF sd = <<>> THEN book ELSE Put(book, Key(nm), IF Key(nm) \in DOMAIN book THEN Longer(book[Key(nm)], x) ELSE x)
        ELSE UNCHANGED <<vals, book>>
     /\ UNCHANGED <<ex, pars, objs, sd>>
\* ---- simulation objects, each with parameters d (number), v (vector) and q (quaternion)
So(e) == IF e.name \in DOMAIN objs THEN out' = [ok |-> FALSE] /\ UNCHANGED <<ex, pars, vals, objs, sd, book>>
         ELSE objs' = Put(objs, e.name, [n |-> 0]) /\ out' = [ok |-> TRUE] /\ UNCHANGED <<ex, pars, vals, sd, book>>
Del(e) == objs' = Drop(objs, e.name) /\ out' = [ok |-> TRUE] /\ UNCHANGED <<ex, pars, vals, sd, book>>
\* every living object once, its parameters being those registered under its name
SetAll(e) ==
  LET o2 == [nm \in DOMAIN objs |-> [n |-> objs[nm].n + 1]]
      Par(nm, ip) == nm \o "." \o ip
      Want1(ip) == CASE ip = "d" -> "d" [] ip = "v" -> "v3" [] OTHER -> "q"
      obs == "r" \in DOMAIN e
      Ok(nm, ip) == LET p == Par(nm, ip)  x == e.r.objs[nm][ip] IN
                    IF Given(p) THEN vals[p].st = "bad" \/ Possible(p, Want1(ip), x) ELSE x = Default(Want1(ip))
  IN /\ objs' = o2
     /\ out' = [n |-> [nm \in DOMAIN objs |-> o2[nm].n], ok |-> IF obs /\ "objs" \in DOMAIN e.r THEN DOMAIN e.r.objs = DOMAIN objs /\ \A nm \in DOMAIN objs : \A ip \in {"d", "v", "q"} : Ok(nm, ip) ELSE TRUE]
     /\ UNCHANGED <<ex, pars, vals, sd, book>>
\* ---- statistics of many draws of one randomization: means of the parts and of their absolute values, least and greatest
Stat(e) == out' = [ok |-> TRUE] /\ UNCHANGED <<ex, pars, vals, objs, sd, book>>
\* means (of each part) and mean squares the law gives, in 1/10000; -1 where not stated
Mean(p, i) == CASE p.ty = "CartesianUniform" -> ((p.lo[i] + p.hi[i]) * 10000) \div 2 [] p.ty = "CartesianNormal" -> p.lo[i] * 10000
               [] p.ty = "QuaternionUniform" -> 0 [] OTHER -> 0
StatOk(e) ==
  LET p == [ty |-> e.ty, lo |-> e.lo, hi |-> e.hi]  n == Size(p) IN
  /\ e.r.ok /\ Len(e.r.mean) = n
  /\ CASE e.ty = "CartesianUniform" -> \A i \in 1..n : LET w == (e.hi[i] - e.lo[i]) * 10000 IN Near(e.r.mean[i], Mean(p, i), w \div 30 + 1) /\ Near(e.r.dev[i], (w \div 1000) * 289, w \div 30 + 1) /\ e.r.min[i] - e.lo[i] * 10000 <= w \div 50 /\ e.hi[i] * 10000 - e.r.max[i] <= w \div 50
       [] e.ty = "CartesianNormal" -> \A i \in 1..n : LET w == e.hi[i] * 10000 IN Near(e.r.mean[i], Mean(p, i), w \div 10) /\ Near(e.r.dev[i], w, w \div 10)
       \* every attitude alike: the x axis goes anywhere, and so does its roll
       [] e.ty = "QuaternionUniform" -> \A i \in 1..9 : Abs(e.r.dcm[i]) <= 700
       [] e.ty = "QuaternionNormal" -> Near(e.r.ang, e.hi[1] * 10000, e.hi[1] * 1000) /\ \A i \in 1..3 : Abs(e.r.mean[i]) <= 700
       [] e.ty = "SphericalNormalUniformUniform" -> \* the whole sphere alike
            /\ Near(e.r.nmean, e.lo[1] * 10000, e.hi[1] * 1000 + 10) /\ Near(e.r.ndev, e.hi[1] * 10000, e.hi[1] * 1000 + 10)
            /\ (e.lo[2] = 0 /\ e.hi[2] = 6 /\ e.hi[3] - e.lo[3] = 12 => \A i \in 1..3 : Abs(e.r.mean[i]) <= 700 * e.lo[1] /\ Near(e.r.dev[i], e.lo[1] * 5774, e.lo[1] * 500))
       [] e.ty = "SphericalNormalNormal" -> \* around the mean: norm and angle
            LET m2 == Sq(e.lo[1]) + Sq(e.lo[2]) + Sq(e.lo[3]) IN Near(e.r.ndev, e.hi[1] * 10000, e.hi[1] * 1000 + 10) /\ Near(e.r.ang, e.hi[2] * 10000, e.hi[2] * 1000 + 10)
            /\ Near(Sq(e.r.nmean \div 100), m2 * 10000, m2 * 1500 + 100) /\ \A i \in 1..3 : Near(e.r.mean[i], e.lo[i] * 10000, 1000 * (Abs(e.lo[1]) + Abs(e.lo[2]) + Abs(e.lo[3])))
       [] OTHER -> Near(e.r.nmean, e.lo[1] * 10000, e.hi[1] * 1000 + 10) /\ Near(e.r.ndev, e.hi[1] * 10000, e.hi[1] * 1000 + 10)
\* ---- the log of a case
Case(e) ==
  LET x == ex[1] IN
  /\ out' = IF ~x.en THEN [one |-> TRUE, name |-> "", ini |-> e.ini] ELSE [one |-> x.save, name |-> IF x.save THEN "default" \o ToString(x.done) \o ".csv" ELSE "", ini |-> x.save /\ e.ini]
  /\ UNCHANGED <<ex, pars, vals, objs, sd, book>>

Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ e.op = "new" /\ New(e)
         \/ e.op = "ini" /\ Ini(e)
         \/ e.op = "seed" /\ Seed(e)
         \/ e.op = "so" /\ So(e)
         \/ e.op = "del" /\ Del(e)
         \/ e.op = "stat" /\ Stat(e)
         \/ ex # <<>> /\ \/ e.op = "en" /\ En(e)
                         \/ e.op = "tot" /\ Tot(e)
                         \/ e.op = "save" /\ Save(e)
                         \/ e.op = "begin" /\ Begin(e)
                         \/ e.op = "end" /\ End(e)
                         \/ e.op = "loop" /\ Loop(e)
                         \/ e.op = "add" /\ Add(e)
                         \/ e.op = "rnd" /\ Rnd(e)
                         \/ e.op = "get" /\ Get(e)
                         \/ e.op = "setall" /\ SetAll(e)
                         \/ e.op = "case" /\ Case(e)
Match(e, o) ==
  CASE e.op = "get" -> o.bad \/ /\ e.r.exc = o.exc
                                /\ ~o.exc => IF o.free THEN o.ok ELSE e.r.v = o.v
    [] e.op = "setall" -> o.ok /\ DOMAIN e.r.objs = DOMAIN o.n /\ \A nm \in DOMAIN o.n : e.r.objs[nm].n = o.n[nm]
    [] e.op = "stat" -> StatOk(e)
    [] e.op = "loop" -> e.r = o
    [] OTHER -> e.r = o
=============================================================================
