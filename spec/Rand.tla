-------------------------------- MODULE Rand --------------------------------
(* Random generators: the minimal standard generator of Park and Miller, its shuffled form, normal values,
   the global source of seeds, and random walks.  Anchors: src/math_physics/randomization/*
   Uniform values are observed as multiples of 1/(2^31-1), normal ones in 1/100000.                       *)
EXTENDS VTLib, TLC
VARIABLES x,      \* the state of the plain generator
          bag,    \* shuffled generator: [x, tab (the 32 waiting values)]
          g,      \* global source: [key, n]
          nr,     \* normal generator: [key, n, avg, sd]
          book,   \* what was seen of a sequence: <<kind, key, n>> -> value
          out
vars == <<x, bag, g, nr, book, out>>
M == 2147483647
Canon(s) == IF s < 0 THEN s + M ELSE s          \* |s| < M
Step(s) == LET h == s \div 127773  l == s % 127773  t == 16807 * l - 2836 * h IN IF t < 0 THEN t + M ELSE t
DefaultSeed == 1588444912        \* 0xdeadbeef modulo M
RECURSIVE Run(_, _, _)
Run(s, n, acc) == IF n = 0 THEN acc ELSE LET t == Step(s) IN Run(t, n - 1, Append(acc, t))
RECURSIVE Skip(_, _)
Skip(s, n) == IF n = 0 THEN s ELSE Skip(Step(s), n - 1)
\* after 8 values thrown away, 32 wait
Fresh(s) == LET a == Skip(s, 8)  t == Run(a, 32, <<>>) IN [x |-> t[32], tab |-> t]
\* any of the waiting values is given, and replaced by the next one
RECURSIVE Draw(_, _, _)
Draw(b, vs, ok) == IF vs = <<>> \/ ~ok THEN [b |-> b, ok |-> ok]
  ELSE IF \E i \in 1..32 : b.tab[i] = vs[1]
       THEN LET i == CHOOSE k \in 1..32 : b.tab[k] = vs[1]  t == Step(b.x) IN Draw([x |-> t, tab |-> [b.tab EXCEPT ![i] = t]], Tail(vs), TRUE)
       ELSE [b |-> b, ok |-> FALSE]
RECURSIVE DrawAny(_, _)
DrawAny(b, n) == IF n = 0 THEN b ELSE LET t == Step(b.x) IN DrawAny([x |-> t, tab |-> [b.tab EXCEPT ![1] = t]], n - 1)

Init == x = DefaultSeed /\ bag = <<>> /\ g = [key |-> "none", n |-> 0] /\ nr = <<>> /\ book = EmptyFn /\ out = [ok |-> TRUE]
Reset(e) == x' = DefaultSeed /\ bag' = <<>> /\ g' = [key |-> "none", n |-> 0] /\ nr' = <<>> /\ book' = EmptyFn /\ out' = [ok |-> TRUE]
\* e.how: a new generator ("new"), or a new seed ("seed"); without a seed ("def") the default one.  Seed zero is refused and changes nothing.
LNew(e) == /\ x' = IF e.how = "def" THEN DefaultSeed ELSE IF e.s = 0 THEN x ELSE Canon(e.s)
           /\ out' = [ok |-> e.how = "def" \/ e.s # 0] /\ UNCHANGED <<bag, g, nr, book>>
LNext(e) == LET vs == Run(x, e.n, <<>>) IN x' = (IF e.n = 0 THEN x ELSE vs[e.n]) /\ out' = [vs |-> vs, in |-> TRUE] /\ UNCHANGED <<bag, g, nr, book>>
SNew(e) == /\ bag' = IF e.how = "def" THEN <<Fresh(DefaultSeed)>> ELSE IF e.s = 0 THEN bag ELSE <<Fresh(Canon(e.s))>>
           /\ out' = [ok |-> e.how = "def" \/ e.s # 0] /\ UNCHANGED <<x, g, nr, book>>
SNext(e) == /\ IF "r" \in DOMAIN e THEN LET d == Draw(bag[1], e.r.vs, Len(e.r.vs) = e.n) IN bag' = <<d.b>> /\ out' = [ok |-> d.ok]
               ELSE bag' = <<DrawAny(bag[1], e.n)>> /\ out' = [ok |-> TRUE]
            /\ UNCHANGED <<x, g, nr, book>>
\* ---- sequences known only by repetition
Seen(kind, key, n, v) == <<kind, key, n>> \in DOMAIN book => book[<<kind, key, n>>] = v
Note(kind, key, n0, vs) == [k \in DOMAIN book \cup {<<kind, key, n0 + i>> : i \in 1..Len(vs)} |->
                             IF k \in DOMAIN book THEN book[k] ELSE vs[k[3] - n0]]
GNew(e) == /\ g' = IF e.how = "def" THEN [key |-> "def", n |-> 0] ELSE IF e.s = 0 THEN g ELSE [key |-> ToString(e.s), n |-> 0]
           /\ out' = [ok |-> e.how = "def" \/ e.s # 0] /\ UNCHANGED <<x, bag, nr, book>>
GNext(e) == LET vs == IF "r" \in DOMAIN e THEN e.r.vs ELSE <<>> IN
            /\ g' = [g EXCEPT !.n = @ + e.n] /\ book' = Note("g", g.key, g.n, vs)
            /\ out' = [ok |-> (Len(vs) = e.n \/ "r" \notin DOMAIN e) /\ \A i \in 1..Len(vs) : vs[i] # 0 /\ Seen("g", g.key, g.n + i, vs[i]) /\ (i > 1 => vs[i] # vs[i - 1])]
            /\ UNCHANGED <<x, bag, nr>>
\* ---- normal values
NNew(e) == nr' = <<[key |-> IF e.how = "def" THEN "def" ELSE ToString(e.s), n |-> 0, avg |-> e.avg, sd |-> e.sd]>> /\ out' = [ok |-> TRUE] /\ UNCHANGED <<x, bag, g, book>>
NSet(e) == nr' = <<[nr[1] EXCEPT !.avg = e.avg, !.sd = e.sd]>> /\ out' = [ok |-> TRUE] /\ UNCHANGED <<x, bag, g, book>>
\* the n-th value of a seed is avg + sd * z, the same z whatever avg and sd
NOk(v, q, i) == /\ OkNum(v) /\ Abs(v - q.avg * 100000) <= 800000 * q.sd
                /\ LET k == <<"n", q.key, q.n + i>> IN
                   k \in DOMAIN book => Abs((v - q.avg * 100000) * book[k].sd - book[k].d * q.sd) <= q.sd + book[k].sd + 1
NNext(e) == LET q == nr[1]  vs == IF "r" \in DOMAIN e THEN e.r.vs ELSE <<>>
                ok == Len(vs) = e.n /\ \A i \in 1..Len(vs) : NOk(vs[i], q, i) IN
            /\ nr' = <<[q EXCEPT !.n = @ + e.n]>>
            /\ book' = IF ok /\ q.sd > 0 THEN Note("n", q.key, q.n, [i \in 1..Len(vs) |-> [sd |-> q.sd, d |-> vs[i] - q.avg * 100000]]) ELSE book
            /\ out' = [ok |-> ok \/ "r" \notin DOMAIN e] /\ UNCHANGED <<x, bag, g>>
\* many values: mean, deviation, and share (1/1000) within one deviation and above the mean, and correlation of neighbours
Stat(e) == out' = [ok |-> TRUE] /\ UNCHANGED <<x, bag, g, nr, book>>
StatOk(r) == Abs(r.mean) <= 80 /\ Near(r.dev, 1000, 70) /\ Near(r.one, 683, 40) /\ Near(r.up, 500, 45) /\ Abs(r.cor) <= 90 /\ Near(r.two, 954, 20)
\* a random walk is driven back from outside its limit and free inside: how often each part was driven up and down
Walk(e) == /\ out' = [side |-> [i \in 1..3 |-> IF e.sd[i] = 0 THEN "still" ELSE IF e.st[i] > e.lim[i] THEN "down" ELSE IF e.st[i] < -e.lim[i] THEN "up" ELSE "free"]]
           /\ UNCHANGED <<x, bag, g, nr, book>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ e.op = "lnew" /\ LNew(e)
         \/ e.op = "lnext" /\ LNext(e)
         \/ e.op = "snew" /\ SNew(e)
         \/ bag # <<>> /\ e.op = "snext" /\ SNext(e)
         \/ e.op = "gnew" /\ GNew(e)
         \/ g.key # "none" /\ e.op = "gnext" /\ GNext(e)
         \/ e.op = "nnew" /\ NNew(e)
         \/ nr # <<>> /\ e.op = "nset" /\ NSet(e)
         \/ nr # <<>> /\ e.op = "nnext" /\ NNext(e)
         \/ e.op = "stat" /\ Stat(e)
         \/ e.op = "walk" /\ Walk(e)
Match(e, o) ==
  CASE e.op \in {"snext", "gnext", "nnext"} -> e.r.ok /\ o.ok
    [] e.op = "stat" -> StatOk(e.r)
    [] e.op = "walk" -> \A i \in 1..3 : LET u == e.r.up[i]  d == e.r.down[i] IN
         CASE o.side[i] = "still" -> u = 0 /\ d = 0 [] o.side[i] = "down" -> u = 0 /\ d = e.n [] o.side[i] = "up" -> d = 0 /\ u = e.n [] OTHER -> u > 0 /\ d > 0 /\ u + d = e.n
    [] OTHER -> e.r = o
=============================================================================
