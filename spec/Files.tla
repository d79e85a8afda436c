------------------------------- MODULE Files -------------------------------
(* Settings files, CSV tables, power scenarios, and log files.  Anchors: setting_file_reader/initialize_file_access.*,
   components/real/power/csv_scenario_interface.*, src/logger/*                                                     *)
EXTENDS VTLib, TLC
VARIABLES on, ini, scen, lg, out
vars == <<on, ini, scen, lg, out>>
\* ---- settings: a sequence of entries [s: section, k: key, i: index (-1 none), f: form, t: type, v: value].
\* forms: 0 key, 1 key(i), 2 key_(i), 3 key7(i).  Types: "int", "dec" (thousandths), "word" (a string), "path" (a string with a directory variable)
Find(s, k, i, f) == {x \in 1..Len(ini[1]) : ini[1][x].s = s /\ ini[1][x].k = k /\ ini[1][x].f = f /\ (f = 0 \/ ini[1][x].i = i)}
Ent(s, k, i, f) == ini[1][CHOOSE x \in Find(s, k, i, f) : TRUE]
AsInt(s, k, i, f) == IF Find(s, k, i, f) = {} THEN 0 ELSE LET e == Ent(s, k, i, f) IN CASE e.t = "int" -> e.v [] e.t = "dec" -> TDiv(e.v, 1000) [] OTHER -> IF e.v = "1" THEN 1 ELSE 0
AsDec(s, k, i, f) == IF Find(s, k, i, f) = {} THEN 0 ELSE LET e == Ent(s, k, i, f) IN CASE e.t = "int" -> e.v * 1000 [] e.t = "dec" -> e.v [] OTHER -> IF e.v = "1" THEN 1000 ELSE 0
Pad3(n) == (IF n < 100 THEN "0" ELSE "") \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
DecText(v) == (IF v < 0 THEN "-" ELSE "") \o ToString(Abs(v) \div 1000) \o "." \o (IF v % 1000 = 0 THEN "0" ELSE Pad3(Abs(v) % 1000))
Word(e) == CASE e.t = "dec" -> DecText(e.v) [] e.t = "word" -> e.v [] e.t = "path" -> e.v [] OTHER -> ToString(e.v)
AsBool(s, k) == Find(s, k, 0, 0) # {} /\ LET e == Ent(s, k, 0, 0) IN IF e.t = "int" THEN e.v = 1 ELSE e.t = "word" /\ e.v \in {"1", "true", "True", "TRUE", "yes", "on", "On"}
AsEnable(s, k) == Find(s, k, 0, 0) # {} /\ LET e == Ent(s, k, 0, 0) IN IF e.t = "int" THEN e.v = 1 ELSE e.t = "word" /\ e.v \in {"1", "ENABLE"}
AsStr(s, k, i, f) == IF Find(s, k, i, f) = {} THEN "NULL" ELSE Word(Ent(s, k, i, f))
RECURSIVE StrVec(_, _, _)
StrVec(s, k, i) == IF AsStr(s, k, i, 1) = "NULL" THEN <<>> ELSE <<AsStr(s, k, i, 1)>> \o StrVec(s, k, i + 1)
Quat(s, k) == LET a == [i \in 1..4 |-> AsDec(s, k, i - 1, 2)] IN IF a = <<0, 0, 0, 0>> THEN [i \in 1..4 |-> AsDec(s, k, i - 1, 1)] ELSE a
Byte(n) == n % 256
Read(e) ==
  CASE e.how = "int" -> AsInt(e.s, e.k, 0, 0)
    [] e.how = "dec" -> AsDec(e.s, e.k, 0, 0)
    [] e.how = "bool" -> AsBool(e.s, e.k)
    [] e.how = "enable" -> AsEnable(e.s, e.k)
    [] e.how = "str" -> AsStr(e.s, e.k, 0, 0)
    [] e.how = "char" -> AsStr(e.s, e.k, 0, 0)
    [] e.how = "ivec" -> [i \in 1..e.n |-> AsInt(e.s, e.k, i - 1, 1)]
    [] e.how = "dvec" -> [i \in 1..e.n |-> AsDec(e.s, e.k, i - 1, 1)]
    [] e.how = "vec3" -> [i \in 1..3 |-> AsDec(e.s, e.k, i - 1, 1)]
    [] e.how = "cvec" -> [i \in 1..e.n |-> Byte(AsInt(e.s, e.k, i - 1, 1))]
    [] e.how = "arr" -> [i \in 1..e.n |-> AsDec(e.s, e.k, i - 1, 3)]
    [] e.how = "svec" -> [i \in 1..e.n |-> AsStr(e.s, e.k, i - 1, 1)]
    [] e.how = "slist" -> StrVec(e.s, e.k, 0)
    [] OTHER -> Quat(e.s, e.k)
\* ---- CSV tables
Cut(rows, rh, ch) == [i \in 1..Max2(0, Len(rows) - rh) |-> SubSeq(rows[i + rh], ch + 1, Len(rows[i + rh]))]
\* ---- scenario: the last row (of the latest equal time) at or before the time; nothing before the first row
Row(t) == LET a == {i \in 1..Len(scen[1].rows) : scen[1].rows[i].t <= t}
              b == {i \in a : \A j \in a : scen[1].rows[j].t < scen[1].rows[i].t \/ (scen[1].rows[j].t = scen[1].rows[i].t /\ j <= i)}
          IN IF a = {} THEN [t |-> 0, d |-> <<0, 0, 0>>, flag |-> 0, p |-> 0] ELSE scen[1].rows[CHOOSE i \in b : TRUE]
\* ---- logs
RECURSIVE Cells(_, _)
Cells(s, h) == IF s = <<>> THEN <<>> ELSE (IF lg[1].m[s[1]].en THEN [k \in 1..lg[1].m[s[1]].cols |-> IF h THEN 10 * s[1] + k ELSE 1000 * s[1] + 100 * k + lg[1].n] ELSE <<>>) \o Cells(Tail(s), h)
\* text goes to the file only while the logger is enabled, and only if its file was opened, that is, it was created enabled
Put1(l, row, nl) == IF ~(l.en /\ l.born) THEN l ELSE [l EXCEPT !.cur = IF nl THEN <<>> ELSE @ \o row, !.rows = IF nl THEN Append(@, l.cur \o row) ELSE @]

Init == on = FALSE /\ ini = <<>> /\ scen = <<>> /\ lg = <<>> /\ out = [ok |-> TRUE]
OK == out' = [ok |-> TRUE]
Reset(e) == on' = TRUE /\ ini' = <<>> /\ scen' = <<>> /\ lg' = <<>> /\ OK
Ini(e) == ini' = <<e.ents>> /\ OK /\ UNCHANGED <<on, scen, lg>>
Get(e) == out' = [v |-> Read(e)] /\ UNCHANGED <<on, ini, scen, lg>>
Csv(e) == out' = [v |-> Cut(e.rows, e.rh, e.ch)] /\ UNCHANGED <<on, ini, scen, lg>>
Scen(e) == scen' = <<[rows |-> e.rows, en |-> e.en]>> /\ OK /\ UNCHANGED <<on, ini, lg>>
Ask(e) == out' = [d |-> Row(e.t).d, flag |-> Row(e.t).flag # 0, p |-> Row(e.t).p, en |-> scen[1].en] /\ UNCHANGED <<on, ini, scen, lg>>
NewLog(e) == lg' = <<[en |-> e.en, born |-> e.en, save |-> e.save, list |-> <<>>, m |-> [i \in 1..3 |-> [en |-> TRUE, cols |-> i]], rows |-> <<>>, cur |-> <<>>, n |-> 0,
                      files |-> IF e.en /\ e.save THEN (0 :> 0) ELSE EmptyFn]>> /\ OK /\ UNCHANGED <<on, ini, scen>>
L(l) == lg' = <<l>> /\ OK /\ UNCHANGED <<on, ini, scen>>
\* the file is copied once into the log directory; a later file of the same name is skipped
CopyF(e) == L(IF lg[1].born /\ lg[1].save /\ e.f \notin DOMAIN lg[1].files THEN [lg[1] EXCEPT !.files = Put(@, e.f, e.ver)] ELSE lg[1])
Write(e) == LET r == Cells(lg[1].list, e.op = "head")
                a == Put1(lg[1], r, e.nl)
            IN L([a EXCEPT !.n = IF e.op = "vals" THEN @ + 1 ELSE @])
Close(e) == /\ out' = [rows |-> IF lg[1].cur = <<>> THEN lg[1].rows ELSE Append(lg[1].rows, lg[1].cur), file |-> lg[1].born,
                       files |-> [i \in 1..4 |-> IF i - 1 \in DOMAIN lg[1].files THEN lg[1].files[i - 1] ELSE -1], stray |-> 0]
            /\ lg' = <<>> /\ UNCHANGED <<on, ini, scen>>
\* column titles
RECURSIVE Vec(_, _, _, _)
Vec(e, ax, i, n) == IF i > n THEN "" ELSE e.name \o "_" \o e.frame \o (IF n = 3 THEN ax[i] ELSE "(" \o ToString(i - 1) \o ")") \o "[" \o e.unit \o "]," \o Vec(e, ax, i + 1, n)
RECURSIVE Mat(_, _)
Mat(e, i) == IF i >= e.n * e.m THEN "" ELSE e.name \o "_" \o e.frame \o "(" \o ToString(i \div e.m) \o ToString(i % e.m) \o ")[" \o e.unit \o "]," \o Mat(e, i + 1)
Title(e) == CASE e.kind = "scalar" -> e.name \o "[" \o e.unit \o "],"
              [] e.kind = "vector" -> Vec(e, <<"_x", "_y", "_z">>, 1, e.n)
              [] e.kind = "quaternion" -> e.name \o "_" \o e.frame \o "_x," \o e.name \o "_" \o e.frame \o "_y," \o e.name \o "_" \o e.frame \o "_z," \o e.name \o "_" \o e.frame \o "_w,"
              [] OTHER -> Mat(e, 0)
TitleOp(e) == out' = [t |-> Title(e), n |-> CASE e.kind = "scalar" -> 1 [] e.kind = "vector" -> e.n [] e.kind = "quaternion" -> 4 [] OTHER -> e.n * e.m] /\ UNCHANGED <<on, ini, scen, lg>>
Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ on /\ \/ e.op = "ini" /\ Ini(e)
                  \/ ini # <<>> /\ e.op = "get" /\ Get(e)
                  \/ e.op = "csv" /\ Csv(e)
                  \/ e.op = "scen" /\ Scen(e)
                  \/ scen # <<>> /\ e.op = "ask" /\ Ask(e)
                  \/ e.op = "title" /\ TitleOp(e)
                  \/ lg = <<>> /\ e.op = "log" /\ NewLog(e)
                  \/ lg # <<>> /\ \/ e.op = "add" /\ L([lg[1] EXCEPT !.list = Append(@, e.c)])
                                  \/ e.op = "clear" /\ L([lg[1] EXCEPT !.list = <<>>])
                                  \/ e.op = "flag" /\ L([lg[1] EXCEPT !.m[e.c].en = e.b])
                                  \/ e.op = "enable" /\ L([lg[1] EXCEPT !.en = e.b])
                                  \/ e.op = "copy" /\ CopyF(e)
                                  \/ e.op \in {"head", "vals"} /\ Write(e)
                                  \/ e.op = "close" /\ Close(e)
Match(e, o) == e.r = o
=============================================================================
