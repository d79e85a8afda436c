------------------------------- MODULE VTLib -------------------------------
(* Small helpers shared by the specifications.                               *)
EXTENDS Integers, Sequences, FiniteSets
Last(s) == s[Len(s)]
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SeqRange(s) == {s[i] : i \in 1..Len(s)}
RemoveAt1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyFn == [x \in {} |-> 0]
\* truncated (C-like) integer division for any sign of a, b > 0
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Near(a, b, tol) == Abs(a - b) <= tol
SafeBad == -2147483647
OkNum(x) == Abs(x) < 2147483001
=============================================================================
