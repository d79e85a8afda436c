-------------------------------- MODULE Clock --------------------------------
(* Component scheduling: a clock generator ticks the registered components,
   each gated by its prescaler, its optional fast prescaler and its power port.
   Anchors: environment/global/clock_generator.*, components/base/component.*,
   components/base/interface_tickable.hpp.                                     *)
EXTENDS VTLib, TLC
VARIABLES made,    \* the scheduler exists
          comp,    \* live components: id -> [pre, fpre, fast, port]
          reg,     \* registration list, in order (ids, duplicates possible)
          count,   \* tick index
          power,   \* power ports: id -> on/off  (port 0: built-in, always on)
          n, c,    \* component period in steps, phase counter of the component flag
          out      \* observable result of the last operation
vars == <<made, comp, reg, count, power, n, c, out>>

Init == /\ made = FALSE /\ comp = EmptyFn /\ reg = <<>> /\ count = 0
        /\ power = EmptyFn /\ n = 1 /\ c = 0 /\ out = [ok |-> TRUE]

Reset(e) == /\ made' = TRUE /\ comp' = EmptyFn /\ reg' = <<>> /\ count' = 0
            /\ power' = (0 :> TRUE) /\ n' = e.n /\ c' = 1
            /\ out' = [ok |-> TRUE]

Port(e) == /\ power' = Put(power, e.p, e.on)
           /\ out' = [on |-> e.on]
           /\ UNCHANGED <<made, comp, reg, count, n, c>>

AtLeast1(x) == IF x > 0 THEN x ELSE 1

New(e) == /\ e.c \notin DOMAIN comp /\ e.p \in DOMAIN power
          /\ comp' = Put(comp, e.c, [pre |-> AtLeast1(e.pre), fpre |-> AtLeast1(e.fpre), fast |-> e.fast, port |-> e.p])
          /\ reg' = Append(reg, e.c)
          /\ out' = [ok |-> TRUE]
          /\ UNCHANGED <<made, count, power, n, c>>

(* A copy is a component of its own: same settings, same power port, registered after everything else. *)
Copy(e) == /\ e.c \in DOMAIN comp /\ e.d \notin DOMAIN comp
           /\ comp' = Put(comp, e.d, comp[e.c])
           /\ reg' = Append(reg, e.d)
           /\ out' = [ok |-> TRUE]
           /\ UNCHANGED <<made, count, power, n, c>>

FirstIdx(x) == CHOOSE i \in 1..Len(reg) : reg[i] = x /\ \A j \in 1..(i-1) : reg[j] # x
Without(x) == IF x \in SeqRange(reg) THEN RemoveAt1(reg, FirstIdx(x)) ELSE reg

Delete(e) == /\ e.c \in DOMAIN comp
             /\ Cardinality({i \in 1..Len(reg) : reg[i] = e.c}) <= 1   \* a doubly registered component must be unregistered first
             /\ comp' = Drop(comp, e.c)
             /\ reg' = Without(e.c)
             /\ out' = [ok |-> TRUE]
             /\ UNCHANGED <<made, count, power, n, c>>

Register(e) == /\ e.c \in DOMAIN comp
               /\ reg' = Append(reg, e.c)
               /\ out' = [ok |-> TRUE]
               /\ UNCHANGED <<made, comp, count, power, n, c>>

Unregister(e) == /\ e.c \in DOMAIN comp
                 /\ reg' = Without(e.c)
                 /\ out' = [ok |-> TRUE]
                 /\ UNCHANGED <<made, comp, count, power, n, c>>

SetFast(e) == /\ e.c \in DOMAIN comp
              /\ comp' = Put(comp, e.c, [comp[e.c] EXCEPT !.fast = e.fast])
              /\ out' = [ok |-> TRUE]
              /\ UNCHANGED <<made, reg, count, power, n, c>>

(* What one component does in the tick of index k: <<id, kind, argument>>, kind 1 main routine, 2 power-off routine, 3 fast update. *)
Calls(x, k) ==
  LET m == comp[x]
      main == IF k % m.pre # 0 THEN <<>> ELSE IF power[m.port] THEN <<<<x, 1, k>>>> ELSE <<<<x, 2, 0>>>>
      fast == IF ~m.fast \/ k % m.fpre # 0 THEN <<>> ELSE IF power[m.port] THEN <<<<x, 3, 0>>>> ELSE <<<<x, 2, 0>>>>
  IN main \o fast
RECURSIVE AllCalls(_, _)
AllCalls(s, k) == IF s = <<>> THEN <<>> ELSE Calls(Head(s), k) \o AllCalls(Tail(s), k)

Tick(e) == /\ out' = [calls |-> AllCalls(reg, count)]
           /\ count' = count + 1
           /\ UNCHANGED <<made, comp, reg, power, n, c>>

(* One simulation step: the components run only in the steps whose component flag is raised. *)
Step(e) == LET fire == c + 1 >= n
           IN /\ c' = IF fire THEN 0 ELSE c + 1
              /\ out' = [calls |-> IF fire THEN AllCalls(reg, count) ELSE <<>>, flag |-> fire]
              /\ count' = IF fire THEN count + 1 ELSE count
              /\ UNCHANGED <<made, comp, reg, power, n>>

Clear(e) == /\ count' = 0 /\ out' = [ok |-> TRUE]
            /\ UNCHANGED <<made, comp, reg, power, n, c>>

Do(e) == \/ e.op = "reset" /\ Reset(e)
         \/ made /\ \/ e.op = "port" /\ Port(e)
                    \/ e.op = "new" /\ New(e)
                    \/ e.op = "copy" /\ Copy(e)
                    \/ e.op = "del" /\ Delete(e)
                    \/ e.op = "reg" /\ Register(e)
                    \/ e.op = "unreg" /\ Unregister(e)
                    \/ e.op = "fast" /\ SetFast(e)
                    \/ e.op = "tick" /\ Tick(e)
                    \/ e.op = "step" /\ Step(e)
                    \/ e.op = "clear" /\ Clear(e)
Match(e, o) == e.r = o
=============================================================================
