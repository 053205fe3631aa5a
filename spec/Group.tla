-------------------------------- MODULE Group -------------------------------
(* A group of background tasks with priorities (utils.py AsyncTaskManager).   *)
(* cancel_all works in rounds: the live tasks of the lowest priority get a    *)
(* cancellation; the next round starts when all of them are over, or after    *)
(* the timeout.  It is done when nothing is left.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Ids == 1..8
\* how a task reacts to cancellations: "end" at the first one, "err" with an error, "res1"/"res2" ignores one/two, "hold" ignores all,
\* "spawn" creates a task of priority p2 in the group and ends
Modes == {"end", "err", "res1", "res2", "hold", "spawn"}
Cfgs == { 0 }
None == [p |-> 0, m |-> "none", s |-> "none", p2 |-> 0]
Init0(cfg) == [ t |-> [i \in Ids |-> None], n |-> 0, canc |-> FALSE, batch |-> {}, got |-> {},
                wset |-> {} ]      \* somebody waits for these tasks
Alive(st) == {i \in Ids : st.t[i].s = "on"}
New(st, p, m, p2) == [st EXCEPT !.n = @ + 1, !.t[st.n + 1] = [p |-> p, m |-> m, s |-> "on", p2 |-> p2]]
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
\* one cancellation to task i
Hit1(st, i) ==
  LET m == st.t[i].m s0 == [st EXCEPT !.got = @ \cup {i}] IN
  CASE m = "hold" -> s0
    [] m = "res1" -> [s0 EXCEPT !.t[i].m = "end"]
    [] m = "res2" -> [s0 EXCEPT !.t[i].m = "res1"]
    [] m = "spawn" /\ st.n < 8 -> New([s0 EXCEPT !.t[i].s = "over"], st.t[i].p2, "end", 0)
    [] OTHER -> [s0 EXCEPT !.t[i].s = "over"]
RECURSIVE HitAll(_, _)
HitAll(st, s) == IF s = <<>> THEN st ELSE With(Hit1(st, Head(s)), LAMBDA x : HitAll(x, Tail(s)))
RECURSIVE Round(_)
\* begin rounds until one has to wait
Round(st) ==
  LET A == Alive(st) IN
  IF A = {} THEN [st EXCEPT !.canc = FALSE, !.batch = {}]
  ELSE LET lo == Min({st.t[i].p : i \in A}) B == {i \in A : st.t[i].p = lo} IN
       With(HitAll([st EXCEPT !.batch = B], SetToSortSeq(B, <)), LAMBDA x : IF B \cap Alive(x) = {} THEN Round(x) ELSE x)
Cont(st) == IF st.canc /\ st.batch \cap Alive(st) = {} THEN Round(st) ELSE st
Over(st, i) == Cont([st EXCEPT !.t[i].s = "over"])
Step(st0, e) ==
  LET st == [st0 EXCEPT !.got = {}] IN
  CASE e.k = "create" -> New(st, e.p, e.m, e.p2)
    [] e.k = "finish" -> Over(st, e.i)
    [] e.k = "fail" -> Over(st, e.i)
    [] e.k = "cancel" -> Round([st EXCEPT !.canc = TRUE])
    [] e.k = "wait" -> [st EXCEPT !.wset = Alive(st)]
    [] e.k = "giveup" -> Round([st EXCEPT !.canc = TRUE, !.wset = {}])     \* to cancel a wait is to cancel the group
    [] e.k = "tick" -> IF st.canc THEN Round(st) ELSE st
    [] OTHER -> st
Apply(st, e) == Step(st, e)
Waiting(st) == st.wset \cap Alive(st) # {}
Ops(st) ==
  { [k |-> "create", p |-> p, m |-> m, p2 |-> p2] : p \in IF st.n < 8 THEN 0..2 ELSE {}, m \in Modes \ (IF \E i \in Alive(st) : st.t[i].m = "spawn" THEN {"spawn"} ELSE {}), p2 \in 0..2 }
  \cup { [k |-> x, i |-> i] : x \in {"finish", "fail"}, i \in Alive(st) }
  \cup (IF st.canc THEN {} ELSE { [k |-> "cancel"] } \cup (IF Waiting(st) THEN { [k |-> "giveup"] } ELSE IF Alive(st) # {} THEN { [k |-> "wait"] } ELSE {})) \cup { [k |-> "tick"] }
GenOps(st) ==
  LET O == Ops(st) r == RandomElement(1..10) K(ks) == {o \in O : o.k \in ks} pick(S) == IF S = {} THEN {RandomElement(K({"tick"}))} ELSE {RandomElement(S)} IN
  CASE r <= 4 -> pick({o \in K({"create"}) : ~st.canc \/ RandomElement(1..2) = 1}) [] r = 5 -> pick(K({"finish", "fail"})) [] r = 6 -> pick(K({"cancel"})) [] r = 7 -> pick(K({"wait", "giveup"})) [] OTHER -> IF st.canc THEN pick(K({"tick", "finish", "fail"})) ELSE pick(K({"create", "cancel"}))
Inv(st) == st.canc <=> (st.batch \cap Alive(st) # {})
C(b, name) == IF b THEN {} ELSE {name}
\* obs: over (tasks that are over), got (tasks cancelled in this step), busy (cancel_all still at work)
Check(st, e) ==
  IF e.k = "opfail" THEN {"U02_op"} ELSE
  LET s == Step(st, e) IN
  C(Range(e.obs.over) = {i \in Ids : s.t[i].s = "over"}, "U02_over") \cup C(Range(e.obs.got) = s.got, "U02_order") \cup C(e.obs.busy = s.canc, "U02_done")
  \cup C(e.obs.waiting = Waiting(s), "U02_wait")
=============================================================================
