-------------------------------- MODULE Mixer --------------------------------
(* The audio mixer: what is heard at an instant is the sum of what the tracks  *)
(* have at this instant.  One sample per unit of time.  A track is a stretch   *)
(* of samples without holes (silence fills them), read from the front; what is *)
(* there already is not replaced by later chunks.                              *)
(* Synchronized tracks are read in the order of Sync.tla.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NT == 3
S == INSTANCE Sync WITH N <- NT
BAD == -88888
\* keep: samples a track holds back, whole: streams without gaps (those may be stretched)
Cfgs == { [sync |-> s, nt |-> n, pr |-> <<0, 0, 0, 0, 0, 0>>, keep |-> k, whole |-> w, block |-> TRUE, ch |-> c] : s \in BOOLEAN, n \in 1..3, k \in {0, 3}, w \in BOOLEAN, c \in 1..2 }
MCfgs == { [sync |-> s, nt |-> n, pr |-> <<0, 0, 0, 0, 0, 0>>, keep |-> k, whole |-> FALSE, block |-> TRUE, ch |-> 1] : s \in BOOLEAN, n \in 1..2, k \in {0, 3} }
Chunks == << <<1, 2, 3, 4, 5, 6, 7, 8>>, <<10, 10, 10, 10, -10, -10, -10, -10>>, <<5, -5>>, <<7>>, <<>>, <<100, 200, 300, 400, -300>> >>
Off == [on |-> FALSE, st |-> 0, b |-> <<>>]
Init0(cfg) == [cfg |-> cfg, sy |-> S!Init0(cfg), n |-> 0, out |-> <<>>, pz |-> [t \in 1..NT |-> FALSE], tr |-> [t \in 1..NT |-> Off], e |-> 0,
               lq |-> [t \in 1..NT |-> -1], fresh |-> [t \in 1..NT |-> TRUE]]
Ns(st) == 1..st.cfg.nt
End(r) == r.st + Len(r.b)
Zeros(n) == [i \in 1..n |-> 0]
Insert(r, t, xs) == IF ~r.on THEN [on |-> TRUE, st |-> t, b |-> xs] ELSE [r EXCEPT !.b = @ \o (IF t > End(r) THEN Zeros(t - End(r)) ELSE <<>>) \o SubSeq(xs, 1 + Max({0, End(r) - t}), Len(xs))]
At(r, t) == IF r.on /\ t >= r.st /\ t < End(r) THEN r.b[t - r.st + 1] ELSE 0
\* everything before to is taken from a track
Taken(r, to) == IF ~r.on THEN r ELSE LET k == Min({Max({0, to - r.st}), Len(r.b)}) IN [r EXCEPT !.st = @ + k, !.b = SubSeq(@, k + 1, Len(@))]
Mix(st) ==
  LET U == {t \in Ns(st) : ~st.pz[t]} IN
  IF U = {} \/ \E t \in U : ~st.tr[t].on THEN st ELSE
  LET from == Min({st.tr[t].st : t \in U}) to == Min({End(st.tr[t]) : t \in U}) - st.cfg.keep IN
  IF to <= from THEN st ELSE
  [st EXCEPT !.out = @ \o [i \in 1..(to - from) |-> <<from + i - 1, FoldLeft(LAMBDA a, t : a + At(st.tr[t], from + i - 1), 0, [t \in 1..st.cfg.nt |-> t])>>],
             !.e = to,
             !.tr = [t \in 1..NT |-> LET r == Taken(@[t], to) IN IF st.pz[t] /\ r.b = <<>> THEN Off ELSE r]]
Step(st, t, m) ==
  IF m.k = "ctl" THEN (IF st.pz[t] /\ m.v = 0 THEN [st EXCEPT !.pz[t] = FALSE, !.tr[t] = Off, !.fresh[t] = TRUE] ELSE [st EXCEPT !.pz[t] = (m.v = 1)])
  ELSE IF m.k # "data" \/ m.x = BAD THEN st
  ELSE Mix([st EXCEPT !.tr[t] = Insert(@, m.ts, Chunks[m.x])])
Steps(st, q) == FoldLeft(LAMBDA s, x : Step(s, x[1], x[2]), st, q)
Deliver(st0, t, m) ==
  LET e == [k |-> m.k, t |-> t, ts |-> m.ts, n |-> m.n, v |-> m.v, x |-> m.v]
      st == IF m.k = "data" THEN [st0 EXCEPT !.lq[t] = Max({@, (m.ts - t) \div 8}), !.fresh[t] = FALSE] ELSE st0 IN
  IF st.cfg.sync THEN S!With(S!Exact(st.sy, e), LAMBDA sy1 : Steps([st EXCEPT !.sy = sy1], sy1.seq))
  ELSE Step(st, t, e)
Apply(st, e) == LET s1 == FoldLeft(LAMBDA s, m : Deliver(s, e.t, m), [st EXCEPT !.out = <<>>], e.ms) IN [s1 EXCEPT !.n = @ + Len(e.ms)]
C(b, name) == IF b THEN {} ELSE {name}
\* obs: out <<time, value>> per sample, bad
Check(st, e) ==
  IF e.k = "opfail" THEN {"B08_op"} ELSE
  S!With(Apply(st, e), LAMBDA s1 : LET o == e.obs IN
  C(o.out = s1.out, "B08_mix") \cup C(o.bad = <<>>, "B08_content"))
\* ---------------------------------------------------------------- operations
D(st, t, q, v, i) == [k |-> "data", ts |-> 8 * q + t, n |-> st.n + i, v |-> v]
X(st, k, v, i) == [k |-> k, ts |-> -1, n |-> st.n + i, v |-> v]
MaxLq(st) == Max({st.lq[t] : t \in Ns(st)})
Q0(st, t) == IF st.fresh[t] THEN Max({st.lq[t] + 1, st.e \div 8 + 1, IF st.cfg.sync THEN MaxLq(st) + 1 ELSE 0}) ELSE st.lq[t] + 1
SyOp(st, t) == ~st.cfg.sync \/ S!Calm(st.sy, t)
Vs(st) == IF st.cfg.whole THEN {1, 2} ELSE 1..6
\* chunks that begin before the end of their track
CanLap(st, t) == ~st.cfg.sync /\ ~st.cfg.whole /\ st.tr[t].on /\ st.lq[t] > 2
Lap(m, g) == [m EXCEPT !.ts = @ - g]
Ops(st) ==
  { [k |-> "msgs", t |-> t, ms |-> <<D(st, t, Q0(st, t) + g, v, 1)>>] : t \in Ns(st), g \in {0, 1}, v \in {1, 4} }
  \cup { [k |-> "msgs", t |-> t, ms |-> <<Lap(D(st, t, st.lq[t], 1, 1), g)>>] : t \in {u \in Ns(st) : CanLap(st, u)}, g \in {3, 9} }
  \cup { [k |-> "msgs", t |-> t, ms |-> <<X(st, "ctl", v, 1)>>] : t \in {u \in Ns(st) : SyOp(st, u)}, v \in {0, 1} }
  \cup { [k |-> "msgs", t |-> t, ms |-> <<X(st, "junk", 0, 1)>>] : t \in Ns(st) }
RECURSIVE Many(_, _, _, _, _)
Many(st, t, q, i, n) == IF n = 0 THEN <<>> ELSE
  S!With(<<RandomElement(1..8), RandomElement(Vs(st)), RandomElement(1..20)>>, LAMBDA x :
    IF x[3] = 1 THEN <<X(st, "junk", 0, i)>> \o Many(st, t, q, i + 1, n - 1)
    ELSE LET g == IF st.cfg.whole /\ ~(i = 1 /\ st.fresh[t]) THEN 0 ELSE IF x[1] = 1 THEN 2 ELSE IF x[1] = 2 THEN 1 ELSE 0
             v == IF x[3] = 2 /\ ~st.cfg.whole THEN BAD ELSE x[2] IN
         <<D(st, t, q + g, v, i)>> \o Many(st, t, q + g + 1, i + 1, n - 1))
GenOps(st) ==
  S!With(<<RandomElement(1..24), RandomElement(Ns(st)), RandomElement({0, 0, 1}), RandomElement({1, 1, 2, 3, 6})>>, LAMBDA r :
  LET slow == CHOOSE t \in Ns(st) : st.lq[t] = Min({st.lq[u] : u \in Ns(st)}) t == IF r[1] > 16 THEN slow ELSE r[2] IN
  IF r[1] <= 3 /\ SyOp(st, t) THEN { [k |-> "msgs", t |-> t, ms |-> <<X(st, "ctl", r[3], 1)>>] }
  ELSE IF r[1] \in 4..6 /\ CanLap(st, t) THEN { [k |-> "msgs", t |-> t, ms |-> <<Lap(D(st, t, st.lq[t] + 1, v, 1), g)>>] : g \in {1, 4, 9, 14, 20}, v \in {1, 2, 3, 6} }
  ELSE S!With(Many(st, t, Q0(st, t), 1, r[4]), LAMBDA ms : { [k |-> "msgs", t |-> t, ms |-> ms] }))
Inv(st) ==
  /\ \A i \in 1..Len(st.out) : i > 1 => st.out[i][1] > st.out[i - 1][1]
  /\ \A t \in Ns(st) : st.tr[t].on /\ ~st.pz[t] /\ st.cfg.keep = 0 /\ st.e > 0 => st.tr[t].st >= st.e \/ st.tr[t].b = <<>> \/ \E u \in Ns(st) : st.pz[u]
=============================================================================
