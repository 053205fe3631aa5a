------------------------------ MODULE Pictures ------------------------------
(* The video mixer: the current frames of the tracks over each other, over the *)
(* background.  A picture is complete when a track that has given a frame to   *)
(* it gets the next one.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NT == 3
S == INSTANCE Sync WITH N <- NT
BAD == -88888
Bgs == { <<0, 0, 0>>, <<16, 32, 200>> }
Cfgs == { [sync |-> s, nt |-> n, pr |-> <<0, 0, 0, 0, 0, 0>>, block |-> TRUE, bg |-> b] : s \in BOOLEAN, n \in 1..3, b \in Bgs }
MCfgs == { [sync |-> s, nt |-> n, pr |-> <<0, 0, 0, 0, 0, 0>>, block |-> TRUE, bg |-> <<16, 32, 200>>] : s \in BOOLEAN, n \in 1..3 }
\* two pixels each: red, green, blue, opacity
Frames == << << <<10, 20, 30, 255>>, <<1, 2, 3, 0>> >>, << <<200, 100, 0, 128>>, <<255, 255, 255, 255>> >>, << <<0, 0, 0, 0>>, <<0, 0, 0, 0>> >>,
             << <<77, 0, 255, 51>>, <<9, 90, 250, 1>> >>, << <<250, 251, 252, 255>>, <<0, 255, 0, 254>> >> >>
None == [f |-> 0, ts |-> 0]
Init0(cfg) == [cfg |-> cfg, sy |-> S!Init0(cfg), n |-> 0, out |-> <<>>, cur |-> [t \in 1..NT |-> None], got |-> [t \in 1..NT |-> TRUE], q |-> [t \in 1..NT |-> 0]]
Ns(st) == 1..st.cfg.nt
Over(c, p) == [k \in 1..3 |-> ((255 - p[4]) * c[k] + p[4] * p[k]) \div 255]
Layers(st) == SelectSeq([t \in 1..st.cfg.nt |-> st.cur[t].f], LAMBDA f : f # 0)
Laid(st, i) == FoldLeft(LAMBDA c, f : Over(c, Frames[f][i]), st.cfg.bg, Layers(st))
Shown(st) == {t \in Ns(st) : st.cur[t].f # 0}
Complete(st) == [st EXCEPT !.got = [t \in 1..NT |-> FALSE],
                           !.out = IF Shown(st) = {} THEN @ ELSE Append(@, <<Min({st.cur[t].ts : t \in Shown(st)}), Laid(st, 1) \o Laid(st, 2)>>)]
Step(st, t, m) ==
  CASE m.k = "ctl" -> [st EXCEPT !.cur[t] = None]
    [] m.k = "data" /\ m.x # BAD -> [(IF st.got[t] THEN Complete(st) ELSE st) EXCEPT !.cur[t] = [f |-> m.x, ts |-> m.ts], !.got[t] = TRUE]
    [] OTHER -> st
Steps(st, q) == FoldLeft(LAMBDA s, x : Step(s, x[1], x[2]), st, q)
Deliver(st0, t, m) ==
  LET e == [k |-> m.k, t |-> t, ts |-> m.ts, n |-> m.n, v |-> m.v, x |-> m.v]
      st == IF m.k = "data" THEN [st0 EXCEPT !.q[t] = m.ts \div 4] ELSE st0 IN
  IF st.cfg.sync THEN S!With(S!Exact(st.sy, e), LAMBDA sy1 : Steps([st EXCEPT !.sy = sy1], sy1.seq))
  ELSE Step(st, t, e)
Apply(st, e) == IF e.k = "stop" THEN st ELSE LET s1 == FoldLeft(LAMBDA s, x : Deliver(s, x.t, x.m), [st EXCEPT !.out = <<>>], e.ms) IN [s1 EXCEPT !.n = @ + Len(e.ms)]
C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"B10_op"} ELSE
  IF e.k = "stop" THEN C(e.obs.ends = 1, "B10_ends") ELSE
  S!With(Apply(st, e), LAMBDA s1 : LET o == e.obs IN C(o.out = s1.out, "B10_out") \cup C(o.bad = <<>>, "B10_content"))
\* ---------------------------------------------------------------- operations
D(st, t, q, v, i) == [k |-> "data", ts |-> 4 * q + t, n |-> st.n + i, v |-> v]
X(st, k, v, i) == [k |-> k, ts |-> -1, n |-> st.n + i, v |-> v]
Op(st, ms) == [k |-> "msgs", ms |-> ms, need |-> Len(Apply(st, [k |-> "msgs", ms |-> ms]).out)]
One(st, t, m) == Op(st, << [t |-> t, m |-> m] >>)
Top(st) == Max({st.q[u] : u \in 1..NT})
Ops(st) ==
  { One(st, t, D(st, t, Top(st) + 1, v, 1)) : t \in Ns(st), v \in {1, 2} }
  \cup { One(st, t, X(st, "ctl", v, 1)) : t \in {u \in Ns(st) : ~st.cfg.sync \/ S!Calm(st.sy, u)}, v \in {0, 1} }
  \cup { One(st, t, X(st, "junk", 0, 1)) : t \in Ns(st) }
RECURSIVE Many(_, _, _, _)
Many(st, q, i, n) == IF n = 0 THEN <<>> ELSE
  S!With(<<RandomElement(Ns(st)), RandomElement(1..20), RandomElement(0..1)>>, LAMBDA x :
    IF x[2] = 1 THEN << [t |-> x[1], m |-> X(st, "junk", 0, i)] >> \o Many(st, q, i + 1, n - 1)
    ELSE IF x[2] = 2 THEN << [t |-> x[1], m |-> D(st, x[1], q + x[3], BAD, i)] >> \o Many(st, q + x[3] + 1, i + 1, n - 1)
    ELSE << [t |-> x[1], m |-> D(st, x[1], q + x[3], RandomElement(1..Len(Frames)), i)] >> \o Many(st, q + x[3] + 1, i + 1, n - 1))
\* all tracks at the same rate
RECURSIVE Round(_, _, _, _)
Round(st, ts, q, i) == IF ts = {} THEN <<>> ELSE
  LET t == CHOOSE u \in ts : TRUE IN << [t |-> t, m |-> D(st, t, q, RandomElement(1..Len(Frames)), i)] >> \o Round(st, ts \ {t}, q, i + 1)
GenOps(st) ==
  S!With(<<RandomElement(1..8), RandomElement(Ns(st)), RandomElement({0, 0, 1}), RandomElement({1, 2, 4, 8, 16})>>, LAMBDA r :
  IF r[1] = 1 /\ (~st.cfg.sync \/ S!Calm(st.sy, r[2])) THEN { One(st, r[2], X(st, "ctl", r[3], 1)) }
  ELSE IF r[1] <= 4 THEN S!With(Round(st, Ns(st), Top(st) + 1, 1), LAMBDA ms : { Op(st, ms) })
  ELSE S!With(Many(st, Top(st) + 1, 1, r[4]), LAMBDA ms : { Op(st, ms) }))
Inv(st) ==
  /\ \A i \in 1..Len(st.out) : \A c \in Range(st.out[i][2]) : c \in 0..255
  /\ \A t \in Ns(st) : st.cur[t].f # 0 => st.cur[t].ts > 0
=============================================================================
