-------------------------------- MODULE Media --------------------------------
(* Blocks that process chunks in a thread of their own: the audio volume       *)
(* scaler, the audio volume meter, the video activity meter, the video layout. *)
(* Whatever the thread does and whenever: what is sent is a function of what   *)
(* was received before, in order.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NT == 2
S == INSTANCE Sync WITH N <- NT
BAD == -88888
Base == [b |-> "", sync |-> FALSE, nt |-> 1, pr |-> <<0, 0, 0, 0, 0, 0>>, block |-> TRUE, d |-> 2, lim |-> 0, w |-> 4, g |-> <<>>]
\* d: default scale in halves, lim: largest sample; w: window; g: input and output size, place (height, width each)
CfgsScale == { [Base EXCEPT !.b = "scale", !.sync = s, !.nt = 2, !.d = d, !.lim = l] : s \in BOOLEAN, d \in {2, 1, 0}, l \in {0, 32767} }
CfgsVolume == { [Base EXCEPT !.b = "volume", !.w = w] : w \in {1, 3, 4, 6} }
CfgsActive == { [Base EXCEPT !.b = "active"] }
CfgsLayout == { [Base EXCEPT !.b = "layout", !.g = g] : g \in { <<2, 3, 4, 5, 1, 1>>, <<2, 3, 2, 3, 0, 0>>, <<3, 3, 4, 4, 2, 3>>, <<2, 2, 3, 4, 0, 3>>, <<3, 2, 2, 4, 1, 0>> } }
Cfgs == CfgsScale \cup CfgsVolume \cup CfgsActive \cup CfgsLayout
Samples == << <<2, 4, -6, 8>>, <<20000, -20000, 30000, -30000, 4>>, <<32766, -32768>>, <<10>>, <<>>, <<100, -200, 300, 400, -500, 600, 700>> >>
Scales == {0, 1, 2, 3, 4, -2, 200}
\* quarters of the largest sample
Levels == << <<1, 1, 4>>, <<4, -4>>, <<1>>, <<4, 4, 4, 4, 4>>, <<>>, <<1, -1, 1, -4, 1, 1, 4, 4, -1, 1, 1>>, <<-4, 1>> >>
Frames == << <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 0, 10, 3>>, <<128, 127, 0, 255>>, <<255, 255, 255, 255>>, <<0, 1, 2, 3>> >>
Vals(st, t) == CASE st.cfg.b = "scale" -> IF t = 2 THEN Scales ELSE 1..Len(Samples) [] st.cfg.b = "volume" -> 1..Len(Levels) [] st.cfg.b = "active" -> 1..Len(Frames) [] OTHER -> 1..9
Init0(cfg) == [cfg |-> cfg, sy |-> S!Init0(cfg), n |-> 0, out |-> <<>>, pz |-> FALSE, scale |-> cfg.d, buf |-> <<>>, last |-> <<>>, q |-> [t \in 1..NT |-> 0]]
Send(st, ts, v) == [st EXCEPT !.out = Append(@, <<ts, v>>)]
Abs(x) == IF x < 0 THEN -x ELSE x
Scaled(st, x) == LET y == (x * st.scale) \div 2 IN IF st.cfg.lim = 0 THEN y ELSE IF y > st.cfg.lim THEN st.cfg.lim ELSE IF y < -st.cfg.lim - 1 THEN -st.cfg.lim - 1 ELSE y
Sum(q) == FoldLeft(LAMBDA a, x : a + Abs(x), 0, q)
\* one value per window, at the time of its first sample; the last window is told once there is more
RECURSIVE Windows(_, _)
Windows(st, ts) == IF Len(st.buf) <= st.cfg.w THEN st
  ELSE Windows([Send(st, ts, <<Sum(SubSeq(st.buf, 1, st.cfg.w))>>) EXCEPT !.buf = SubSeq(@, st.cfg.w + 1, Len(@))], ts + st.cfg.w)
\* what is at a place of the output: 0 nothing, else frame * 100 + row * 10 + column
Pixel(g, f, y, x) == LET r == y - g[5] c == x - g[6] IN IF r \in 0..g[1] - 1 /\ c \in 0..g[2] - 1 THEN f * 100 + r * 10 + c ELSE 0
Placed(g, f) == [i \in 1..g[3] * g[4] |-> Pixel(g, f, (i - 1) \div g[4], (i - 1) % g[4])]
Meter(st) == st.cfg.b \in {"volume", "active"}
Step(st, t, m) ==
  IF t = 2 THEN (CASE m.k = "ctl" -> IF m.v = 1 THEN [st EXCEPT !.scale = st.cfg.d] ELSE st
                   [] m.k = "data" /\ m.x # BAD -> [st EXCEPT !.scale = m.x]
                   [] OTHER -> [st EXCEPT !.scale = st.cfg.d])
  ELSE CASE m.k = "ctl" -> LET s1 == [st EXCEPT !.pz = (m.v = 1)] IN IF Meter(st) /\ m.v = 1 THEN Send(s1, -1, <<0>>) ELSE s1
         [] m.k = "data" /\ m.x # BAD ->
            (CASE st.cfg.b = "scale" -> Send(st, m.ts, [i \in 1..Len(Samples[m.x]) |-> Scaled(st, Samples[m.x][i])])
               [] st.cfg.b = "volume" -> Windows([st EXCEPT !.buf = @ \o Levels[m.x]], m.ts - Len(st.buf))
               [] st.cfg.b = "active" -> LET f == Frames[m.x] s1 == [st EXCEPT !.last = f] IN
                                         IF st.last = <<>> THEN s1 ELSE Send(s1, m.ts, <<Sum([i \in 1..Len(f) |-> f[i] - st.last[i]])>>)
               [] OTHER -> Send(st, m.ts, Placed(st.cfg.g, m.x)))
         [] OTHER -> st
Steps(st, q) == FoldLeft(LAMBDA s, x : Step(s, x[1], x[2]), st, q)
Deliver(st0, t, m) ==
  LET e == [k |-> m.k, t |-> t, ts |-> m.ts, n |-> m.n, v |-> m.v, x |-> m.v]
      st == IF m.k = "data" THEN [st0 EXCEPT !.q[t] = m.ts \div 20] ELSE st0 IN
  IF st.cfg.sync THEN S!With(S!Exact(st.sy, e), LAMBDA sy1 : Steps([st EXCEPT !.sy = sy1], sy1.seq))
  ELSE Step(st, t, e)
Apply(st, e) == IF e.k = "stop" THEN st ELSE LET s1 == FoldLeft(LAMBDA s, x : Deliver(s, x.t, x.m), [st EXCEPT !.out = <<>>], e.ms) IN [s1 EXCEPT !.n = @ + Len(e.ms)]
C(b, name) == IF b THEN {} ELSE {name}
\* obs: out <<time, values>>, paused, bad, ends (the block ended within seconds when it was stopped)
Check(st, e) ==
  IF e.k = "opfail" THEN {"B09_op"} ELSE
  IF e.k = "stop" THEN C(e.obs.ends = 1, "B09_ends") ELSE
  S!With(Apply(st, e), LAMBDA s1 : LET o == e.obs IN
  C(o.out = s1.out, "B09_out") \cup C(o.bad = <<>>, "B09_content") \cup C((o.paused = 1) = s1.pz, "B09_paused"))
\* ---------------------------------------------------------------- operations
D(st, t, q, v, i) == [k |-> "data", ts |-> 20 * q + t, n |-> st.n + i, v |-> v]
X(st, k, v, i) == [k |-> k, ts |-> -1, n |-> st.n + i, v |-> v]
Op(st, ms) == [k |-> "msgs", ms |-> ms, need |-> Len(Apply(st, [k |-> "msgs", ms |-> ms]).out)]
One(st, t, m) == Op(st, << [t |-> t, m |-> m] >>)
Few(st, t) == IF st.cfg.b = "scale" /\ t = 2 THEN {0, 3} ELSE {1, 2}
Ops(st) ==
  { One(st, t, D(st, t, Max({st.q[u] : u \in 1..NT}) + 1, v, 1)) : t \in 1..st.cfg.nt, v \in {1, 2} }
  \cup { One(st, t, X(st, "ctl", v, 1)) : t \in {u \in 1..st.cfg.nt : ~st.cfg.sync \/ S!Calm(st.sy, u)}, v \in {0, 1} }
  \cup { One(st, t, X(st, "junk", 0, 1)) : t \in 1..st.cfg.nt }
RECURSIVE Many(_, _, _, _)
Many(st, q, i, n) == IF n = 0 THEN <<>> ELSE
  S!With(<<RandomElement(1..st.cfg.nt), RandomElement(1..20), RandomElement(0..2)>>, LAMBDA x :
    IF x[2] = 1 THEN << [t |-> x[1], m |-> X(st, "junk", 0, i)] >> \o Many(st, q, i + 1, n - 1)
    ELSE IF x[2] = 2 THEN << [t |-> x[1], m |-> D(st, x[1], q + x[3], BAD, i)] >> \o Many(st, q + x[3] + 1, i + 1, n - 1)
    ELSE << [t |-> x[1], m |-> D(st, x[1], q + x[3], RandomElement(Vals(st, x[1])), i)] >> \o Many(st, q + x[3] + 1, i + 1, n - 1))
GenOps(st) ==
  S!With(<<RandomElement(1..8), RandomElement(1..st.cfg.nt), RandomElement({0, 0, 1}), RandomElement({1, 2, 4, 8, 16})>>, LAMBDA r :
  IF r[1] = 1 /\ (~st.cfg.sync \/ S!Calm(st.sy, r[2])) THEN { One(st, r[2], X(st, "ctl", r[3], 1)) }
  ELSE S!With(Many(st, Max({st.q[u] : u \in 1..NT}) + 1, 1, r[4]), LAMBDA ms : { Op(st, ms) }))
Inv(st) ==
  /\ Len(st.buf) <= st.cfg.w
  /\ \A i \in 1..Len(st.out) : i > 1 => st.out[i][1] = -1 \/ st.out[i][1] > st.out[i - 1][1] \/ st.cfg.b = "volume"
  /\ st.cfg.b = "scale" /\ st.cfg.lim > 0 => \A i \in 1..Len(st.out) : \A x \in Range(st.out[i][2]) : x \in -st.cfg.lim - 1..st.cfg.lim
=============================================================================
