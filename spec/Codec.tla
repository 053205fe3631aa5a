-------------------------------- MODULE Codec --------------------------------
(* Encoders and decoders of codecs without loss, one after the other; audio    *)
(* resamplers and video reformatters that keep the format: what comes out is   *)
(* what went in, at its time; a change of the frame rate repeats or leaves out *)
(* frames evenly.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
BAD == -88888
\* skip: packets that are lost before the decoder gets the first one
Base == [b |-> "", from |-> 10, to |-> 10, skip |-> 0]
CfgsChain == { [Base EXCEPT !.b = b, !.skip = k] : b \in {"pcm", "raw"}, k \in {0, 2} } \cup { [Base EXCEPT !.b = "resample"] }
CfgsRate == { [b |-> "rate", from |-> r[1], to |-> r[2], skip |-> 0] : r \in { <<10, 10>>, <<20, 10>>, <<10, 20>>, <<20, 50>>, <<10, 25>>, <<20, 25>>, <<40, 10>> } }
Cfgs == CfgsChain \cup CfgsRate
Lens == <<4, 1, 7, 2, 12, 3>>     \* samples of audio chunks, one per ms
Video(cfg) == cfg.b \in {"raw", "rate"}
Len1(cfg, v) == IF Video(cfg) THEN 1000 \div cfg.from ELSE Lens[v]
Init0(cfg) == [cfg |-> cfg, out |-> <<>>, pz |-> FALSE, t |-> 0, t0 |-> -1, acc |-> 0, low |-> 0, k |-> 0]
Rate(st, m) ==
  LET s0 == IF st.t0 < 0 THEN [st EXCEPT !.t0 = m.ts] ELSE st
      a == s0.acc + s0.cfg.to n == a \div s0.cfg.from s1 == [s0 EXCEPT !.acc = a % s0.cfg.from] IN
  IF n = 0 THEN s1 ELSE
  LET pin == ((m.ts - s1.t0) * s1.cfg.from) \div 1000 p == Max({(pin * s1.cfg.to) \div s1.cfg.from, s1.low}) IN
  [s1 EXCEPT !.low = p + n, !.out = @ \o [i \in 1..n |-> <<((p + i - 1) * 1000) \div s1.cfg.to + s1.t0, m.v>>]]
Step(st, m) ==
  IF m.k = "data" THEN LET s1 == [st EXCEPT !.t = m.nx, !.k = IF m.v = BAD THEN @ ELSE @ + 1] IN
    IF m.v = BAD THEN s1 ELSE IF st.cfg.b = "rate" THEN Rate(s1, m) ELSE IF s1.k <= st.cfg.skip THEN s1 ELSE [s1 EXCEPT !.out = Append(@, <<m.ts, m.v>>)]
  ELSE IF m.k = "ctl" THEN [st EXCEPT !.pz = (m.v = 1)]
  ELSE st       \* invalid messages, at the first block (junk) or between the two (noise)
Apply(st, e) == IF e.k = "stop" THEN st ELSE FoldLeft(Step, [st EXCEPT !.out = <<>>], e.ms)
HasPause(st) == st.cfg.b \in {"resample", "rate"}
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"B11_op"} ELSE
  IF e.k = "stop" THEN C(e.obs.ends = 1, "B11_ends") ELSE
  LET s1 == Apply(st, e) o == e.obs IN
  C(o.out = s1.out, "B11_out") \cup C(o.bad = <<>>, "B11_content") \cup C(~HasPause(st) \/ (o.paused = 1) = s1.pz, "B11_paused")
\* ---------------------------------------------------------------- operations
D(st, ts, v) == [k |-> "data", ts |-> ts, v |-> v, nx |-> ts + Len1(st.cfg, IF v = BAD THEN 1 ELSE v)]
X(k, v) == [k |-> k, ts |-> -1, v |-> v, nx |-> -1]
Op(st, ms) == [k |-> "msgs", ms |-> ms, need |-> Len(Apply(st, [k |-> "msgs", ms |-> ms]).out)]
Gaps(st) == IF st.cfg.b = "rate" THEN {0, 7, 30} ELSE IF st.cfg.b = "raw" THEN {0, 100, 300} ELSE {0, 5}
Ops(st) ==
  { Op(st, <<D(st, st.t + g, v)>>) : g \in Gaps(st), v \in {1, 2, BAD} }
  \cup { Op(st, <<X(k, 0)>>) : k \in {"junk", "noise"} }
  \cup { Op(st, <<X("ctl", v)>>) : v \in IF HasPause(st) THEN {0, 1} ELSE {} }
RECURSIVE Many(_, _, _)
Many(st, t, n) == IF n = 0 THEN <<>> ELSE
  With(<<RandomElement(1..20), RandomElement(1..6), RandomElement(1..3)>>, LAMBDA x :
    IF x[1] = 1 THEN <<X(IF x[3] = 1 THEN "noise" ELSE "junk", 0)>> \o Many(st, t, n - 1)
    ELSE LET g == IF x[1] <= 5 THEN RandomElement(Gaps(st)) ELSE 0 IN
         With(D(st, t + g, IF x[1] = 2 THEN BAD ELSE x[2]), LAMBDA d : <<d>> \o Many(st, d.nx, n - 1)))
GenOps(st) ==
  With(<<RandomElement(1..8), RandomElement({0, 1}), RandomElement({1, 2, 4, 8, 16})>>, LAMBDA r :
  IF r[1] = 1 /\ HasPause(st) THEN { Op(st, <<X("ctl", r[2])>>) }
  ELSE With(Many(st, st.t, r[3]), LAMBDA ms : { Op(st, ms) }))
\* in order; a changed rate gives its share of frames
Inv(st) ==
  /\ \A i \in 1..Len(st.out) : i > 1 => st.out[i][1] > st.out[i - 1][1]
  /\ st.cfg.b = "rate" => st.acc \in 0..st.cfg.from - 1
=============================================================================
