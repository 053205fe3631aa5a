------------------------------ MODULE Buffers -------------------------------
(* Stream blocks driven by time: time buffer, replay buffer, repeater, message *)
(* detector, pulse generator.  Time is counted in units; every step is an      *)
(* input at time now followed by d units of waiting.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NOTS == -1000000       \* a message without a time
Inf == 100000000
Base == [b |-> "", ref |-> "clock", size |-> 0, loop |-> FALSE, rate |-> 0, fail |-> "open", tmo |-> 0, rep |-> 0]
CfgsTime == { [Base EXCEPT !.b = "time", !.ref = r, !.size = s] : r \in {"clock", "message"}, s \in {1, 12, 40, 250} }
CfgsReplay == { [Base EXCEPT !.b = "replay", !.loop = l] : l \in BOOLEAN }
CfgsRepeat == { [Base EXCEPT !.b = "repeat", !.rate = r, !.fail = f] : r \in {7, 25}, f \in {"open", "closed"} }
CfgsDetect == { [Base EXCEPT !.b = "detect", !.fail = f, !.tmo = t, !.rep = r] : f \in {"open", "closed"}, t \in {0, 23}, r \in {0, 17} }
CfgsPulse == { [Base EXCEPT !.b = "pulse", !.rate = r, !.ref = k] : r \in {9, 31}, k \in {"ts", "id"} }
Cfgs == CfgsTime \cup CfgsReplay \cup CfgsRepeat \cup CfgsDetect \cup CfgsPulse

With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
Init0(cfg) == [ cfg |-> cfg, now |-> 0, n |-> 0, ops |-> 0,
  out |-> IF cfg.b = "detect" THEN << <<0, 0, 0, 1>> >> ELSE <<>>,      \* <<time, message, stamp, value>>
  psd |-> FALSE, pz |-> -1,                   \* input paused; output paused as specified (-1: not specified)
  q |-> <<>>, free |-> 0,                      \* time: <<message, stamp, arrival>>; when the last was released
  on |-> FALSE, task |-> "none", pos |-> 1, wake |-> -1, toff |-> Inf, off |-> 0, waited |-> FALSE, spin |-> FALSE, cur |-> 0,
  run |-> FALSE, nxt |-> Inf,                  \* repeater: next frame
  inv |-> FALSE, late |-> FALSE, tst |-> 0, last |-> 0 ]
Emit(st, x) == [st EXCEPT !.out = Append(@, x)]

\* ---- time buffer
Due(st) == IF st.q = <<>> \/ st.cfg.ref # "clock" THEN Inf
           ELSE LET h == Head(st.q) IN Max({st.free, h[3], IF h[2] = NOTS THEN 0 ELSE h[2] + st.cfg.size})
Release(st, t) == [Emit(st, <<t, Head(st.q)[1], 0, 0>>) EXCEPT !.q = Tail(@), !.free = t]
RECURSIVE DrainM(_)
DrainM(st) ==
  IF Len(st.q) <= 1 THEN (IF Len(st.q) = 1 /\ st.psd THEN Release(st, st.now) ELSE st)
  ELSE LET h == Head(st.q)[2] l == st.q[Len(st.q)][2] IN
       IF h = NOTS \/ (l # NOTS /\ l - h >= st.cfg.size) THEN With(Release(st, st.now), DrainM) ELSE st
TimePz(st) == [st EXCEPT !.pz = IF st.psd /\ st.q = <<>> THEN 1 ELSE 0]
TimeIn(st, e) ==
  LET s1 == IF e.k = "ctl" THEN [st EXCEPT !.psd = (e.v = 1)] ELSE [st EXCEPT !.q = Append(@, <<e.n, IF e.k = "junk" THEN NOTS ELSE e.ts, st.now>>)]
  IN IF st.cfg.ref = "message" THEN DrainM(s1) ELSE s1
RECURSIVE TimeRun(_, _)
TimeRun(st, T) == LET d == Due(st) IN IF d >= T THEN TimePz(st) ELSE With(Release(st, d), LAMBDA s : TimeRun(s, T))

\* ---- replay buffer: st.q is the recording, st.free the time of the player
Begin(st, t) == [st EXCEPT !.task = "run", !.pos = 1, !.wake = -1, !.toff = Inf, !.waited = FALSE, !.free = t, !.pz = 0, !.spin = FALSE]
Upd(st) == IF st.on THEN (IF st.task = "none" /\ st.q # <<>> THEN Begin(st, st.now) ELSE st)
           ELSE [st EXCEPT !.task = "none", !.pz = 1, !.spin = FALSE]
ReplayIn(st, e) ==
  CASE e.k = "ctl" -> IF e.v = 0 /\ st.psd THEN [st EXCEPT !.psd = FALSE, !.q = <<>>, !.task = "none", !.pz = -1, !.spin = FALSE] ELSE [st EXCEPT !.psd = (e.v = 1)]
    [] e.k = "play" -> Upd([st EXCEPT !.off = e.ts - st.now, !.on = (e.v > 50)])
    [] OTHER -> Upd([st EXCEPT !.q = Append(@, <<e.n, IF e.k = "junk" THEN NOTS ELSE e.ts, 0>>)])
RECURSIVE ReplayRun(_, _)
ReplayRun(st, T) ==
  IF st.task # "run" \/ st.spin THEN st
  ELSE IF st.pos > Len(st.q)
       THEN IF ~st.cfg.loop THEN [st EXCEPT !.task = "done", !.pz = 1]
            ELSE IF ~st.waited THEN [st EXCEPT !.spin = TRUE]
            ELSE With([st EXCEPT !.pos = 1, !.toff = Inf, !.waited = FALSE], LAMBDA s : ReplayRun(s, T))
       ELSE LET m == st.q[st.pos] IN
            IF m[2] = NOTS THEN With([Emit(st, <<st.free, m[1], NOTS, 0>>) EXCEPT !.pos = @ + 1], LAMBDA s : ReplayRun(s, T))
            ELSE LET toff == IF st.toff = Inf THEN st.free + st.off - m[2] ELSE st.toff
                     w == IF st.wake >= 0 THEN st.wake ELSE Max({st.free, m[2] + toff - st.off})
                 IN IF w >= T THEN [st EXCEPT !.toff = toff, !.wake = w, !.waited = @ \/ w > st.free]
                    ELSE With([Emit(st, <<w, m[1], m[2] + toff, 0>>) EXCEPT !.pos = @ + 1, !.toff = toff, !.waited = @ \/ w > st.free, !.wake = -1, !.free = w], LAMBDA s : ReplayRun(s, T))

\* ---- repeater
RepeatIn(st, e) ==
  CASE e.k = "ctl" -> [st EXCEPT !.psd = (e.v = 1), !.pz = e.v]
    [] e.k = "data" -> LET s1 == [st EXCEPT !.cur = e.n, !.off = e.ts - st.now] IN IF st.run THEN s1 ELSE [s1 EXCEPT !.run = TRUE, !.nxt = st.now]
    [] OTHER -> IF st.cfg.fail = "open" THEN Emit(st, <<st.now, e.n, NOTS, 0>>) ELSE [st EXCEPT !.cur = 0]
RECURSIVE RepeatRun(_, _)
RepeatRun(st, T) ==
  IF ~st.run \/ st.nxt >= T THEN st
  ELSE IF st.cur = 0 THEN [st EXCEPT !.run = FALSE, !.nxt = Inf]
  ELSE With([(IF st.psd THEN st ELSE Emit(st, <<st.nxt, st.cur, st.nxt + st.off, 0>>)) EXCEPT !.nxt = @ + st.cfg.rate], LAMBDA s : RepeatRun(s, T))

\* ---- message detector
Signal(st) == IF st.psd \/ st.late \/ (st.inv /\ st.cfg.fail = "closed") THEN 0 ELSE 1
Say(st, t) == [Emit(st, <<t, 0, t + st.off, Signal(st)>>) EXCEPT !.last = t]
DetectIn(st, e) ==
  LET s1 == CASE e.k = "ctl" -> [st EXCEPT !.psd = (e.v = 1)]
              [] e.k = "data" -> [st EXCEPT !.tst = st.now, !.late = FALSE, !.inv = FALSE, !.off = e.ts - st.now]
              [] OTHER -> [st EXCEPT !.tst = st.now, !.late = FALSE, !.inv = TRUE]
  IN IF s1.psd # st.psd \/ s1.late # st.late \/ s1.inv # st.inv THEN Say(s1, st.now) ELSE s1
RECURSIVE DetectRun(_, _)
DetectRun(st, T) ==
  LET a == IF st.cfg.tmo > 0 THEN st.tst + st.cfg.tmo ELSE Inf b == IF st.cfg.rep > 0 THEN st.last + st.cfg.rep ELSE Inf IN
  IF a >= T /\ b >= T THEN st
  ELSE IF a <= b THEN With(IF st.late THEN [st EXCEPT !.tst = a] ELSE Say([st EXCEPT !.tst = a, !.late = TRUE], a), LAMBDA s : DetectRun(s, T))
  ELSE With(Say(st, b), LAMBDA s : DetectRun(s, T))

\* ---- pulse generator
RECURSIVE PulseRun(_, _)
PulseRun(st, T) == IF st.free >= T THEN st ELSE With([Emit(st, <<st.free, 0, IF st.cfg.ref = "ts" THEN st.free ELSE 0, 0>>) EXCEPT !.free = @ + st.cfg.rate], LAMBDA s : PulseRun(s, T))

Input(st, e) ==
  IF e.k = "wait" THEN st ELSE
  CASE st.cfg.b = "time" -> TimeIn(st, e) [] st.cfg.b = "replay" -> ReplayIn(st, e) [] st.cfg.b = "repeat" -> RepeatIn(st, e)
    [] st.cfg.b = "detect" -> DetectIn(st, e) [] OTHER -> st
Run(st, T) ==
  CASE st.cfg.b = "time" -> TimeRun(st, T) [] st.cfg.b = "replay" -> ReplayRun(st, T) [] st.cfg.b = "repeat" -> RepeatRun(st, T)
    [] st.cfg.b = "detect" -> DetectRun(st, T) [] OTHER -> PulseRun(st, T)
Next(st) ==
  CASE st.cfg.b = "time" -> Due(st) [] st.cfg.b = "replay" -> (IF st.task = "run" THEN st.wake ELSE Inf) [] st.cfg.b = "repeat" -> st.nxt
    [] st.cfg.b = "detect" -> Min({IF st.cfg.tmo > 0 THEN st.tst + st.cfg.tmo ELSE Inf, IF st.cfg.rep > 0 THEN st.last + st.cfg.rep ELSE Inf}) [] OTHER -> st.free
Clear(st) == IF st.ops = 0 THEN st ELSE [st EXCEPT !.out = <<>>]
Apply0(st, e) ==
  IF e.k = "stop" THEN [st EXCEPT !.out = <<>>, !.pz = -1] ELSE
  With(Input([Clear(st) EXCEPT !.n = IF e.k \in {"data", "junk"} THEN e.n ELSE @], e), LAMBDA s1 : [Run(s1, st.now + e.d) EXCEPT !.now = st.now + e.d])
Apply(st, e) == [Apply0(st, e) EXCEPT !.ops = @ + 1]

Ds == {1, 5, 30}
Kinds(st) == CASE st.cfg.b = "pulse" -> {"wait"} [] st.cfg.b = "replay" -> {"data", "junk", "ctl", "play", "wait"} [] OTHER -> {"data", "junk", "ctl", "wait"}
Mk(st, k, dt, v, d) ==
  CASE k = "data" -> [k |-> k, n |-> st.n + 1, ts |-> st.now + dt, d |-> d]
    [] k = "junk" -> [k |-> k, n |-> st.n + 1, d |-> d]
    [] k = "ctl" -> [k |-> k, v |-> v, d |-> d]
    [] k = "play" -> [k |-> k, v |-> v * 100, ts |-> st.now + dt, d |-> d]
    [] OTHER -> [k |-> k, d |-> d]
\* no input at the very time something is due; a looped recording takes time
Fine(st, e) == With(Apply(st, e), LAMBDA s : Next(s) # s.now)
Ops(st) == {o \in { Mk(st, k, dt, v, d) : k \in Kinds(st), dt \in {-8, 0, 3}, v \in {0, 1}, d \in Ds } : Fine(st, o)}
GenOps(st) ==
  LET k == RandomElement(Kinds(st)) k2 == IF k \in {"junk", "ctl"} /\ RandomElement(1..3) = 1 THEN "data" ELSE k IN
  LET b == RandomElement(IF st.cfg.b = "replay" THEN {-3, 0, 0, 5, 20} ELSE {-30, -10, -5, 0, 0, 0, 2, 8})
      v == RandomElement({0, 1, 1}) d == RandomElement({1, 2, 3, 5, 11, 30, 53})
      o == Mk(st, k2, b, v, d) o2 == Mk(st, k2, b, v, d + 1) o3 == Mk(st, k2, b, v, d + 2)
  IN IF Fine(st, o) THEN {o} ELSE IF Fine(st, o2) THEN {o2} ELSE IF Fine(st, o3) THEN {o3} ELSE { x \in {Mk(st, "wait", 0, 0, z) : z \in {13}} : TRUE }

Inv(st) ==
  /\ st.cfg.b = "time" => (\A i, j \in 1..Len(st.out) : i < j => (st.out[i][2] < st.out[j][2] /\ st.out[i][1] <= st.out[j][1]))
  /\ st.cfg.b = "time" /\ st.cfg.ref = "clock" => \A i \in 1..Len(st.out) : st.out[i][1] < st.now
  /\ st.cfg.b = "replay" => \A i \in 1..Len(st.out) : st.out[i][2] > 0
  /\ st.cfg.b = "replay" /\ st.task = "done" => ~st.cfg.loop

C(b, name) == IF b THEN {} ELSE {name}
\* what the detector says last at each time
LastAt(q) == SelectSeq([i \in 1..Len(q) |-> IF i < Len(q) /\ q[i + 1][1] = q[i][1] THEN <<-1>> ELSE q[i]], LAMBDA x : x # <<-1>>)
P(st) == IF st.cfg.b \in {"detect", "pulse"} THEN "B03_" ELSE "B04_"
\* obs: out <<time, n, ts, v>>, paused
Check(st, e) ==
  IF e.k = "opfail" THEN {P(st) \o "op"} ELSE
  With(Apply(st, e), LAMBDA s1 : LET o == e.obs IN
  C(IF s1.spin THEN \A x \in Range(o.out) : \E m \in Range(s1.q) : m[1] = x[2]
    ELSE IF st.spin THEN TRUE
    ELSE IF st.cfg.b = "detect" THEN LastAt(o.out) = LastAt(s1.out) ELSE o.out = s1.out, P(st) \o "out")
  \cup C(s1.pz = -1 \/ s1.spin \/ o.paused = s1.pz, P(st) \o "paused"))
=============================================================================
