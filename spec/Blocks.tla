------------------------------- MODULE Blocks -------------------------------
(* Stream blocks whose outputs are determined by the inputs so far: gate,      *)
(* selector, latch, concatenator, matcher, formatter, calculator, converters.  *)
(* Inputs read through a synchronizer arrive in the order of Sync.tla.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANT NT          \* topics in use: 2, or 6 for the selector
S == INSTANCE Sync WITH N <- NT
Ts == 1..NT
BAD == -88888          \* content that is not of the kind the block reads
NAN == -99999
Texts == << <<1, 2>>, <<1>>, <<2, 1>>, <<3, 4>>, <<>>, <<1, 5, 2>>, <<2, 2, 1, 2>>, <<2, 3, 5>>, <<5>> >>     \* 1 a, 2 b, 3 A, 4 B, 5 .
Pats == { <<1>>, <<1, 2>>, <<5>>, <<>>, <<2, 1>>, <<1, 5>>, <<3>> }
Base == [b |-> "", sync |-> FALSE, nt |-> 1, pr |-> <<0, 0, 0, 0, 0, 0>>, fail |-> "open", init |-> 0, off |-> 0, pat |-> <<>>, re |-> FALSE, ci |-> FALSE, f |-> 0, tpl |-> <<>>, block |-> TRUE]
CfgsGate == { [Base EXCEPT !.b = "gate", !.sync = s, !.nt = 2, !.pr = <<0, 1, 0, 0, 0, 0>>, !.fail = f, !.init = i] : s \in BOOLEAN, f \in {"open", "closed"}, i \in {0, 1} }
CfgsSwitch == { [Base EXCEPT !.b = "switch", !.sync = TRUE, !.nt = n] : n \in {4, 6} }
CfgsMSwitch == { [Base EXCEPT !.b = "mswitch", !.sync = TRUE, !.nt = n] : n \in {4, 6} }
CfgsLatch == { [Base EXCEPT !.b = "latch", !.sync = s, !.nt = 2, !.init = i] : s \in BOOLEAN, i \in {0, 1} }
CfgsConcat == { [Base EXCEPT !.b = "concat", !.sync = s, !.nt = 2, !.pr = <<1, 0, 0, 0, 0, 0>>] : s \in BOOLEAN }
CfgsMatch == { [Base EXCEPT !.b = "match", !.pat = p, !.re = r, !.ci = c] : p \in Pats, r \in BOOLEAN, c \in BOOLEAN }
CfgsFmt == { [Base EXCEPT !.b = "format", !.sync = s, !.nt = 2, !.init = i, !.tpl = t] : s \in BOOLEAN, i \in {0, 2}, t \in { <<1, 2>>, <<2, 1, 2>>, <<2>>, <<0>> } }
CfgsCalc == { [Base EXCEPT !.b = "calc", !.sync = s, !.nt = 2, !.init = i, !.f = f] : s \in BOOLEAN, i \in {0, 2}, f \in 1..16 }
CfgsConv == { [Base EXCEPT !.b = b] : b \in {"numtext", "timetext"} } \cup
            { [Base EXCEPT !.b = "stamp", !.fail = f, !.f = c, !.off = o] : f \in {"open", "closed"}, c \in {0, 1}, o \in {0, 7, -3} }
CfgsLogic == CfgsLatch \cup CfgsConcat \cup CfgsMatch \cup CfgsFmt \cup CfgsCalc \cup CfgsConv
Cfgs == CfgsGate \cup CfgsSwitch \cup CfgsMSwitch \cup CfgsLogic
IsSw(st) == st.cfg.b \in {"switch", "mswitch"}

Init0(cfg) == [ cfg |-> [cfg EXCEPT !.block = TRUE], sy |-> S!Init0(cfg), n |-> 0, out |-> <<>>, pz |-> FALSE, ops |-> 0, hold |-> FALSE,
  ctrl |-> cfg.init = 1, cpz |-> FALSE, cerr |-> FALSE, ipz |-> [t \in Ts |-> FALSE],      \* gate; paused inputs
  cv |-> <<>>,                                          \* switch: known controls <<pair, value>>, oldest first
  act |-> 0,                                            \* media switch: the pair whose stream goes on without a gap
  s |-> FALSE, r |-> FALSE, val |-> cfg.init = 1,        \* latch
  buf |-> <<>>, lastc |-> 0,                            \* concatenator
  vars |-> IF cfg.b = "format" /\ cfg.init > 0 THEN <<cfg.init, 0>> ELSE IF cfg.b = "calc" THEN <<cfg.init, 1>> ELSE <<0, 0>> ]
Default(st) == IF st.cfg.b = "format" /\ st.cfg.init > 0 THEN <<st.cfg.init, 0>> ELSE IF st.cfg.b = "calc" THEN <<st.cfg.init, 1>> ELSE <<0, 0>>

Open(st) == ~st.ipz[1] /\ st.ctrl /\ ~(st.cfg.fail = "closed" /\ (st.cpz \/ st.cerr))
Sel(st) == IF st.cv = <<>> THEN 0 ELSE
           LET m == Max({st.cv[i][2] : i \in 1..Len(st.cv)}) IN st.cv[Min({i \in 1..Len(st.cv) : st.cv[i][2] = m})][1]
Unset(cv, i) == SelectSeq(cv, LAMBDA x : x[1] # i)
SetCv(cv, i, v) == IF \E j \in 1..Len(cv) : cv[j][1] = i THEN [j \in 1..Len(cv) |-> IF cv[j][1] = i THEN <<i, v>> ELSE cv[j]] ELSE Append(cv, <<i, v>>)

Low(c) == IF c = 3 THEN 1 ELSE IF c = 4 THEN 2 ELSE c
SameC(cfg, p, c) == IF cfg.re /\ p = 5 THEN TRUE ELSE IF cfg.ci THEN Low(p) = Low(c) ELSE p = c
At(cfg, tx, k) == k + Len(cfg.pat) - 1 <= Len(tx) /\ \A j \in 1..Len(cfg.pat) : SameC(cfg, cfg.pat[j], tx[k + j - 1])
Matches(cfg, tx) == IF cfg.re THEN At(cfg, tx, 1) ELSE \E k \in 1..(Len(tx) + 1) : At(cfg, tx, k)

B2(b) == IF b THEN 1 ELSE 0
Calc(f, a, b) ==      \* <<>>: no result
  CASE f = 1 -> <<a + b * 2>>   [] f = 2 -> <<a - b - 1>>   [] f = 3 -> <<B2(a > 0 /\ b > 0)>>   [] f = 4 -> <<B2(a > 0 \/ b > 0)>>
    [] f = 5 -> <<B2((a > 0) # (b > 0))>>   [] f = 6 -> <<B2(~(a > 0))>>   [] f = 7 -> <<IF a > b THEN a ELSE b>>
    [] f = 8 -> <<B2(a >= b /\ b # 2)>>   [] f = 9 -> <<Max({a, b, 1})>>   [] f = 10 -> IF b = 0 THEN <<>> ELSE IF b > 0 THEN <<a % b>> ELSE <<-((-a) % (-b))>>
    [] f = 11 -> <<Min({a, b})>>   [] f = 12 -> <<B2(a < b \/ a # 2)>>   [] f = 13 -> <<-a + (IF b < 0 THEN -b ELSE b)>>   [] f = 14 -> <<(a + 1) * (a + 1)>>
    [] f = 15 -> IF b = 0 THEN <<>> ELSE <<a>>   [] OTHER -> IF a < 0 THEN <<>> ELSE <<a>>

Emit(st, x) == [st EXCEPT !.out = Append(@, x)]
Pass(st, m) == Emit(st, <<"d", m.n, 0, <<>>>>)
Made(st, m, vs) == Emit(st, <<"g", 0, m.ts, vs>>)
Pz(m) == m.v = 1
Ok(m) == m.k = "data" /\ m.x # BAD
Gate(st, t, m) ==
  IF t = 2 THEN CASE m.k = "ctl" -> [st EXCEPT !.cpz = Pz(m)] [] Ok(m) -> [st EXCEPT !.ctrl = (m.x > 50), !.cerr = FALSE] [] OTHER -> [st EXCEPT !.cerr = TRUE]
  ELSE IF m.k = "ctl" THEN [st EXCEPT !.ipz[1] = Pz(m)] ELSE IF Open(st) THEN Pass(st, m) ELSE st
\* value 1: a key frame
Media(st, i, m) == IF Sel(st) # i THEN (IF st.act = i THEN [st EXCEPT !.act = 0] ELSE st)
                   ELSE IF st.act = i THEN Pass(st, m) ELSE IF Ok(m) /\ m.x = 1 THEN Pass([st EXCEPT !.act = i], m) ELSE st
Switch(st, t, m) ==
  LET i == (t + 1) \div 2 IN
  IF t % 2 = 1 THEN IF m.k = "ctl" THEN [st EXCEPT !.ipz[t] = Pz(m)] ELSE IF st.cfg.b = "mswitch" THEN Media(st, i, m) ELSE IF Sel(st) = i THEN Pass(st, m) ELSE st
  ELSE CASE m.k = "ctl" -> IF Pz(m) THEN [st EXCEPT !.cv = Unset(@, i)] ELSE st
         [] Ok(m) /\ m.x # NAN -> [st EXCEPT !.cv = SetCv(@, i, m.x)]
         [] OTHER -> st
Latch(st, t, m) ==
  IF ~Ok(m) THEN st
  ELSE LET s1 == IF t = 1 THEN [st EXCEPT !.s = (m.x > 50)] ELSE [st EXCEPT !.r = (m.x > 50)]
           s2 == IF s1.s # s1.r THEN [s1 EXCEPT !.val = s1.s] ELSE s1 IN Made(s2, m, <<B2(s2.val)>>)
Concat(st, t, m) ==
  IF t = 1 THEN IF Ok(m) /\ m.x # 0 THEN [st EXCEPT !.buf = Append(@, m.x)] ELSE st
  ELSE CASE m.k = "ctl" -> [st EXCEPT !.pz = Pz(m)]
         [] Ok(m) -> LET s1 == IF st.lastc <= 50 /\ m.x > 50 /\ st.buf # <<>> THEN [Made(st, m, st.buf) EXCEPT !.buf = <<>>] ELSE st IN [s1 EXCEPT !.lastc = m.x]
         [] OTHER -> st
One1(st, m) ==      \* one input, one output
  IF m.k = "ctl" THEN [st EXCEPT !.pz = Pz(m)] ELSE
  CASE st.cfg.b = "match" -> IF Ok(m) THEN Made(st, m, <<B2(Matches(st.cfg, Texts[m.x]))>>) ELSE st
    [] st.cfg.b = "numtext" -> IF Ok(m) THEN Made(st, m, <<m.x>>) ELSE st
    [] st.cfg.b = "timetext" -> IF m.k = "data" THEN Made(st, m, <<m.ts>>) ELSE st
    [] OTHER -> IF m.k = "data" THEN Emit(st, <<"d", m.n, st.cfg.off + (IF st.cfg.f = 1 THEN 0 ELSE m.ts), <<>>>>)
                ELSE IF st.cfg.fail = "open" THEN Emit(st, <<"d", m.n, 0, <<>>>>) ELSE st
Fmt(st, t, m) ==
  CASE m.k = "ctl" -> [st EXCEPT !.vars[t] = Default(st)[t]]
    [] Ok(m) -> LET s1 == [st EXCEPT !.vars[t] = m.x] IN
                IF st.cfg.b = "format" THEN Made(s1, m, [i \in 1..Len(st.cfg.tpl) |-> IF st.cfg.tpl[i] = 0 THEN 0 ELSE s1.vars[st.cfg.tpl[i]]])
                ELSE LET v == Calc(st.cfg.f, s1.vars[1], s1.vars[2]) IN IF v = <<>> THEN s1 ELSE Made(s1, m, v)
    [] OTHER -> st
Step(st, t, m) ==
  CASE st.cfg.b = "gate" -> Gate(st, t, m) [] IsSw(st) -> Switch(st, t, m) [] st.cfg.b = "latch" -> Latch(st, t, m)
    [] st.cfg.b = "concat" -> Concat(st, t, m) [] st.cfg.b \in {"format", "calc"} -> Fmt(st, t, m) [] OTHER -> One1(st, m)
Steps(st, q) == FoldLeft(LAMBDA s, x : Step(s, x[1], x[2]), st, q)
Msg(t, m) == [k |-> m.k, t |-> t, ts |-> m.ts, n |-> m.n, v |-> m.v, x |-> m.v]
Deliver(st, t, m) ==
  LET e == Msg(t, m) IN
  IF st.cfg.sync THEN LET sy1 == S!Exact(st.sy, e) IN Steps([st EXCEPT !.sy = sy1], sy1.seq)
  ELSE Step(st, t, [k |-> e.k, ts |-> e.ts, n |-> e.n, v |-> e.v, x |-> e.x])
Paused(st) == CASE st.cfg.b = "gate" -> ~Open(st) [] IsSw(st) -> Sel(st) # 0 /\ st.ipz[2 * Sel(st) - 1] [] OTHER -> st.pz
Apply0(st, e) ==
  CASE e.k = "msgs" -> LET s1 == FoldLeft(LAMBDA s, m : Deliver(s, e.t, m), [st EXCEPT !.out = <<>>], e.ms) IN [s1 EXCEPT !.n = @ + Len(e.ms)]
    [] e.k = "hold" -> [st EXCEPT !.hold = TRUE, !.out = <<>>]
    [] OTHER -> [st EXCEPT !.hold = FALSE, !.out = <<>>]
Apply(st, e) == [Apply0(st, e) EXCEPT !.ops = @ + 1]

Vals(st, t) ==
  CASE st.cfg.b = "gate" -> IF t = 2 THEN {0, 50, 51, 100, BAD, NAN} ELSE {0, BAD}
    [] st.cfg.b = "mswitch" /\ t % 2 = 1 -> {0, 1, BAD}
    [] IsSw(st) -> IF t = 2 THEN {0, 100, 300, BAD, NAN} ELSE IF t = 4 THEN {50, 200, -100, BAD, NAN} ELSE IF t = 6 THEN {75, 250, -50, BAD} ELSE {0, BAD}
    [] st.cfg.b = "latch" -> {0, 50, 60, 100, BAD, NAN}
    [] st.cfg.b = "concat" -> IF t = 1 THEN {0, 1, 2, 3, BAD} ELSE {0, 50, 51, 100, BAD}
    [] st.cfg.b = "match" -> 1..Len(Texts) \cup {BAD}
    [] st.cfg.b = "calc" -> {-2, -1, 0, 1, 2, 3, BAD}
    [] st.cfg.b = "format" -> {0, 1, 2, 3, BAD}
    [] OTHER -> {0, 50, 125, -200, BAD}
SyOp(st, t) == ~st.cfg.sync \/ S!Calm(st.sy, t)
Tie(st) == ~st.cfg.sync \/ st.cfg.b \in {"gate", "concat"}
MT(st, t, q) == IF Tie(st) THEN q + 1 ELSE 8 * q + t
LastQ(st, t) == LET x == S!Lasts(st.sy, t) IN IF ~st.cfg.sync THEN st.n ELSE IF Tie(st) THEN x - 1 ELSE x \div 8
D(st, t, q, v, i) == [k |-> "data", ts |-> MT(st, t, q), n |-> st.n + i, v |-> v]
X(st, k, v, i) == [k |-> k, ts |-> -1, n |-> st.n + i, v |-> v]
HoldOk(st) == st.cfg.b = "gate" /\ ~st.cfg.sync
\* while sends are held up only the gate's state changes
InHold(st, t, m) == ~st.hold \/ t = 2 \/ m.k = "ctl"
Ops(st) ==
  { o \in { [k |-> "msgs", t |-> t, ms |-> <<m>>] : t \in 1..st.cfg.nt, m \in UNION { {D(st, u, q, v, 1) : q \in {0, 1, 2}, v \in Vals(st, u)} : u \in {1, 2} } } : o.ms[1].v \in Vals(st, o.t) /\ o.ms[1].ts \in {MT(st, o.t, q) : q \in 0..2} /\ InHold(st, o.t, o.ms[1]) }
  \cup { [k |-> "msgs", t |-> t, ms |-> <<X(st, "ctl", v, 1)>>] : t \in {u \in 1..st.cfg.nt : SyOp(st, u)}, v \in {0, 1} }
  \cup { [k |-> "msgs", t |-> t, ms |-> <<X(st, "junk", 0, 1)>>] : t \in {u \in 1..st.cfg.nt : ~st.hold \/ u = 2} }
  \cup (IF HoldOk(st) THEN { [k |-> IF st.hold THEN "free" ELSE "hold"] } ELSE {})
One(Q) == {RandomElement(Q)}
Rnd(st, t, i) ==
  LET r == RandomElement(1..20) IN
  IF st.hold /\ t = 1 THEN X(st, "ctl", RandomElement({0, 1}), i)
  ELSE CASE r = 1 -> X(st, "junk", 0, i)
         [] r = 2 /\ ~st.cfg.sync -> X(st, "ctl", RandomElement({0, 1}), i)
         [] OTHER -> D(st, t, LastQ(st, t) + RandomElement({0, 1, 1, 1, 2, 3}) + (IF RandomElement(1..12) = 1 /\ LastQ(st, t) > 3 THEN -2 ELSE 0) + (i - 1) * 2, RandomElement(Vals(st, t)), i)
GenOps(st) ==
  LET r == RandomElement(1..24) t == RandomElement(1..st.cfg.nt) IN
  CASE r <= 3 /\ SyOp(st, t) -> { [k |-> "msgs", t |-> t, ms |-> <<X(st, "ctl", RandomElement({0, 1}), 1)>>] }
    [] r <= 6 -> { [k |-> "msgs", t |-> t, ms |-> <<Rnd(st, t, 1), Rnd(st, t, 2)>>] }
    [] r <= 8 -> { [k |-> "msgs", t |-> t, ms |-> <<Rnd(st, t, 1), Rnd(st, t, 2), Rnd(st, t, 3)>>] }
    [] r <= 10 /\ HoldOk(st) -> { [k |-> IF st.hold THEN "free" ELSE "hold"] }
    [] OTHER -> { [k |-> "msgs", t |-> t, ms |-> <<Rnd(st, t, 1)>>] }

Inv(st) ==
  /\ st.cfg.b = "gate" /\ st.cfg.fail = "open" => (Paused(st) <=> (st.ipz[1] \/ ~st.ctrl))
  /\ st.cfg.b = "latch" => (st.s /\ ~st.r => st.val) /\ (st.r /\ ~st.s => ~st.val)
  /\ \A i, j \in 1..Len(st.cv) : i # j => st.cv[i][1] # st.cv[j][1]
  /\ Sel(st) # 0 => \A i \in 1..Len(st.cv) : \A j \in 1..Len(st.cv) : st.cv[j][1] = Sel(st) => st.cv[i][2] <= st.cv[j][2]
  /\ st.cfg.b = "concat" => 0 \notin Range(st.buf)

C(b, name) == IF b THEN {} ELSE {name}
P(st) == CASE st.cfg.b = "gate" -> "B01_" [] st.cfg.b = "switch" -> "B02_" [] st.cfg.b = "mswitch" -> "B07_" [] OTHER -> "B03_"
\* obs: out <<kind, n, ts, vs>>, paused, intact (inputs shared with others are left as they were)
Check(st, e) ==
  IF e.k = "opfail" THEN {P(st) \o "op"} ELSE
  S!With(Apply(st, e), LAMBDA s1 : LET o == e.obs IN
  C(o.out = s1.out, P(st) \o "out")
  \cup C(s1.hold \/ (IsSw(st) /\ Sel(s1) = 0) \/ (o.paused = 1) = Paused(s1), P(st) \o "paused")
  \cup C(o.intact = 1, P(st) \o "intact"))
=============================================================================
