------------------------------ MODULE Deploy --------------------------------
(* Deployments and their tasks behind the web interface.  One task host; time  *)
(* is in milliseconds.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
D == 1..3
U == 1..5
Cfgs == {0}
Init0(cfg) == [ n |-> 0, up |-> 1, r |-> 0,
  dp |-> [d \in D |-> [ph |-> "no", chg |-> "", l |-> 0, u |-> 0, rid |-> 0]],
  ts |-> [u \in U |-> [ex |-> 0, d |-> 1, v |-> 0, kd |-> "wait", in |-> "", b |-> "no", bt |-> 0]],
  out |-> [resp |-> {}], pend |-> {}, void |-> 0 ]
(* dp.ph  no, off, sch, run, gone      dp.chg  "", "start" (until u), "stop" (until its tasks are over)   *)
(* void  the rest of the history is left out: see Scope                                                *)
(* pend  tasks of deployments being started that the task host has not been asked for yet               *)
(* ts.in  status of the instance, "" if none     ts.b  its body: no, wait, clean (until bt), gone          *)
Busy(s) == \E d \in D : s.dp[d].chg = "start"         \* the task manager is held up
Locked(s, d) == s.dp[d].ph \in {"sch", "run"} \/ s.dp[d].chg # ""
Of(s, d) == {u \in U : s.ts[u].ex = 1 /\ s.ts[u].d = d}
Alive(x) == x.b \in {"wait", "clean"}
Resp(s, rid, code) == [s EXCEPT !.out.resp = @ \cup {<<rid, code>>}]
Ok(s, e) == Resp(s, e.rid, "ok")
No(s, e) == Resp(s, e.rid, "refused")
Refuse(s, e) == No(s, e)
Fin(s, u, f) == [s EXCEPT !.ts[u].b = "gone", !.ts[u].bt = 0, !.ts[u].in = f]
\* one task of a deployment that is being started
StartOne(x, up) ==
  IF x.in # "scheduled" THEN x
  ELSE IF up = 0 THEN [x EXCEPT !.in = "failed"]
  ELSE CASE x.kd \in {"create", "setup", "hang"} -> [x EXCEPT !.in = "failed", !.b = "gone"]
         [] x.kd = "end" -> [x EXCEPT !.in = "ended", !.b = "gone"]
         [] x.kd = "raise" -> [x EXCEPT !.in = "failed", !.b = "gone"]
         [] OTHER -> [x EXCEPT !.in = "running", !.b = "wait"]
Made(s, d) == {u \in Of(s, d) : s.ts[u].in = "scheduled" /\ s.up = 1}
StartDone(s, d) == [s EXCEPT !.ts = [u \in U |-> IF u \in Of(s, d) THEN StartOne(@[u], s.up) ELSE @[u]], !.dp[d].chg = "", !.dp[d].u = 0]
Cancel(x, n) ==
  CASE x.in = "scheduled" -> [x EXCEPT !.in = "stopped"]
    [] x.b = "wait" /\ x.kd = "wait" -> [x EXCEPT !.b = "gone", !.in = "stopped"]
    [] x.b = "wait" /\ x.kd = "slow" -> [x EXCEPT !.b = "clean", !.bt = n + 400]
    [] x.b = "clean" -> [x EXCEPT !.b = "gone", !.bt = 0, !.in = "stopped"]
    [] OTHER -> x
CancelAll(s, T) == [s EXCEPT !.ts = [u \in U |-> IF u \in T THEN Cancel(@[u], s.n) ELSE @[u]]]
\* the deployment is stopped once its tasks are over
StopDone(s, d) == IF s.dp[d].chg = "stop" /\ \A u \in Of(s, d) : s.ts[u].in \notin {"running", "scheduled"}
  THEN Resp([s EXCEPT !.ts = [u \in U |-> IF u \in Of(s, d) THEN [@[u] EXCEPT !.in = "", !.b = "no"] ELSE @[u]], !.dp[d].chg = "", !.dp[d].ph = "off", !.dp[d].rid = 0], s.dp[d].rid, "ok") ELSE s
StopAll(s) == LET F1(z) == StopDone(z, 1) F2(z) == StopDone(z, 2) F3(z) == StopDone(z, 3) IN With(With(With(s, F1), F2), F3)
Timers(s) == {<<s.ts[u].bt, 1, u>> : u \in {y \in U : s.ts[y].b = "clean"}} \cup {<<s.dp[d].u, 2, d>> : d \in {y \in D : s.dp[y].chg = "start"}}
RECURSIVE Advance(_, _)
Advance(s, to) ==
  LET X == {x \in Timers(s) : x[1] <= to} IN
  IF X = {} THEN [s EXCEPT !.n = to] ELSE
  LET x == CHOOSE y \in X : \A z \in X : y[1] <= z[1]
      s1 == [s EXCEPT !.n = x[1]]
      F(z) == Advance(z, to) IN
  With(IF x[2] = 1 THEN With(Fin(s1, x[3], "stopped"), StopAll) ELSE LET R(z) == Resp(z, s.dp[x[3]].rid, "ok") IN With(StartDone(s1, x[3]), R), F)
Hangs(s, d) == {u \in Made(s, d) : s.ts[u].kd = "hang"}

Do(s, e) ==
  CASE e.k = "newdep" -> IF s.dp[e.d].ph = "no" THEN Ok([s EXCEPT !.dp[e.d].ph = "off", !.dp[e.d].l = e.l], e) ELSE No(s, e)
    [] e.k = "putdep" -> IF s.dp[e.d].ph # "off" \/ Locked(s, e.d) THEN No(s, e) ELSE Ok([s EXCEPT !.dp[e.d].l = e.l], e)
    [] e.k = "deldep" -> IF Locked(s, e.d) THEN No(s, e) ELSE Ok([s EXCEPT !.dp[e.d].ph = "gone", !.ts = [u \in U |-> IF @[u].ex = 1 /\ @[u].d = e.d THEN [@[u] EXCEPT !.ex = 2] ELSE @[u]]], e)
    [] e.k = "puttask" -> IF Locked(s, e.d) \/ (s.ts[e.u].ex = 1 /\ Locked(s, s.ts[e.u].d)) THEN No(s, e)
                          ELSE Ok([s EXCEPT !.ts[e.u].ex = 1, !.ts[e.u].d = e.d, !.ts[e.u].v = e.v, !.ts[e.u].kd = e.kd], e)
    [] e.k = "deltask" -> IF s.ts[e.u].ex # 1 \/ Locked(s, s.ts[e.u].d) THEN No(s, e) ELSE Ok([s EXCEPT !.ts[e.u].ex = 0], e)
    [] e.k = "sched" -> IF s.dp[e.d].ph # "off" \/ Locked(s, e.d) THEN No(s, e)
                        ELSE Ok([s EXCEPT !.dp[e.d].ph = "sch", !.ts = [u \in U |-> IF u \in Of(s, e.d) THEN [@[u] EXCEPT !.in = "scheduled", !.b = "no"] ELSE @[u]]], e)
    [] e.k = "start" -> IF s.dp[e.d].ph # "sch" \/ s.dp[e.d].chg # "" THEN No(s, e)
                        ELSE LET s1 == [s EXCEPT !.dp[e.d].ph = "run", !.pend = @ \cup Made(s, e.d)] IN
                             IF Hangs(s, e.d) = {} THEN Ok(StartDone(s1, e.d), e)
                             ELSE [s1 EXCEPT !.dp[e.d].chg = "start", !.dp[e.d].u = s.n + 1000 * Cardinality(Hangs(s, e.d)), !.dp[e.d].rid = e.rid]
    [] e.k = "stop" -> IF s.dp[e.d].ph \notin {"sch", "run"} \/ s.dp[e.d].chg # "" THEN No(s, e)
                       ELSE With(CancelAll([s EXCEPT !.dp[e.d].chg = "stop", !.dp[e.d].rid = e.rid], Of(s, e.d)), StopAll)
    [] e.k = "finish" -> IF s.ts[e.u].b = "wait" THEN With(Fin(s, e.u, IF e.how = "end" THEN "ended" ELSE "failed"), StopAll) ELSE s
    [] e.k = "up" -> [s EXCEPT !.up = 1]
    [] e.k = "down" -> LET T == {u \in U : s.ts[u].in \in {"scheduled", "running"}} IN
                       With([s EXCEPT !.up = 0, !.ts = [u \in U |-> IF u \in T THEN (IF @[u].in = "scheduled" THEN [@[u] EXCEPT !.in = "failed"] ELSE [@[u] EXCEPT !.in = "stopped", !.b = "gone", !.bt = 0]) ELSE @[u]]], StopAll)
    [] e.k = "time" -> Advance(s, s.n + e.dt)
    [] OTHER -> s
MaxR(s, e) == IF "rid" \in DOMAIN e /\ e.rid > s.r THEN [s EXCEPT !.r = e.rid] ELSE s
Step(s, e) == With(MaxR(s, e), LAMBDA z : Do(z, e))
Clear(s) == [s EXCEPT !.out = [resp |-> {}]]
Two(s, a, b) == With(Step(s, a), LAMBDA z : Step(z, b))
Part(s, a, b) == With(Step(s, a), LAMBDA z : MaxR(Refuse(z, b), b))          \* b came while a was under way
LC == {"sched", "start", "stop"}
Orders(st, e) ==
  IF e.k # "burst" THEN {Step(Clear(st), e)} ELSE
  {Two(Clear(st), e.a, e.b), Two(Clear(st), e.b, e.a)}
  \cup (IF e.a.k \in LC /\ e.b.k \in LC THEN {Part(Clear(st), e.a, e.b), Part(Clear(st), e.b, e.a)} ELSE {})

Phase(x) == CASE x.ph = "sch" -> "scheduled" [] x.ph = "run" -> "running" [] OTHER -> "offline"
Exist(s) == {d \in D : s.dp[d].ph \notin {"no", "gone"}}
\* obs: resp <<rid, code>>, deps <<d, label, status>>, tasks <<d, u, v, kd, instance status>>, alive, made, bad
WantDeps(s) == {<<d, s.dp[d].l, Phase(s.dp[d])>> : d \in Exist(s)}
WantTasks(s) == {<<s.ts[u].d, u, s.ts[u].v, s.ts[u].kd, s.ts[u].in>> : u \in {y \in U : s.ts[y].ex = 1 /\ s.dp[s.ts[y].d].ph \notin {"no", "gone"}}}
Blur(s, X) == {IF s.dp[x[1]].chg = "start" THEN <<x[1], x[2], x[3], x[4], "">> ELSE x : x \in X}     \* instances while the deployment is being started
MResp(s, o) == {<<x[1], x[2]>> : x \in Range(o.resp)} = s.out.resp /\ Len(o.resp) = Cardinality(s.out.resp)
MDeps(s, o) == {<<x[1], x[2], x[3]>> : x \in Range(o.deps)} = WantDeps(s) /\ Len(o.deps) = Cardinality(WantDeps(s))
MTasks(s, o) == Blur(s, {<<x[1], x[2], x[3], x[4], x[5]>> : x \in Range(o.tasks)}) = Blur(s, WantTasks(s)) /\ Len(o.tasks) = Cardinality(WantTasks(s))
Starting(s) == UNION {Of(s, d) : d \in {y \in D : s.dp[y].chg = "start"}}
MAlive(s, o) == Range(o.alive) \ Starting(s) = {u \in U : Alive(s.ts[u])} \ Starting(s)
MMade(s, o) == Range(o.made) \subseteq s.pend /\ Len(o.made) = Cardinality(Range(o.made)) /\ (~Busy(s) => s.pend = Range(o.made))
Good(s, o) == MResp(s, o) /\ MDeps(s, o) /\ MTasks(s, o) /\ MAlive(s, o) /\ MMade(s, o)
Best(st, e) == LET S == Orders(st, e) G == {s \in S : Good(s, e.obs)} IN IF G # {} THEN CHOOSE s \in G : TRUE ELSE CHOOSE s \in S : TRUE
Quiet(s) == IF Busy(s) THEN s ELSE [s EXCEPT !.pend = {}]
\* histories are generated before it is known which way their bursts go
HostFree(st) == ~Busy(st) /\ \A u \in U : Alive(st.ts[u]) => st.ts[u].kd \notin {"slow", "ign"}
Known(st, x) ==
  CASE x.k = "newdep" -> st.dp[x.d].ph # "gone"
    [] x.k = "deldep" -> x.d \in Exist(st)
    [] x.k = "puttask" -> x.d \in Exist(st) /\ st.ts[x.u].ex # 2
    [] x.k = "deltask" -> st.ts[x.u].ex # 2
    [] OTHER -> TRUE
Scope(st, e) ==
  CASE e.k \in {"up", "down"} -> HostFree(st) /\ st.up = (IF e.k = "up" THEN 0 ELSE 1)
    [] e.k \in LC -> Busy(st) => st.dp[e.d].chg = "start"
    [] e.k = "burst" -> ~Busy(st) /\ \A x \in {e.a, e.b} : Known(st, x) /\ (x.k = "start" => Hangs(st, x.d) = {})
    [] OTHER -> Known(st, e)
Apply(st, e) == IF st.void = 1 \/ ~Scope(st, e) THEN [st EXCEPT !.void = 1] ELSE
                IF "obs" \in DOMAIN e THEN LET F(s) == Quiet([s EXCEPT !.pend = @ \ Range(e.obs.made)]) IN With(Best(st, e), F)
                ELSE With(IF e.k = "burst" THEN Two(Clear(st), e.a, e.b) ELSE Step(Clear(st), e), Quiet)
C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"S01_op"} ELSE
  IF st.void = 1 \/ ~Scope(st, e) THEN {} ELSE
  LET o == e.obs S == Orders(st, e) IN
  C(\E s \in S : MResp(s, o), "S01_answer")
  \cup C(\E s \in S : MDeps(s, o), "S01_status")
  \cup C(\E s \in S : MTasks(s, o), "S01_tasks")
  \cup C(\E s \in S : MAlive(s, o), "S01_bodies")
  \cup C(\E s \in S : Good(s, o), "S01_state")
  \cup C(\E s \in S : MMade(s, o), "S01_made")
  \cup C(o.bad = <<>>, "S01_content")

\* ---------------------------------------------------------------- operations
Kds == {"wait", "slow", "ign", "end", "raise", "create", "setup", "hang"}
Usable(st, d) == st.dp[d].ph # "gone"
RQ(st, k, d) == [k |-> k, rid |-> st.r + 1, d |-> d]
Life(st) == IF Busy(st) THEN {RQ(st, k, d) : k \in LC, d \in {y \in D : st.dp[y].chg = "start"}} ELSE {RQ(st, k, d) : k \in LC, d \in D}
Edits(st) ==
  { [k |-> k, rid |-> st.r + 1, d |-> d, l |-> l] : k \in {"putdep"}, d \in D, l \in 1..3 }
  \cup { [k |-> "newdep", rid |-> st.r + 1, d |-> d, l |-> l] : d \in {y \in D : st.dp[y].ph # "gone"}, l \in 1..3 }
  \cup { [k |-> "deldep", rid |-> st.r + 1, d |-> d] : d \in Exist(st) }
  \cup { [k |-> "puttask", rid |-> st.r + 1, d |-> d, u |-> u, v |-> v, kd |-> kd] : d \in Exist(st), u \in {y \in U : st.ts[y].ex # 2}, v \in 1..4, kd \in Kds }
  \cup { [k |-> "deltask", rid |-> st.r + 1, u |-> u] : u \in {y \in U : st.ts[y].ex # 2} }
Fins(st) == { [k |-> "finish", u |-> u, how |-> w] : u \in {y \in U : st.ts[y].b = "wait" /\ y \notin Starting(st)}, w \in {"end", "raise"} }
HostOps(st) == IF ~HostFree(st) THEN {} ELSE IF st.up = 1 THEN {[k |-> "down"]} ELSE {[k |-> "up"]}
Times == {251, 733, 1129, 2221}
Few(S) == {e \in S : ("l" \in DOMAIN e => e.l = 1) /\ ("v" \in DOMAIN e => e.v = 1) /\ ("kd" \in DOMAIN e => e.kd \in {"wait", "slow", "hang"}) /\ ("d" \in DOMAIN e => e.d <= 2) /\ ("u" \in DOMAIN e => e.u <= 2)}
Ops(st) == Few(Life(st) \cup Edits(st) \cup Fins(st)) \cup HostOps(st) \cup { [k |-> "time", dt |-> dt] : dt \in Times }
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
WithRid(x, r) == IF "rid" \in DOMAIN x THEN [x EXCEPT !.rid = r] ELSE x
Bursts(st) ==
  IF Busy(st) THEN {} ELSE
  LET d == RandomElement(Exist(st) \cup {1})
      L == {x \in Life(st) : x.d = d /\ (x.k = "start" => Hangs(st, d) = {})}
      X == {x \in Edits(st) : ("u" \in DOMAIN x => st.ts[x.u].d = d) /\ ("d" \in DOMAIN x => x.d = d) /\ x.k # "newdep" /\ x.k # "deldep"}
      F == {x \in Fins(st) : st.ts[x.u].d = d}
      a == RandomElement(L)
      b == RandomElement(IF RandomElement(1..2) = 1 THEN L ELSE IF F # {} /\ RandomElement(1..2) = 1 THEN F ELSE X \cup L) IN
  IF L = {} \/ (b.k = "finish" /\ a.k # "stop") THEN {} ELSE { [k |-> "burst", a |-> a, b |-> WithRid(b, st.r + 2)] }
\* what makes progress
Next1(st, d) == LET p == st.dp[d] IN
  IF p.ph = "no" THEN {[k |-> "newdep", rid |-> st.r + 1, d |-> d, l |-> RandomElement(1..3)]}
  ELSE IF p.chg # "" THEN {[k |-> "time", dt |-> RandomElement(Times)]}
  ELSE IF p.ph = "off" THEN (IF Of(st, d) = {} \/ RandomElement(1..3) = 1 THEN One({x \in Edits(st) : x.k = "puttask" /\ x.d = d}) ELSE {RQ(st, "sched", d)})
  ELSE IF p.ph = "sch" THEN {RQ(st, "start", d)} ELSE {RQ(st, "stop", d)}
GenOps(st) ==
  LET x == RandomElement(1..20) d == RandomElement(1..2) k == RandomElement({"putdep", "puttask", "deltask", "deldep", "newdep", "puttask"})
      S == CASE x <= 8 -> IF Busy(st) THEN {} ELSE Next1(st, RandomElement({1, 1, 2, 3}))
             [] x <= 11 -> One({y \in Edits(st) : y.k = k /\ (k = "deldep" => RandomElement(1..3) = 1)})
             [] x = 12 -> One(Life(st))
             [] x <= 15 -> One(Fins(st))
             [] x <= 18 -> One(Bursts(st))
             [] x = 19 -> One(HostOps(st))
             [] OTHER -> {} IN
  IF S = {} THEN {[k |-> "time", dt |-> RandomElement(Times)]} ELSE S
Inv(st) ==
  /\ \A u \in U : LET x == st.ts[u] IN
       /\ (x.in # "") = (x.ex = 1 /\ st.dp[x.d].ph \in {"sch", "run"})
       /\ x.in = "running" <=> Alive(x)
       /\ x.in = "scheduled" => st.dp[x.d].ph = "sch" \/ st.dp[x.d].chg = "start"
       /\ x.b = "clean" => x.bt > st.n
  /\ \A d \in D : st.dp[d].chg = "start" => st.dp[d].u > st.n
  /\ Cardinality({d \in D : st.dp[d].chg = "start"}) <= 1
=============================================================================
