------------------------------- MODULE Tasks --------------------------------
(* Task manager, task hosts and the life of tasks.  The manager answers        *)
(* requests one after the other; time is in milliseconds.  Two operations      *)
(* issued at the same instant (a burst) may take effect in either order.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
Hosts == {1, 2}
Cfgs == {0}
Fresh == [resp |-> {}, fin |-> {}, made |-> {}, hreg |-> <<>>, hunreg |-> <<>>]
Init0(cfg) == [ n |-> 0, up |-> [h \in Hosts |-> 0], inst |-> [h \in Hosts |-> 0], dl |-> [h \in Hosts |-> 0],
  ts |-> <<>>, q |-> <<>>, blk |-> [k |-> ""], wt |-> {}, r |-> 0, out |-> Fresh ]
(* up: 0 off, 1 up, 2 shutting down, 3 lost (unreachable, the manager does not know)            *)
(* task: h host, i its incarnation, st "sch" "run" "over", fin, body "no" "wait" "clean" "gone" *)
Alive(t) == t.body \in {"wait", "clean"}
T0(h) == [h |-> h, i |-> 0, st |-> "sch", fin |-> "", body |-> "no", bt |-> 0, cn |-> FALSE, kd |-> [can |-> "norm"]]
Resp(s, rid, code, stt) == [s EXCEPT !.out.resp = @ \cup {<<rid, code, stt>>}]

Over(s, t, fin, err) == IF s.ts[t].st = "over" THEN s ELSE
  LET w == {x \in s.wt : x[2] = t} IN
  [s EXCEPT !.ts[t].st = "over", !.ts[t].fin = fin, !.out.fin = @ \cup {<<t, fin, err>>}, !.wt = @ \ w,
            !.out.resp = @ \cup {<<x[1], "ok", {fin}>> : x \in w}]
\* the body of task t is through; its report reaches the manager unless the host is out of reach
BodyEnd(s, t, fin, err) ==
  LET x == s.ts[t] s1 == [s EXCEPT !.ts[t].body = "gone", !.ts[t].bt = 0] IN
  IF s.up[x.h] = 3 \/ s.inst[x.h] # x.i THEN s1 ELSE Over(s1, t, fin, err)
CancelBody(s, t) ==
  LET x == s.ts[t] c == x.kd.can IN
  CASE x.body = "clean" -> BodyEnd(s, t, "stopped", "none")
    [] x.body = "wait" /\ c = "norm" -> BodyEnd(s, t, "stopped", "none")
    [] x.body = "wait" /\ c = "fin" -> BodyEnd(s, t, "ended", "none")
    [] x.body = "wait" /\ c = "raise" -> BodyEnd(s, t, "failed", "own")
    [] x.body = "wait" /\ c \in {"slow", "long"} -> [s EXCEPT !.ts[t].body = "clean", !.ts[t].bt = s.n + (IF c = "slow" THEN 400 ELSE 3000)]
    [] x.body = "wait" /\ x.kd.sync = 1 -> [s EXCEPT !.ts[t].cn = TRUE]      \* a thread that goes on for now
    [] OTHER -> s
\* the task begins to run
RunTask(s, t, kd) ==
  LET s1 == [s EXCEPT !.ts[t].st = "run", !.ts[t].body = "wait", !.ts[t].kd = kd, !.ts[t].i = s.inst[s.ts[t].h]] IN
  IF kd.run = "end" THEN BodyEnd(s1, t, "ended", "none") ELSE IF kd.run = "raise" THEN BodyEnd(s1, t, "failed", "own") ELSE s1
Ran(kd) == CASE kd.run = "end" -> {"running", "ended"} [] kd.run = "raise" -> {"running", "failed"} [] OTHER -> {"running"}

\* the manager takes up request x; it may be held up (blk)
Do(s, x) ==
  CASE x.k = "start" ->
         LET t == x.t h == s.ts[t].h IN
         IF s.ts[t].st = "over" THEN Resp(s, x.rid, "not_found", {})
         ELSE IF s.ts[t].st = "run" THEN Resp(s, x.rid, "bad_request", {})
         ELSE IF s.up[h] = 0 THEN Resp(Over(s, t, "failed", "other"), x.rid, "ok", {"failed"})
         ELSE IF s.up[h] = 2 THEN [s EXCEPT !.blk = [k |-> "host", h |-> h, x |-> x]]
         ELSE LET s1 == [s EXCEPT !.out.made = @ \cup {t}] IN
              IF x.kd.set \in {"create", "raise"} THEN Resp(Over(s1, t, "failed", "own"), x.rid, "ok", {"failed"})
              ELSE IF x.kd.set = "bad" THEN Resp(Over(s1, t, "failed", "other"), x.rid, "ok", {"failed"})
              ELSE IF x.kd.set \in {"short", "hang"} THEN [s1 EXCEPT !.blk = [k |-> "setup", h |-> h, x |-> x, u |-> s.n + (IF x.kd.set = "short" THEN 600 ELSE 1000)]]
              ELSE Resp(RunTask(s1, t, x.kd), x.rid, "ok", Ran(x.kd))
    [] x.k \in {"cancel", "cwait"} ->
         LET t == x.t h == s.ts[t].h
             Fin(z) == IF x.k = "cancel" THEN Resp(z, x.rid, "ok", {}) ELSE IF z.ts[t].st = "over" THEN Resp(z, x.rid, "ok", {z.ts[t].fin}) ELSE [z EXCEPT !.wt = @ \cup {<<x.rid, t>>}] IN
         IF s.ts[t].st = "over" THEN Resp(s, x.rid, "not_found", {})
         ELSE IF s.ts[t].st = "sch" THEN Fin(Over(s, t, "stopped", "none"))
         ELSE IF s.up[h] = 2 THEN [s EXCEPT !.blk = [k |-> "host", h |-> h, x |-> x]]
         ELSE With(CancelBody(s, t), Fin)
    [] x.k = "get" -> IF s.ts[x.t].st = "over" THEN Resp(s, x.rid, "not_found", {}) ELSE Resp(s, x.rid, "ok", {IF s.ts[x.t].st = "sch" THEN "scheduled" ELSE "running"})
RECURSIVE RunQ(_)
RunQ(s) == IF s.blk.k # "" \/ s.q = <<>> THEN s ELSE
  LET x == Head(s.q) F(z) == RunQ(z) IN With(Do([s EXCEPT !.q = Tail(@)], x), F)
\* what was held up goes on
Unblock(s) ==
  LET b == s.blk x == b.x s0 == [s EXCEPT !.blk = [k |-> ""]]
      Fin(z) == IF z.ts[x.t].st = "over" THEN Resp(z, x.rid, "ok", {z.ts[x.t].fin}) ELSE [z EXCEPT !.wt = @ \cup {<<x.rid, x.t>>}] IN
  RunQ(IF b.k = "setup" THEN
         IF s.ts[x.t].st = "over" THEN Resp(s0, x.rid, "ok", {s.ts[x.t].fin})
         ELSE IF x.kd.set = "short" THEN Resp(RunTask(s0, x.t, x.kd), x.rid, "ok", Ran(x.kd))
         ELSE Resp(Over(s0, x.t, "failed", "other"), x.rid, "ok", {"failed"})
       ELSE IF x.k = "start" THEN Resp(s0, x.rid, "ok", {s.ts[x.t].fin})
       ELSE IF x.k = "cancel" THEN Resp(s0, x.rid, "ok", {})
       ELSE Fin(s0))

On(s, h) == {t \in 1..Len(s.ts) : s.ts[t].h = h}
Mine(s, h) == {t \in On(s, h) : Alive(s.ts[t]) /\ s.ts[t].i = s.inst[h]}
RECURSIVE EndAll(_, _)
EndAll(s, T) == IF T = {} THEN s ELSE LET t == Min(T) F(z) == EndAll(z, T \ {t}) IN
  With(IF s.ts[t].st = "sch" THEN Over(s, t, "failed", "other") ELSE IF s.ts[t].st = "run" THEN Over(s, t, "stopped", "none") ELSE s, F)
Leave(s, h) ==
  LET Un(z) == IF z.blk.k # "" /\ z.blk.h = h THEN Unblock(z) ELSE z IN
  With(EndAll([s EXCEPT !.up[h] = 0, !.dl[h] = 0, !.out.hunreg = Append(@, h)], On(s, h)), Un)
Settle(s, h) == IF s.up[h] = 2 /\ Mine(s, h) = {} THEN Leave(s, h) ELSE s
RECURSIVE CancelAll(_, _)
CancelAll(s, T) == IF T = {} THEN s ELSE LET t == Min(T) F(z) == CancelAll(z, T \ {t}) IN With(CancelBody(s, t), F)
Timers(s) == {<<s.ts[t].bt, 1, t>> : t \in {y \in 1..Len(s.ts) : s.ts[y].body = "clean"}} \cup {<<s.dl[h], 2, h>> : h \in {y \in Hosts : s.up[y] = 2}}
             \cup (IF s.blk.k = "setup" THEN {<<s.blk.u, 3, 0>>} ELSE {})
RECURSIVE Advance(_, _)
Advance(s, to) ==
  LET D == {x \in Timers(s) : x[1] <= to} IN
  IF D = {} THEN [s EXCEPT !.n = to] ELSE
  LET x == CHOOSE y \in D : \A z \in D : y[1] <= z[1]
      s1 == [s EXCEPT !.n = x[1]]
      F(z) == Advance(z, to)
      S1(z) == Settle(z, s.ts[x[3]].h) IN
  With(CASE x[2] = 1 -> With(BodyEnd(s1, x[3], "stopped", "none"), S1) [] x[2] = 2 -> Leave(s1, x[3]) [] OTHER -> Unblock(s1), F)

Step(s, e) ==
  CASE e.k = "sched" -> Resp([s EXCEPT !.ts = Append(@, T0(e.h)), !.r = e.rid], e.rid, "ok", {"scheduled"})
    [] e.k \in {"start", "cancel", "cwait", "get"} -> RunQ([s EXCEPT !.q = Append(@, e), !.r = IF e.rid > @ THEN e.rid ELSE @])
    [] e.k = "up" -> LET s1 == [s EXCEPT !.up[e.h] = 1, !.inst[e.h] = @ + 1, !.out.hreg = Append(@, e.h)] IN
                     IF s.up[e.h] = 3 THEN EndAll(s1, On(s, e.h)) ELSE s1
    [] e.k = "down" -> LET Next(z) == IF Mine(z, e.h) = {} THEN Leave(z, e.h) ELSE [z EXCEPT !.dl[e.h] = z.n + 1000]
                           \* a task that was being set up is given up
                           s0 == [s EXCEPT !.up[e.h] = 2]
                           Give(z) == IF z.blk.k = "setup" /\ z.blk.h = e.h THEN Unblock(Over(z, z.blk.x.t, "failed", "other")) ELSE z IN
                       With(With(CancelAll(s0, Mine(s, e.h)), Give), Next)
    [] e.k = "lose" -> [s EXCEPT !.up[e.h] = 3]
    [] e.k = "finish" -> LET S1(z) == Settle(z, s.ts[e.t].h) IN With(IF s.ts[e.t].body # "wait" THEN s ELSE IF e.how = "end" THEN BodyEnd(s, e.t, IF s.ts[e.t].cn THEN "stopped" ELSE "ended", "none") ELSE BodyEnd(s, e.t, "failed", "own"), S1)
    [] e.k = "time" -> Advance(s, s.n + e.dt)
    [] OTHER -> s
Clear(s) == [s EXCEPT !.out = Fresh]
Two(s, a, b) == LET F(z) == Step(z, b) IN With(Step(s, a), F)
\* a task may also be stopped before it did anything
Orders(st, e) == IF e.k = "burst" THEN {Two(Clear(st), e.a, e.b), Two(Clear(st), e.b, e.a)}
                                       \cup (IF e.a.k = "start" /\ e.b.k \in {"down", "cancel", "cwait"} THEN {Two(Clear(st), [e.a EXCEPT !.kd.run = "wait", !.kd.can = "norm"], e.b)} ELSE {})
                                       \* a thread that is through when its task is cancelled
                                       \cup (IF e.a.k = "finish" /\ e.a.how = "end" /\ st.ts[e.a.t].kd.sync = 1 THEN {Step(Clear([st EXCEPT !.ts[e.a.t].kd.can = "norm"]), e.b)} ELSE {}) ELSE {Step(Clear(st), e)}

Name(t) == IF t.st = "sch" THEN "scheduled" ELSE IF t.st = "run" THEN "running" ELSE "none"
AliveSet(s) == {t \in 1..Len(s.ts) : Alive(s.ts[t])}
ErrOk(want, got) == IF want = "other" THEN got # "none" ELSE got = want
\* obs: resp <<rid, code, status, err>>, fin <<t, status, err>>, alive, made, view (status per task; <<>>: no answer), hosts, hreg, hunreg
MatchFin(s, o) == \A f \in s.out.fin : \E g \in Range(o.fin) : g[1] = f[1] /\ g[2] = f[2] /\ ErrOk(f[3], g[3])
MatchAlive(s, o) == Range(o.alive) = AliveSet(s)
MatchView(s, o) == IF s.blk.k # "" THEN TRUE ELSE o.view = [t \in 1..Len(s.ts) |-> Name(s.ts[t])]
Listed(s) == {h \in Hosts : s.up[h] # 0}
MatchHosts(s, o) == IF s.blk.k # "" THEN TRUE ELSE Range(o.hosts) = Listed(s) /\ Len(o.hosts) = Cardinality(Listed(s))
MatchFins(s, o) == MatchFin(s, o) /\ Len(o.fin) = Cardinality(s.out.fin)
Ok(s, o) == MatchFins(s, o) /\ MatchAlive(s, o) /\ MatchView(s, o) /\ MatchHosts(s, o)
Best(st, e) == LET S == Orders(st, e) G == {s \in S : Ok(s, e.obs)} IN IF G # {} THEN CHOOSE s \in G : TRUE ELSE CHOOSE s \in S : TRUE
Apply(st, e) == IF "obs" \in DOMAIN e THEN Best(st, e) ELSE IF e.k = "burst" THEN Two(Clear(st), e.a, e.b) ELSE Step(Clear(st), e)

C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"T01_op", "T02_op"} ELSE
  LET o == e.obs
      S == {s \in Orders(st, e) : TRUE}
      s == Best(st, e)
      RS == UNION {x.out.resp : x \in S}
      SS == e.k = "burst" /\ e.a.k = "start" /\ e.b.k = "start" /\ e.a.t = e.b.t
      codes(rid) == (IF SS THEN {"bad_request", "not_found"} ELSE {}) \cup {y[2] : y \in {z \in RS : z[1] = rid}}
      Get(x, rid) == x.k = "get" /\ x.rid = rid
      sts(rid) == UNION {y[3] : y \in {z \in RS : z[1] = rid}} \cup (IF e.k = "burst" /\ (Get(e.a, rid) \/ Get(e.b, rid)) THEN {"running"} ELSE {})
                  \cup (IF e.k = "burst" /\ ((e.a.k = "cwait" /\ e.a.rid = rid) \/ (e.b.k = "cwait" /\ e.b.rid = rid)) THEN {f[2] : f \in UNION {x.out.fin : x \in S}} ELSE {})
                  \cup (IF e.k = "burst" /\ e.b.k = "down" /\ e.a.k \in {"start", "cwait"} THEN {"failed", "stopped"} ELSE {})
      gone == e.k \in {"down", "lose", "up"} \/ (e.k = "burst" /\ (e.a.k = "down" \/ e.b.k = "down"))
      Both(b) == C(b, "T01_life") \cup C(b, "T02_gone") IN
  \* every request is answered as it should be and when it should be
  C(/\ {x[1] : x \in Range(o.resp)} = {y[1] : y \in s.out.resp} /\ Len(o.resp) = Cardinality({x[1] : x \in Range(o.resp)})
    /\ \A x \in Range(o.resp) : x[2] \in codes(x[1]) /\ (x[2] = "ok" => IF sts(x[1]) = {} THEN TRUE ELSE x[3] \in sts(x[1])), "T01_answer")
  \cup C(SS => Cardinality({x \in Range(o.resp) : x[2] = "ok"}) = 1, "T01_answer")
  \cup C(\A x \in Range(o.resp) : (x[2] = "ok" /\ x[3] # "") => ((x[3] = "failed") = (x[4] # "none")), "T01_error")
  \* finals are announced once, with the right status and error
  \cup C(\E z \in S : MatchFins(z, o), "T01_final")
  \cup C(\E z \in S : MatchView(z, o), "T01_view")
  \cup C(\E z \in S : MatchAlive(z, o), "T02_alive")
  \cup C(\E z \in S : MatchHosts(z, o), "T02_hosts")
  \cup C(Ok(s, o), IF gone THEN "T02_gone" ELSE "T01_life")
  \cup C(IF gone THEN MatchFins(s, o) /\ MatchView(s, o) ELSE TRUE, "T02_over")
  \cup C(o.back = <<>>, "T01_back")
  \cup C(Range(o.made) \subseteq UNION {z.out.made : z \in S} /\ Len(o.made) = Cardinality(Range(o.made)), "T01_once")
  \cup C(o.cfg = <<>>, "T01_config")
  \cup C(o.hreg = s.out.hreg /\ Len(o.hunreg) = Len(s.out.hunreg) /\ Range(o.hunreg) = Range(s.out.hunreg), "T02_announce")

\* ---------------------------------------------------------------- operations
Kd(c, s, r, x, y) == [set |-> s, run |-> r, can |-> x, sync |-> y]
MCKinds == { Kd(0, "ok", "wait", "norm", 0), Kd(0, "ok", "wait", "slow", 0), Kd(0, "ok", "wait", "ign", 0), Kd(0, "ok", "wait", "ign", 1), Kd(0, "ok", "raise", "norm", 0), Kd(0, "hang", "wait", "norm", 0), Kd(0, "raise", "wait", "norm", 0) }
AllKinds == { Kd(0, s, "wait", "norm", 0) : s \in {"create", "raise", "bad", "short", "hang"} }
  \cup { Kd(0, s, r, x, 0) : s \in {"ok"}, r \in {"wait"}, x \in {"norm", "slow", "long", "fin", "raise", "ign"} }
  \cup { Kd(0, "ok", r, "norm", y) : r \in {"end", "raise", "wait"}, y \in {0, 1} } \cup { Kd(0, "short", r, "fin", 0) : r \in {"wait", "end", "raise"} }
  \cup { Kd(0, "ok", "wait", x, 1) : x \in {"raise", "ign"} }
Reach(st, h) == st.up[h] # 3
Pend(st) == Range(st.q) \cup (IF st.blk.k = "" THEN {} ELSE {st.blk.x})
\* (nor are requests about a task queued up behind its start when it is over at once, or behind its cancellation)
Free(st) == {t \in 1..Len(st.ts) : Reach(st, st.ts[t].h) /\ \A x \in Pend(st) : (x.t = t => x.k \notin {"cancel", "cwait"} /\ (x.k = "start" => x.kd.run = "wait"))}
\* two limits that end in the same millisecond are left out
NoTie(st, kd) == kd.set = "hang" => \A h \in Hosts : st.up[h] = 2 => st.dl[h] # st.n + 1000
DownOk(st) == st.q = <<>> /\ (st.blk.k = "setup" => st.blk.u # st.n + 1000)
Acts(st, ks) ==
  { [k |-> "start", rid |-> st.r + 1, t |-> t, kd |-> kd] : t \in Free(st), kd \in {y \in ks : NoTie(st, y)} }
  \cup { [k |-> k, rid |-> st.r + 1, t |-> t] : k \in {"cancel", "cwait", "get"}, t \in Free(st) }
Fins(st) == { [k |-> "finish", t |-> t, how |-> w] : t \in {y \in 1..Len(st.ts) : st.ts[y].body = "wait"}, w \in {"end", "raise"} }
HostOps(st) == { [k |-> "up", h |-> h] : h \in {y \in Hosts : st.up[y] \in {0, 3} /\ st.blk.k = ""} } \cup { [k |-> "down", h |-> h] : h \in {y \in Hosts : st.up[y] = 1 /\ DownOk(st)} }
  \cup { [k |-> "lose", h |-> h] : h \in {y \in Hosts : st.up[y] = 1 /\ st.blk.k = ""} }
Times == {251, 733, 1129, 5003}
NSched(st, h) == IF st.blk.k = "" /\ Len(st.ts) < 9 THEN { [k |-> "sched", rid |-> st.r + 1, h |-> h] } ELSE {}
OpsK(st, ks) == Acts(st, ks) \cup Fins(st) \cup HostOps(st) \cup UNION {NSched(st, h) : h \in Hosts} \cup { [k |-> "time", dt |-> dt] : dt \in Times }
Ops(st) == OpsK(st, MCKinds)
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Simple == {"norm", "fin", "raise"}
\* pairs of operations at the same instant
Bursts(st) ==
  LET R == {y \in 1..Len(st.ts) : st.ts[y].st = "run" /\ st.ts[y].body = "wait" /\ st.up[st.ts[y].h] = 1}
      Sc == {y \in 1..Len(st.ts) : st.ts[y].st = "sch" /\ st.up[st.ts[y].h] = 1}
      Rs == {y \in R : st.ts[y].kd.can \in Simple}
      kd == RandomElement({y \in AllKinds : y.set = "ok" /\ y.can \in Simple})
      f(t) == [k |-> "finish", t |-> t, how |-> RandomElement({"end", "raise"})]
      c(t, i) == [k |-> RandomElement({"cancel", "cwait"}), rid |-> st.r + i, t |-> t]
      s(t, i) == [k |-> "start", rid |-> st.r + i, t |-> t, kd |-> kd]
      d(t) == [k |-> "down", h |-> st.ts[t].h]
      B(x, y) == [k |-> "burst", a |-> x, b |-> y]
      pure(h) == \A t \in On(st, h) : Alive(st.ts[t]) => st.ts[t].body = "wait" /\ st.ts[t].kd.can \in Simple IN
  IF st.blk.k # "" THEN {} ELSE
  UNION { One({ B(f(t), c(t, 1)) : t \in R }), One({ B(c(t, 1), c(t, 2)) : t \in Rs }), One({ B(f(t), d(t)) : t \in {y \in R : pure(st.ts[y].h)} }), One({ B(c(t, 1), d(t)) : t \in {y \in Rs : pure(st.ts[y].h)} }),
          One({ B(s(t, 1), d(t)) : t \in {y \in Sc : pure(st.ts[y].h)} }), One({ B(s(t, 1), s(t, 2)) : t \in Sc }), One({ B(s(t, 1), c(t, 2)) : t \in Sc }),
          One({ B(s(t, 1), [k |-> "get", rid |-> st.r + 2, t |-> t]) : t \in Sc }), One({ B(s(t, 1), s(u, 2)) : t \in Sc, u \in Sc }) }
GenOps(st) ==
  LET x == RandomElement(1..20)
      sch == {t \in Free(st) : st.ts[t].st = "sch"}
      ok(k) == [k |-> "start", rid |-> st.r + 1, t |-> RandomElement(k), kd |-> RandomElement({y \in AllKinds : NoTie(st, y)})]
      rn == {t \in Free(st) : st.ts[t].st = "run"} 
      S == CASE x <= 3 -> NSched(st, RandomElement({h \in Hosts : st.up[h] = 1} \cup One(Hosts)))
             [] x <= 8 -> IF sch = {} THEN {} ELSE {ok(sch)}
             [] x <= 11 -> IF rn = {} THEN {} ELSE {[k |-> RandomElement({"cancel", "cwait"}), rid |-> st.r + 1, t |-> RandomElement(rn)]}
             [] x = 12 -> One(Acts(st, {RandomElement(AllKinds)}))
             [] x <= 14 -> One(Fins(st))
             [] x <= 16 -> One(HostOps(st))
             [] x = 17 -> One({y \in HostOps(st) : y.k = "up"})
             [] x <= 19 -> One(Bursts(st))
             [] OTHER -> {} IN
  IF S # {} THEN S ELSE IF RandomElement(1..2) = 1 /\ st.blk.k = "" THEN One({y \in HostOps(st) : y.k = "up"} \cup NSched(st, 1)) \cup One({[k |-> "time", dt |-> RandomElement(Times)]}) ELSE {[k |-> "time", dt |-> RandomElement(Times)]}

Inv(st) ==
  /\ \A t \in 1..Len(st.ts) : LET x == st.ts[t] IN
       /\ (x.st = "over") = (x.fin # "")
       /\ x.st = "run" => (Alive(x) \/ st.up[x.h] = 3) /\ st.up[x.h] # 0 /\ x.i = st.inst[x.h]
       /\ x.st = "sch" => x.body = "no"
       /\ (x.st = "over" /\ Alive(x)) => x.kd.can \in {"long", "ign", "slow"} \/ st.inst[x.h] # x.i
       /\ x.body = "clean" => x.bt > st.n
  /\ \A h \in Hosts : st.up[h] = 2 => st.dl[h] > st.n /\ Mine(st, h) # {}
  /\ st.blk.k = "" => st.q = <<>>
  /\ \A w \in st.wt : st.ts[w[2]].st # "over"
=============================================================================
