------------------------------ MODULE Handles ------------------------------
(* One client seen from both sides: its users (topic handles, receivers,       *)
(* registration contexts) and the link to the network.  Subscriptions and      *)
(* provisions are counted over the users; every active user gets its own copy  *)
(* of the stream; pause and demand are state.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Topics == {1, 2}
InH == {1, 2, 3}       \* topic handles, receiving
OutH == {6, 7, 8}      \* topic handles, providing
Rcv == {4, 5}          \* plain receivers that subscribe while they are started
ICtx == {9}  OCtx == {10}
Users == InH \cup OutH \cup Rcv
T(u) == CASE u \in {1, 2, 6, 7} -> {1} [] u \in {3, 8} -> {2} [] u = 5 -> {1} [] OTHER -> {1, 2}

Cfgs == { 0 }
Init0(cfg) == [
  started |-> [u \in Users |-> 0], reg |-> [u \in InH \cup OutH |-> FALSE], ctx |-> [u \in ICtx \cup OCtx |-> 0],
  q |-> [u \in InH \cup Rcv |-> <<>>],
  paused |-> [u \in InH \cup OutH |-> FALSE],
  ctl |-> [t \in Topics |-> -1],        \* what the client was last told while subscribed
  dem |-> [t \in Topics |-> FALSE],
  isreq |-> [u \in OutH |-> FALSE],
  lq |-> <<>>,                          \* arrived while nobody listens
  waits |-> {},                         \* <<id, u, v>>
  w |-> 0, n |-> 0, ops |-> 0 ]

B(x) == IF x THEN 1 ELSE 0
Sum(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
Subs(st, t) == Cardinality({u \in InH : t \in T(u) /\ st.reg[u]}) + Cardinality({u \in Rcv : t \in T(u) /\ st.started[u] > 0})
               + Sum(ICtx, LAMBDA u : st.ctx[u])
Provs(st, t) == Cardinality({u \in OutH : t \in T(u) /\ st.reg[u]}) + Sum(OCtx, LAMBDA u : st.ctx[u])
Active(st) == \E u \in Users : st.started[u] > 0
\* a started handle knows the demand
Know(st) == [st EXCEPT !.isreq = [u \in OutH |-> IF st.started[u] > 0 THEN st.dem[CHOOSE t \in T(u) : TRUE] ELSE @[u]]]

(* a message of the network reaches the client *)
Deliver(st, m) ==
  CASE m.k = "req" -> [st EXCEPT !.dem[m.t] = (m.v = 1)]
    [] m.k = "flip" -> [st EXCEPT !.dem = [t \in Topics |-> ~@[t]]]       \* both at once
    [] OTHER ->
       IF Subs(st, m.t) = 0 THEN st
       ELSE LET it == IF m.k = "ctl" THEN <<"c", m.t, m.v>> ELSE <<"d", m.t, m.n>> IN
            [st EXCEPT !.q = [u \in DOMAIN @ |-> IF st.started[u] > 0 /\ m.t \in T(u) THEN Append(@[u], it) ELSE @[u]],
                       !.ctl[m.t] = IF m.k = "ctl" THEN m.v ELSE @]
RECURSIVE DeliverAll(_, _)
DeliverAll(st, ms) == IF ms = <<>> THEN st ELSE DeliverAll(Deliver(st, Head(ms)), Tail(ms))
\* a topic nobody subscribes to any more: its pause state is forgotten
Forget(st) == [st EXCEPT !.ctl = [t \in Topics |-> IF Subs(st, t) = 0 THEN -1 ELSE @[t]]]

Start(st, u) ==
  LET st1 == [st EXCEPT !.started[u] = @ + 1]
      one == CHOOSE t \in T(u) : TRUE
      \* the handle learns the pause state the client already knows
      st2 == IF u \in InH /\ st.started[u] = 0 /\ st.ctl[one] >= 0 THEN [st1 EXCEPT !.q[u] = Append(@, <<"c", one, st.ctl[one]>>)] ELSE st1
  IN [DeliverAll(st2, st.lq) EXCEPT !.lq = <<>>]
Stop(st, u) == Forget([st EXCEPT !.started[u] = @ - 1])

ApplyRead(st, u) ==
  LET h == Head(st.q[u]) st1 == [st EXCEPT !.q[u] = Tail(@)] IN
  IF h[1] = "c" /\ u \in InH THEN [st1 EXCEPT !.paused[u] = (h[3] = 1)] ELSE st1

Value(st, u) == IF u \in OutH THEN st.isreq[u] ELSE st.paused[u]
Done(st) == {x \in st.waits : Value(st, x[2]) = x[3]}

Step0(st, e) ==
  CASE e.k = "start" -> Start(st, e.u)
    [] e.k = "stop" -> Stop(st, e.u)
    [] e.k = "swap" -> Start(Stop(st, e.u), e.u2)
    [] e.k = "reg" -> [st EXCEPT !.reg[e.u] = TRUE]
    [] e.k = "unreg" -> Forget([st EXCEPT !.reg[e.u] = FALSE])
    [] e.k = "enter" -> [st EXCEPT !.ctx[e.u] = @ + 1]
    [] e.k = "exit" -> Forget([st EXCEPT !.ctx[e.u] = @ - 1])
    [] e.k \in {"data", "ctl", "req", "flip"} -> IF Active(st) THEN Deliver(st, e) ELSE [st EXCEPT !.lq = Append(@, e)]
    [] e.k = "read" -> IF st.q[e.u] = <<>> THEN st ELSE ApplyRead(st, e.u)
    [] e.k = "pause" -> [st EXCEPT !.paused[e.u] = (e.v = 1)]
    [] e.k = "wait" -> [st EXCEPT !.waits = @ \cup {<<e.w, e.u, (e.v = 1)>>}, !.w = e.w]
    [] e.k = "giveup" -> [st EXCEPT !.waits = {x \in @ : x[1] # e.w}]
    [] OTHER -> st
Step(st, e) == Know(Step0(st, e))
Apply(st, e) ==
  LET s1 == Step(st, e) IN
  [s1 EXCEPT !.waits = @ \ Done(s1), !.n = IF e.k \in {"data", "pub"} THEN e.n ELSE @, !.ops = @ + 1]

HasQ(st, ks, t) == \E i \in 1..Len(st.lq) : st.lq[i].k \in ks /\ (st.lq[i].k = "flip" \/ st.lq[i].t = t)
Ops(st) ==
  { [k |-> "start", u |-> u] : u \in {x \in Users : st.started[x] < 2
       /\ (x \in Rcv => \A t \in T(x) : Subs(st, t) = 0 => ~HasQ(st, {"data", "ctl"}, t))
       /\ (x \in OutH => \A t \in T(x) : ~HasQ(st, {"req", "flip"}, t))
       /\ (x \in InH => \A t \in T(x) : ~HasQ(st, {"ctl"}, t))} }
  \cup { [k |-> "stop", u |-> u] : u \in {x \in Users : st.started[x] > 0} }
  \cup { [k |-> "swap", u |-> p[1], u2 |-> p[2]] : p \in {x \in (InH \cup OutH) \X (InH \cup OutH) : st.started[x[1]] > 0 /\ st.started[x[2]] = 0 /\ st.lq = <<>>} }
  \cup { [k |-> "reg", u |-> u] : u \in InH \cup OutH } \cup { [k |-> "unreg", u |-> u] : u \in InH \cup OutH }
  \cup { [k |-> "enter", u |-> u] : u \in {x \in ICtx \cup OCtx : st.ctx[x] < 2} }
  \cup { [k |-> "exit", u |-> u] : u \in {x \in ICtx \cup OCtx : st.ctx[x] > 0} }
  \cup { [k |-> "data", t |-> t, n |-> st.n + 1] : t \in Topics }
  \cup { [k |-> "ctl", t |-> t, v |-> v] : t \in Topics, v \in {0, 1} }
  \cup { [k |-> "req", t |-> t, v |-> 1 - B(st.dem[t])] : t \in {x \in Topics : ~HasQ(st, {"req", "flip"}, x)} }
  \cup { [k |-> "flip", ts |-> [t \in Topics |-> 1 - B(st.dem[t])]] : x \in {0} \ (IF \E t \in Topics : HasQ(st, {"req", "flip"}, t) THEN {0} ELSE {}) }
  \cup { [k |-> "read", u |-> u] : u \in InH \cup Rcv }
  \cup { [k |-> "pub", u |-> u, n |-> st.n + 1] : u \in OutH }
  \cup { [k |-> "pause", u |-> u, v |-> v] : u \in OutH, v \in {0, 1} }
  \cup { [k |-> "wait", u |-> u, v |-> v, w |-> st.w + 1] : u \in InH \cup OutH, v \in {0, 1} }
  \cup { [k |-> "giveup", w |-> x[1]] : x \in st.waits }
GenOps(st) ==
  LET O == Ops(st) ks == {o.k : o \in O}
      r == RandomElement(1..10)
      pick(S) == {RandomElement(S)}
  IN IF r <= 2 THEN pick({o \in O : o.k = "data"})
     ELSE IF r = 3 /\ \E o \in O : o.k = "read" /\ st.q[o.u] # <<>> THEN pick({o \in O : o.k = "read" /\ st.q[o.u] # <<>>})
     ELSE LET kk == RandomElement(ks) IN pick({o \in O : o.k = kk})

(* ------------------------------ properties --------------------------------- *)
Inv(st) ==
  /\ \A u \in InH \cup Rcv : \A i, j \in 1..Len(st.q[u]) :
       (i < j /\ st.q[u][i][1] = "d" /\ st.q[u][j][1] = "d" /\ st.q[u][i][2] = st.q[u][j][2]) => st.q[u][i][3] < st.q[u][j][3]
  /\ Active(st) => st.lq = <<>>
  /\ \A x \in st.waits : Value(st, x[2]) # x[3]

(* ------------------------------ monitor ------------------------------------ *)
C(b, name) == IF b THEN {} ELSE {name}
Sorted(S) == SetToSortSeq(S, <)
\* obs: add, rem, padd, prem (topics announced on the link, in order), data, ctl (what was put on the link), item (what a read returned),
\*      req, paused (flags: sequences of <<u, v>>), done (waiters released so far and not reported before), errors
Check(st, e) ==
  IF e.k = "opfail" THEN {"C01_op", "C02_op"} ELSE
  LET s1 == Step(st, e) o == e.obs IN
  C(o.add = Sorted({t \in Topics : Subs(st, t) = 0 /\ Subs(s1, t) > 0}), "C01_subscribe")
  \cup C(o.rem = Sorted({t \in Topics : Subs(st, t) > 0 /\ Subs(s1, t) = 0}), "C01_unsubscribe")
  \cup C(o.padd = Sorted({t \in Topics : Provs(st, t) = 0 /\ Provs(s1, t) > 0}), "C01_provide")
  \cup C(o.prem = Sorted({t \in Topics : Provs(st, t) > 0 /\ Provs(s1, t) = 0}), "C01_withdraw")
  \cup C(o.data = (IF e.k = "pub" THEN <<<<CHOOSE t \in T(e.u) : TRUE, e.n>>>> ELSE <<>>), "C01_publish")
  \cup C(o.ctl = (IF e.k = "pause" /\ st.paused[e.u] # (e.v = 1) THEN <<<<CHOOSE t \in T(e.u) : TRUE, e.v>>>> ELSE <<>>), "C02_announce")
  \cup C(e.k # "read" \/ o.item = (IF st.q[e.u] = <<>> THEN <<>> ELSE Head(st.q[e.u])),
         IF e.k = "read" /\ ((st.q[e.u] # <<>> /\ Head(st.q[e.u])[1] = "c") \/ (o.item # <<>> /\ o.item[1] = "c")) THEN "C02_read" ELSE "C01_read")
  \cup C(\A x \in Range(o.req) : x[2] = B(s1.isreq[x[1]]), "C02_requested")
  \cup C(\A x \in Range(o.paused) : x[2] = B(s1.paused[x[1]]), "C02_paused")
  \cup C(Range(o.done) = {x[1] : x \in Done(s1)}, "C02_waiters")
  \cup C(o.errors = <<>>, "C01_error")
=============================================================================
