------------------------------- MODULE Tunnel -------------------------------
(* Web requests carried over the network (streamtasks/asgi.py): what one side  *)
(* hands over reaches the other, in order, until one of them goes away; the    *)
(* other one is then told.  Events are numbers, 90 is the disconnect.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
K == 1..7
Cfgs == { "plain", "worker" }
NoOut == [a |-> [c \in K |-> <<>>], r |-> [c \in K |-> <<>>]]
Init0(cfg) == [ cfg |-> cfg, n |-> 0, up |-> [r \in 1..2 |-> 1], out |-> NoOut,
  cn |-> [c \in K |-> [ph |-> "none", r |-> 0, app |-> "none", q |-> <<>>, w |-> 0, sr |-> 0, told |-> 0]] ]
(* ph   requester: none, open, gone    app  none, run, over    q  on its way to the application   w  receives it has waiting *)
(* sr   sending to the requester fails     told  the disconnect is on its way to the application or was there *)
RECURSIVE Deliver(_, _)
Deliver(s, c) == LET x == s.cn[c] IN
  IF x.app # "run" \/ x.w = 0 \/ x.q = <<>> THEN s
  ELSE With([s EXCEPT !.cn[c].w = @ - 1, !.cn[c].q = Tail(@), !.out.a[c] = Append(@, Head(x.q))], LAMBDA z : Deliver(z, c))
ToApp(s, c, x) == With([s EXCEPT !.cn[c].q = Append(@, x)], LAMBDA z : Deliver(z, c))
Gone(s, c) == ToApp([s EXCEPT !.cn[c].ph = "gone", !.cn[c].told = 1], c, 90)
End(x) == [x EXCEPT !.app = "over", !.w = 0, !.q = <<>>, !.ph = IF @ = "open" THEN "gone" ELSE @]
Step(s, e) ==
  CASE e.k = "open" -> [s EXCEPT !.n = e.c, !.cn[e.c].ph = "open", !.cn[e.c].app = "run", !.cn[e.c].r = e.r]
    [] e.k = "feed" -> IF s.cn[e.c].ph # "open" THEN s ELSE IF e.x = 90 THEN Gone(s, e.c) ELSE ToApp(s, e.c, e.x)
    [] e.k = "recv" -> IF s.cn[e.c].app # "run" THEN s ELSE With([s EXCEPT !.cn[e.c].w = @ + 1], LAMBDA z : Deliver(z, e.c))
    [] e.k = "unrecv" -> IF s.cn[e.c].w > 0 THEN [s EXCEPT !.cn[e.c].w = @ - 1] ELSE s
    [] e.k = "send" -> IF s.cn[e.c].app # "run" \/ s.cn[e.c].ph # "open" THEN s
                       ELSE IF s.cn[e.c].sr = 1 THEN Gone(s, e.c) ELSE [s EXCEPT !.out.r[e.c] = Append(@, e.x)]
    [] e.k \in {"ret", "raise"} -> IF s.cn[e.c].app = "run" THEN [s EXCEPT !.cn[e.c] = End(@)] ELSE s
    [] e.k \in {"cancel", "rraise"} -> IF s.cn[e.c].ph = "open" THEN Gone(s, e.c) ELSE s
    [] e.k = "sraise" -> [s EXCEPT !.cn[e.c].sr = 1]
    [] e.k = "stop" -> [s EXCEPT !.up[e.r] = 0, !.cn = [c \in K |-> IF @[c].r = e.r /\ @[c].app = "run" THEN End(@[c]) ELSE @[c]]]
    [] e.k = "start" -> [s EXCEPT !.up[e.r] = 1]
    [] OTHER -> s
Clear(s) == [s EXCEPT !.out = NoOut]
Two(s, a, b) == With(Step(s, a), LAMBDA z : Step(z, b))
\* the requester went away before the application was even started
Never(s, a) == [s EXCEPT !.n = a.c, !.cn[a.c].ph = "gone", !.cn[a.c].r = a.r]
Orders(st, e) ==
  LET s == Clear(st) IN
  IF e.k # "burst" THEN {Step(s, e)} ELSE
  {Two(s, e.a, e.b)} \cup (IF e.a.k = "open" THEN {} ELSE {Two(s, e.b, e.a)})
  \cup (IF e.a.k = "open" /\ e.b.k \in {"cancel", "rraise"} /\ e.b.c = e.a.c THEN {Never(s, e.a)} ELSE {})
\* obs: a, r <<connection, event>> as received by applications and requesters, apps that run, open requests, left over tasks, bad
Of(X, c) == LET S == SelectSeq(X, LAMBDA y : y[1] = c) IN [i \in 1..Len(S) |-> S[i][2]]
MA(s, o) == \A c \in K : Of(o.a, c) = s.out.a[c]
MR(s, o) == \A c \in K : Of(o.r, c) = s.out.r[c]
MApps(s, o) == Range(o.apps) = {c \in K : s.cn[c].app = "run"}
MOpen(s, o) == Range(o.open) = {c \in K : s.cn[c].ph = "open"}
Good(s, o) == MA(s, o) /\ MR(s, o) /\ MApps(s, o) /\ MOpen(s, o)
Apply(st, e) == IF "obs" \in DOMAIN e THEN LET S == Orders(st, e) G == {s \in S : Good(s, e.obs)} IN IF G # {} THEN CHOOSE s \in G : TRUE ELSE CHOOSE s \in S : TRUE
                ELSE IF e.k = "burst" THEN Two(Clear(st), e.a, e.b) ELSE Step(Clear(st), e)
Quiet(s) == s.up = [r \in 1..2 |-> 1] /\ \A c \in K : s.cn[c].ph # "open" /\ s.cn[c].app # "run"
C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"W02_op"} ELSE
  LET o == e.obs S == Orders(st, e) IN
  C(\E s \in S : MA(s, o), "W02_to_application")
  \cup C(\E s \in S : MR(s, o), "W02_to_requester")
  \cup C(\E s \in S : MApps(s, o), "W02_applications")
  \cup C(\E s \in S : MOpen(s, o), "W02_requests")
  \cup C(\E s \in S : Good(s, o), "W02_state")
  \cup C(o.bad = <<>>, "W02_content")
  \cup C((\E s \in S : Good(s, o) /\ Quiet(s)) => o.left <= 0, "W02_left_open")
  \cup (IF e.k # "http" THEN {} ELSE UNION { LET q == e.qs[i] a == o.ans[i] IN
        C(<<a.m, a.p, a.h, a.b>> = <<q.m, q.p, q.h, q.b>>, "W02_request") \cup C(a.res = q.res, "W02_response") : i \in 1..Len(e.qs) })
\* ---------------------------------------------------------------- operations
X == 1..12
Conns(st) == {c \in K : st.cn[c].ph = "open" \/ st.cn[c].app = "run"}
OpenAt(st, c) == { [k |-> "open", c |-> c, r |-> r, ty |-> t, s |-> s] : r \in {y \in 1..2 : st.up[y] = 1}, t \in {"http", "websocket"}, s \in 1..6 }
Opens(st) == IF st.n >= 7 THEN {} ELSE OpenAt(st, st.n + 1)
Feeds(st, c) == IF st.cn[c].ph # "open" THEN {} ELSE { [k |-> "feed", c |-> c, x |-> x] : x \in X \cup {90} }
Leaves(st, c) == IF st.cn[c].ph # "open" THEN {} ELSE { [k |-> k, c |-> c] : k \in {"cancel", "rraise", "sraise"} }
AppOps(st, c) == IF st.cn[c].app # "run" THEN {} ELSE
  { [k |-> k, c |-> c] : k \in ({"recv", "unrecv", "ret", "raise"} \ (IF st.cn[c].w >= 2 THEN {"recv"} ELSE {})) \ (IF st.cn[c].w = 0 THEN {"unrecv"} ELSE {}) } \cup { [k |-> "send", c |-> c, x |-> x] : x \in X }
Runs(st) == { [k |-> "stop", r |-> r] : r \in {y \in 1..2 : st.up[y] = 1} } \cup { [k |-> "start", r |-> r] : r \in {y \in 1..2 : st.up[y] = 0} }
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Kind(S, ks) == LET k == RandomElement(ks) IN One({x \in S : x.k = k})
Request(st) == [m |-> RandomElement(1..4), p |-> RandomElement(1..5), h |-> RandomElement(1..5), b |-> RandomElement(1..6), res |-> RandomElement(1..9)]
\* something that happens to a connection
AnyOf(st, c, x) ==
  CASE x <= 4 -> One({y \in Feeds(st, c) : y.x # 90}) [] x <= 8 -> Kind(AppOps(st, c), {"recv"}) [] x <= 11 -> Kind(AppOps(st, c), {"send"})
    [] x = 12 -> Kind(AppOps(st, c), {"ret", "raise"}) [] x = 13 -> Kind(AppOps(st, c), {"unrecv"}) [] x = 14 -> {y \in Feeds(st, c) : y.x = 90} [] OTHER -> One(Leaves(st, c))
Either(st, c, x) == IF Conns(st) = {} THEN {} ELSE AnyOf(st, c, x)
RC(st) == IF Conns(st) = {} THEN 1 ELSE RandomElement(Conns(st))
Pair(st, c) ==
  LET a == Either(st, c, RandomElement(1..15)) b == Either(st, c, RandomElement(1..15)) d == Either(st, RC(st), RandomElement(1..15)) x == RandomElement(1..3) IN
  IF a = {} THEN {} ELSE LET aa == CHOOSE y \in a : TRUE IN
  IF x = 1 /\ d # {} THEN { [k |-> "burst", a |-> aa, b |-> y] : y \in d }
  ELSE IF b # {} THEN { [k |-> "burst", a |-> aa, b |-> y] : y \in b } ELSE {}
\* both of one side: their order is known
Sided(st, e) == LET App == {"recv", "unrecv", "send", "ret", "raise"} Req == {"feed", "cancel", "rraise", "sraise"} IN
  ~(e.a.c = e.b.c /\ ((e.a.k \in App /\ e.b.k \in App) \/ (st.cn[e.a.c].sr = 1 /\ {e.a.k, e.b.k} = {"feed", "send"}) \/ (e.a.k = "sraise" \/ e.b.k = "sraise") \/ (e.a.k \in Req /\ e.b.k \in Req)))
OpenPair(st, x) ==
  IF st.n >= 7 \/ ~(\E r \in 1..2 : st.up[r] = 1) THEN {} ELSE
  LET c == st.n + 1 a == RandomElement(OpenAt(st, c)) IN
  CASE x <= 3 -> { [k |-> "burst", a |-> a, b |-> [k |-> y, c |-> c]] : y \in One({"cancel", "rraise"}) }
    [] x = 4 -> { [k |-> "burst", a |-> a, b |-> [k |-> "feed", c |-> c, x |-> y]] : y \in One(X) }
    [] OTHER -> IF Conns(st) = {} THEN {} ELSE { [k |-> "burst", a |-> a, b |-> y] : y \in Either(st, RC(st), RandomElement(1..15)) }
StopPair(st) == IF Conns(st) = {} THEN {} ELSE
  { [k |-> "burst", a |-> a, b |-> b] : a \in One({y \in Runs(st) : y.k = "stop"}), b \in Either(st, RC(st), RandomElement(1..15)) }
GenOps(st) ==
  LET x == RandomElement(1..30) c == RC(st)
      S == CASE x <= 4 -> One(Opens(st)) [] x <= 16 -> Either(st, c, RandomElement(1..15))
             [] x <= 21 -> {y \in Pair(st, c) : Sided(st, y)} [] x <= 24 -> OpenPair(st, RandomElement(1..6)) [] x = 25 -> One({y \in Runs(st) : y.k = "stop"}) [] x = 26 -> StopPair(st)
             [] x = 27 -> One({y \in Runs(st) : y.k = "start"}) [] OTHER -> {} IN
  IF S = {} THEN (IF Opens(st) # {} /\ Conns(st) = {} THEN One(Opens(st)) ELSE {[k |-> "http", qs |-> <<Request(st), Request(st), Request(st)>>]}) ELSE S
Small(S) == {e \in S : ("x" \in DOMAIN e => e.x \in {1, 90}) /\ ("s" \in DOMAIN e => e.s = 1) /\ ("ty" \in DOMAIN e => e.ty = "http")}
Ops(st) == Small((IF st.n < 2 THEN Opens(st) ELSE {}) \cup UNION {Feeds(st, c) \cup Leaves(st, c) \cup AppOps(st, c) : c \in Conns(st)} \cup Runs(st))
Inv(st) ==
  \A c \in K : LET x == st.cn[c] IN
    /\ x.ph = "open" => x.app = "run" /\ st.up[x.r] = 1
    /\ x.app = "run" => st.up[x.r] = 1 /\ (x.w = 0 \/ x.q = <<>>)
    \* an application that runs without its requester is told
    /\ (x.app = "run" /\ x.ph = "gone") => x.told = 1
=============================================================================
