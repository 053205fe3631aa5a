-------------------------------- MODULE Net --------------------------------
(* What a tree of switches owes its end points, as a monitor over what can be *)
(* observed from outside: the operations of the end points, the messages they *)
(* receive, and what they know once the network is quiet ("settle").          *)
(* Requirement level: nothing here mentions how switches do it.  The message  *)
(* level algorithm is SwitchProto.tla, which carries this monitor.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* cfg: [multi |-> several providers per topic allowed (star only),           *)
(*       rmap  |-> sequence of <<endpoint, internal id, external id>>]        *)
Init0(cfg) ==
  [ multi |-> cfg.multi, rmap |-> Range(cfg.rmap),
    up |-> {},            \* links {x, y} that are up
    cost |-> {},          \* <<{x,y}, cost>>
    sw |-> {},            \* nodes that are switches
    lstab |-> {},         \* links up and untouched since the last settle
    prov |-> {}, pstab |-> {}, pever |-> {},     \* <<endpoint, topic>>
    subs |-> {}, sstab |-> {}, srecent |-> {},   \* <<endpoint, topic>>
    addr |-> {}, astab |-> {}, arecent |-> {}, aever |-> {},   \* <<endpoint, address>>
    ctl |-> {},           \* <<provider, topic, value>> last control since it became provider
    stale |-> {},         \* topics whose earlier provider sent a control the present one has not superseded
    seenctl |-> {},       \* <<endpoint, topic, value>> last control received
    pubs |-> {},          \* [n, kind, e, t]
    need |-> {},          \* <<receiver, n>> must be received before the next settle
    need1 |-> {},         \* <<set of receivers, n>> exactly one of them
    got |-> {},           \* <<receiver, n>>
    last |-> {},          \* <<receiver, publisher, kind, topic, n>>
    closed |-> FALSE ]

Link(x, y) == {x, y}
Ext(st, e, t) == LET m == {r \in st.rmap : r[1] = e /\ r[2] = t} IN
                 IF m = {} THEN t ELSE (CHOOSE r \in m : TRUE)[3]

Nodes(st) == UNION st.up
Costs(st, x, y) == LET c == {p \in st.cost : p[1] = {x, y}} IN (CHOOSE p \in c : TRUE)[2]
Nbrs(st, x) == {y \in Nodes(st) \ {x} : {x, y} \in st.up}

(* cost of the (unique: the network is a tree) path, -1 if there is none *)
RECURSIVE PathCost(_, _, _, _)
PathCost(st, x, y, seen) ==
  IF x = y THEN 0
  ELSE LET opts == {<<n, PathCost(st, n, y, seen \cup {x})>> : n \in Nbrs(st, x) \ seen}
           good == {o \in opts : o[2] >= 0}
       IN IF good = {} THEN -1
          ELSE Min({Costs(st, x, o[1]) + o[2] : o \in good})
Dist(st, x, y) == PathCost(st, x, y, {})
Reach(st, x, y) == Dist(st, x, y) >= 0

RECURSIVE PathLinks(_, _, _, _)
PathLinks(st, x, y, seen) ==   \* links of the path x..y (x, y connected)
  IF x = y THEN {}
  ELSE LET n == CHOOSE m \in Nbrs(st, x) \ seen : PathCost(st, m, y, seen \cup {x}) >= 0
       IN {{x, n}} \cup PathLinks(st, n, y, seen \cup {x})
Path(st, x, y) == PathLinks(st, x, y, {})
StablePath(st, x, y) == Reach(st, x, y) /\ Path(st, x, y) \subseteq st.lstab

Provs(st, t) == {e \in Nodes(st) : <<e, t>> \in st.prov}
Holders(st, a) == {e \in Nodes(st) : <<e, a>> \in st.addr}
Topics(st) == {p[2] : p \in st.prov \cup st.subs \cup st.pever}
Ends(st) == Nodes(st) \ st.sw

---------------------------------------------------------------------------
(* What the end points must know when the network is quiet.                 *)
Known(st) ==     \* <<e, t, cost>>
  {<<e, t, Min({Dist(st, p, e) : p \in {q \in Provs(st, t) \ {e} : Reach(st, q, e)}})>> :
     <<e, t>> \in {<<x, u>> \in Ends(st) \X Topics(st) : \E q \in Provs(st, u) \ {x} : Reach(st, q, x)}}
KnownAddr(st) ==
  {<<e, a, Min({Dist(st, p, e) : p \in {q \in Holders(st, a) \ {e} : Reach(st, q, e)}})>> :
     <<e, a>> \in {<<x, b>> \in Ends(st) \X {p[2] : p \in st.addr} : \E q \in Holders(st, b) \ {x} : Reach(st, q, x)}}
(* demand for topic t that provider p can serve *)
Demand(st, p, t) == \E e \in Ends(st) \ {p} : <<e, t>> \in st.subs /\ Reach(st, p, e)

KnownObs(st, o) == {<<k[1], Ext(st, k[1], k[2]), k[3]>> : k \in Range(o)}
PairObs(st, o) == {<<k[1], Ext(st, k[1], k[2])>> : k \in Range(o)}

(* an end point that itself provides (or once provided, next to others) makes no claim on what it hears *)
ClaimK(st, e, t) == <<e, t>> \notin st.prov /\ (st.multi => <<e, t>> \notin st.pever)

SettleBad(st, e) ==
  LET known == KnownObs(st, e.known)
      kaddr == Range(e.kaddr)
      req == PairObs(st, e.req)
      CA(k) == <<k[1], k[2]>> \notin st.addr /\ (st.multi => <<k[1], k[2]>> \notin st.aever)
      K == {k \in Known(st) : ClaimK(st, k[1], k[2])}
      O == {k \in known : ClaimK(st, k[1], k[2])}
      KA == {k \in KnownAddr(st) : CA(k)}
      OA == {k \in kaddr : CA(k)}
  IN (IF \E k \in K : ~\E o \in O : o[1] = k[1] /\ o[2] = k[2] THEN {"N04.missing_topic"} ELSE {})
     \cup (IF \E o \in O : ~\E k \in K : o[1] = k[1] /\ o[2] = k[2] THEN {"N04.phantom_topic"} ELSE {})
     \cup (IF \E k \in K : \E o \in O : o[1] = k[1] /\ o[2] = k[2] /\ o[3] # k[3] THEN {"N04.cost_topic"} ELSE {})
     \cup (IF \E k \in KA : ~\E o \in OA : o[1] = k[1] /\ o[2] = k[2] THEN {"N04.missing_address"} ELSE {})
     \cup (IF \E o \in OA : ~\E k \in KA : o[1] = k[1] /\ o[2] = k[2] THEN {"N04.phantom_address"} ELSE {})
     \cup (IF \E k \in KA : \E o \in OA : o[1] = k[1] /\ o[2] = k[2] /\ o[3] # k[3] THEN {"N04.cost_address"} ELSE {})
     \cup (IF st.multi
           THEN (IF \E t \in Topics(st) : \E p \in Provs(st, t) : ~Demand(st, p, t) /\ <<p, t>> \in req
                 THEN {"N02.not_withdrawn"} ELSE {})
                \cup (IF \E t \in Topics(st) : (\E p \in Provs(st, t) : Demand(st, p, t)) /\
                                               ~\E p \in Provs(st, t) : <<p, t>> \in req
                      THEN {"N02.not_requested"} ELSE {})
           ELSE (IF \E pt \in st.prov : Demand(st, pt[1], pt[2]) /\ pt \notin req THEN {"N02.not_requested"} ELSE {})
                \cup (IF \E pt \in st.prov : ~Demand(st, pt[1], pt[2]) /\ pt \in req THEN {"N02.not_withdrawn"} ELSE {}))
     \cup (IF \E x \in st.need : x \notin st.got THEN
              {IF \E p \in st.pubs : p.n = x[2] /\ p.kind = "addr" THEN "N03.lost" ELSE
               IF \E p \in st.pubs : p.n = x[2] /\ p.kind = "ctl" THEN "N05.lost" ELSE "N01.lost" :
                 x \in {y \in st.need : y \notin st.got}} ELSE {})
     \cup (IF \E x \in st.need1 : Cardinality({r \in x[1] : <<r, x[2]>> \in st.got}) # 1 THEN {"N03.lost"} ELSE {})
     \cup (IF \E c \in st.ctl : ~st.multi /\ \E e2 \in Ends(st) \ {c[1]} :
                 <<e2, c[2]>> \in st.subs /\ Reach(st, c[1], e2) /\ <<e2, c[2], c[3]>> \notin st.seenctl
           THEN {"N05.replay"} ELSE {})
     \cup (IF {Range(l) : l \in Range(e.open)} # st.up THEN {"N07.collateral"} ELSE {})
     \cup (IF Len(e.errors) > 0 THEN {"N07.error"} ELSE {})

---------------------------------------------------------------------------
Pub(st, n) == CHOOSE p \in st.pubs : p.n = n
HasPub(st, n) == \E p \in st.pubs : p.n = n
LastOf(st, e, p) == {x \in st.last : x[1] = e /\ x[2] = p.e /\ x[3] = p.kind /\ x[4] = p.t}

RecvBad(st, e) ==   \* e.e received payload number e.n
  IF ~HasPub(st, e.n) THEN {"N01.invented"}
  ELSE LET p == Pub(st, e.n)
           t == IF e.k = "raddr" THEN e.a ELSE Ext(st, e.e, e.t)
           pre == IF e.k = "raddr" THEN "N03" ELSE IF e.k = "rctl" THEN "N05" ELSE "N01"
       IN (IF ~e.intact THEN {"N08.payload"} ELSE {})
          \cup (IF p.t # t \/ (e.k = "raddr") # (p.kind = "addr") THEN {pre \o ".misrouted"} ELSE {})
          \cup (IF e.k = "raddr" /\ p.port # e.port THEN {"N03.port"} ELSE {})
          \cup (IF <<e.e, e.n>> \in st.got THEN {pre \o ".duplicate"} ELSE {})
          \cup (IF \E x \in LastOf(st, e.e, p) : x[5] > e.n THEN {pre \o ".order"} ELSE {})
          \cup (IF e.k = "rdata" /\ e.e = p.e THEN {"N01.echo"} ELSE {})
          \cup (IF e.k = "rdata" /\ <<e.e, t>> \notin st.srecent THEN {"N01.unsubscribed"} ELSE {})
          \cup (IF e.k = "raddr" /\ <<e.e, t>> \notin st.arecent THEN {"N03.wrong_holder"} ELSE {})
          \cup (IF e.k = "raddr" /\ p.t = t /\ \E g \in st.got : g[2] = e.n THEN {"N03.duplicate"} ELSE {})

CtlBad(st, e) ==    \* controls are state, not a stream: only value and audience matter
  LET t == Ext(st, e.e, e.t) IN
  (IF <<e.e, t>> \notin st.srecent THEN {"N05.unsubscribed"} ELSE {})
  \cup (IF ~\E p \in st.pubs : p.kind = "ctl" /\ p.t = t /\ p.v = e.v THEN {"N05.invented"} ELSE {})

Check(st, e) ==
  CASE e.k = "settle" -> SettleBad(st, e)
    [] e.k \in {"rdata", "raddr"} -> RecvBad(st, e)
    [] e.k = "rctl" -> CtlBad(st, e)
    [] e.k = "opfail" -> {"N07.operation_failed"}
    [] OTHER -> {}

---------------------------------------------------------------------------
DropNeed(st, cond(_)) == {x \in st.need : ~cond(x)}
NeedOf(st, x) == Pub(st, x[2])

Apply1(st, e) ==
  CASE e.k = "sw" -> [st EXCEPT !.sw = @ \cup {e.x}]
    [] e.k = "up" ->
         [st EXCEPT !.up = @ \cup {{e.x, e.y}}, !.cost = {c \in @ : c[1] # {e.x, e.y}} \cup {<<{e.x, e.y}, e.c>>}]
    [] e.k = "down" ->
         LET l == {e.x, e.y}
             gone == IF e.x \in st.sw /\ e.y \in st.sw THEN {} ELSE {e.x, e.y} \ st.sw
             aff(x) == LET p == NeedOf(st, x) IN
                       x[1] \in gone \/ p.e \in gone \/ l \in Path(st, p.e, x[1])
         IN [st EXCEPT !.up = @ \ {l}, !.lstab = @ \ {l}, !.closed = TRUE,
               !.need = {x \in st.need : ~aff(x)}, !.need1 = {},
               !.prov = {p \in @ : p[1] \notin gone}, !.pstab = {p \in @ : p[1] \notin gone},
               !.subs = {p \in @ : p[1] \notin gone}, !.sstab = {p \in @ : p[1] \notin gone},
               !.addr = {p \in @ : p[1] \notin gone}, !.astab = {p \in @ : p[1] \notin gone},
               !.ctl = {c \in @ : c[1] \notin gone}, !.seenctl = {c \in @ : c[1] \notin gone}]
    [] e.k = "prov" ->
         LET t == Ext(st, e.e, e.t) IN
         [st EXCEPT !.prov = @ \cup {<<e.e, t>>}, !.pever = @ \cup {<<e.e, t>>},
                    !.ctl = {c \in @ : c[2] # t}]
    [] e.k = "unprov" ->
         LET t == Ext(st, e.e, e.t) IN
         [st EXCEPT !.prov = @ \ {<<e.e, t>>}, !.pstab = @ \ {<<e.e, t>>},
                    !.ctl = {c \in @ : ~(c[1] = e.e /\ c[2] = t)},
                    !.need = {x \in @ : LET p == NeedOf(st, x) IN ~(p.kind # "addr" /\ p.t = t)}]
    [] e.k = "sub" ->
         LET t == Ext(st, e.e, e.t) IN
         [st EXCEPT !.subs = @ \cup {<<e.e, t>>}, !.srecent = @ \cup {<<e.e, t>>},
                    !.seenctl = {c \in @ : ~(c[1] = e.e /\ c[2] = t)}]
    [] e.k = "unsub" ->
         LET t == Ext(st, e.e, e.t) IN
         [st EXCEPT !.subs = @ \ {<<e.e, t>>}, !.sstab = @ \ {<<e.e, t>>},
                    !.need = {x \in @ : LET p == NeedOf(st, x) IN ~(p.kind # "addr" /\ p.t = t /\ x[1] = e.e)},
                    !.seenctl = {c \in @ : ~(c[1] = e.e /\ c[2] = t)}]
    [] e.k = "addr" -> [st EXCEPT !.addr = @ \cup {<<e.e, e.a>>}, !.arecent = @ \cup {<<e.e, e.a>>}, !.aever = @ \cup {<<e.e, e.a>>}, !.need1 = {},
                    !.need = {x \in @ : LET p == NeedOf(st, x) IN ~(p.kind = "addr" /\ p.t = e.a)}]
    [] e.k = "unaddr" ->
         [st EXCEPT !.addr = @ \ {<<e.e, e.a>>}, !.astab = @ \ {<<e.e, e.a>>}, !.need1 = {},
                    !.need = {x \in @ : LET p == NeedOf(st, x) IN ~(p.kind = "addr" /\ p.t = e.a)}]
    [] e.k \in {"pub", "ctl"} ->
         LET t == Ext(st, e.e, e.t)
             kind == IF e.k = "pub" THEN "data" ELSE "ctl"
             req == IF <<e.e, t>> \in st.pstab
                    THEN {r \in Ends(st) \ {e.e} : <<r, t>> \in st.sstab /\ StablePath(st, e.e, r)} ELSE {}
             st1 == [st EXCEPT !.pubs = @ \cup {[n |-> e.n, kind |-> kind, e |-> e.e, t |-> t, port |-> 0,
                                                 v |-> IF e.k = "ctl" THEN e.v ELSE 0]}]
         IN IF e.k = "pub" THEN [st1 EXCEPT !.need = @ \cup {<<r, e.n>> : r \in req}]
            ELSE [st1 EXCEPT !.ctl = IF <<e.e, t>> \in st.prov
                                     THEN {c \in @ : c[2] # t} \cup {<<e.e, t, e.v>>} ELSE @]
    [] e.k = "send" ->
         LET hs == Holders(st, e.a)
             stable == hs # {} /\ {h[1] : h \in {r \in st.arecent : r[2] = e.a}} = hs /\ (\A h \in hs : <<h, e.a>> \in st.astab /\ StablePath(st, e.e, h)) /\ e.e \notin hs
             best == {h \in hs : \A g \in hs : Dist(st, e.e, h) <= Dist(st, e.e, g)}
             st1 == [st EXCEPT !.pubs = @ \cup {[n |-> e.n, kind |-> "addr", e |-> e.e, t |-> e.a, port |-> e.port, v |-> 0]}]
         IN IF ~stable THEN st1
            ELSE IF Cardinality(best) = 1 THEN [st1 EXCEPT !.need = @ \cup {<<h, e.n>> : h \in best}]
            ELSE [st1 EXCEPT !.need1 = @ \cup {<<best, e.n>>}]
    [] e.k \in {"rdata", "raddr"} ->
         LET p == Pub(st, e.n) IN
         [st EXCEPT !.got = @ \cup {<<e.e, e.n>>},
                    !.last = (@ \ LastOf(st, e.e, p)) \cup {<<e.e, p.e, p.kind, p.t, e.n>>}]
    [] e.k = "rctl" ->
         LET t == Ext(st, e.e, e.t) IN
         [st EXCEPT !.seenctl = {c \in @ : ~(c[1] = e.e /\ c[2] = t)} \cup {<<e.e, t, e.v>>}]
    [] e.k = "settle" ->
         [st EXCEPT !.lstab = st.up, !.pstab = st.prov, !.sstab = st.subs, !.srecent = st.subs,
                    !.astab = st.addr, !.arecent = st.addr, !.need = {}, !.need1 = {}, !.got = {}, !.pubs = {p \in @ : p.kind = "ctl"},
                    !.last = {}]
    [] OTHER -> st

(* one message that takes topics on and gives others up *)
RECURSIVE ApplyEach(_, _, _, _)
ApplyEach(st, k, x, ts) == IF ts = <<>> THEN st ELSE ApplyEach(Apply1(st, [k |-> k, e |-> x, t |-> Head(ts)]), k, x, Tail(ts))
Apply(st, e) ==
  CASE e.k = "resub" -> ApplyEach(ApplyEach(st, "unsub", e.e, e.rem), "sub", e.e, e.add)
    [] e.k = "reprov" -> ApplyEach(ApplyEach(st, "unprov", e.e, e.rem), "prov", e.e, e.add)
    [] OTHER -> Apply1(st, e)
=============================================================================
