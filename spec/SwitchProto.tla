---------------------------- MODULE SwitchProto ----------------------------
(* Message level model of the switches: per-link request / provide tables,    *)
(* FIFO channels, one action per message handled.  It carries the monitor of  *)
(* Net.tla as st.m; Inv says the monitor never objects, in particular at      *)
(* every quiescent state.  It is also the scenario generator: its behaviours  *)
(* (operations *and* delivery schedule) are replayed on the real switches.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
N == INSTANCE Net

CONSTANTS MaxOps, MaxSettles, Topics, Addrs, Kinds
(* Kinds: which operations may be used *)

Topo(name) ==
  CASE name = "star2" -> [sw |-> <<"s1">>, ends |-> {"a", "b"}, links |-> {<<"a", "s1", 1>>, <<"b", "s1", 2>>}]
    [] name = "star3" -> [sw |-> <<"s1">>, ends |-> {"a", "b", "c"},
                          links |-> {<<"a", "s1", 1>>, <<"b", "s1", 2>>, <<"c", "s1", 1>>}]
    [] name = "star4" -> [sw |-> <<"s1">>, ends |-> {"a", "b", "c", "d"},
                          links |-> {<<"a", "s1", 1>>, <<"b", "s1", 2>>, <<"c", "s1", 1>>, <<"d", "s1", 3>>}]
    [] name = "line2" -> [sw |-> <<"s1", "s2">>, ends |-> {"a", "b"},
                          links |-> {<<"a", "s1", 1>>, <<"b", "s2", 1>>, <<"s1", "s2", 2>>}]
    [] name = "line2x" -> [sw |-> <<"s1", "s2">>, ends |-> {"a", "b", "c", "d"},
                          links |-> {<<"a", "s1", 1>>, <<"b", "s2", 1>>, <<"c", "s1", 2>>, <<"d", "s2", 1>>, <<"s1", "s2", 2>>}]
    [] name = "line3" -> [sw |-> <<"s1", "s2", "s3">>, ends |-> {"a", "b", "c"},
                          links |-> {<<"a", "s1", 1>>, <<"b", "s2", 1>>, <<"c", "s3", 2>>,
                                     <<"s1", "s2", 1>>, <<"s2", "s3", 3>>}]
    [] name = "hub4" -> [sw |-> <<"s0", "s1", "s2", "s3">>, ends |-> {"a", "b", "c", "d"},
                          links |-> {<<"a", "s1", 1>>, <<"b", "s2", 1>>, <<"c", "s3", 2>>, <<"d", "s3", 1>>,
                                     <<"s0", "s1", 1>>, <<"s0", "s2", 2>>, <<"s0", "s3", 1>>}]
Pairs(T) == {<<l[1], l[2]>> : l \in T.links} \cup {<<l[2], l[1]>> : l \in T.links}
Cfg(name, multi, rm) == [topo |-> name, multi |-> multi, rmap |-> rm]

---------------------------------------------------------------------------
Base(cfg) ==
  LET T == Topo(cfg.topo) P == Pairs(T) IN
  [ m |-> [N!Init0([multi |-> cfg.multi, rmap |-> cfg.rmap]) EXCEPT !.sw = Range(T.sw)],
    cfg |-> cfg,
    inT |-> [p \in P |-> {}], rcv |-> [p \in P |-> {}], out |-> [p \in P |-> {}], adr |-> [p \in P |-> {}],
    sc |-> [x \in Range(T.sw) |-> {}],
    ch |-> [p \in P |-> <<>>],
    kn |-> [e \in T.ends |-> {}], ka |-> [e \in T.ends |-> {}], rq |-> [e \in T.ends |-> {}],
    movedT |-> {}, movedA |-> {}, reshaped |-> FALSE,
    dirty |-> FALSE, ops |-> 0, settles |-> 0, n |-> 0, bad |-> {} ]

Emit(st, ev) == LET b == N!Check(st.m, ev) IN [st EXCEPT !.bad = @ \cup b, !.m = N!Apply(st.m, ev)]

IsUp(st, x, y) == {x, y} \in st.m.up
SNbrs(st, x) == {y \in UNION st.m.up : y # x /\ {x, y} \in st.m.up}
IsSw(st, x) == x \in st.m.sw
LinkCost(st, x, y) == N!Costs(st.m, x, y)

Push(st, x, y, msg) == [st EXCEPT !.ch[<<x, y>>] = Append(@, msg)]
RECURSIVE PushAll(_, _, _, _)
PushAll(st, x, ys, msg) == IF ys = {} THEN st
  ELSE LET y == CHOOSE z \in ys : TRUE IN PushAll(Push(st, x, y, msg), x, ys \ {y}, msg)

Ids(S) == {p[1] : p \in S}
InfC == 1000
CostIn(S, t) == IF \E p \in S : p[1] = t THEN (CHOOSE p \in S : p[1] = t)[2] ELSE InfC
MinOf(tab, st, x, t) == LET cs == {CostIn(tab[<<x, y>>], t) : y \in SNbrs(st, x)} IN IF cs = {} THEN InfC ELSE Min(cs)
InUse(st, x, t) == \E y \in SNbrs(st, x) : t \in st.inT[<<x, y>>]

(* a switch (re)requests `add` from the cheapest provider and withdraws `rem` *)
RECURSIVE ReqLoop(_, _, _, _, _)
ReqLoop(st, x, ys, add, rem) ==
  IF ys = {} THEN st
  ELSE LET y == CHOOSE z \in ys : TRUE
           best(t) == LET c == MinOf(st.out, st, x, t) IN
                      IF c >= InfC THEN "none" ELSE CHOOSE z \in SNbrs(st, x) : CostIn(st.out[<<x, z>>], t) = c
           A == {t \in add : best(t) = y}
           R == rem \cap st.rcv[<<x, y>>]
           st1 == IF A = {} /\ R = {} THEN st
                  ELSE [Push(st, x, y, [k |-> "in", add |-> A, rem |-> R]) EXCEPT !.rcv[<<x, y>>] = (@ \cup A) \ R]
       IN ReqLoop(st1, x, ys \ {y}, add, rem)
Request(st, x, add, rem) == ReqLoop(st, x, SNbrs(st, x), add, rem)

RECURSIVE Replay(_, _, _, _)
Replay(st, x, y, cs) == IF cs = {} THEN st
  ELSE LET c == CHOOSE z \in cs : TRUE IN
       Replay(Push(st, x, y, [k |-> "ctl", t |-> c[1], v |-> c[2], n |-> 0]), x, y, cs \ {c})

OnIn(st, x, y, msg) ==
  LET old == st.inT[<<x, y>>]
      add == msg.add \ old
      rem == msg.rem \cap old
      others(t) == \E z \in SNbrs(st, x) \ {y} : t \in st.inT[<<x, z>>]
      fadd == {t \in add : ~others(t)}
      frem == {t \in rem : ~others(t)}
      st1 == [st EXCEPT !.inT[<<x, y>>] = (old \cup add) \ rem]
      st2 == Replay(st1, x, y, {c \in st.sc[x] : c[1] \in add})
  IN IF add = {} /\ rem = {} THEN st ELSE Request(st2, x, fadd, frem)

(* tables of priced ids: what changes, and what must be told to the others *)
TabChange(tab, st, x, y, msg) ==
  LET c == LinkCost(st, x, y)
      old == tab[<<x, y>>]
      new == {<<p[1], p[2] + c>> : p \in msg.add}
      eff == {p \in new : p \notin old \/ p[1] \in msg.rem}
      now == {p \in old : p[1] \notin msg.rem /\ p[1] \notin Ids(eff)} \cup eff
      tab2 == [tab EXCEPT ![<<x, y>>] = now]
      touched == msg.rem \cup Ids(eff)
      before(t) == MinOf(tab, st, x, t)
      after(t) == MinOf(tab2, st, x, t)
      radd == {<<t, after(t)>> : t \in {u \in touched : after(u) < InfC /\ after(u) # before(u)}}
      rrem == {t \in touched : before(t) < InfC /\ after(t) >= InfC}
  IN [tab |-> tab2, add |-> radd, rem |-> rrem, ids |-> touched]

OnOut(st, x, y, msg) ==
  LET ch == TabChange(st.out, st, x, y, msg)
      st1 == [st EXCEPT !.out = ch.tab]
      st2 == IF ch.add = {} /\ ch.rem = {} THEN st1
             ELSE PushAll(st1, x, SNbrs(st, x) \ {y}, [k |-> "out", add |-> ch.add, rem |-> ch.rem])
      provider(t) == {z \in SNbrs(st, x) : t \in st.rcv[<<x, z>>]}
      resub == {t \in ch.ids : InUse(st, x, t) /\
                  (provider(t) = {} \/ \E z \in provider(t) : CostIn(st2.out[<<x, z>>], t) > MinOf(st2.out, st2, x, t))}
  IN Request(st2, x, resub, resub)

OnAdr(st, x, y, msg) ==
  LET ch == TabChange(st.adr, st, x, y, msg)
      st1 == [st EXCEPT !.adr = ch.tab]
  IN IF ch.add = {} /\ ch.rem = {} THEN st1
     ELSE PushAll(st1, x, SNbrs(st, x) \ {y}, [k |-> "adr", add |-> ch.add, rem |-> ch.rem])

OnTopic(st, x, y, msg) ==
  LET st1 == IF msg.k = "ctl" THEN [st EXCEPT !.sc[x] = {c \in @ : c[1] # msg.t} \cup {<<msg.t, msg.v>>}] ELSE st
  IN PushAll(st1, x, {z \in SNbrs(st, x) \ {y} : msg.t \in st.inT[<<x, z>>]}, msg)

OnAddressed(st, x, y, msg) ==
  LET c == MinOf(st.adr, st, x, msg.a)
  IN IF c >= InfC THEN st
     ELSE Push(st, x, CHOOSE z \in SNbrs(st, x) : CostIn(st.adr[<<x, z>>], msg.a) = c, msg)

AtSwitch(st, x, y, msg) ==
  CASE msg.k = "in" -> OnIn(st, x, y, msg)
    [] msg.k = "out" -> OnOut(st, x, y, msg)
    [] msg.k = "adr" -> OnAdr(st, x, y, msg)
    [] msg.k \in {"data", "ctl"} -> OnTopic(st, x, y, msg)
    [] msg.k = "addr" -> OnAddressed(st, x, y, msg)

Upd(old, msg, c) == {p \in old : p[1] \notin msg.rem /\ p[1] \notin Ids(msg.add)} \cup {<<p[1], p[2] + c>> : p \in msg.add}
AtEnd(st, e, y, msg) ==
  LET c == LinkCost(st, e, y) IN
  CASE msg.k = "in" -> [st EXCEPT !.rq[e] = (@ \cup msg.add) \ msg.rem]
    [] msg.k = "out" -> [st EXCEPT !.kn[e] = Upd(@, msg, c)]
    [] msg.k = "adr" -> [st EXCEPT !.ka[e] = Upd(@, msg, c)]
    [] msg.k = "data" -> Emit(st, [k |-> "rdata", e |-> e, t |-> msg.t, n |-> msg.n, intact |-> TRUE])
    [] msg.k = "ctl" -> Emit(st, [k |-> "rctl", e |-> e, t |-> msg.t, v |-> msg.v])
    [] msg.k = "addr" -> Emit(st, [k |-> "raddr", e |-> e, a |-> msg.a, n |-> msg.n, port |-> msg.port, intact |-> TRUE])

DeliverTo(st, x, y) ==   \* first message of channel x -> y
  LET msg == Head(st.ch[<<x, y>>])
      st1 == [st EXCEPT !.ch[<<x, y>>] = Tail(@)]
  IN IF IsSw(st, y) THEN AtSwitch(st1, y, x, msg) ELSE AtEnd(st1, y, x, msg)

(* a link is accepted: the newcomer is told what is known *)
Accept(st, x, y) ==
  IF ~IsSw(st, x) THEN st
  ELSE LET ids(tab) == UNION {Ids(tab[<<x, z>>]) : z \in SNbrs(st, x) \ {y}}
           snap(tab) == {<<t, Min({CostIn(tab[<<x, z>>], t) : z \in SNbrs(st, x) \ {y}})>> : t \in ids(tab)}
           st1 == IF ids(st.out) = {} THEN st ELSE Push(st, x, y, [k |-> "out", add |-> snap(st.out), rem |-> {}])
       IN IF ids(st.adr) = {} THEN st1 ELSE Push(st1, x, y, [k |-> "adr", add |-> snap(st.adr), rem |-> {}])

(* a link is gone: everything learned through it is withdrawn.  Called after {x,y} left st.m.up *)
Drop(st, x, y) ==
  IF ~IsSw(st, x) THEN [st EXCEPT !.kn[x] = {}, !.ka[x] = {}, !.rq[x] = {}]
  ELSE LET p == <<x, y>>
           st0 == [st EXCEPT !.inT[p] = {}, !.rcv[p] = {}, !.out[p] = {}, !.adr[p] = {}]
           frem == {t \in st.inT[p] : ~InUse(st0, x, t)}
           orem == {t \in Ids(st.out[p]) : MinOf(st0.out, st0, x, t) >= InfC}
           oupd == {<<t, MinOf(st0.out, st0, x, t)>> : t \in {u \in Ids(st.out[p]) \ orem :
                       MinOf(st0.out, st0, x, u) # CostIn(st.out[p], u)}}
           arem == {t \in Ids(st.adr[p]) : MinOf(st0.adr, st0, x, t) >= InfC}
           aupd == {<<t, MinOf(st0.adr, st0, x, t)>> : t \in {u \in Ids(st.adr[p]) \ arem :
                       MinOf(st0.adr, st0, x, u) # CostIn(st.adr[p], u)}}
           radd == {t \in st.rcv[p] : InUse(st0, x, t)}
           st1 == Request(st0, x, radd, frem)
           st2 == IF orem = {} /\ oupd = {} THEN st1 ELSE PushAll(st1, x, SNbrs(st0, x), [k |-> "out", add |-> oupd, rem |-> orem])
       IN IF arem = {} /\ aupd = {} THEN st2 ELSE PushAll(st2, x, SNbrs(st0, x), [k |-> "adr", add |-> aupd, rem |-> arem])

---------------------------------------------------------------------------
Home(st, e) == IF SNbrs(st, e) = {} THEN "none" ELSE CHOOSE s \in SNbrs(st, e) : TRUE
Quiet(st) == \A p \in DOMAIN st.ch : st.ch[p] = <<>>
Send(st, e, msg) == Push(st, e, Home(st, e), msg)
SetToSeqX(S) == SetToSeq(S)
Obs(st) == [k |-> "settle",
            known |-> SetToSeq({<<e, p[1], p[2]>> : <<e, p>> \in UNION {{<<x, q>> : q \in st.kn[x]} : x \in DOMAIN st.kn}}),
            kaddr |-> SetToSeq({<<e, p[1], p[2]>> : <<e, p>> \in UNION {{<<x, q>> : q \in st.ka[x]} : x \in DOMAIN st.ka}}),
            req |-> SetToSeq(UNION {{<<x, q>> : q \in st.rq[x]} : x \in DOMAIN st.rq}),
            open |-> SetToSeq({SetToSeq(l) : l \in st.m.up}), errors |-> <<>>]

Apply(st, op) ==
  LET s1 == IF op.k \in {"deliver", "settle"} THEN st ELSE [st EXCEPT !.ops = @ + 1, !.dirty = TRUE] IN
  CASE op.k = "deliver" -> DeliverTo(st, op.x, op.y)
    [] op.k = "settle" -> [Emit(st, Obs(st)) EXCEPT !.settles = @ + 1, !.movedT = {}, !.movedA = {}, !.reshaped = FALSE, !.dirty = FALSE]
    [] op.k = "up" -> LET s2 == Emit(s1, op) IN Accept(Accept(s2, op.x, op.y), op.y, op.x)
    [] op.k = "down" ->
         LET s2 == Emit([s1 EXCEPT !.ch[<<op.x, op.y>>] = <<>>, !.ch[<<op.y, op.x>>] = <<>>,
                           !.movedT = @ \cup {p[2] : p \in {q \in st.m.prov : q[1] \in {op.x, op.y}}},
                           !.movedA = @ \cup {p[2] : p \in {q \in st.m.addr : q[1] \in {op.x, op.y}}},
                           !.reshaped = TRUE], op)
         IN Drop(Drop(s2, op.x, op.y), op.y, op.x)
    [] op.k = "prov" -> Send(Emit(s1, op), op.e, [k |-> "out", add |-> {<<op.t, 0>>}, rem |-> {}])
    [] op.k = "unprov" -> Send([Emit(s1, op) EXCEPT !.movedT = @ \cup {op.t}], op.e, [k |-> "out", add |-> {}, rem |-> {op.t}])
    [] op.k = "addr" -> Send(Emit(s1, op), op.e, [k |-> "adr", add |-> {<<op.a, 0>>}, rem |-> {}])
    [] op.k = "unaddr" -> Send([Emit(s1, op) EXCEPT !.movedA = @ \cup {op.a}], op.e, [k |-> "adr", add |-> {}, rem |-> {op.a}])
    [] op.k = "sub" -> Send(Emit(s1, op), op.e, [k |-> "in", add |-> {op.t}, rem |-> {}])
    [] op.k = "unsub" -> Send(Emit(s1, op), op.e, [k |-> "in", add |-> {}, rem |-> {op.t}])
    [] op.k = "resub" -> Send(Emit(s1, op), op.e, [k |-> "in", add |-> Range(op.add), rem |-> Range(op.rem)])
    [] op.k = "reprov" -> Send([Emit(s1, op) EXCEPT !.movedT = @ \cup Range(op.rem)], op.e, [k |-> "out", add |-> {<<t, 0>> : t \in Range(op.add)}, rem |-> Range(op.rem)])
    [] op.k = "pub" -> Send([Emit(s1, op) EXCEPT !.n = @ + 1], op.e, [k |-> "data", t |-> op.t, n |-> op.n])
    [] op.k = "ctl" -> Send([Emit(s1, op) EXCEPT !.n = @ + 1], op.e, [k |-> "ctl", t |-> op.t, v |-> op.v, n |-> op.n])
    [] op.k = "send" -> Send([Emit(s1, op) EXCEPT !.n = @ + 1], op.e,
                             [k |-> "addr", a |-> op.a, port |-> op.port, n |-> op.n])

(* every node attached, quiet: most scenarios start here *)
RECURSIVE UpAll(_, _)
UpAll(st, ls) == IF ls = {} THEN st
  ELSE LET l == CHOOSE z \in ls : TRUE IN UpAll(Apply(st, [k |-> "up", x |-> l[1], y |-> l[2], c |-> l[3]]), ls \ {l})
Init0(cfg) == [UpAll(Base(cfg), Topo(cfg.topo).links) EXCEPT !.ops = 0, !.dirty = FALSE]

(* Which operations may come next.  Two restrictions are the assumptions of    *)
(* the properties: outside a star a topic or address has one provider at a     *)
(* time, and it moves (or the tree is reshaped) only once the withdrawal has   *)
(* been heard everywhere.                                                      *)
(* several providers of one id: all of them on one switch, the home of the id *)
HomeSw(T, t) == T.sw[1 + ((t - 1) % Len(T.sw))]
CanProv(st, e, t) ==
  LET C == st.cfg T == Topo(C.topo) IN
  /\ <<e, t>> \notin st.m.prov /\ t \notin st.movedT /\ <<e, t>> \notin st.m.srecent
  /\ ({x \in T.ends : <<x, t>> \in st.m.prov} = {} \/ C.multi) /\ (C.multi => Home(st, e) = HomeSw(T, t))
CanSub(st, e, t) ==
  /\ <<e, t>> \notin st.m.subs /\ <<e, t>> \notin st.m.prov /\ <<e, t>> \notin st.m.pstab /\ t \notin st.movedT
  /\ (st.cfg.multi => <<e, t>> \notin st.m.pever)
Two(A, B) == {<<SetToSeq(a), SetToSeq(b)>> : <<a, b>> \in {x \in (SUBSET A) \X (SUBSET B) : Cardinality(x[1]) + Cardinality(x[2]) >= 2}}
Ops(st) ==
  LET C == st.cfg
      T == Topo(C.topo)
      att == {e \in T.ends : Home(st, e) # "none"}
      live == st.ops < MaxOps /\ st.settles < MaxSettles
      can(k) == live /\ k \in Kinds
  IN  {[k |-> "deliver", x |-> p[1], y |-> p[2]] : p \in {q \in DOMAIN st.ch : st.ch[q] # <<>>}}
      \cup (IF Quiet(st) /\ st.dirty /\ st.settles < MaxSettles
            THEN {[k |-> "settle"]} ELSE {})
      \cup (IF can("prov") THEN {[k |-> "prov", e |-> e, t |-> t] : <<e, t>> \in
              {<<e, t>> \in att \X Topics : CanProv(st, e, t)}} ELSE {})
      \cup (IF can("unprov") THEN {[k |-> "unprov", e |-> e, t |-> t] : <<e, t>> \in {<<e, t>> \in att \X Topics : <<e, t>> \in st.m.prov}} ELSE {})
      \cup (IF can("sub") THEN {[k |-> "sub", e |-> e, t |-> t] : <<e, t>> \in
              {<<e, t>> \in att \X Topics : CanSub(st, e, t)}} ELSE {})
      \cup (IF can("batch") THEN UNION {{[k |-> "resub", e |-> e, add |-> x[1], rem |-> x[2]] : x \in
              Two({t \in Topics : CanSub(st, e, t)}, {t \in Topics : <<e, t>> \in st.m.subs})} : e \in att} ELSE {})
      \cup (IF can("batch") THEN UNION {{[k |-> "reprov", e |-> e, add |-> x[1], rem |-> x[2]] : x \in
              Two({t \in Topics : CanProv(st, e, t)}, {t \in Topics : <<e, t>> \in st.m.prov})} : e \in att} ELSE {})
      \cup (IF can("unsub") THEN {[k |-> "unsub", e |-> e, t |-> t] : <<e, t>> \in {<<e, t>> \in att \X Topics : <<e, t>> \in st.m.subs}} ELSE {})
      \cup (IF can("addr") THEN {[k |-> "addr", e |-> e, a |-> a] : <<e, a>> \in
              {<<e, a>> \in att \X Addrs : (C.multi \/ \A f \in T.ends : <<f, a>> \notin st.m.addr) /\ a \notin st.movedA
                                           /\ (C.multi => Home(st, e) = HomeSw(T, a))
                                           /\ (\A b \in Addrs : <<e, b>> \notin st.m.addr)}} ELSE {})
      \cup (IF can("unaddr") THEN {[k |-> "unaddr", e |-> e, a |-> a] : <<e, a>> \in {<<e, a>> \in att \X Addrs : <<e, a>> \in st.m.addr}} ELSE {})
      \cup (IF can("pub") THEN {[k |-> "pub", e |-> p[1], t |-> p[2], n |-> st.n + 1] : p \in {q \in st.m.prov : q[1] \in att}} ELSE {})
      \cup (IF can("ctl") THEN {[k |-> "ctl", e |-> p[1], t |-> p[2], v |-> v, n |-> st.n + 1] :
                                  <<p, v>> \in {q \in st.m.prov : q[1] \in att /\ ~C.multi} \X {0, 1}} ELSE {})
      \cup (IF can("send") THEN {[k |-> "send", e |-> e, a |-> a, port |-> 1 + (st.n % 3), n |-> st.n + 1] :
                                   <<e, a>> \in {<<e, a>> \in att \X Addrs : <<e, a>> \notin st.m.addr}} ELSE {})
      \cup (IF can("down") THEN {[k |-> "down", x |-> l[1], y |-> l[2]] : l \in {q \in T.links : IsUp(st, q[1], q[2])}} ELSE {})
      \cup (IF can("up") THEN {[k |-> "up", x |-> l[1], y |-> l[2], c |-> l[3]] : l \in {q \in T.links : ~IsUp(st, q[1], q[2]) /\ ~st.reshaped}} ELSE {})

Inv(st) == st.bad = {}

(* Biased choice for scenario generation: pick the kind first, alternate phases *)
(* of many operations in flight with phases that come to rest.                  *)
GenOps(st) ==
  LET O == Ops(st)
      del == {o \in O : o.k = "deliver"}
      oth == O \ del
      w == RandomElement(1..10)
      p == IF (st.ops + st.settles) % 9 < 4 THEN 3 ELSE 8
      set == {o \in O : o.k = "settle"}
      \* an address with several holders that everybody has heard of
      far == {o \in O : o.k = "send" /\ {h \in DOMAIN st.ka : <<h, o.a>> \in st.m.addr} = {h \in DOMAIN st.ka : <<h, o.a>> \in st.m.astab}
                                      /\ Cardinality({h \in DOMAIN st.ka : <<h, o.a>> \in st.m.astab}) >= 2}
      bat == {o \in O : o.k \in {"resub", "reprov"}}
  IN IF far # {} /\ w <= 5 THEN {RandomElement(far)}
     ELSE IF del # {} /\ (w <= p \/ oth = {}) THEN {RandomElement(del)}
     ELSE IF set # {} /\ w <= 6 THEN set
     ELSE IF bat # {} /\ w = 7 THEN {RandomElement(bat)}
     ELSE LET k == RandomElement({o.k : o \in oth}) IN {RandomElement({o \in oth : o.k = k})}
=============================================================================
