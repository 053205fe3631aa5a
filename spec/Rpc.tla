-------------------------------- MODULE Rpc ---------------------------------
(* Request servers (1, 2) and a signal server (3) of one client; requesters   *)
(* 1..3 on other clients.  A server handles what arrived one at a time, in    *)
(* order of arrival; what it produces goes to the requester of that request   *)
(* and to nobody else.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Fs == {1, 2}  Srvs == {1, 2, 3}  Reqs == {1, 2, 3}  Ds == {1, 2, 3}
None == [id |-> 0]
Cfgs == { 0 }
Init0(cfg) == [ up |-> [s \in Srvs |-> TRUE], routes |-> [s \in Srvs |-> {1, 2}],
  q |-> [s \in Srvs |-> <<>>],     \* sequence of sets: what arrived together has no order
  cur |-> [s \in Srvs |-> None], resp |-> [s \in Srvs |-> FALSE],
  out |-> {}, n |-> 0 ]

Begun(e, s) == IF "obs" \in DOMAIN e THEN {b[2] : b \in {x \in Range(e.obs.begun) : x[1] = s}} ELSE {}
RECURSIVE Pick(_, _, _)
Pick(st, s, e) ==
  IF ~st.up[s] \/ st.cur[s].id # 0 \/ st.q[s] = <<>> THEN st
  ELSE LET h == {x \in Head(st.q[s]) : x.d \in st.routes[s]} IN
       IF h = {} THEN Pick([st EXCEPT !.q[s] = Tail(@)], s, e)
       ELSE LET c == {x \in h : x.id \in Begun(e, s)}
                x == IF c # {} THEN CHOOSE y \in c : TRUE ELSE CHOOSE y \in h : \A z \in h : y.id <= z.id
            IN [st EXCEPT !.cur[s] = x, !.resp[s] = FALSE, !.q[s] = IF h = {x} THEN Tail(@) ELSE <<h \ {x}>> \o Tail(@)]
PickAll(st, e) == Pick(Pick(Pick(st, 1, e), 2, e), 3, e)

\* the requests of e that arrive at server s
Arrive(st, s, e) ==
  LET g == {x \in Range(e.rs) : x.s = s /\ x.d \in st.routes[s]} IN
  IF ~st.up[s] \/ g = {} THEN st ELSE [st EXCEPT !.q[s] = Append(@, g)]

\* what the requester of the current request of s gets: <<id, kind, value>> or nothing
Answer(st, e) ==
  LET x == st.cur[e.s] IN
  IF e.s = 3 \/ x.id \notin st.out \/ st.resp[e.s] THEN <<>>
  ELSE CASE e.k = "respond" -> <<<<x.id, e.how, e.v>>>>
         [] e.k = "finish" -> CASE e.how = "ret" -> <<<<x.id, "ok", 0>>>>
                                [] e.how = "raise" -> <<<<x.id, "general", 0>>>>
                                [] e.how = "invalid" -> <<<<x.id, "bad_request", 0>>>>
                                [] OTHER -> <<>>
         [] OTHER -> <<>>
Ids(a) == {a[i][1] : i \in 1..Len(a)}

Apply(st, e) ==
  LET a == IF e.k \in {"respond", "finish"} THEN Answer(st, e) ELSE <<>>
      s1 == CASE e.k = "send" -> [Arrive(Arrive(Arrive(st, 1, e), 2, e), 3, e) EXCEPT !.out = @ \cup {x.id : x \in {y \in Range(e.rs) : y.s # 3}}, !.n = @ + Len(e.rs)]
             [] e.k = "respond" -> [st EXCEPT !.out = @ \ Ids(a), !.resp[e.s] = TRUE]
             [] e.k = "finish" -> [st EXCEPT !.out = @ \ Ids(a), !.cur[e.s] = None]
             [] e.k = "giveup" -> [st EXCEPT !.out = @ \ {e.id}]
             [] e.k = "addroute" -> [st EXCEPT !.routes[e.s] = @ \cup {e.d}]
             [] e.k = "rmroute" -> [st EXCEPT !.routes[e.s] = @ \ {e.d}]
             [] e.k = "down" -> [st EXCEPT !.up[e.s] = FALSE, !.cur[e.s] = None]
             [] e.k = "up" -> [st EXCEPT !.up[e.s] = TRUE]
             [] OTHER -> st
  IN PickAll(s1, e)

Rq(id, r, s, d, b) == [id |-> id, r |-> r, s |-> s, d |-> d, b |-> b]
V == 0..9
Sends(st) ==
  { [k |-> "send", rs |-> <<Rq(st.n + 1, r, s, d, b)>>] : r \in Reqs, s \in Srvs, d \in Ds, b \in {RandomElement(V)} }
RR(st, i) == Rq(st.n + i, RandomElement(Reqs), RandomElement(Srvs), RandomElement({1, 2}), RandomElement(V))
Multi(st) ==
  IF RandomElement({1, 2}) = 1 THEN { [k |-> "send", rs |-> <<RR(st, 1), RR(st, 2)>>] } ELSE { [k |-> "send", rs |-> <<RR(st, 1), RR(st, 2), RR(st, 3)>>] }
Ops(st) ==
  { [k |-> "send", rs |-> <<Rq(st.n + 1, r, s, d, 1)>>] : r \in {1, 2}, s \in Srvs, d \in Ds }
  \cup { [k |-> "finish", s |-> s, how |-> h] : s \in {x \in Srvs : st.cur[x].id # 0}, h \in {"ret", "raise", "invalid"} }
  \cup { [k |-> "respond", s |-> s, how |-> h, v |-> v] : s \in {x \in Fs : st.cur[x].id # 0}, h \in {"ok", "err"}, v \in V }
  \cup { [k |-> "giveup", id |-> i] : i \in st.out }
  \cup { [k |-> "junk", s |-> p[1], j |-> p[2]] : p \in (1..3) \X (1..8) \cup {0} \X {1, 2, 3, 4, 6} }
  \cup { [k |-> "addroute", s |-> s, d |-> d] : s \in Srvs, d \in Ds }
  \cup { [k |-> "rmroute", s |-> s, d |-> d] : s \in {x \in Srvs : st.q[x] = <<>>}, d \in Ds }
  \cup { [k |-> "down", s |-> s] : s \in {x \in Srvs : st.up[x] /\ st.q[x] = <<>>} }
  \cup { [k |-> "up", s |-> s] : s \in {x \in Srvs : ~st.up[x]} }
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Kind(st, ks) == {o \in Ops(st) : o.k \in ks}
GenOps(st) ==
  LET r == RandomElement(1..20) IN
  CASE r <= 5 -> One(Sends(st))
    [] r <= 7 /\ (\A s \in Srvs : {1, 2} \subseteq st.routes[s]) -> Multi(st)
    [] r <= 12 /\ Kind(st, {"finish"}) # {} -> One(Kind(st, {"finish"}))
    [] r <= 15 /\ Kind(st, {"respond"}) # {} -> One(Kind(st, {"respond"}))
    [] r <= 17 -> One(Kind(st, {"junk"}))
    [] r = 18 /\ st.out # {} -> One(Kind(st, {"giveup"}))
    [] r = 19 -> One(Kind(st, {"addroute", "rmroute"}))
    [] r = 20 /\ Kind(st, {"down", "up"}) # {} -> IF Kind(st, {"up"}) # {} THEN One(Kind(st, {"up"})) ELSE One(Kind(st, {"down"}))
    [] OTHER -> One(Sends(st))

Inv(st) ==
  /\ \A s \in Srvs : st.cur[s].id # 0 => st.cur[s].id \in 1..st.n
  /\ \A s, t \in Srvs : (s # t /\ st.cur[s].id # 0) => st.cur[s].id # st.cur[t].id
  /\ \A s \in Srvs : \A i \in 1..Len(st.q[s]) : \A x \in st.q[s][i] : x.id # st.cur[s].id /\ (st.up[s] => st.cur[s].id # 0)

C(b, name) == IF b THEN {} ELSE {name}
\* obs: begun <<s, id, d, b>> handlers that started, res <<id, kind, value>> requests that completed, ans: number of answers on the wire
Check(st, e) ==
  IF e.k = "opfail" THEN {"C03_op", "C04_op"} ELSE
  LET s1 == Apply(st, e) o == e.obs
      a == IF e.k \in {"respond", "finish"} THEN Answer(st, e) ELSE <<>>
      new(s) == IF s1.cur[s].id # 0 /\ s1.cur[s] # st.cur[s] THEN {<<s, s1.cur[s].id, s1.cur[s].d, s1.cur[s].b>>} ELSE {}
      got(S) == SelectSeq(o.begun, LAMBDA x : x[1] \in S)
  IN C(Len(got(Fs)) = Cardinality(new(1) \cup new(2)) /\ Range(got(Fs)) = new(1) \cup new(2), "C03_handled")
  \cup C(Len(got({3})) = Cardinality(new(3)) /\ Range(got({3})) = new(3), "C04_signal")
  \cup C(o.res = a, "C03_answer")
  \* a handler that returns or raises after it has answered gives no second answer
  \cup C(CASE e.k = "respond" -> o.ans = 1
            [] e.k = "finish" /\ e.s # 3 -> o.ans = (IF st.resp[e.s] THEN 0 ELSE 1) \/ (e.how = "invalid" /\ o.ans = 1)
            [] e.k = "junk" -> TRUE
            [] OTHER -> o.ans = 0, "C03_once")
=============================================================================
