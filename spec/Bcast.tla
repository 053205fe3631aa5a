------------------------------- MODULE Bcast --------------------------------
(* A broadcasting server and its receivers, each on its own client.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Ns == {1, 2, 3}  Rs == {1, 2, 3, 4}
N(r) == CASE r = 1 -> {1} [] r = 2 -> {1, 2} [] r = 3 -> {2, 3} [] OTHER -> {1, 2, 3}
\* 1 and 4 share a client
Cfgs == { 0 }
Init0(cfg) == [ up |-> TRUE, known |-> {}, count |-> [r \in Rs |-> 0], live |-> [r \in Rs |-> FALSE], wait |-> {},
                q |-> [r \in Rs |-> <<>>], n |-> 0, ops |-> 0 ]
\* receivers that start get their namespaces created
Begin(st, S) == [st EXCEPT !.count = [r \in Rs |-> IF r \in S THEN @[r] + 1 ELSE @[r]],
                           !.live = [r \in Rs |-> IF r \in S /\ st.count[r] = 0 THEN TRUE ELSE @[r]],
                           !.known = @ \cup UNION {N(r) : r \in {x \in S : st.count[x] = 0}}]
Pub(st, ns, n) == [st EXCEPT !.n = n, !.q = [r \in Rs |-> IF st.up /\ ns \in st.known /\ st.live[r] /\ ns \in N(r) THEN Append(@[r], <<ns, n>>) ELSE @[r]]]
RECURSIVE PubAll(_, _)
PubAll(st, xs) == IF xs = <<>> THEN st ELSE PubAll(Pub(st, Head(xs)[1], Head(xs)[2]), Tail(xs))
Apply0(st, e) ==
  CASE e.k = "start" -> IF st.up THEN Begin(st, Range(e.rs)) ELSE [st EXCEPT !.wait = @ \cup Range(e.rs)]
    [] e.k = "stop" -> [st EXCEPT !.count[e.r] = @ - 1, !.live[e.r] = IF st.count[e.r] = 1 THEN FALSE ELSE @]
    [] e.k = "giveup" -> [st EXCEPT !.wait = @ \ {e.r}]
    [] e.k = "pub" -> PubAll(st, e.xs)
    [] e.k = "read" -> [st EXCEPT !.q[e.r] = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] e.k = "down" -> [st EXCEPT !.up = FALSE, !.known = {}, !.live = [r \in Rs |-> FALSE]]
    [] e.k = "up" -> [st EXCEPT !.up = TRUE]
    [] OTHER -> st
Apply(st, e) == [Apply0(st, e) EXCEPT !.ops = @ + 1]

Startable(st) == {r \in Rs : st.count[r] < 2 /\ r \notin st.wait /\ (st.up \/ st.count[r] = 0)}
Ops(st) ==
  { [k |-> "start", rs |-> SetToSortSeq(S, <)] : S \in {X \in SUBSET Startable(st) : Cardinality(X) \in {1, 2}} }
  \cup { [k |-> "stop", r |-> r] : r \in {x \in Rs : st.count[x] > 0} }
  \cup { [k |-> "giveup", r |-> r] : r \in st.wait }
  \cup { [k |-> "pub", xs |-> <<<<ns, st.n + 1>>>>] : ns \in Ns }
  \cup { [k |-> "pub", xs |-> <<<<a, st.n + 1>>, <<b, st.n + 2>>, <<a, st.n + 3>>>>] : a, b \in Ns }
  \cup { [k |-> "read", r |-> r] : r \in Rs }
  \cup (IF st.up THEN { [k |-> "down"] } ELSE IF st.wait = {} THEN { [k |-> "up"] } ELSE {})
  \cup { [k |-> "junk", j |-> j] : j \in 1..4 }
GenOps(st) ==
  LET O == Ops(st) r == RandomElement(1..14) K(ks) == {o \in O : o.k \in ks} pick(S) == IF S = {} THEN {RandomElement(K({"pub"}))} ELSE {RandomElement(S)} IN
  CASE r <= 3 -> pick(K({"start"})) [] r = 4 -> pick(K({"stop"})) [] r <= 8 -> pick(K({"pub"})) [] r <= 10 -> pick({o \in K({"read"}) : st.q[o.r] # <<>>})
    [] r = 11 -> pick(K({"giveup"})) [] r = 12 -> pick(K({"junk"})) [] OTHER -> IF ~st.up THEN pick(K({"up", "giveup"})) ELSE IF RandomElement(1..4) = 1 THEN pick(K({"down"})) ELSE pick(K({"pub"}))

Inv(st) ==
  /\ \A r \in Rs : st.live[r] => st.count[r] > 0 /\ st.up /\ N(r) \subseteq st.known
  /\ \A r \in Rs : \A i, j \in 1..Len(st.q[r]) : i < j => st.q[r][i][2] < st.q[r][j][2]
  /\ \A r \in st.wait : st.count[r] = 0 /\ ~st.up

C(b, name) == IF b THEN {} ELSE {name}
\* obs: started (receivers whose start completed), item
Check(st, e) ==
  IF e.k = "opfail" THEN {"C04_op"} ELSE
  C(e.k # "start" \/ Range(e.obs.started) = (IF st.up THEN Range(e.rs) ELSE {}), "C04_start")
  \cup C(e.k # "read" \/ e.obs.item = (IF st.q[e.r] = <<>> THEN <<>> ELSE Head(st.q[e.r])), "C04_broadcast")
  \cup C(e.obs.topics = Cardinality(Apply(st, e).known), "C04_topics")
=============================================================================
