-------------------------------- MODULE Conn --------------------------------
(* Connections of a server over its life: which attempts are accepted, who is  *)
(* linked at what cost, the server's count, and the reconnecting client.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Clients == 1..3
RawKinds == {"good", "noisegood", "badver", "nover", "badtok", "othertok", "garbage", "notdict", "empty", "eof", "half", "silent"}
FakeKinds == {"no", "badver", "nover", "garbage", "notdict", "eof", "half", "noaccept", "truthy"}

Cfgs == { [auth |-> a, recproxy |-> p] : a \in BOOLEAN, p \in BOOLEAN }

Init0(cfg) == [ auth |-> cfg.auth, recproxy |-> cfg.recproxy,
  up |-> FALSE, live |-> {}, shaky |-> FALSE,
  rec |-> "off",      \* off, or the token it uses
  recq |-> FALSE,     \* time has passed since the server or the connection changed
  advs |-> 0 ]

Match(st, tok) == IF st.auth THEN tok = "right" ELSE tok = "absent"

Ops(st) ==
  { [k |-> IF st.up THEN "srvdown" ELSE "srvup"], [k |-> "adv", dt |-> 3], [k |-> "adv", dt |-> 45], [k |-> "settle"] }
  \cup { [k |-> "conn", c |-> c, tok |-> t] : c \in Clients \ st.live, t \in {"right", "wrong", "absent"} }
  \cup { [k |-> "halfconn", dir |-> d, n |-> n] : d \in {"cs", "sc"}, n \in {0, 1, 5, 8, 20, 30} }
  \cup { [k |-> "raw", kind |-> x] : x \in RawKinds }
  \cup { [k |-> "fake", kind |-> x] : x \in FakeKinds }
  \cup { [k |-> x, c |-> c] : x \in {"close", "cut"}, c \in st.live }
  \cup (IF st.rec = "off" THEN { [k |-> "recon", tok |-> IF st.auth THEN "right" ELSE "absent"], [k |-> "recon", tok |-> "wrong"] } ELSE { [k |-> "recoff"] })
  \cup (IF st.rec # "off" /\ st.recproxy THEN { [k |-> "cutr"] } ELSE {})

\* operations that say something, more often
GenOps(st) ==
  LET r == RandomElement(1..12)
      pick(S) == IF S = {} THEN Ops(st) ELSE {RandomElement(S)}
      byk(ks) == pick({o \in Ops(st) : o.k \in ks})
  IN CASE ~st.up /\ r < 6 -> byk({"srvup"})
       [] r < 4 /\ Cardinality(st.live) < 2 -> byk({"conn"}) [] r < 4 -> {o \in Ops(st) : o.k = "adv" /\ o.dt > 30} [] r = 4 -> byk({"raw"}) [] r = 5 -> byk({"fake"}) [] r = 6 -> byk({"halfconn"})
       [] r = 7 -> byk({"close", "cut"}) [] r = 8 -> byk({"recon", "cutr"}) [] r \in {9, 10} -> byk({"adv"}) [] r = 11 -> byk({"settle"})
       [] OTHER -> byk({"srvdown", "srvup", "recoff", "cutr"})

Apply(st, e) ==
  CASE e.k = "srvup" -> [st EXCEPT !.up = TRUE, !.recq = FALSE]
    [] e.k = "srvdown" -> [st EXCEPT !.up = FALSE, !.live = {}, !.recq = FALSE]
    [] e.k = "conn" -> IF st.up /\ Match(st, e.tok) THEN [st EXCEPT !.live = @ \cup {e.c}] ELSE st
    [] e.k \in {"close", "cut"} -> [st EXCEPT !.live = @ \ {e.c}]
    [] e.k = "recon" -> [st EXCEPT !.rec = e.tok, !.recq = FALSE]
    [] e.k = "recoff" -> [st EXCEPT !.rec = "off"]
    [] e.k = "cutr" -> [st EXCEPT !.recq = FALSE]
    [] e.k = "adv" -> [st EXCEPT !.recq = TRUE, !.advs = @ + 1]
    [] OTHER -> st

Inv(st) == /\ (st.live # {} => st.up)

(* ------------------------------ monitor ------------------------------------ *)
C(b, name) == IF b THEN {} ELSE {name}
\* what the reconnecting client must be once time has passed
RecMust(st) == st.up /\ st.rec # "off" /\ Match(st, st.rec)
RecMay(st) == RecMust(st)

\* obs of every operation: count, known = clients the server side sees, with their cost, sees = cost at which
\* the live clients see the server side, recl = the reconnector says it is connected, recs = what it sees
State(st, o) ==
  LET recsrv == \E x \in Range(o.known) : x[1] = 50
  IN C({x[1] : x \in Range(o.known)} \ {50} = st.live, "N09_links")
     \cup C(\A x \in Range(o.known) : x[2] = (IF x[1] = 50 THEN o.scost + 2 ELSE o.scost + 1), "N09_cost")
     \cup C({x[1] : x \in Range(o.sees)} = st.live /\ \A x \in Range(o.sees) : x[2] = x[3] + 1, "N09_cost")
     \cup C(o.alive = SetToSortSeq(st.live, <), "N10_links")
     \cup C(~st.up \/ o.count = Cardinality(st.live) + (IF recsrv THEN 1 ELSE 0), "N10_count")
     \cup C(~recsrv \/ RecMay(st), "N10_links")
     \cup C(o.recl = recsrv, "N10_state")
     \cup C(Cardinality({i \in 1..Len(o.known) : o.known[i][1] = 50}) <= 1, "N10_two")
     \cup C(~st.recq \/ recsrv = RecMust(st), "N10_again")
     \cup C(o.errors = <<>>, "N10_error")

Check(st, e) ==
  IF e.k = "opfail" THEN {"N09_op", "N10_op"}
  ELSE State(Apply(st, e), e.obs) \cup
  CASE e.k = "conn" -> C(e.obs.res = (IF st.up /\ Match(st, e.tok) THEN "ok" ELSE "refused"), "N09_accept")
    [] e.k = "raw" -> C(e.obs.res = (IF ~st.up THEN "down" ELSE IF e.kind \in {"silent", "half"} THEN "open"
                                     ELSE IF e.kind \in {"good", "noisegood"} THEN "accepted" ELSE "refused"), "N09_raw")
                      \cup C(~e.obs.leak, "N09_leak") \cup C(e.obs.secret = FALSE, "N09_secret")
    [] e.k = "fake" -> C(e.obs.res = "refused" /\ e.obs.eof, "N09_fake")
    [] e.k = "adv" -> C(e.obs.tries <= e.dt + 2, "N10_pace") \cup C(st.rec = "off" \/ e.obs.tries > 0 \/ e.obs.recl, "N10_tries")
    [] e.k = "srvdown" -> C(e.obs.stopped, "N10_stop")
    [] e.k = "recoff" -> C(e.obs.stopped, "N10_stop")
    [] OTHER -> {}
=============================================================================
