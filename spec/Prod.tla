-------------------------------- MODULE Prod --------------------------------
(* A shared producer (streamtasks/utils.py AsyncProducer / AsyncMPProducer)   *)
(* with plain holders and consumers.  The producer runs exactly while somebody *)
(* holds it or waits for an item; consumers get what was produced while they   *)
(* were members, in order, also when the producer ends or fails.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Cs == {1, 2, 3}  Hs == {1, 2}  Gs == 1..200
Acc(c, n) == CASE c = 1 -> TRUE [] c = 2 -> n % 2 = 1 [] OTHER -> n % 2 = 0
Cfgs == { [mp |-> m, slow |-> s] : m, s \in BOOLEAN }
Init0(cfg) == [ slow |-> cfg.slow, reg |-> [c \in Cs |-> FALSE], q |-> [c \in Cs |-> <<>>], wait |-> <<>>,   \* <<get id, consumer>> in order
                hold |-> {}, pen |-> {},  \* holders inside; holders still waiting to get in
                run |-> "off", ended |-> FALSE, due |-> {}, owed |-> {}, closing |-> FALSE, n |-> 0, g |-> 0 ]

RECURSIVE Serve(_, _)
\* waiting gets take what is there, in order
Serve(st, i) ==
  IF i > Len(st.wait) THEN st
  ELSE LET w == st.wait[i] Q == st.q[w[2]] del == SubSeq(st.wait, 1, i - 1) \o SubSeq(st.wait, i + 1, Len(st.wait)) IN
       IF Q # <<>> THEN Serve([st EXCEPT !.wait = del, !.q[w[2]] = Tail(@), !.due = @ \cup {<<w[1], "item", Head(Q)>>}], i)
       ELSE IF st.ended THEN Serve([st EXCEPT !.wait = del, !.due = @ \cup {<<w[1], "eof", 0>>}], i)
       ELSE Serve(st, i + 1)
Holders(st) == Len(st.wait) + Cardinality(st.hold)
\* what the run does when the operation is over; natural: the run ended by itself
Settle(st0) ==
  LET s == Serve(st0, 1)
      r == CASE s.run = "on" /\ (s.ended \/ Holders(s) = 0) -> IF s.slow THEN "stopping" ELSE "off"
             [] s.run = "off" /\ ~s.ended /\ Holders(s) > 0 -> "on"
             [] OTHER -> s.run IN
  [s EXCEPT !.run = r]
End(st) == Settle([st EXCEPT !.ended = TRUE, !.run = "off"])
Emit(st, k) == [st EXCEPT !.n = @ + k, !.q = [c \in Cs |-> IF st.reg[c] THEN @[c] \o SelectSeq([i \in 1..k |-> st.n + i], LAMBDA x : Acc(c, x)) ELSE @[c]]]
Step(st, e) ==
  CASE e.k = "reg" -> [st EXCEPT !.reg[e.c] = TRUE]
    [] e.k = "unreg" -> [st EXCEPT !.reg[e.c] = FALSE]
    [] e.k = "get" -> Settle([st EXCEPT !.wait = Append(@, <<st.g + 1, e.c>>), !.g = @ + 1])
    [] e.k = "giveup" -> Settle([st EXCEPT !.wait = SelectSeq(@, LAMBDA w : w[1] # e.g)])
    [] e.k = "enter" -> IF st.ended THEN st ELSE Settle([st EXCEPT !.hold = @ \cup {e.h}])
    [] e.k = "exit" -> Settle([st EXCEPT !.hold = @ \ {e.h}])
    [] e.k = "swap" -> Settle([st EXCEPT !.hold = (@ \ {e.h}) \cup {e.h2}])      \* one leaves while another enters
    [] e.k = "emit" -> Settle(Emit(st, e.m))
    [] e.k = "eof" -> End(Emit(st, e.m))
    [] e.k = "fail" -> End(Emit(st, e.m))
    [] e.k = "close" -> Settle([st EXCEPT !.ended = TRUE])
    [] e.k = "release" -> Settle([st EXCEPT !.run = "off"])
    [] OTHER -> st
Apply(st, e) ==
  LET s == Step(st, e) IN
  IF s.run # "stopping" THEN [s EXCEPT !.due = {}]
  ELSE IF "obs" \in DOMAIN e THEN [s EXCEPT !.due = @ \ Range(e.obs.done)] ELSE [s EXCEPT !.due = {}]

Pend(st, c) == Cardinality({i \in 1..Len(st.wait) : st.wait[i][2] = c})
Ops(st) ==
  { [k |-> "reg", c |-> c] : c \in {x \in Cs : ~st.reg[x]} }
  \cup { [k |-> "unreg", c |-> c] : c \in {x \in Cs : st.reg[x] /\ Pend(st, x) = 0} }
  \cup { [k |-> "get", c |-> c] : c \in {x \in Cs : (st.reg[x] \/ st.q[x] # <<>>) /\ Pend(st, x) < 2} }
  \cup { [k |-> "giveup", g |-> st.wait[i][1]] : i \in 1..Len(st.wait) }
  \cup { [k |-> "enter", h |-> h] : h \in Hs \ st.hold }
  \cup (IF st.run = "stopping" THEN { [k |-> "release"] } ELSE { [k |-> "exit", h |-> h] : h \in st.hold })
  \cup (IF st.run = "on" THEN { [k |-> "emit", m |-> m] : m \in 1..3 } \cup { [k |-> x, m |-> m] : x \in {"eof", "fail"}, m \in 0..2 } ELSE {})
  \* somebody comes and goes at once: a holder, or a consumer that gives up
  \cup (IF st.run # "stopping" /\ ~st.ended /\ (~st.slow \/ Holders(st) > 0)
        THEN { [k |-> "blip", h |-> h, j |-> j] : h \in Hs \ st.hold, j \in 0..3 } \cup { [k |-> "peek", c |-> c, j |-> j] : c \in {x \in Cs : st.q[x] = <<>>}, j \in 0..3 } ELSE {})
  \cup (IF st.run # "stopping" /\ ~st.ended /\ ~st.slow THEN { [k |-> "swap", h |-> x[1], h2 |-> x[2], j |-> j] : x \in st.hold \X (Hs \ st.hold), j \in 0..3 } ELSE {})
  \cup { [k |-> "close"] : x \in IF st.run = "stopping" THEN {} ELSE {1} }
GenOps(st) ==
  LET O == Ops(st) r == RandomElement(1..46) K(ks) == {o \in O : o.k \in ks} pick(S) == IF S = {} THEN {RandomElement(K({"reg", "get", "enter", "exit", "emit", "close"}))} ELSE {RandomElement(S)} IN
  CASE st.run = "stopping" /\ r % 4 = 0 -> pick(K({"release"}))
    [] r <= 5 -> pick(K({"reg"})) [] r <= 7 -> pick(K({"unreg"})) [] r <= 17 -> pick(K({"get"})) [] r <= 19 -> pick(K({"giveup"}))
    [] r <= 23 -> pick(K({"enter"})) [] r <= 28 -> pick(K({"exit", "release"})) [] r <= 37 -> pick(K({"emit"}))
    [] r = 38 -> pick(K({"eof"})) [] r = 39 -> pick(K({"fail"})) [] r \in 41..46 -> pick(K({"blip", "peek", "swap"})) [] OTHER -> IF RandomElement(1..3) = 1 THEN pick(K({"close"})) ELSE pick(K({"get"}))

Inv(st) ==
  /\ st.ended => st.run # "on" /\ st.wait = <<>>
  /\ st.run = "on" => Holders(st) > 0
  /\ st.run = "off" /\ Holders(st) > 0 => st.ended
  /\ \A c \in Cs : \A i, j \in 1..Len(st.q[c]) : Acc(c, st.q[c][i]) /\ (i < j => st.q[c][i] < st.q[c][j])
  /\ \A i \in 1..Len(st.wait) : st.q[st.wait[i][2]] = <<>>

C(b, name) == IF b THEN {} ELSE {name}
\* obs: running, runs (most runs at once in this step), done: <<get, kind, value>>, refused
Check(st, e) ==
  IF e.k = "opfail" THEN {"U01_op"} ELSE
  LET s == Step(st, e) D == Range(e.obs.done) IN
  C(e.obs.running = (s.run # "off") /\ e.obs.runs <= 1, "U01_running")
  \cup C(D \subseteq s.due /\ (s.run # "stopping" => s.due \subseteq D) /\ Cardinality(D) = Len(e.obs.done), "U01_items")
  \cup C(e.k # "enter" \/ e.obs.refused = st.ended, "U01_enter")
  \cup C(s.run = "stopping" \/ e.obs.lag = 0, "U01_leave")
=============================================================================
