------------------------------- MODULE Sync ---------------------------------
(* Inputs read through a synchronizer.  cfg.pr: priority of each topic (all 0: *)
(* the plain one).  A topic takes part once its first message or resumption    *)
(* was read, until it is paused.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANT N                     \* number of topics
Ts == 1..N
Cfgs == { [pr |-> p, block |-> FALSE] : p \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 2, 1>>, <<1, 1, 0>>} }
BCfgs == { [pr |-> <<0, 0, 0>>, block |-> TRUE] }      \* the synchronizer block: every topic is read all the time
None == [k |-> "none", ts |-> -1, n |-> 0, v |-> 0, x |-> 0]
Init0(cfg) == [ cfg |-> cfg, inbox |-> [t \in Ts |-> <<>>],
  ts |-> [t \in Ts |-> -1],              \* -1: takes no part
  get |-> [t \in Ts |-> cfg.block], w |-> [t \in Ts |-> None],      \* receiving; the message held back
  open |-> [t \in Ts |-> FALSE],          \* handed out and not yet followed by another receive
  out |-> [t \in Ts |-> <<>>],            \* what the receives since the last step returned
  hi |-> [t \in Ts |-> -1],               \* latest time handed out while t takes part
  seq |-> <<>>,                           \* the same, in the order of handing out
  pz |-> [t \in Ts |-> FALSE], n |-> 0, ops |-> 0 ]
Part(st) == {t \in Ts : st.ts[t] >= 0}
Min0(st) == IF Part(st) = {} THEN 0 ELSE Min({st.ts[t] : t \in Part(st)})
Held(st, t) ==
  LET x == st.w[t].ts m == Min0(st) IN
  \/ m < x
  \/ \E u \in Part(st) \ {t} : st.ts[u] = m /\ st.cfg.pr[u] > st.cfg.pr[t] /\ (st.open[u] \/ st.w[u].k # "none")
SetHi(st, x) == [st EXCEPT !.hi = [t \in Ts |-> IF st.ts[t] >= 0 /\ x > st.hi[t] THEN x ELSE st.hi[t]]]
Out(st, t, m) == LET s1 == IF m.k = "data" THEN [SetHi(st, m.ts) EXCEPT !.open[t] = TRUE] ELSE st IN
                 [s1 EXCEPT !.out[t] = Append(@, m), !.seq = Append(@, <<t, m>>), !.get[t] = st.cfg.block, !.w[t] = None, !.open[t] = IF st.cfg.block THEN FALSE ELSE @]
\* the receive on t reads what has arrived, until it returns or has to hold a message back
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE      \* evaluates x once
RECURSIVE Read(_, _)
Read(st, t) ==
  IF ~st.get[t] \/ st.w[t].k # "none" \/ st.inbox[t] = <<>> THEN st
  ELSE LET m == Head(st.inbox[t])
           F(s1) ==
             CASE m.k = "ctl" -> With(Out([s1 EXCEPT !.ts[t] = IF m.v = 1 THEN -1 ELSE IF @ >= 0 THEN @ ELSE Min0(s1), !.hi[t] = IF m.v = 1 THEN -1 ELSE @, !.pz[t] = (m.v = 1)], t, m), LAMBDA s : Read(s, t))
               [] m.k = "junk" -> Read(s1, t)
               [] m.ts < st.ts[t] -> Read(s1, t)           \* the past is dropped
               [] OTHER -> With([s1 EXCEPT !.ts[t] = m.ts, !.w[t] = m], LAMBDA s2 : IF Held(s2, t) THEN s2 ELSE With(Out(s2, t, m), LAMBDA s : Read(s, t)))
       IN With([st EXCEPT !.inbox[t] = Tail(@)], F)
RECURSIVE Settle(_)
Settle(st) ==
  LET R == {t \in Ts : st.w[t].k # "none" /\ ~Held(st, t)} IN
  IF R = {} THEN st
  ELSE With(CHOOSE x \in R : \A y \in R : x <= y, LAMBDA t : With(Read(Out(st, t, st.w[t]), t), LAMBDA s : Settle(s)))

Vw(q) == [i \in 1..Len(q) |-> <<q[i].k, IF q[i].k = "ctl" THEN q[i].v ELSE q[i].n>>]
Clear(st) == [st EXCEPT !.out = [t \in Ts |-> <<>>], !.seq = <<>>]
M(e) == [k |-> e.k, ts |-> IF e.k = "data" THEN e.ts ELSE -1, n |-> e.n, v |-> IF e.k = "ctl" THEN e.v ELSE 0, x |-> IF "x" \in DOMAIN e THEN e.x ELSE 0]
Pre(st, e) ==
  CASE e.k = "recv" -> [st EXCEPT !.get[e.t] = TRUE, !.open[e.t] = FALSE]
    [] OTHER -> [st EXCEPT !.inbox[e.t] = Append(@, M(e)), !.n = e.n]
\* exact: what has to happen.  early: between the new receive and its next message others of the same time may be let through
Exact(st, e) == With(Pre(Clear(st), e), LAMBDA s : With(Read(s, e.t), LAMBDA r : Settle(r)))
Early(st, e) == With(Settle(Pre(Clear(st), e)), LAMBDA s : With(Read(s, e.t), LAMBDA r : Settle(r)))
Apply0(st, e) == With(Exact(st, e), LAMBDA x :
  IF "obs" \in DOMAIN e /\ e.k = "recv" /\ \E u \in Ts \ {e.t} : e.obs.out[u] # Vw(x.out[u]) THEN Early(st, e) ELSE x)
Apply(st, e) == [Apply0(st, e) EXCEPT !.ops = @ + 1]

Times(st) == {Max({0} \cup {st.ts[t] : t \in Ts} \cup {0}) + d : d \in -1..3} \cap Nat
Lasts(st, t) == IF \E i \in 1..Len(st.inbox[t]) : st.inbox[t][i].k = "data" THEN Max({st.inbox[t][i].ts : i \in 1..Len(st.inbox[t])}) ELSE IF st.ts[t] >= 0 THEN st.ts[t] ELSE Min0(st)
\* the block reads what it can get at: what a pause change finds there has no defined order, so it comes alone
Calm(st, t) == ~st.cfg.block \/ (st.inbox[t] = <<>> /\ st.w[t].k = "none")
CT(st) == {t \in Ts : Calm(st, t)}
Ops(st) ==
  { [k |-> "recv", t |-> t] : t \in {x \in Ts : ~st.get[x]} }
  \cup { [k |-> "data", t |-> t, ts |-> ts, n |-> st.n + 1] : t \in Ts, ts \in 0..3 }
  \cup { [k |-> "ctl", t |-> t, v |-> v, n |-> st.n + 1] : t \in CT(st), v \in {0, 1} }
  \cup { [k |-> "junk", t |-> t, n |-> st.n + 1] : t \in Ts }
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
GenOps(st) ==
  LET r == RandomElement(1..20) R == {x \in Ts : ~st.get[x]} IN
  CASE r <= 7 /\ R # {} -> { [k |-> "recv", t |-> t] : t \in One(R) }
    [] r <= 17 -> { [k |-> "data", t |-> p[1], ts |-> Lasts(st, p[1]) + p[2], n |-> st.n + 1] : p \in One(Ts \X {0, 0, 1, 1, 2, 3, 5}) }
    [] r = 18 -> { [k |-> "data", t |-> p[1], ts |-> p[2], n |-> st.n + 1] : p \in One(Ts \X (0..Lasts(st, 1) + 1)) }
    [] r = 19 /\ CT(st) # {} -> { [k |-> "ctl", t |-> p[1], v |-> p[2], n |-> st.n + 1] : p \in One(CT(st) \X {0, 1}) }
    [] OTHER -> IF RandomElement(1..3) = 1 \/ CT(st) = {} THEN { [k |-> "junk", t |-> t, n |-> st.n + 1] : t \in One(Ts) }
                ELSE { [k |-> "ctl", t |-> p[1], v |-> p[2], n |-> st.n + 1] : p \in One(CT(st) \X {0, 1}) }

Inv(st) ==
  /\ \A t \in Ts : st.w[t].k # "none" => Held(st, t) /\ st.get[t] /\ st.ts[t] = st.w[t].ts
  \* nothing later than a participant has been handed out while it takes part
  /\ \A t \in Part(st) : st.hi[t] <= st.ts[t]
  \* somebody can always go on: the earliest held message of the highest priority waits for a consumer or an input only
  /\ \A t \in Ts : st.w[t].k # "none" =>
       \E u \in Part(st) : (st.w[u].k = "none") /\ (st.ts[u] < st.w[t].ts \/ st.open[u])

C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"C05_op", "B05_op"} ELSE
  With(Apply(st, e), LAMBDA s1 : LET o == e.obs IN
  C(\A t \in Ts : SelectSeq(Vw(s1.out[t]), LAMBDA x : x[1] = "data") = SelectSeq(o.out[t], LAMBDA x : x[1] = "data"), IF st.cfg.block THEN "B05_data" ELSE "C05_data")
  \cup C(st.cfg.block \/ \A t \in Ts : Vw(s1.out[t]) = o.out[t], "C05_control")
  \cup C(~st.cfg.block \/ \A t \in Ts : o.paused[t] = (IF s1.pz[t] THEN 1 ELSE 0), "B05_paused")
  \cup C(~st.cfg.block \/ Part(st) # Part(s1) \/ \A i, j \in 1..Len(o.seq) : i < j => o.seq[i] <= o.seq[j], "B05_order"))
=============================================================================
