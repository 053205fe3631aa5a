-------------------------------- MODULE Named --------------------------------
(* Named topics: named output blocks publish a stream under a name, named      *)
(* input blocks bring it back.  Blocks start and stop in any order, names are  *)
(* shared by several blocks, removed while they are used, and chained.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
\* on: the name of every output block, src: what it publishes (0 a stream of its own, or what the input block of this number brings), in: the name of every input block, p: pauses
Bs == << [on |-> <<1, 1, 2>>, src |-> <<0, 0, 0>>, in |-> <<1, 1, 2, 3>>, p |-> 0],
         [on |-> <<1, 2, 3>>, src |-> <<0, 0, 0>>, in |-> <<1, 1, 2, 3, 1>>, p |-> 1],
         [on |-> <<1, 2, 3>>, src |-> <<0, 1, 0>>, in |-> <<1, 2, 2, 3>>, p |-> 1],
         [on |-> <<1, 2, 2>>, src |-> <<0, 1, 0>>, in |-> <<1, 2, 2, 1>>, p |-> 0] >>
Cfgs == 1..4
Os(st) == 1..Len(st.c.on)
Is(st) == 1..Len(st.c.in)
Roots(st) == {o \in Os(st) : st.c.src[o] = 0}
Init0(cfg) == LET c == Bs[cfg] IN [c |-> c, o |-> [x \in 1..Len(c.on) |-> 0], i |-> [x \in 1..Len(c.in) |-> 0], ps |-> [x \in 1..Len(c.on) |-> 0], m |-> [n \in 1..3 |-> -1]]
\* the streams that arrive at the input block i
RECURSIVE From(_, _)
From(st, i) == IF st.i[i] = 0 THEN {} ELSE UNION { IF st.c.src[o] = 0 THEN {o} ELSE From(st, st.c.src[o]) : o \in {x \in Os(st) : st.o[x] = 1 /\ st.c.on[x] = st.c.in[i]} }
Paused(st, i) == LET F == From(st, i) IN IF \E o \in F : st.ps[o] = 1 THEN 1 ELSE 0
Its(e, k) == {x.b : x \in {y \in Range(e.s) : y.k = k}}
\* what may be stored for a name after a step
Metas(st, e, n) == IF [k |-> "del", b |-> n] \in Range(e.s) THEN {-1}
  ELSE LET O == {o \in Its(e, "startO") : st.c.on[o] = n} IN IF O # {} THEN O
  ELSE IF st.m[n] = -1 /\ \E i \in Its(e, "startI") : st.c.in[i] = n THEN {0} ELSE {st.m[n]}
OMeta(o, n) == LET q == SelectSeq(o.names, LAMBDA x : x[1] = n) IN IF q = <<>> THEN -1 ELSE q[1][2]
PickM(st, e, n) == IF "obs" \in DOMAIN e /\ OMeta(e.obs, n) \in Metas(st, e, n) THEN OMeta(e.obs, n) ELSE CHOOSE x \in Metas(st, e, n) : TRUE
LastPause(st, e, o) == LET q == SelectSeq(e.s, LAMBDA x : x.k = "pause" /\ x.b = o) IN IF q = <<>> THEN st.ps[o] ELSE Last(q).v
Apply(st, e) ==
  IF e.k = "data" THEN [st EXCEPT !.ps = [o \in Os(st) |-> LastPause(st, e, o)]]
  ELSE [st EXCEPT !.o = [x \in Os(st) |-> IF x \in Its(e, "startO") THEN 1 ELSE IF x \in Its(e, "stopO") THEN 0 ELSE @[x]],
                  !.i = [x \in Is(st) |-> IF x \in Its(e, "startI") THEN 1 ELSE IF x \in Its(e, "stopI") THEN 0 ELSE @[x]],
                  !.m = [n \in 1..3 |-> PickM(st, e, n)]]
\* what input block i brings of a step: <<stream, index of the message in the step>> and <<0, paused>>
RECURSIVE Stream(_, _, _, _)
Stream(s, k, p, F) == IF k > Len(s) THEN <<>> ELSE
  IF s[k].b \notin F THEN Stream(s, k + 1, p, F)
  ELSE IF s[k].k = "send" THEN <<<<s[k].b, k>>>> \o Stream(s, k + 1, p, F)
  ELSE IF s[k].v = p THEN Stream(s, k + 1, p, F) ELSE <<<<0, s[k].v>>>> \o Stream(s, k + 1, s[k].v, F)
C(b, name) == IF b THEN {} ELSE {name}
\* obs: names <<name, metadata>>, ps (is the topic of an input block paused), req (streams that are requested), got <<input block, items>>, bad
Got(o, i) == LET q == SelectSeq(o.got, LAMBDA x : x[1] = i) IN IF q = <<>> THEN <<>> ELSE q[1][2]
Sent(s, b) == LET q == [k \in 1..Len(s) |-> IF s[k].k = "send" /\ s[k].b = b THEN <<b, k>> ELSE <<0, 0>>] IN SelectSeq(q, LAMBDA x : x # <<0, 0>>)
DataOk(st, e, o, i) == LET F == From(st, i) g == Got(o, i) IN
  IF st.c.p = 1 THEN g = Stream(e.s, 1, Paused(st, i), F)
  ELSE (\A x \in Range(g) : x[1] \in F) /\ \A b \in F : SelectSeq(g, LAMBDA x : x[1] = b) = Sent(e.s, b)
Check(st, e) ==
  IF e.k = "opfail" THEN {"B06_op"} ELSE
  LET o == e.obs n == Apply(st, e) IN
  C(\A i \in Is(st) : IF e.k = "data" THEN DataOk(st, e, o, i) ELSE \A x \in Range(Got(o, i)) : x[1] = 0 /\ st.c.p = 1, "B06_data")
  \cup C(\A i \in Is(st) : o.ps[i] = Paused(n, i), "B06_paused")
  \cup C(\A x \in Roots(st) : o.req[x] = n.o[x], "B06_demand")
  \cup C((\A k \in 1..3 : OMeta(o, k) \in (IF e.k = "data" THEN {st.m[k]} ELSE Metas(st, e, k))) /\ Len(o.names) = Cardinality({k \in 1..3 : OMeta(o, k) # -1}), "B06_names")
  \cup C(o.bad = <<>>, "B06_content")
\* ---------------------------------------------------------------- operations
Quiet(st) == \A o \in Os(st) : st.ps[o] = 0
Blocks(st) == { [k |-> "startO", b |-> o] : o \in {x \in Os(st) : st.o[x] = 0} } \cup { [k |-> "startI", b |-> i] : i \in {x \in Is(st) : st.i[x] = 0} }
  \cup (IF Quiet(st) THEN { [k |-> "stopO", b |-> o] : o \in {x \in Os(st) : st.o[x] = 1} } \cup { [k |-> "stopI", b |-> i] : i \in {x \in Is(st) : st.i[x] = 1} } ELSE {})
  \cup {[k |-> "bad", b |-> 1]}
Dels(st) == { [k |-> "del", b |-> n] : n \in {x \in 1..3 : st.m[x] # -1} }
Datas(st) == { [k |-> "send", b |-> o, v |-> 0] : o \in Roots(st) } \cup (IF st.c.p = 1 THEN { [k |-> "pause", b |-> o, v |-> v] : o \in Roots(st), v \in 0..1 } ELSE {})
Ops(st) == { [k |-> "blocks", s |-> <<x>>] : x \in Blocks(st) \cup Dels(st) } \cup { [k |-> "data", s |-> <<x>>] : x \in Datas(st) }
RECURSIVE Many(_, _, _)
Many(S, s, n) == IF n = 0 \/ S = {} THEN s ELSE With(RandomElement(S), LAMBDA x : Many(IF x.k \in {"send", "pause"} THEN S ELSE S \ {x}, Append(s, x), n - 1))
Up(st) == Cardinality({o \in Os(st) : st.o[o] = 1}) + Cardinality({i \in Is(st) : st.i[i] = 1})
GenOps(st) == LET x == RandomElement(1..20) IN
  IF x = 1 /\ Dels(st) # {} THEN { [k |-> "blocks", s |-> <<RandomElement(Dels(st))>>] }
  ELSE IF x <= (IF Up(st) <= 2 THEN 13 ELSE 8) THEN With(Many({y \in Blocks(st) : y.k # "bad" \/ x = 3}, <<>>, RandomElement({1, 1, 2, 3, 5})), LAMBDA s : IF s = <<>> THEN {[k |-> "data", s |-> <<RandomElement(Datas(st))>>]} ELSE {[k |-> "blocks", s |-> s]})
  ELSE With(Many(IF x <= 16 THEN Datas(st) ELSE {y \in Datas(st) : y.k = "send"} \cup {y \in Datas(st) : y.k = "pause" /\ y.v = 0}, <<>>, RandomElement({1, 2, 3, 5, 9})), LAMBDA s : {[k |-> "data", s |-> s]})
Inv(st) ==
  /\ \A i \in Is(st) : st.i[i] = 0 => From(st, i) = {}
  /\ st.c.p = 1 => \A i \in Is(st) : Cardinality(From(st, i)) <= 1
  /\ \A i, j \in Is(st) : st.c.in[i] = st.c.in[j] /\ st.i[i] = 1 /\ st.i[j] = 1 => From(st, i) = From(st, j)
=============================================================================
