------------------------------- MODULE Disc ---------------------------------
(* The discovery service: ids, address names, topic spaces.  Which fresh ids   *)
(* it hands out is its choice (taken from the observation).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Cl == {1, 2, 3, 4}      \* 3 and 4 have no address at first
Names == {1, 2}
Ad == {1, 2, 3}
Cfgs == { 0, 1 }      \* 1: nothing is sent by name (an address may then be 0)
Init0(cfg) == [ cfg |-> cfg, has |-> {1, 2}, a |-> {}, t |-> {}, r |-> 0,
  map |-> [n \in Names |-> 0],
  cand |-> [c \in Cl |-> [n \in Names |-> {}]],      \* addresses the client may have kept for a name
  ctx |-> {},                                        \* <<id, c, n, a>> open name contexts
  wt |-> {},                                         \* <<id, c, n>> pending waits
  sp |-> <<>>, sids |-> <<>>,                        \* spaces: the translation as a set of pairs; {} after deletion
  ops |-> 0 ]
Got(e, id) == LET S == {i \in 1..Len(e.obs.got) : e.obs.got[i][1] = id} IN IF S = {} THEN <<>> ELSE e.obs.got[CHOOSE i \in S : TRUE][2]
HasObs(e) == "obs" \in DOMAIN e
\* ids given to the requests of e (made up when nothing was observed)
NewIds(st, e, ks) == IF HasObs(e) THEN UNION {Range(Got(e, x.id)) : x \in {y \in Range(e.rs) : y.kind \in ks}}
                     ELSE LET n == FoldSet(LAMBDA x, s : s + (IF x.n > 0 THEN x.n ELSE 0), 0, {y \in Range(e.rs) : y.kind \in ks}) IN
                          (Cardinality(IF ks = {"t"} THEN st.t ELSE st.a) + 1)..(Cardinality(IF ks = {"t"} THEN st.t ELSE st.a) + n)
Pairs(e) == {<<x[1], x[2]>> : x \in Range(e.obs.map)}
NewMap(st, e) == IF HasObs(e) THEN Pairs(e) ELSE LET s == SetToSortSeq(Range(e.ts), <) IN {<<s[i], Cardinality(st.t) + i>> : i \in 1..Len(s)}
SetMap(st, n, a) == [st EXCEPT !.map[n] = a,
                       !.cand = [c \in Cl |-> IF \E w \in st.wt : w[2] = c THEN [@[c] EXCEPT ![n] = @ \cup {a}] ELSE @[c]]]
Waited(st, n) == {w \in st.wt : w[3] = n}
Known(st, c, n) == st.cand[c][n] \cup {st.map[n]}
Register(st, n, a) == LET s1 == SetMap(st, n, a) IN [s1 EXCEPT !.wt = @ \ Waited(st, n)]
Learn(st, c, n, r) == IF r = 0 THEN st ELSE [st EXCEPT !.cand[c][n] = {r}]
Res(st, e) == IF ~HasObs(e) THEN st.map[e.n] ELSE IF e.k = "wait" THEN (IF e.obs.done = <<>> THEN 0 ELSE e.obs.done[1][2]) ELSE e.obs.addr

Apply0(st, e) ==
  CASE e.k = "ids" -> [st EXCEPT !.a = @ \cup NewIds(st, e, {"a", "own"}), !.t = @ \cup NewIds(st, e, {"t"}), !.r = @ + Len(e.rs),
                                 !.has = @ \cup {x.c : x \in {y \in Range(e.rs) : y.kind = "own"}}]
    [] e.k = "reg" -> IF e.ok = 1 THEN Register(st, e.n, e.a) ELSE st
    [] e.k = "enter" -> LET s1 == Register(st, e.n, e.a) IN [s1 EXCEPT !.ctx = @ \cup {<<e.id, e.c, e.n, e.a>>}, !.cand[e.c][e.n] = {e.a}, !.r = e.id]
    [] e.k = "exit" -> LET x == CHOOSE y \in st.ctx : y[1] = e.id IN [st EXCEPT !.ctx = @ \ {x}, !.map[x[3]] = 0, !.cand[x[2]][x[3]] = {}]
    [] e.k \in {"resolve", "send"} -> Learn(st, e.c, e.n, Res(st, e))
    [] e.k = "wait" -> IF Known(st, e.c, e.n) = {0} THEN [st EXCEPT !.wt = @ \cup {<<e.id, e.c, e.n>>}, !.r = e.id] ELSE [Learn(st, e.c, e.n, Res(st, e)) EXCEPT !.r = e.id]
    [] e.k = "create" -> [st EXCEPT !.sp = Append(@, NewMap(st, e)), !.sids = Append(@, IF HasObs(e) THEN e.obs.sid ELSE Len(@) + 1), !.t = @ \cup {p[2] : p \in NewMap(st, e)}]
    [] e.k = "delete" -> IF e.s <= Len(st.sp) THEN [st EXCEPT !.sp[e.s] = {}] ELSE st
    [] OTHER -> st
Apply(st, e) == [Apply0(st, e) EXCEPT !.ops = @ + 1]

RQ(st, i, kd, c, n) == [id |-> st.r + i, kind |-> kd, c |-> c, n |-> n]
TS == {<<>>, <<5>>, <<1, 2>>, <<0, 7, 100000>>, <<2, 1, 9, 4>>}
Ops(st) ==
  { [k |-> "ids", rs |-> <<RQ(st, 1, kd, c, n)>>] : kd \in {"a"}, c \in Cl, n \in {0, 1, 2, 5} }
  \cup { [k |-> "ids", rs |-> <<RQ(st, 1, kd, c, n)>>] : kd \in {"a", "t"}, c \in st.has, n \in {-1, 0, 1, 3} }
  \cup { [k |-> "ids", rs |-> <<RQ(st, 1, "own", c, 1)>>] : c \in Cl \ st.has }
  \cup { [k |-> "reg", c |-> c, n |-> n, a |-> a, ok |-> 1] : c \in st.has, n \in Names, a \in Ad }
  \cup { [k |-> "reg", c |-> c, n |-> n, a |-> a, ok |-> 0] : c \in st.has, n \in Names, a \in Ad }
  \cup { [k |-> "enter", id |-> st.r + 1, c |-> c, n |-> n, a |-> a] : c \in st.has, n \in Names, a \in Ad }
  \cup { [k |-> "exit", id |-> x[1]] : x \in st.ctx }
  \cup { [k |-> "resolve", c |-> c, n |-> n] : c \in st.has, n \in Names }
  \cup { [k |-> "send", c |-> c, n |-> n] : c \in st.has, n \in Names }
  \cup { [k |-> "wait", id |-> st.r + 1, c |-> c, n |-> n] : c \in st.has, n \in Names }
  \cup { [k |-> "create", c |-> c, ts |-> ts] : c \in st.has, ts \in TS }
  \cup { [k |-> o, c |-> c, s |-> s] : o \in {"space", "delete"}, c \in st.has, s \in 1..(Len(st.sp) + 1) }
  \cup { [k |-> "trans", c |-> c, s |-> s, t |-> t] : c \in st.has, s \in 1..(Len(st.sp) + 1), t \in {0, 1, 2, 5, 7} }
One(S) == {RandomElement(S)}
C2(st, kd) == IF kd = "a" THEN RandomElement(Cl) ELSE RandomElement(st.has)
Rnd(st, i) == LET kd == RandomElement({"a", "t"}) IN RQ(st, i, kd, RandomElement(st.has), IF RandomElement(1..10) = 1 THEN RandomElement({130, 300}) ELSE RandomElement({0, 1, 2, 3, 7}))
Kinds(g) == CASE g = "D01" -> {"ids", "ids", "create"} [] g = "D02" -> {"reg", "enter", "exit", "resolve", "send", "wait"} [] OTHER -> {"create", "space", "delete", "trans", "ids"}
Gen(st, ks) ==
  LET O == {o \in Ops(st) : o.k \in ks} k == RandomElement({o.k : o \in O}) IN
  IF k = "ids" /\ RandomElement(1..2) = 1 THEN (IF RandomElement(1..2) = 1 THEN { [k |-> "ids", rs |-> <<Rnd(st, 1), Rnd(st, 2)>>] } ELSE { [k |-> "ids", rs |-> <<Rnd(st, 1), RQ(st, 2, "a", RandomElement(Cl), RandomElement(0..3)), Rnd(st, 3), RQ(st, 4, "a", RandomElement(Cl), 2)>>] })
  ELSE IF k = "create" /\ RandomElement(1..12) = 1 THEN { [k |-> "create", c |-> RandomElement(st.has), ts |-> [i \in 1..150 |-> 3 * i]] }
  ELSE One({o \in O : o.k = k})
GenD01(st) == Gen(st, {"ids", "create"})
GenD02(st) == LET k == IF st.cfg = 1 THEN 1 ELSE 2 IN Gen(st, {"reg", "enter", "exit", "resolve", "wait"} \cup (IF k = 1 THEN {} ELSE {"send"}))
GenD03(st) == Gen(st, {"create", "space", "delete", "trans", "ids"})

Inv(st) ==
  /\ \A i, j \in 1..Len(st.sp) : i # j => {p[2] : p \in st.sp[i]} \cap {p[2] : p \in st.sp[j]} = {}
  /\ \A i \in 1..Len(st.sp) : {p[2] : p \in st.sp[i]} \subseteq st.t
  /\ \A w \in st.wt : st.map[w[3]] = 0 \/ w[3] \notin Names

C(b, name) == IF b THEN {} ELSE {name}
Total(S, f(_)) == FoldSet(LAMBDA x, s : s + f(x), 0, S)
\* obs: got <<id, ids>>, err <<id, why>>, addr, done <<id, addr>> (waits that ended), sid, map, tid, code
Check(st, e) ==
  IF e.k = "opfail" THEN {"D01_op", "D02_op", "D03_op"} ELSE
  LET o == e.obs IN
  C(e.k # "ids" \/ \A x \in Range(e.rs) : (x.n >= 0 => (\E g \in Range(o.got) : g[1] = x.id) /\ Len(Got(e, x.id)) = x.n /\ Cardinality(Range(Got(e, x.id))) = x.n)
                                          /\ (x.n < 0 => \E g \in Range(o.err) : g[1] = x.id), "D01_count")
  \cup C(e.k # "ids" \/ \A kd \in {{"a", "own"}, {"t"}} :
           LET R == {x \in Range(e.rs) : x.kind \in kd}
               N == UNION {Range(Got(e, x.id)) : x \in R} IN
           /\ N \cap (IF kd = {"t"} THEN st.t ELSE st.a) = {}
           /\ Cardinality(N) = Total(R, LAMBDA x : Len(Got(e, x.id)))
           /\ \A i \in N : i >= (IF kd = {"t"} THEN 100000 ELSE 10000), "D01_fresh")
  \cup C(e.k # "reg" \/ o.code = (IF e.ok = 1 THEN "ok" ELSE "bad_request"), "D02_register")
  \cup C(e.k \notin {"resolve", "send"} \/ o.addr \in Known(st, e.c, e.n), "D02_resolve")
  \cup C(IF e.k \in {"reg", "enter"} /\ ("ok" \notin DOMAIN e \/ e.ok = 1)
         THEN {x[1] : x \in Range(o.done)} = {w[1] : w \in Waited(st, e.n)} /\ \A x \in Range(o.done) : x[2] = e.a
         ELSE IF e.k = "wait" THEN (IF Known(st, e.c, e.n) = {0} THEN o.done = <<>> ELSE Len(o.done) = 1 /\ o.done[1][1] = e.id /\ o.done[1][2] \in Known(st, e.c, e.n) \ {0})
         ELSE o.done = <<>>, "D02_wait")
  \cup C(e.k # "create" \/ LET P == Pairs(e) IN
           /\ {p[1] : p \in P} = Range(e.ts) /\ Len(o.map) = Cardinality(Range(e.ts))
           /\ \A p, q \in P : p[1] # q[1] => p[2] # q[2]
           /\ {p[2] : p \in P} \cap st.t = {} /\ \A p \in P : p[2] >= 100000
           /\ o.sid \notin Range(st.sids), "D03_create")
  \cup C(e.k # "space" \/ IF e.s <= Len(st.sp) /\ (st.sp[e.s] # {} \/ (o.code = "ok" /\ o.map = <<>>)) THEN o.code = "ok" /\ Pairs(e) = st.sp[e.s] ELSE o.code = "not_found", "D03_lookup")
  \cup C(e.k # "trans" \/ IF e.s <= Len(st.sp) /\ \E p \in st.sp[e.s] : p[1] = e.t THEN o.code = "ok" /\ <<e.t, o.tid>> \in st.sp[e.s] ELSE o.code = "not_found", "D03_translate")
=============================================================================
