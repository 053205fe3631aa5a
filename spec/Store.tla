-------------------------------- MODULE Store -------------------------------
(* What is stored: deployments, their tasks and dashboards, named topics,      *)
(* secrets, connections and servers (streamtasks/pydanticdb.py and its users). *)
(* An entry is <<kind, id, content>>; the content of tasks and dashboards      *)
(* includes the deployment they belong to (10 * deployment + variant).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Kinds == {"dep", "task", "dash", "name", "sec", "con", "srv"}
Owned == {"task", "dash"}
Cfgs == { 0 }
Init0(cfg) == [ m |-> {}, top |-> {}, used |-> {} ]
Has(st, kind, id) == \E x \in st.m : x[1] = kind /\ x[2] = id
Val(st, kind, id) == (CHOOSE x \in st.m : x[1] = kind /\ x[2] = id)[3]
Without(m, kind, id) == {x \in m : ~(x[1] = kind /\ x[2] = id)}
With(m, kind, id, c) == Without(m, kind, id) \cup {<<kind, id, c>>}
\* the effect of one request on what is stored
Do(m, o) ==
  LET has == \E x \in m : x[1] = o.kind /\ x[2] = o.id IN
  CASE o.k = "new" -> IF has THEN m ELSE With(m, o.kind, o.id, o.c)
    [] o.k = "put" -> IF o.kind = "dep" /\ ~has THEN m ELSE With(m, o.kind, o.id, o.c)
    [] o.k = "del" -> Without(m, o.kind, o.id)
    [] o.k = "res" -> IF has THEN m ELSE With(m, "name", o.id, 1)        \* resolving creates the entry
    [] OTHER -> m
RECURSIVE DoAll(_, _)
DoAll(m, os) == IF os = <<>> THEN m ELSE DoAll(Do(m, Head(os)), Tail(os))
\* tasks and dashboards whose deployment does not exist (any more) do not count
Visible(m) == {x \in m : x[1] \in Owned => \E y \in m : y[1] = "dep" /\ y[2] = x[3] \div 10}
Apply(st, e) ==
  CASE e.k = "do" ->
         [st EXCEPT !.m = TLCEval(DoAll(@, e.os)),
                    !.used = @ \cup {e.os[i].id : i \in {j \in 1..Len(e.os) : e.os[j].k = "new" /\ e.os[j].kind = "dep"}},
                    !.top = IF "obs" \in DOMAIN e THEN @ \cup {<<e.os[i].id, e.obs[i].t>> : i \in {j \in 1..Len(e.os) : e.os[j].k = "res"}} ELSE @]
    [] e.k = "restart" -> [st EXCEPT !.top = {}]
    [] e.k = "die" ->
         LET old == st.m new == Do(st.m, e.o) IN
         [st EXCEPT !.top = {}, !.used = IF e.o.k = "new" THEN @ \cup {e.o.id} ELSE @,
                    !.m = IF "obs" \notin DOMAIN e THEN (IF e.n > 3 THEN new ELSE old) ELSE IF ToSet(e.obs.dump) = Visible(old) /\ ~e.obs.acked THEN old ELSE new]
    [] OTHER -> st

Ids(kind) == CASE kind = "dep" -> 1..4 [] kind = "task" -> 1..5 [] kind = "dash" -> 1..3 [] kind = "name" -> 1..8 [] kind = "sec" -> 1..4 [] kind = "con" -> 1..4 [] OTHER -> 1..2
R(S) == RandomElement(S)
Deps(st) == {x[2] : x \in {y \in st.m : y[1] = "dep"}}
ContentOf(st, kind, v, d) == IF kind \in Owned THEN 10 * d + v ELSE v
O(k, kind, id, c) == [k |-> k, kind |-> kind, id |-> id, c |-> c]
GenOne(st, r, kind, v, x) ==
  LET D == Deps(st) IN
  IF kind \in Owned /\ D = {} THEN O("list", "dep", 0, 0)
  ELSE LET id == R(Ids(kind)) d == IF D = {} THEN 0 ELSE R(D) c == ContentOf(st, kind, v, d) IN
  IF r <= 5 THEN (CASE kind = "dep" -> (IF x <= 2 \/ id \in D THEN (IF id \in D \/ id \notin st.used THEN O(IF x <= 3 THEN "new" ELSE "put", kind, id, c) ELSE O("get", kind, id, 0)) ELSE IF id \in st.used THEN O("put", kind, id, c) ELSE O("new", kind, id, c))
                    [] kind \in {"con", "srv"} -> O("new", kind, id, 1)
                    [] OTHER -> O("put", kind, id, c))
  ELSE IF r = 6 THEN O("del", kind, id, 0)
  ELSE IF r = 7 THEN (IF kind = "name" THEN O("res", kind, id, 0) ELSE O("bad", kind, id, v))
  ELSE IF r = 8 THEN O("list", kind, IF kind \in Owned THEN d ELSE 0, 0)
  ELSE IF kind \in {"task", "con", "srv"} THEN O("list", kind, IF kind \in Owned THEN d ELSE 0, 0) ELSE IF kind = "name" /\ x = 1 THEN O("res", kind, id, 0) ELSE O("get", kind, id, 0)
\* several at once: only requests that do not depend on each other
Indep(os) == \A i, j \in 1..Len(os) : i # j => /\ <<os[i].kind, os[i].id>> # <<os[j].kind, os[j].id>>
                                               /\ os[i].k = "list" => os[j].kind # os[i].kind
                                               /\ os[i].kind \in Owned => os[j].kind # "dep" \/ os[j].k \in {"get", "list", "bad"}
GenKind(st) == R({"dep", "task", "task", "dash", "name", "sec", "con", "srv"})
GenMut(st, kind, x) == LET o == GenOne(st, IF x <= 3 THEN R(1..5) ELSE IF x = 4 THEN 6 ELSE IF kind = "name" THEN 7 ELSE 6, kind, R(1..7), R(1..4)) IN o
GenOps(st) ==
  LET r == R(1..20) IN
  IF r = 1 THEN { [k |-> "restart", how |-> R({"stop", "kill"})] }
  ELSE IF r <= 3 THEN LET o == GenMut(st, R({"dep", "task", "dash", "name", "sec"}), R(1..6)) IN
       (IF o.k \in {"new", "put", "del", "res"} THEN { [k |-> "die", o |-> o, n |-> R(1..9)] } ELSE { [k |-> "do", os |-> <<o>>] })
  ELSE IF r <= 14 \/ st.m = {} THEN { [k |-> "do", os |-> <<GenOne(st, R(1..10), GenKind(st), R(1..7), R(1..4))>>] }
  ELSE LET os == <<GenOne(st, R(1..10), GenKind(st), R(1..7), R(1..4)), GenOne(st, R(1..10), GenKind(st), R(1..7), R(1..4)), GenOne(st, R(1..10), GenKind(st), R(1..7), R(1..4))>> IN
       IF Indep(os) THEN { [k |-> "do", os |-> os] } ELSE { [k |-> "do", os |-> <<os[1]>>] }
\* for model checking
Ops(st) == { [k |-> "do", os |-> <<O(k, kd, 1, 11)>>] : k \in {"new", "put", "del", "res"}, kd \in {"dep", "task", "name", "sec"} }
  \cup { [k |-> "die", o |-> O(k, kd, 1, 12), n |-> n] : k \in {"put", "del"}, kd \in {"task", "name"}, n \in {1, 5} } \cup { [k |-> "restart", how |-> "stop"] }
Inv(st) == /\ \A x, y \in st.m : x[1] = y[1] /\ x[2] = y[2] => x = y
           /\ \A k \in {"new", "put", "del"}, kd \in Kinds : LET o == O(k, kd, 1, 13) IN
                /\ Without(Do(st.m, o), kd, 1) = Without(st.m, kd, 1)           \* one entry at a time
                /\ Do(Do(st.m, o), o) = Do(st.m, o)                             \* once is as good as twice

C(b, name) == IF b THEN {} ELSE {name}
P(kind) == CASE kind \in {"name", "sec"} -> "S04" [] OTHER -> "S02"
Listed(st, o) == CASE o.kind \in Owned -> {<<x[2], x[3]>> : x \in {y \in st.m : y[1] = o.kind /\ y[3] \div 10 = o.id}} [] OTHER -> {<<x[2], x[3]>> : x \in {y \in st.m : y[1] = o.kind}}
One(st, o, b) ==
  LET has == Has(st, o.kind, o.id) IN
  CASE o.k = "bad" -> C(b.s = "refused", P(o.kind) \o "_invalid")
    [] o.k = "new" -> C(IF has THEN b.s = "refused" ELSE b.s = "ok", P(o.kind) \o "_create")
    [] o.k = "put" -> C(IF o.kind = "dep" /\ ~has THEN b.s \in {"refused", "missing"} ELSE b.s = "ok", P(o.kind) \o "_put")
    [] o.k = "del" -> C(IF has THEN b.s = "ok" ELSE b.s # "error", P(o.kind) \o "_delete")
    [] o.k = "res" -> C(b.s = "ok" /\ (\A x \in st.top : (x[1] = o.id) = (x[2] = b.t)), "S04_resolve")
    [] o.k = "get" -> IF has THEN C(b.s = "ok" /\ b.v = <<<<o.id, Val(st, o.kind, o.id)>>>>, P(o.kind) \o "_get")
                      ELSE C(b.s = "missing" \/ (o.kind \notin {"name", "sec"} /\ b.s = "refused"), P(o.kind) \o "_missing")
    [] o.k = "list" -> IF o.kind \in Owned /\ o.id \notin Deps(st) THEN {} ELSE C(b.s = "ok" /\ ToSet(b.v) = Listed(st, o) /\ Len(b.v) = Cardinality(ToSet(b.v)), P(o.kind) \o "_list")
    [] OTHER -> {}
ByKind(d, kd) == {x \in d : x[1] = kd}
Check(st, e) ==
  CASE e.k = "opfail" -> {"S02_op", "S03_op", "S04_op"}
    [] e.k = "do" -> UNION { One(st, e.os[i], e.obs[i]) : i \in 1..Len(e.os) }
    [] e.k = "restart" -> C(e.obs.up, "S02_start") \cup (IF ~e.obs.up THEN {} ELSE C(ToSet(e.obs.dump) = Visible(st.m), "S02_restart") \cup C(Len(e.obs.dump) = Cardinality(ToSet(e.obs.dump)), "S02_once"))
    [] e.k = "die" ->
         C(e.obs.up, "S03_start")
         \cup (IF ~e.obs.up THEN {} ELSE C(ToSet(e.obs.dump) \in {Visible(st.m), Visible(Do(st.m, e.o))}, "S03_torn")
               \cup C(e.obs.acked => ToSet(e.obs.dump) = Visible(Do(st.m, e.o)), "S02_acknowledged"))
    [] OTHER -> {}
=============================================================================
