---------------------------------- MODULE Fn ----------------------------------
(* Tasks built from plain functions (streamtasks/system/fntask.py): the        *)
(* function is called once for every message of an input, with the current     *)
(* values of all of them, once each has one; what it returns is published.     *)
(* Two tasks of one function; a message is [i (input), m (kind), t, v].        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
S == 1..2
Cfgs == 1..8
\* what the functions look like
Fns == <<
  [ins |-> <<"number", "number">>, outs |-> <<"number">>, ts |-> FALSE, cfg |-> FALSE, state |-> FALSE, slow |-> FALSE, io |-> 0],
  [ins |-> <<"number", "text", "">>, outs |-> <<"number", "text">>, ts |-> TRUE, cfg |-> FALSE, state |-> FALSE, slow |-> FALSE, io |-> 0],
  [ins |-> <<"number", "text">>, outs |-> <<"text", "">>, ts |-> TRUE, cfg |-> TRUE, state |-> TRUE, slow |-> TRUE, io |-> 0],
  [ins |-> <<"">>, outs |-> <<"">>, ts |-> FALSE, cfg |-> FALSE, state |-> TRUE, slow |-> FALSE, io |-> 0],
  [ins |-> <<"number", "number">>, outs |-> <<>>, ts |-> FALSE, cfg |-> TRUE, state |-> FALSE, slow |-> FALSE, io |-> 0],
  [ins |-> <<"video">>, outs |-> <<>>, ts |-> TRUE, cfg |-> TRUE, state |-> TRUE, slow |-> FALSE, io |-> 3],
  [ins |-> <<"number", "number">>, outs |-> <<"number", "number">>, ts |-> FALSE, cfg |-> TRUE, state |-> TRUE, slow |-> FALSE, io |-> 0],
  [ins |-> <<"text", "number", "number">>, outs |-> <<"number">>, ts |-> FALSE, cfg |-> FALSE, state |-> TRUE, slow |-> TRUE, io |-> 0] >>
Off == [on |-> "none", sync |-> FALSE, x |-> 0, q |-> <<>>, h |-> <<>>, ts |-> <<>>, rel |-> {}, run |-> 0, cur |-> <<>>, n |-> 0, calls |-> <<>>, outs |-> <<>>]
Init0(cfg) == [ f |-> Fns[cfg], s |-> [k \in S |-> {Off}], v |-> 0 ]
None == [m |-> "none", t |-> 0, v |-> 0]
Fresh(f, x, sync) == LET n == Len(f.ins) IN
  [on |-> "running", sync |-> sync, x |-> IF f.cfg THEN x ELSE 0, q |-> [i \in 1..n |-> <<>>], h |-> [i \in 1..n |-> None], ts |-> [i \in 1..n |-> -1],
   rel |-> {}, run |-> 0, cur |-> [i \in 1..n |-> 0], n |-> 0, calls |-> <<>>, outs |-> <<>>]
I(s) == 1..Len(s.q)
Low(s) == LET P == {s.ts[i] : i \in {j \in I(s) : s.ts[j] >= 0}} IN IF P = {} THEN 0 ELSE Min(P)
Rel(s) == [s EXCEPT !.rel = @ \cup {i \in I(s) : s.h[i].m \notin {"none", "run"} /\ (~s.sync \/ s.ts[i] <= Low(s))}]
\* the inputs read what has arrived until they hold something
RECURSIVE Read(_)
Read(s) ==
  LET R == {i \in I(s) : s.h[i].m = "none" /\ s.run # i /\ s.q[i] # <<>>} IN
  IF R = {} THEN s ELSE
  LET i == Min(R) m == Head(s.q[i])
      z == [s EXCEPT !.q[i] = Tail(@)]
      r == CASE m.m = "junk" -> z
             [] m.m = "pause" -> [z EXCEPT !.ts[i] = -1]
             [] m.m = "resume" -> [z EXCEPT !.ts[i] = IF @ >= 0 THEN @ ELSE Low(z)]
             [] s.sync /\ m.t < s.ts[i] -> z
             [] OTHER -> [z EXCEPT !.h[i] = m, !.ts[i] = m.t] IN
  With(Rel(r), LAMBDA y : Read(y))
Arrive(s, m) == With([s EXCEPT !.q[m.i] = Append(@, [m |-> m.m, t |-> m.t, v |-> m.v])], LAMBDA y : Read(y))
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s.cur)
Empty == -7
Raises(s) == Sum(s) % 17 = 0
\* publishes what the call returned
Done(f, s, t) ==
  LET w == Sum(s) * 100 + (IF f.state THEN s.n % 100 ELSE 0) + s.x * 100000
      Val(j) == IF Sum(s) % 7 = 0 /\ j = Len(f.outs) THEN Empty ELSE w + j * 1000000           \* also 0, the empty text, no bytes
      O == SelectSeq([j \in 1..Len(f.outs) |-> <<j, t, Val(j)>>], LAMBDA o : ~(o[1] = 1 /\ Sum(s) % 5 = 0)) IN      \* a value of the wrong type is not published
  IF Raises(s) THEN [s EXCEPT !.on = "failed", !.run = 0] ELSE [s EXCEPT !.outs = @ \o O, !.run = 0]
Exec(f, s, i) ==
  LET m == s.h[i] z == [s EXCEPT !.h[i] = None, !.rel = @ \ {i}] IN
  IF m.m = "bad" THEN Read(z) ELSE
  With([z EXCEPT !.cur[i] = m.v], LAMBDA y :
    IF \E j \in I(y) : y.cur[j] = 0 THEN Read(y)
    ELSE With([y EXCEPT !.n = @ + 1, !.calls = Append(@, [ts |-> IF f.ts THEN m.t ELSE -1, p |-> y.cur, n |-> IF f.state THEN y.n + 1 ELSE 0, x |-> y.x])], LAMBDA c :
         IF f.slow THEN [c EXCEPT !.run = i, !.h[i] = [m EXCEPT !.m = "run"]] ELSE With(Done(f, c, m.t), LAMBDA d : Read(d))))
Release(f, s) == LET i == s.run t == s.h[i].t IN With(Done(f, [s EXCEPT !.h[i] = None], t), LAMBDA d : Read(d))
RECURSIVE Reach(_, _, _)
Reach(f, s, A) ==
  IF s.on # "running" THEN {s} ELSE
  LET X == IF s.run # 0 THEN {} ELSE s.rel IN
  IF A = <<>> /\ X = {} THEN {s}
  ELSE (IF A = <<>> THEN {} ELSE With(Arrive(s, Head(A)), LAMBDA y : Reach(f, y, Tail(A)))) \cup UNION { With(Exec(f, s, i), LAMBDA y : Reach(f, y, A)) : i \in X }
Bad(st, e) == st.f.cfg /\ e.x < 0
\* each of the states a task may be in
Next1(st, e, s0) ==
  LET s == [s0 EXCEPT !.calls = <<>>, !.outs = <<>>] IN
  CASE e.k = "start" -> IF s.on = "running" THEN {s} ELSE IF Bad(st, e) THEN {[Off EXCEPT !.on = "failed"]} ELSE {Fresh(st.f, IF e.x = 0 THEN 3 ELSE e.x, e.sync)}
    [] e.k = "stop" -> IF s.on = "running" THEN {[s EXCEPT !.on = "stopped"]} ELSE {s}
    [] e.k = "send" -> Reach(st.f, s, e.ms)
    [] e.k = "rel" -> IF s.on = "running" /\ s.run # 0 THEN With(Release(st.f, s), LAMBDA y : Reach(st.f, y, <<>>)) ELSE {s}
    [] OTHER -> {s}
Nexts(st, e) == UNION { Next1(st, e, s) : s \in st.s[e.s] }
The(st, k) == CHOOSE s \in st.s[k] : TRUE
\* obs: calls, outs: what was called and published (of all tasks, with the task first); status; meta
Outs(s, j) == SelectSeq(s.outs, LAMBDA o : o[1] = j)
OCalls(o, k) == LET C == SelectSeq(o.calls, LAMBDA c : c.s = k) IN [i \in 1..Len(C) |-> [ts |-> C[i].ts, p |-> C[i].p, n |-> C[i].n, x |-> C[i].x]]
OOuts(o, k, j) == LET C == SelectSeq(o.outs, LAMBDA c : c[1] = k /\ c[2] = j) IN [i \in 1..Len(C) |-> <<C[i][2], C[i][3], C[i][4]>>]
MCalls(s, o, k) == OCalls(o, k) = s.calls
MOuts(st, s, o, k) == \A j \in 1..Len(st.f.outs) : OOuts(o, k, j) = Outs(s, j)
Busy(s) == IF s.on = "running" /\ s.run # 0 THEN 1 ELSE 0
Good(st, s, o, k) == MCalls(s, o, k) /\ MOuts(st, s, o, k) /\ o.status[k] = s.on /\ o.busy[k] = Busy(s)
Pick(st, e) == LET N == Nexts(st, e) G == IF "obs" \in DOMAIN e THEN {s \in N : Good(st, s, e.obs, e.s)} ELSE {} IN IF G # {} THEN G ELSE {CHOOSE s \in N : TRUE}
Apply(st, e) == IF e.k = "meta" THEN st ELSE [st EXCEPT !.s[e.s] = Pick(st, e), !.v = @ + 1]
C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"T03_op"} ELSE
  LET o == e.obs IN
  C(o.bad = <<>>, "T03_content") \cup
  IF e.k = "meta" THEN C(o.calls = <<>> /\ o.outs = <<>>, "T03_calls") \cup C(o.meta.ins = st.f.ins /\ o.meta.outs = st.f.outs, "T03_metadata")
     \cup C(o.meta.x = (IF st.f.cfg THEN 3 ELSE 0) /\ o.meta.io = st.f.io /\ o.meta.fields = ((IF st.f.cfg THEN <<"x">> ELSE <<>>) \o <<"std_synchronized">>), "T03_config")
  ELSE LET k == e.s N == Nexts(st, e) IN
  C(\E s \in N : MCalls(s, o, k), "T03_calls") \cup C(\E s \in N : MOuts(st, s, o, k), "T03_outputs") \cup C(\E s \in N : o.status[k] = s.on, "T03_status") \cup C(\E s \in N : o.busy[k] = Busy(s), "T03_one_at_a_time") \cup C(\E s \in N : Good(st, s, o, k), "T03_state")
  \cup UNION { C(OCalls(o, u) = <<>> /\ (\E s \in st.s[u] : o.status[u] = s.on /\ o.busy[u] = Busy(s)) /\ \A j \in 1..3 : OOuts(o, u, j) = <<>>, "T03_other_task") : u \in S \ {k} }
\* ---------------------------------------------------------------- operations
Ins(st) == 1..Len(st.f.ins)
LastT(s) == Max({0} \cup {s.ts[i] : i \in I(s)} \cup UNION {{s.q[i][j].t : j \in 1..Len(s.q[i])} : i \in I(s)})
Starts(st) == { [k |-> "start", s |-> k, x |-> x, sync |-> y] : k \in {u \in S : The(st, u).on # "running"}, x \in {-1, 0, 1, 2, 7}, y \in BOOLEAN }
Msg(i, m, t, v) == [i |-> i, m |-> m, t |-> t, v |-> v]
Sends(st, k) == IF The(st, k).on # "running" THEN {} ELSE
  { [k |-> "send", s |-> k, ms |-> <<Msg(i, "data", t, 2 * r + k - 1)>>] : i \in Ins(st), t \in {Max({0, LastT(The(st, k)) + d}) : d \in -2..3}, r \in 1..40 }
  \cup { [k |-> "send", s |-> k, ms |-> <<Msg(i, m, LastT(The(st, k)) + 1, 0)>>] : i \in Ins(st), m \in {"bad", "junk"} }
  \cup { [k |-> "send", s |-> k, ms |-> <<Msg(i, m, 0, 0)>>] : i \in {j \in Ins(st) : The(st, k).h[j].m = "none" /\ The(st, k).q[j] = <<>>}, m \in {"pause", "resume"} }
Rels(st) == { [k |-> "rel", s |-> k] : k \in {u \in S : The(st, u).on = "running" /\ The(st, u).run # 0} }
Stops(st) == { [k |-> "stop", s |-> k] : k \in {u \in S : The(st, u).on = "running"} }
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
Alive(st) == {u \in S : The(st, u).on = "running"}
RM(st, k, t) == Msg(RandomElement(Ins(st)), RandomElement({"data"} \cup (IF RandomElement(1..6) = 1 THEN {"bad"} ELSE {})), t, 2 * RandomElement(1..40) + k - 1)
Burst(st, k) == LET a == RandomElement(0..2) b == RandomElement(0..2) c == RandomElement(0..1) t == LastT(The(st, k)) + a IN
  [k |-> "send", s |-> k, ms |-> IF c = 0 THEN <<RM(st, k, t), RM(st, k, t + b)>> ELSE <<RM(st, k, t), RM(st, k, t + b), RM(st, k, t + b)>>]
Round(st, k) == LET t == LastT(The(st, k)) + RandomElement(0..2) IN [k |-> "send", s |-> k, ms |-> [i \in Ins(st) |-> Msg(i, "data", t, 2 * RandomElement(1..40) + k - 1)]]
GenOps(st) ==
  LET x == RandomElement(1..30) k == IF Alive(st) = {} THEN 0 ELSE RandomElement(Alive(st))
      X == CASE x = 1 -> {[k |-> "meta"]} [] x = 2 -> One(Stops(st)) [] x <= 6 -> One({e \in Starts(st) : e.x >= 0}) [] x = 7 -> One(Starts(st))
             [] k = 0 -> {} [] x <= 11 -> One(Rels(st)) [] x <= 15 -> {Burst(st, k)} [] x <= 18 -> {Round(st, k)} [] x <= 20 -> One({e \in Sends(st, k) : e.ms[1].m # "data"})
             [] OTHER -> One({e \in Sends(st, k) : e.ms[1].m = "data"}) IN
  IF X = {} THEN (IF k = 0 THEN One({e \in Starts(st) : e.x >= 0}) ELSE {Round(st, k)}) ELSE X
Ops(st) == { e \in Starts(st) : e.x \in {-1, 1} /\ e.s = 1 } \cup { e \in UNION {Sends(st, k) : k \in S} : e.ms[1].v \in {0, 5, 10, 17, 34} /\ e.ms[1].t <= 3 } \cup Rels(st) \cup Stops(st)
Inv(st) ==
  \A k \in S : \A s \in st.s[k] :
    s.on = "running" =>
      /\ (s.run = 0 => s.rel = {})                                  \* nothing that could be called is left
      /\ (s.run # 0 => st.f.slow /\ s.h[s.run].m = "run")
      /\ \A i \in I(s) : s.run # i /\ s.h[i].m # "none" => i \in s.rel \/ (s.sync /\ \E j \in I(s) : s.ts[j] >= 0 /\ s.ts[j] < s.ts[i])
      /\ (s.n > 0 => \A i \in I(s) : s.cur[i] # 0)
=============================================================================
