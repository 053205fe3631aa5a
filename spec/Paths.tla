------------------------------- MODULE Paths --------------------------------
(* Where the web interfaces (two of them) send requests: to applications whose *)
(* paths are registered, to task hosts and to tasks.  A path is the sequence   *)
(* of its segments: "/a/b" is <<"a", "b">>, "/a/" is <<"a", "">>.  The path     *)
(* "/a/" of a registration is <<"a">>.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
B == 1..2  H == 1..2  W == 1..3
Cfgs == {0}
Init0(cfg) == [ n |-> 0, regs |-> [b \in B |-> <<>>], hd |-> [w \in W |-> [up |-> 0, p |-> <<>>, eps |-> <<>>, inst |-> 0]], th |-> [h \in H |-> 0], tk |-> <<>> ]
(* hd.up  0 no, 1 yes, 2 waits for an interface which does not exist     th  instance of the task host, 0 if none *)
Name(w) == 10 + w                                    \* what a handler registers as
\* registering again replaces
Put(s, b, r) == [s EXCEPT !.regs[b] = Append(SelectSeq(@, LAMBDA x : x.id # r.id \/ x.p # r.p), r)]
Del(s, b, id) == [s EXCEPT !.regs[b] = SelectSeq(@, LAMBDA x : x.id # id)]
RECURSIVE PutAll(_, _, _)
PutAll(s, eps, r) == IF eps = <<>> \/ Head(eps) \notin B THEN s ELSE With(Put(s, Head(eps), r), LAMBDA z : PutAll(z, Tail(eps), r))
Over(x) == [x EXCEPT !.st = "over"]
Step(s, e) ==
  CASE e.k = "reg" -> Put(s, e.b, [id |-> e.id, p |-> e.p, who |-> {e.a}, fe |-> e.fe])
    [] e.k = "unreg" -> Del(s, e.b, e.id)
    [] e.k = "hstart" -> LET half == \E i \in 1..Len(e.eps) : e.eps[i] \notin B IN
         PutAll([s EXCEPT !.n = @ + 1, !.hd[e.w] = [up |-> IF half THEN 2 ELSE 1, p |-> e.p, eps |-> e.eps, inst |-> s.n + 1]], e.eps, [id |-> Name(e.w), p |-> e.p, who |-> {100 + s.n + 1}, fe |-> e.fe])
    [] e.k = "hend" -> Del(Del([s EXCEPT !.hd[e.w].up = 0], 1, IF 1 \in Range(s.hd[e.w].eps) THEN Name(e.w) ELSE 0), 2, IF 2 \in Range(s.hd[e.w].eps) THEN Name(e.w) ELSE 0)
    [] e.k = "tup" -> [s EXCEPT !.n = @ + 1, !.th[e.h] = s.n + 1]
    [] e.k = "tdown" -> [s EXCEPT !.th[e.h] = 0, !.tk = [i \in 1..Len(@) |-> IF @[i].h = e.h THEN Over(@[i]) ELSE @[i]]]
    [] e.k = "tstart" -> [s EXCEPT !.tk = Append(@, [h |-> e.h, v |-> e.v, st |-> "run"])]
    [] e.k = "tend" -> [s EXCEPT !.tk[e.t] = Over(@)]
    [] OTHER -> s
\* registered twice at once: either may have been the last
Either(s, a, b) ==
  IF a.k # "reg" \/ b.k # "reg" THEN s ELSE IF <<a.b, a.id, a.p>> # <<b.b, b.id, b.p>> THEN s
  ELSE [s EXCEPT !.regs[a.b] = [i \in 1..Len(@) |-> IF @[i].id = a.id /\ @[i].p = a.p THEN [@[i] EXCEPT !.who = {a.a, b.a}] ELSE @[i]]]
Two(s, a, b) == With(With(Step(s, a), LAMBDA z : Step(z, b)), LAMBDA z : Either(z, a, b))
Orders(st, e) == IF e.k = "burst" THEN {Two(st, e.a, e.b), Two(st, e.b, e.a)} ELSE {Step(st, e)}
\* ------------------------------------------------------------- who answers
IsPre(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
From(q, i) == SubSeq(q, i, Len(q))
Best(R, q) == LET M == {r \in R : IsPre(r.p, q)} IN {r \in M : \A x \in M : Len(x.p) <= Len(r.p)}
Half(s) == {100 + s.hd[w].inst : w \in {y \in W : s.hd[y].up = 2}}
TaskNo(x) == CASE x = "T1" -> 1 [] x = "T2" -> 2 [] x = "T3" -> 3 [] x = "T4" -> 4 [] OTHER -> 9
HostNo(x) == CASE x = "H1" -> 1 [] x = "H2" -> 2 [] OTHER -> 9
None == <<"missing", 0, <<>>>>
File == <<"f">>
\* the possible answers <<what, who, path seen>>
Answers(s, q) ==
  LET p == q.p IN
  CASE p = <<"api", "deployments">> -> {<<"api", 0, <<>>>>}
    [] Len(p) >= 3 /\ p[1] = "task-host" -> LET h == HostNo(p[2]) IN
         {IF h \notin H THEN None ELSE IF s.th[h] = 0 THEN None ELSE IF From(p, 3) = File THEN <<"file", 100 * h, <<>>>> ELSE <<"host", s.th[h], From(p, 3)>>}
    [] Len(p) >= 3 /\ p[1] = "task" -> LET t == TaskNo(p[2]) IN
         IF t = 9 THEN {None, <<"status 400", 0, <<>>>>} ELSE        \* not even an id
         {IF t > Len(s.tk) THEN None ELSE LET x == s.tk[t] IN IF x.st # "run" THEN None
          ELSE IF From(p, 3) = File /\ x.v # 1 THEN <<"file", t, <<>>>> ELSE IF x.v # 2 THEN <<"task", t, From(p, 3)>> ELSE None}
    [] OTHER -> LET R == Best(Range(s.regs[q.b]), p) IN IF R = {} THEN {None} \cup IF p = <<"">> THEN {<<"other", 0, <<>>>>} ELSE {} ELSE UNION {{<<"app", w, From(p, Len(r.p) + 1)>> : w \in r.who} : r \in R}
Free(s, q) == \E x \in Answers(s, q) : x[1] = "app" /\ x[2] \in Half(s)        \* nobody to answer yet
\* obs: list <<interface, id, path, frontend>> of all registrations, ans <<what, who, path>> per request, resp of a request to register
Listing(s) == UNION {{<<b, r.id, r.p, r.fe>> : r \in Range(s.regs[b])} : b \in B}
MList(s, o) == {<<x[1], x[2], x[3], x[4]>> : x \in Range(o.list)} = Listing(s) /\ Len(o.list) = Cardinality(Listing(s))
Apply(st, e) == IF "obs" \in DOMAIN e THEN LET S == Orders(st, e) G == {s \in S : MList(s, e.obs)} IN IF G # {} THEN CHOOSE s \in G : TRUE ELSE CHOOSE s \in S : TRUE
                ELSE IF e.k = "burst" THEN Two(st, e.a, e.b) ELSE Step(st, e)
C(b, name) == IF b THEN {} ELSE {name}
Ans(st, e) == UNION { LET q == e.qs[i] a == e.obs.ans[i] IN C(Free(st, q) \/ <<a[1], a[2], a[3]>> \in Answers(st, q), "W03_answer") : i \in 1..Len(e.qs) }
Check(st, e) ==
  IF e.k = "opfail" THEN {"W03_op"} ELSE
  LET o == e.obs S == Orders(st, e) IN
  C(\E s \in S : MList(s, o), "W03_listing")
  \cup (IF e.k = "req" THEN Ans(st, e) ELSE {})
  \cup C(e.k \in {"reg", "bad"} => o.resp = (IF e.k = "reg" THEN "ok" ELSE "refused"), "W03_response")
\* ---------------------------------------------------------------- operations
Ps == { <<>>, <<"a">>, <<"a", "b">>, <<"ab">>, <<"a", "b", "c">>, <<"api">>, <<"task">>, <<"task-host">>, <<"a", "a">> }
Tails == { <<"">>, <<"x">>, <<"b">>, <<"b", "">>, <<"a", "b", "c">>, <<"c", "x">>, <<"f">>, <<"x", "y", "">> }
Fronts == 0..3
EpLists == { <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 9>>, <<9, 1>> }
Regs == { [k |-> "reg", b |-> b, id |-> id, a |-> a, p |-> p, fe |-> f] : b \in B, id \in 1..3, a \in 1..4, p \in Ps, f \in Fronts }
Unregs(st) == { [k |-> "unreg", b |-> b, id |-> id] : b \in B, id \in 1..3 }
HOps(st) == { [k |-> "hstart", w |-> w, p |-> p, eps |-> es, fe |-> f] : w \in {y \in W : st.hd[y].up = 0}, p \in Ps, es \in EpLists, f \in Fronts }
HEnds(st) == UNION { { [k |-> "hend", w |-> w, how |-> x] : x \in IF st.hd[w].up = 2 THEN {"cancel"} ELSE {"cancel", "end", "raise"} } : w \in {y \in W : st.hd[y].up # 0} }
TOps(st) == { [k |-> "tup", h |-> h] : h \in {y \in H : st.th[y] = 0} } \cup { [k |-> "tdown", h |-> h] : h \in {y \in H : st.th[y] # 0} }
  \cup IF Len(st.tk) >= 4 THEN {} ELSE { [k |-> "tstart", h |-> h, v |-> v] : h \in {y \in H : st.th[y] # 0}, v \in 1..3 }
TEnds(st) == { [k |-> "tend", t |-> t, how |-> x] : t \in {y \in 1..Len(st.tk) : st.tk[y].st = "run"}, x \in {"cancel", "end", "raise"} }
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RReg(st) == [k |-> "reg", b |-> RandomElement(B), id |-> RandomElement(1..3), a |-> RandomElement(1..4), p |-> RandomElement(Ps), fe |-> RandomElement(Fronts)]
RPath(st, x) ==
  LET K == {r.p : r \in UNION {Range(st.regs[b]) : b \in B}} IN
  CASE x <= 6 /\ K # {} -> RandomElement(K) \o RandomElement(Tails)
    [] x = 7 -> <<"task-host", RandomElement({"H1", "H2", "H9"})>> \o RandomElement(Tails)
    [] x \in {8, 9} -> <<"task", RandomElement({"T1", "T2", "T3", "T4", "T9"})>> \o RandomElement(Tails)
    [] x = 10 /\ K # {} -> (LET p == RandomElement(K) IN IF p = <<>> THEN <<"">> ELSE p)
    [] x = 11 -> <<"api", "deployments">>
    [] OTHER -> RandomElement(Ps) \o RandomElement(Tails)
RQ(st) == [b |-> RandomElement(B), p |-> RPath(st, RandomElement(1..12))]
RBurst(st, x) ==
  LET r == RReg(st) IN
  CASE x = 1 -> {[k |-> "burst", a |-> r, b |-> [r EXCEPT !.a = RandomElement(1..4), !.fe = RandomElement(Fronts)]]}
    [] x = 2 -> {[k |-> "burst", a |-> r, b |-> RReg(st)]}
    [] x = 3 -> {[k |-> "burst", a |-> r, b |-> [k |-> "unreg", b |-> r.b, id |-> r.id]]}
    [] x = 4 -> {[k |-> "burst", a |-> r, b |-> y] : y \in One(HEnds(st))}
    [] OTHER -> {[k |-> "burst", a |-> y, b |-> RandomElement(Unregs(st))] : y \in One({z \in HOps(st) : 9 \notin Range(z.eps)})}
GenOps(st) ==
  LET x == RandomElement(1..24)
      S == CASE x <= 4 -> {RReg(st)} [] x = 5 -> One(Unregs(st)) [] x <= 7 -> One(HOps(st)) [] x = 8 -> One(HEnds(st)) [] x <= 10 -> One(TOps(st)) [] x = 11 -> One(TEnds(st))
             [] x = 12 -> {[k |-> "bad", b |-> RandomElement(B), x |-> RandomElement(1..9)]} [] x <= 15 -> RBurst(st, RandomElement(1..5)) [] OTHER -> {} IN
  IF S = {} THEN {[k |-> "req", qs |-> <<RQ(st), RQ(st), RQ(st)>>]} ELSE S
Reqs(st) == {[k |-> "req", qs |-> <<[b |-> 1, p |-> <<"a", "b", "x">>]>>]}
Ops(st) == {r \in Regs : r.a <= 2 /\ r.p \in {<<>>, <<"a">>, <<"a", "b">>} /\ r.fe = 0 /\ r.id <= 2} \cup Unregs(st)
  \cup {x \in HOps(st) : x.w <= 1 /\ x.p \in {<<"a">>} /\ x.fe = 0 /\ x.eps # <<2>>} \cup HEnds(st) \cup {x \in TOps(st) : x.h = 1 /\ (x.k = "tstart" => x.v = 3)} \cup TEnds(st)
Inv(st) ==
  /\ \A b \in B : \A i, j \in 1..Len(st.regs[b]) : i # j => st.regs[b][i].id # st.regs[b][j].id \/ st.regs[b][i].p # st.regs[b][j].p
  /\ \A b \in B : \A i \in 1..Len(st.regs[b]) : LET r == st.regs[b][i] IN r.id > 10 => st.hd[r.id - 10].up # 0 /\ st.hd[r.id - 10].p = r.p /\ b \in Range(st.hd[r.id - 10].eps) /\ r.who = {100 + st.hd[r.id - 10].inst}
  /\ \A i \in 1..Len(st.tk) : st.tk[i].st = "run" => st.th[st.tk[i].h] # 0
=============================================================================
