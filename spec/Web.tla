-------------------------------- MODULE Web ---------------------------------
(* Routing of web requests (streamtasks/asgiserver.py): an application with a *)
(* router (0), in which another router (1) may be nested.  Paths and patterns *)
(* are sequences of pieces; a parameter is written "{x}" (within a segment)   *)
(* or "{x*}" (anything).                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Par1 == {"{x}", "{y}", "{}"}  ParN == {"{z*}", "{w*}", "{*}"}
Name(p) == CASE p = "{x}" -> "x" [] p = "{y}" -> "y" [] p = "{z*}" -> "z" [] p = "{w*}" -> "w" [] OTHER -> ""
Cfgs == { [err |-> b] : b \in BOOLEAN }
Init0(cfg) == [ err |-> cfg.err, main |-> <<>>, sub |-> <<>>, mnt |-> <<>>, n |-> 0 ]      \* mnt: the router behind a mount point

\* every way in which the pattern matches the whole path: sequences of <<name, value>>
RECURSIVE Match(_, _)
Match(pat, path) ==
  IF pat = <<>> THEN (IF path = <<>> THEN {<<>>} ELSE {})
  ELSE LET p == Head(pat) IN
    IF p \in Par1 \cup ParN
    THEN UNION { LET v == SubSeq(path, 1, k) IN
                 IF p \in Par1 /\ "/" \in Range(v) THEN {}
                 ELSE { (IF Name(p) = "" THEN <<>> ELSE <<<<Name(p), v>>>>) \o m : m \in Match(Tail(pat), SubSeq(path, k + 1, Len(path))) } : k \in 0..Len(path) }
    ELSE IF path # <<>> /\ Head(path) = p THEN Match(Tail(pat), Tail(path)) ELSE {}
\* a trailing slash of a pattern does not count, except for the root
RECURSIVE Strip(_)
Strip(p) == IF Len(p) > 1 /\ p[Len(p)] = "/" THEN Strip(SubSeq(p, 1, Len(p) - 1)) ELSE p
\* the routes in the order in which they are asked
Flat(st) == FlattenSeq([i \in 1..Len(st.main) |-> IF st.main[i].kind = "sub" THEN st.sub ELSE <<st.main[i]>>])
Takes(r, q) == /\ CASE r.kind = "http" -> q.type = "http" /\ q.m \in Range(r.ms) [] r.kind = "ws" -> q.type = "ws" [] OTHER -> TRUE
               /\ Match(Strip(r.pat), q.path) # {}
First(F, q) == LET S == {i \in 1..Len(F) : Takes(F[i], q)} IN IF S = {} THEN [id |-> 0, kind |-> ""] ELSE F[Min(S)]
\* what is asked behind a mount point: the rest of the path
Behind(r, q) == LET m == CHOOSE x \in Match(Strip(r.pat), q.path) : TRUE z == CHOOSE i \in 1..Len(m) : m[i][1] = "z" IN [q EXCEPT !.path = <<"/">> \o m[z][2]]
Asked(st, q) == LET r == First(Flat(st), q) IN IF r.kind = "mount" THEN Behind(r, q) ELSE q
Chosen(st, q) == LET r == First(Flat(st), q) IN IF r.kind = "mount" THEN First(st.mnt, Behind(r, q)) ELSE r
Status(st, q, r) ==
  CASE r.id = 0 \/ r.beh = "next" -> 404
    [] r.beh \in {"ok", "rewrite"} -> 200
    [] ~st.err \/ q.type = "ws" -> 500
    [] r.beh = "value" -> 400
    [] r.beh = "key" -> 404
    [] OTHER -> 500

Apply(st, e) ==
  CASE e.k = "add" -> LET r == [id |-> st.n + 1, kind |-> e.kind, ms |-> e.ms, pat |-> e.pat, beh |-> e.beh] IN
                      IF e.r = 0 THEN [st EXCEPT !.n = @ + 1, !.main = Append(@, r)] ELSE IF e.r = 2 THEN [st EXCEPT !.n = @ + 1, !.mnt = Append(@, r)] ELSE [st EXCEPT !.n = @ + 1, !.sub = Append(@, r)]
    [] e.k = "nest" -> [st EXCEPT !.main = Append(@, [id |-> 0, kind |-> "sub"])]
    [] e.k = "mount" -> [st EXCEPT !.main = Append(@, [id |-> -1, kind |-> "mount", ms |-> <<>>, pat |-> e.pat, beh |-> ""])]
    [] OTHER -> st

Segs == { <<"a">>, <<"b">>, <<"a", "b">>, <<"{x}">>, <<"{x}", ".", "b">>, <<"a", "{y}">>, <<"{z*}">>, <<"{w*}", "/", "b">>, <<"{}">>, <<"{*}">>, <<"a">>, <<>> }
Uniq(p) == \A i, j \in 1..Len(p) : i # j /\ Name(p[i]) # "" => Name(p[i]) # Name(p[j])
Pat(a, b, c, n) == LET p == CASE n = 0 -> <<"/">> [] n = 1 -> <<"/">> \o a [] n = 2 -> <<"/">> \o a \o <<"/">> \o b [] OTHER -> <<"/">> \o a \o <<"/">> \o b \o <<"/">> \o c IN IF Uniq(p) THEN p ELSE <<"/">> \o a
\* a rewrite refers to the parameter z
Behs == {"ok", "next", "value", "key", "boom"}
MethSets == { <<"GET">>, <<"POST">>, <<"GET", "PUT">>, <<"PUT">>, <<"HEAD">>, <<"OPTIONS", "GET">> }
Nested(st) == \E i \in 1..Len(st.main) : st.main[i].kind = "sub"
Mounted(st) == \E i \in 1..Len(st.main) : st.main[i].kind = "mount"
MountPats == { <<"/", "m", "/", "{z*}">>, <<"/", "{x}", "/", "{z*}">>, <<"/", "a", "{z*}">>, <<"/", "b", "/", "{y}", "/", "{z*}">>, <<"/", "{z*}">> }
RB(st) == RandomElement(1..10)
One(rr, kind, ms, a, b, c, n, x) ==
  LET p == Pat(a, b, c, n) IN
  [k |-> "add", r |-> rr, kind |-> kind, ms |-> ms, pat |-> IF x = 10 THEN p \o <<"/">> ELSE p,
   beh |-> IF x <= 5 THEN (IF "{z*}" \in Range(p) /\ x <= 2 THEN "rewrite" ELSE "ok") ELSE IF x = 6 THEN "next" ELSE IF x = 7 THEN "value" ELSE IF x = 8 THEN "key" ELSE IF x = 9 THEN "boom" ELSE "ok"]
GenAdd(st) == One(RandomElement({0} \cup (IF Nested(st) THEN {1} ELSE {}) \cup (IF Mounted(st) THEN {2} ELSE {})), RandomElement({"http", "any", "ws", "http"}), RandomElement(MethSets), RandomElement(Segs), RandomElement(Segs), RandomElement(Segs), RandomElement(0..3), RB(st))
Vals == { <<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"a", ".", "b">>, <<"b", "/", "b">>, <<"a", "/">>, <<"/">>, <<"a", "/", "b", "/", "a">>, <<"c">> }
RECURSIVE Inst(_)
Inst(p) == IF p = <<>> THEN <<>> ELSE (IF Head(p) \in Par1 \cup ParN THEN RandomElement(Vals) ELSE <<Head(p)>>) \o Inst(Tail(p))
Tweak(p, x, c) == CASE x = 1 -> Append(p, c) [] x = 2 -> SubSeq(p, 1, Len(p) - 1) [] x = 3 -> <<"/", c>> \o p [] x = 4 -> p \o <<"/", c>> [] x = 5 -> Append(p, "/") [] OTHER -> p
GenPath(st) ==
  LET F == Flat(st) IN
  IF F = <<>> THEN <<"/", "a">> ELSE LET i == RandomElement(1..Len(F)) j == IF st.mnt = <<>> THEN 0 ELSE RandomElement(0..Len(st.mnt)) IN
  LET q == IF F[i].kind = "mount" /\ j > 0 THEN Inst(SubSeq(F[i].pat, 1, Len(F[i].pat) - 1)) \o Tail(Inst(Strip(st.mnt[j].pat))) ELSE Inst(Strip(F[i].pat)) IN
  LET x == RandomElement(1..12) c == RandomElement({"a", "b", ".", "c"}) IN LET t == Tweak(q, x, c) IN IF t = <<>> THEN <<"/">> ELSE t
Q(t, m, p) == [type |-> t, m |-> m, path |-> p]
GenReq(st) == Q(RandomElement({"http", "http", "ws"}), RandomElement({"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"}), GenPath(st))
GenOps(st) ==
  LET r == RandomElement(1..10) IN
  IF st.n < 3 \/ (st.n < 12 /\ r <= 3) THEN { GenAdd(st) }
  ELSE IF r = 4 /\ ~Nested(st) THEN { [k |-> "nest"] }
  ELSE IF r = 5 /\ Len(st.main) < 9 THEN { [k |-> "mount", pat |-> RandomElement(MountPats)] }
  ELSE IF r <= 7 THEN { [k |-> "req", qs |-> <<GenReq(st)>>] } ELSE { [k |-> "req", qs |-> <<GenReq(st), GenReq(st), GenReq(st)>>] }
\* for model checking
MPats == { <<"/">>, <<"/", "a">>, <<"/", "{x}">>, <<"/", "{z*}">>, <<"/", "{x}", "b">>, <<"/", "a", "/", "{x}", "/", "b">> }
Ops(st) == { [k |-> "add", r |-> r, kind |-> kd, ms |-> <<"GET">>, pat |-> p, beh |-> b] : r \in {0} \cup IF Nested(st) THEN {1} ELSE {}, kd \in {"http", "any", "ws"}, p \in MPats, b \in {"ok", "boom"} }
  \cup IF Nested(st) THEN {} ELSE { [k |-> "nest"] }
  \cup IF Mounted(st) THEN { [k |-> "add", r |-> 2, kind |-> "any", ms |-> <<"GET">>, pat |-> p, beh |-> "ok"] : p \in MPats } ELSE { [k |-> "mount", pat |-> p] : p \in MountPats }
MPaths == { <<"/">>, <<"/", "a">>, <<"/", "a", "b">>, <<"/", "a", "b", "b">>, <<"/", "a", "/", "b">>, <<"/", "a", "/", "b", "/", "b">> }
Inv(st) == st.n > 3 \/
  \A p \in MPaths : \A t \in {"http", "ws"} :
    LET q0 == Q(t, "GET", p) q == Asked(st, q0) r == Chosen(st, q0) F == IF First(Flat(st), q0).kind = "mount" THEN st.mnt ELSE Flat(st) IN
    /\ r.id = 0 <=> (\A i \in 1..Len(F) : ~Takes(F[i], q))
    \* whatever is assigned to the parameters rebuilds the path
    /\ r.id # 0 => \A m \in Match(Strip(r.pat), q.path) : \A j \in 1..Len(m) : Len(m[j][2]) <= Len(q.path)

C(b, name) == IF b THEN {} ELSE {name}
Rewritten(q, o, r) == CASE r.beh = "rewrite" -> LET z == CHOOSE i \in 1..Len(o.params) : o.params[i][1] = "z" IN <<"/", "r", "/">> \o o.params[z][2] [] OTHER -> q.path
SetOf(ps) == Range(ps)
One1(st, q0, o) ==
  LET q == Asked(st, q0) r == Chosen(st, q0) s == Status(st, q, r) IN
  C(o.status = s, "W01_status")
  \cup C(o.hid = (IF r.id # 0 THEN r.id ELSE 0), "W01_route")
  \cup C(r.id = 0 \/ o.hid # r.id \/ \E m \in Match(Strip(r.pat), q.path) : SetOf(m) = SetOf(o.params), "W01_params")
  \cup C(r.id = 0 \/ o.hid # r.id \/ (r.beh = "rewrite" /\ ~(\E i \in 1..Len(o.params) : o.params[i][1] = "z")) \/ o.path = Rewritten(q, o, r), "W01_path")
  \cup C(o.wf, "W01_response")
Check(st, e) ==
  IF e.k = "opfail" THEN {"W01_op"} ELSE
  IF e.k # "req" THEN {} ELSE UNION { One1(st, e.qs[i], e.obs[i]) : i \in 1..Len(e.qs) }
=============================================================================
