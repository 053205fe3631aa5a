------------------------------- MODULE Static -------------------------------
(* A published directory.  The file system is a fixed tree of directories in   *)
(* which files and links come and go; a request path is a sequence of segments.*)
(* Directories: 1 = the published one, 2 = 1/sub, 3 = 1/sub/deep, 0 = the       *)
(* parent of 1, 4 = 0/pubx (a sibling whose name begins like that of 1),        *)
(* 5 = 1/d.html (a directory that looks like a file).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Dirs == 0..5
Parent(d) == CASE d = 2 -> 1 [] d = 3 -> 2 [] d = 5 -> 1 [] OTHER -> 0
DirName(d) == CASE d = 1 -> "pub" [] d = 2 -> "sub" [] d = 3 -> "deep" [] d = 4 -> "pubx" [] d = 5 -> "d.html" [] OTHER -> "#top"
RECURSIVE Inside(_)
Inside(d) == d = 1 \/ (d # 0 /\ Inside(Parent(d)))
Files == { "index.html", "index.txt", "a.txt", "b.js", "noext", "a b.txt", "%2e%2e", "x\\y.txt", "c.zz" }
Cfgs == { 0 }
\* ent: <<dir, name>> -> [t |-> "file", v] | [t |-> "link", d, n] (to the entry n of d, or to the directory d itself when n = "")
Init0(cfg) == [ ent |-> [ x \in {<<0, "secret.txt">>, <<1, "a.txt">>} |-> [t |-> "file", v |-> x[1] + 1] ], n |-> 2 ]
Has(st, d, s) == <<d, s>> \in DOMAIN st.ent
SubDir(d, s) == {x \in Dirs \ {0} : Parent(x) = d /\ DirName(x) = s}
None == [t |-> "none", d |-> 0, v |-> 0]
AtDir(d) == [t |-> "dir", d |-> d, v |-> 0]
\* what the entry s of directory d leads to
RECURSIVE Look(_, _, _, _)
Look(st, d, s, fuel) ==
  IF s = "" \/ s = "." THEN AtDir(d)
  ELSE IF s = ".." THEN (IF d = 0 THEN None ELSE AtDir(Parent(d)))     \* nothing of ours is above the top
  ELSE IF SubDir(d, s) # {} THEN AtDir(CHOOSE x \in SubDir(d, s) : TRUE)
  ELSE IF fuel = 0 \/ ~Has(st, d, s) THEN None
  ELSE LET e == st.ent[<<d, s>>] IN IF e.t = "file" THEN [t |-> "file", d |-> d, v |-> e.v] ELSE Look(st, e.d, e.n, fuel - 1)
RECURSIVE Walk(_, _, _)
Walk(st, d, p) ==
  IF p = <<>> THEN AtDir(d)
  ELSE LET x == Look(st, d, Head(p), 6) IN
       IF x.t = "dir" THEN Walk(st, x.d, Tail(p)) ELSE IF Tail(p) = <<>> THEN x ELSE None
IndexOf(st, d) ==
  LET S == {i \in 1..2 : LET x == Look(st, d, <<"index.html", "index.txt">>[i], 6) IN x.t = "file" /\ Inside(x.d)} IN
  \* an index that exists but leads outside is not served; whether the next one is, is open
  IF S = {} THEN {None} ELSE {Look(st, d, <<"index.html", "index.txt">>[Min(S)], 6)} \cup (IF 1 \notin S /\ Look(st, d, "index.html", 6).t # "none" THEN {None} ELSE {})
\* the allowed answers: values of files (0: not found)
Answers(st, p) ==
  LET x == Walk(st, 1, p) IN
  CASE x.t = "file" -> {IF Inside(x.d) THEN x.v ELSE 0}
    [] x.t = "dir" -> IF Inside(x.d) THEN {y.v : y \in IndexOf(st, x.d)} ELSE {0}
    \* "missing/.." may be understood as nothing or as the directory
    [] OTHER -> {0} \cup (IF ".." \in Range(p) \/ "" \in Range(p) \/ "." \in Range(p) THEN {st.ent[y].v : y \in {z \in DOMAIN st.ent : st.ent[z].t = "file" /\ Inside(z[1])}} ELSE {})
Apply(st, e) ==
  CASE e.k = "put" -> [st EXCEPT !.n = @ + 1, !.ent = TLCEval([x \in DOMAIN @ \cup {<<e.d, e.s>>} |-> IF x = <<e.d, e.s>> THEN [t |-> "file", v |-> st.n + 1] ELSE @[x]])]
    [] e.k = "link" -> [st EXCEPT !.ent = TLCEval([x \in DOMAIN @ \cup {<<e.d, e.s>>} |-> IF x = <<e.d, e.s>> THEN [t |-> "link", d |-> e.to, n |-> e.ts] ELSE @[x]])]
    [] e.k = "del" -> [st EXCEPT !.ent = TLCEval([x \in DOMAIN @ \ {<<e.d, e.s>>} |-> @[x]])]
    [] OTHER -> st
SegV == Files \cup { "..", ".", "", "sub", "deep", "pub", "pubx", "d.html", "secret.txt", "zzz", "nul", "long", "l1", "l2" }
RECURSIVE DownTo(_)
DownTo(d) == IF d = 1 THEN <<>> ELSE IF d = 0 THEN <<"..">> ELSE DownTo(Parent(d)) \o <<DirName(d)>>
R(S) == RandomElement(S)
GenPath(st) ==
  LET x == R(1..10) y == R(DOMAIN st.ent) a == R(SegV) b == R(SegV) c == R(SegV) d == R(SegV) IN
  CASE x <= 4 -> DownTo(y[1]) \o <<y[2]>>
    [] x = 5 -> DownTo(y[1]) \o <<a, "..", y[2]>>
    [] x = 6 -> <<a, "..">> \o DownTo(y[1]) \o <<y[2]>>
    [] x = 7 -> <<a, b>>
    [] x = 8 -> DownTo(y[1])
    [] x = 9 -> <<"sub">> \o <<"..">> \o DownTo(y[1]) \o <<"", y[2]>>
    [] OTHER -> <<a, b, c, d>>
FileDirs == {0, 1, 2, 3, 4, 5}
Names == Files \cup {"l1", "l2"}
LinkOp(st, d, s, to, ts) == IF Look(st, to, ts, 6).t = "none" \/ (<<to, ts>> = <<d, s>>) THEN [k |-> "put", d |-> d, s |-> s] ELSE [k |-> "link", d |-> d, s |-> s, to |-> to, ts |-> ts]
GenOps(st) ==
  LET r == R(1..12) y == R(DOMAIN st.ent) IN
  CASE r <= 2 -> { [k |-> "put", d |-> R(FileDirs), s |-> R(Files)] }
    [] r = 3 -> { LinkOp(st, R(1..3), R({"l1", "l2", "index.html", "index.txt", "a.txt"}), y[1], y[2]) }
    [] r = 4 -> { LinkOp(st, R(1..3), R({"l1", "l2"}), R(FileDirs), "") }
    [] r = 5 -> IF y[1] = 0 /\ y[2] = "secret.txt" THEN { [k |-> "put", d |-> 1, s |-> "index.html"] } ELSE { [k |-> "del", d |-> y[1], s |-> y[2]] }
    [] OTHER -> { [k |-> "get", p |-> GenPath(st)] }
\* a link into itself is not made: links are only followed to what exists now, but later changes may close a loop
Ops(st) == { [k |-> "put", d |-> d, s |-> s] : d \in {0, 1, 2}, s \in {"a.txt", "index.html"} }
  \cup { [k |-> "link", d |-> d, s |-> "l1", to |-> to, ts |-> ts] : d \in {1, 2}, to \in 0..2, ts \in {"", "a.txt"} }
  \cup { [k |-> "del", d |-> y[1], s |-> y[2]] : y \in DOMAIN st.ent }
MSegs == {"..", "", "sub", "a.txt", "l1", "pub", "secret.txt", "index.html"}
Inv(st) == Cardinality(DOMAIN st.ent) > 3 \/ \A a, b, c \in MSegs :
  LET A == Answers(st, <<a, b, c>>) IN
  /\ A # {}
  /\ \A v \in A : v # 0 => \E y \in DOMAIN st.ent : Inside(y[1]) /\ st.ent[y].t = "file" /\ st.ent[y].v = v
C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"W04_op"} ELSE
  IF e.k # "get" THEN {} ELSE
  C(e.obs.v \in Answers(st, e.p), IF e.obs.v > 0 /\ ~(\E y \in DOMAIN st.ent : Inside(y[1]) /\ st.ent[y].t = "file" /\ st.ent[y].v = e.obs.v) THEN "W04_outside" ELSE "W04_content")
  \cup C(e.obs.wf, "W04_response")
=============================================================================
