-------------------------------- MODULE Live ---------------------------------
(* Live views of the web interface: a viewer (websocket) sees every message of *)
(* its topic (of the network or of a topic space), every coming and going of a *)
(* task host or every end of a task of its deployment, in order and once, as   *)
(* long as it is there; a topic is demanded from its provider exactly while    *)
(* somebody looks.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
W == 1..6
Topics == 1..4
Hosts == 1..2
U == 1..2
NV == 24           \* contents of messages, see the driver
\* what a viewer looks at: 1..4 a topic, 5 the task hosts, 6 the deployment, 7.. nothing that exists
Views == 1..10
Cfgs == {0}
(* w   what a viewer looks at, 0: it is not there          ps  pause of a topic, h  hosts that are up           *)
(* dp  off, sch, run      u  a task: none, sch, run, over     g  viewer of the deployment since it was scheduled *)
Init0(cfg) == [ w |-> [k \in W |-> 0], ps |-> [t \in Topics |-> 0], h |-> [k \in Hosts |-> 0], dp |-> "off", u |-> [k \in U |-> "none"], g |-> [k \in W |-> 0], gen |-> 0, n |-> 0,
  out |-> [k \in W |-> <<>>], fresh |-> {}, over |-> {} ]
Show(s, K, x) == [s EXCEPT !.out = [k \in W |-> IF k \in K THEN Append(@[k], x) ELSE @[k]]]
At(s, x) == {k \in W : s.w[k] = x}
Group(s) == {k \in At(s, 6) : s.g[k] = s.gen}
Gone(s, k) == [s EXCEPT !.w[k] = 0, !.over = @ \cup {k}]
EndAll(s, T) == [s EXCEPT !.u = [k \in U |-> IF k \in T THEN "over" ELSE @[k]]]
RECURSIVE ShowEnds(_, _)
ShowEnds(s, T) == IF T = {} THEN s ELSE LET u == Min(T) IN With(Show(s, Group(s), <<"i", u, 5>>), LAMBDA z : ShowEnds(z, T \ {u}))
Active(s) == {u \in U : s.u[u] \in {"sch", "run"}}
Do(s, e) ==
  CASE e.k = "open" ->
         LET z == [s EXCEPT !.w[e.w] = e.x, !.g[e.w] = s.gen, !.fresh = @ \cup {e.w}] IN
         IF e.x >= 7 \/ (e.x = 6 /\ s.dp = "off") THEN Gone(z, e.w) ELSE IF e.x = 5 THEN Show(z, {e.w}, <<"hello", 0, 0>>) ELSE z
    [] e.k = "close" -> Gone(s, e.w)
    [] e.k = "data" -> Show(s, At(s, e.t), <<"d", e.n, e.v>>)
    [] e.k = "ctl" -> IF s.ps[e.t] = e.v THEN s ELSE Show([s EXCEPT !.ps[e.t] = e.v], At(s, e.t), <<"c", 0, e.v>>)
    [] e.k = "hup" -> Show([s EXCEPT !.h[e.h] = 1], At(s, 5), <<"h", e.h, 1>>)
    [] e.k = "hdown" -> Show([s EXCEPT !.h[e.h] = 0], At(s, 5), <<"h", e.h, 0>>)
    [] e.k = "dep" -> CASE e.a = "schedule" -> [s EXCEPT !.dp = "sch", !.u = [k \in U |-> "sch"], !.gen = @ + 1]
                        [] e.a = "start" -> [s EXCEPT !.dp = "run", !.u = [k \in U |-> "run"]]
                        [] OTHER -> With(ShowEnds(s, Active(s)), LAMBDA z : [z EXCEPT !.dp = "off", !.u = [k \in U |-> "none"]])
    [] e.k = "finish" -> Show([s EXCEPT !.u[e.u] = "over"], Group(s), <<"i", e.u, IF e.how = "end" THEN 3 ELSE 4>>)
    [] OTHER -> s
Enabled(s, e) ==
  CASE e.k = "open" -> s.w[e.w] = 0 /\ e.w \notin s.over
    [] e.k \in {"close", "say"} -> s.w[e.w] # 0 /\ e.w \notin s.fresh
    [] e.k = "data" -> s.ps[e.t] = 0
    [] e.k = "hup" -> s.h[e.h] = 0
    [] e.k = "hdown" -> s.h[e.h] = 1
    [] e.k = "dep" -> CASE e.a = "schedule" -> s.dp = "off" [] e.a = "start" -> s.dp = "sch" [] OTHER -> s.dp # "off"
    [] e.k = "finish" -> s.u[e.u] = "run"
    [] OTHER -> TRUE
Step(st, e) == FoldLeft(LAMBDA a, x : With(a, LAMBDA z : Do(z, x)), [st EXCEPT !.out = [k \in W |-> <<>>], !.fresh = {}, !.over = {}], e.s)
Apply(st, e) == With(Step(st, e), LAMBDA z : [z EXCEPT !.n = @ + Len(e.s), !.out = [k \in W |-> <<>>], !.fresh = {}, !.over = {}])
\* obs: shown <<viewer, what it was shown>>, over: viewers whose connection ended, dem: topics that are demanded, bad
Norm(x) == <<x[1], x[2], x[3]>>
OShown(o, k) == LET X == SelectSeq(o.shown, LAMBDA x : x[1] = k) IN IF X = <<>> THEN <<>> ELSE [i \in 1..Len(X[1][2]) |-> Norm(X[1][2][i])]
NoCtl(q) == SelectSeq(q, LAMBDA x : x[1] # "c")
Run(q) == SelectSeq(q, LAMBDA x : ~(x[1] = "i" /\ x[3] \in {1, 2}))
\* a viewer that has just come may be told the pause of its topic first
Ctls(q) == SelectSeq(q, LAMBDA x : x[1] = "c")
IEnd(x) == x[1] = "i" /\ x[3] = 5
ShownOk(s, k, o) ==
  LET got == Run(OShown(o, k)) want == s.out[k] IN
  IF k \in s.fresh THEN /\ NoCtl(got) = NoCtl(want)
                        /\ s.w[k] \in Topics /\ Ctls(got) # <<>> => Last(Ctls(got))[3] = s.ps[s.w[k]]
                        /\ s.w[k] \notin Topics => Ctls(got) = <<>>
  ELSE \* tasks that are stopped together end in any order
       /\ SelectSeq(got, LAMBDA x : ~IEnd(x)) = SelectSeq(want, LAMBDA x : ~IEnd(x))
       /\ Len(got) = Len(want) /\ \A i \in 1..Len(got) : IEnd(got[i]) = IEnd(want[i])
       /\ Range(got) = Range(want)
C(b, name) == IF b THEN {} ELSE {name}
Dem(s) == {t \in Topics : At(s, t) # {}}
Check(st, e) ==
  IF e.k = "opfail" THEN {"W05_op"} ELSE
  LET s == Step(st, e) o == e.obs
      Kinds(k) == {x[1] : x \in Range(s.out[k]) \cup Range(OShown(o, k))} 
      Bad == {k \in W : ~ShownOk(s, k, o)} IN
  C(~\E k \in Bad : Kinds(k) \cap {"d", "c"} # {}, "W05_topic")
  \cup C(~\E k \in Bad : "h" \in Kinds(k), "W05_hosts")
  \cup C(~\E k \in Bad : "i" \in Kinds(k), "W05_tasks")
  \cup C(Bad = {}, "W05_shown")
  \cup C(Range(o.over) = s.over, "W05_over")
  \cup C(Range(o.dem) = Dem(s), "W05_demand")
  \cup C(o.bad = <<>>, "W05_content")
\* ---------------------------------------------------------------- operations
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Basic(st) ==
  { [k |-> "open", w |-> k, x |-> x] : k \in W, x \in Views } \cup { [k |-> "close", w |-> k, how |-> h] : k \in W, h \in 1..2 } \cup { [k |-> "say", w |-> k] : k \in W }
  \cup { [k |-> "data", t |-> t, n |-> st.n + 1, v |-> v] : t \in Topics, v \in 1..NV } \cup { [k |-> "ctl", t |-> t, v |-> v] : t \in Topics, v \in 0..1 }
  \cup { [k |-> "hup", h |-> h] : h \in Hosts } \cup { [k |-> "hdown", h |-> h] : h \in Hosts }
  \cup { [k |-> "dep", a |-> a] : a \in {"schedule", "start", "stop"} } \cup { [k |-> "finish", u |-> u, how |-> h] : u \in U, h \in {"end", "raise"} }
Wrap(x) == [k |-> "ops", s |-> <<x>>]
Ops(st) == { Wrap(x) : x \in { y \in Basic(st) : Enabled(st, y) /\ ("v" \in DOMAIN y => y.v <= 1) /\ ("t" \in DOMAIN y => y.t <= 2) /\ ("w" \in DOMAIN y => y.w <= 2) /\ ("h" \in DOMAIN y => y.h = 1) /\ ("x" \in DOMAIN y => y.x \in {1, 2, 5, 6, 7}) } }
Likely(st) == IF st.dp = "off" THEN {5, 6} ELSE {6}
Pick(st) ==
  LET x == RandomElement(1..20) on == {k \in W : st.w[k] # 0} off == W \ on t == RandomElement(Topics)
      v == IF Dem(st) # {} /\ RandomElement(1..4) > 1 THEN RandomElement(Dem(st)) ELSE t IN
  CASE x <= 3 -> IF off = {} THEN {} ELSE {[k |-> "open", w |-> RandomElement(off), x |-> IF RandomElement(1..3) = 1 THEN RandomElement({1, 2, 1}) ELSE RandomElement(1..6)]}
    [] x = 4 -> IF off = {} THEN {} ELSE {[k |-> "open", w |-> RandomElement(off), x |-> RandomElement(Views)]}
    [] x <= 6 -> IF on = {} THEN {} ELSE {[k |-> "close", w |-> RandomElement(on), how |-> RandomElement(1..2)]}
    [] x = 7 -> IF on = {} THEN {} ELSE {[k |-> "say", w |-> RandomElement(on)]}
    [] x <= 12 -> IF st.ps[v] = 1 THEN {[k |-> "ctl", t |-> v, v |-> 0]} ELSE {[k |-> "data", t |-> v, n |-> 0, v |-> RandomElement(1..NV)]}
    [] x = 13 -> {[k |-> "ctl", t |-> v, v |-> RandomElement(0..1)]}
    [] x <= 15 -> LET h == RandomElement(Hosts) IN IF st.h[h] = 0 THEN {[k |-> "hup", h |-> h]} ELSE {[k |-> "hdown", h |-> h]}
    [] x <= 18 -> CASE st.dp = "off" -> {[k |-> "dep", a |-> "schedule"]} [] st.dp = "sch" /\ RandomElement(1..4) > 1 -> {[k |-> "dep", a |-> "start"]} [] st.dp = "run" /\ RandomElement(1..2) = 1 -> One({[k |-> "finish", u |-> u, how |-> RandomElement({"end", "raise"})] : u \in {y \in U : st.u[y] = "run"}}) [] OTHER -> {[k |-> "dep", a |-> "stop"]}
    [] OTHER -> {}
Num(x, n) == IF x.k = "data" THEN [x EXCEPT !.n = n] ELSE x
Slow(x) == x.k \in {"hup", "hdown", "dep", "finish"}
\* several at once: messages while viewers leave their order to nobody, so viewers do not come or go with messages of their topic
Fits(x, s) == ~Slow(x) /\ \A i \in 1..Len(s) : ~Slow(s[i]) /\ (("w" \in DOMAIN x /\ "w" \in DOMAIN s[i]) => x.w # s[i].w)
Moves(x) == x.k \in {"open", "close"}
Streams(x) == x.k \in {"data", "ctl"}
Ok(x, s) == s = <<>> \/ (Fits(x, s) /\ (Moves(x) => \A i \in 1..Len(s) : ~Streams(s[i])) /\ (Streams(x) => \A i \in 1..Len(s) : ~Moves(s[i])))
RECURSIVE Many(_, _, _)
Many(st, s, n) == IF n = 0 THEN s ELSE
  LET Z == Step(st, [s |-> s]) IN
  With(Z, LAMBDA z : With(Pick(z), LAMBDA P :
    IF P = {} THEN Many(st, s, n - 1) ELSE
    With(Num(CHOOSE y \in P : TRUE, st.n + Len(s) + 1), LAMBDA x : IF Enabled(z, x) /\ Ok(x, s) THEN Many(st, Append(s, x), n - 1) ELSE Many(st, s, n - 1))))
GenOps(st) == With(Many(st, <<>>, RandomElement({1, 1, 2, 3, 6, 10})), LAMBDA s : IF s = <<>> THEN {Wrap([k |-> "ctl", t |-> 1, v |-> st.ps[1]])} ELSE {[k |-> "ops", s |-> s]})
Inv(st) ==
  /\ st.over = {} /\ st.fresh = {}
  /\ (st.dp = "off") = (\A k \in U : st.u[k] = "none")
  /\ st.dp = "sch" => \A k \in U : st.u[k] = "sch"
  /\ \A k \in W : st.w[k] = 6 /\ st.g[k] = st.gen => st.gen > 0
  /\ \A k \in W : st.w[k] <= 6
=============================================================================
