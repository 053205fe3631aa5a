--------------------------------- MODULE Ui ----------------------------------
(* Blocks with a page of their own.  Controls publish the value their users    *)
(* set, at once and again after every repeat interval; displays hold what was  *)
(* received.  Everybody who watches the value of a block ends up seeing the    *)
(* current one.  Time is in milliseconds.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
With(x, F(_)) == CHOOSE r \in {F(y) : y \in {x}} : TRUE
W == 1..3
\* b  the block, iv  its repeat interval (0: never), T  its topics, v0  its first value, D  what can be set, max/sep/app  of the text display
X == [sep |-> 0, app |-> 1, max |-> 0]
Bs == <<
  [b |-> "switch", iv |-> 1000, T |-> 1, v0 |-> 1, D |-> 0..1, x |-> X],
  [b |-> "switch", iv |-> 0, T |-> 1, v0 |-> 0, D |-> 0..1, x |-> X],
  [b |-> "slider", iv |-> 250, T |-> 1, v0 |-> 1, D |-> 1..6, x |-> X],
  [b |-> "slider", iv |-> 0, T |-> 1, v0 |-> 3, D |-> 1..6, x |-> X],
  [b |-> "radio", iv |-> 700, T |-> 3, v0 |-> 0, D |-> 0..4, x |-> X],
  [b |-> "radio", iv |-> 0, T |-> 3, v0 |-> 0, D |-> 0..4, x |-> X],
  [b |-> "textin", iv |-> 0, T |-> 1, v0 |-> 1, D |-> 1..6, x |-> X],
  [b |-> "textin", iv |-> 700, T |-> 1, v0 |-> 1, D |-> 1..6, x |-> X],
  [b |-> "text", iv |-> 0, T |-> 1, v0 |-> <<>>, D |-> 1..6, x |-> [sep |-> 1, app |-> 1, max |-> 7]],
  [b |-> "text", iv |-> 0, T |-> 1, v0 |-> <<>>, D |-> 1..6, x |-> [sep |-> 0, app |-> 1, max |-> -1]],
  [b |-> "text", iv |-> 0, T |-> 1, v0 |-> <<>>, D |-> 1..6, x |-> [sep |-> 1, app |-> 0, max |-> 3]],
  [b |-> "text", iv |-> 0, T |-> 1, v0 |-> <<>>, D |-> 1..6, x |-> [sep |-> 0, app |-> 1, max |-> 0]],
  [b |-> "status", iv |-> 0, T |-> 1, v0 |-> 3, D |-> 1..6, x |-> X],
  [b |-> "bar", iv |-> 0, T |-> 1, v0 |-> 2, D |-> 1..6, x |-> X] >>
Cfgs == 1..14
\* the texts of text messages; 99 is the separator
Texts == << <<>>, <<1>>, <<2, 3>>, <<4, 5, 6, 1, 2>>, <<3, 3, 3, 3, 3, 3, 3, 3, 3>>, <<99>> >>
Control(c) == c.b \in {"switch", "slider", "radio", "textin"}
Init0(cfg) == LET c == Bs[cfg] IN [ c |-> c, v |-> c.v0, nx |-> c.iv, n |-> 0, w |-> [k \in W |-> 0] ]
Blank(c, v) == c.b = "textin" /\ v \in {1, 2}
Out(c, j, v) == IF c.b = "radio" THEN (IF v = j THEN 1 ELSE 0) ELSE v
\* a message arrives at a display
Tail2(s, n) == IF n = -1 \/ Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Recv(c, v, m) == IF m = 0 THEN v ELSE IF c.b # "text" THEN m
                 ELSE Tail2(IF c.x.app = 1 THEN v \o (IF c.x.sep = 1 THEN <<99>> ELSE <<>>) \o Texts[m] ELSE Texts[m], c.x.max)
Sel(s, k) == SelectSeq(s, LAMBDA x : x.k = k)
Posts(e) == {x.v : x \in Range(Sel(e.s, "post"))}
Bads(e) == Len(Sel(e.s, "bad"))
\* the values of a display after every message of a step
Hist(st, e) == LET M == SelectSeq(Sel(e.s, "send"), LAMBDA x : x.m # 0) IN
  [i \in 1..Len(M) |-> FoldLeft(LAMBDA a, x : Recv(st.c, a, x.m), st.v, SubSeq(M, 1, i))]
Changes(st, e) == IF e.k = "wait" THEN 0 ELSE IF Control(st.c) THEN Len(Sel(e.s, "post")) ELSE Len(Hist(st, e))
Finals(st, e) == IF Changes(st, e) = 0 THEN {st.v} ELSE IF Control(st.c) THEN Posts(e) ELSE {Last(Hist(st, e))}
Seen(st, e) == IF Control(st.c) THEN Posts(e) ELSE Range(Hist(st, e))
Ticks(st, to) == IF st.c.iv = 0 \/ ~Control(st.c) \/ st.nx > to THEN <<>> ELSE [i \in 1..((to - st.nx) \div st.c.iv + 1) |-> st.nx + (i - 1) * st.c.iv]
Views(st, e) == [k \in W |-> LET Q == SelectSeq(e.s, LAMBDA x : x.k \in {"open", "close"} /\ x.w = k) IN IF Q = <<>> THEN st.w[k] ELSE IF Last(Q).k = "open" THEN 1 ELSE 0]
Touched(e) == {x.w : x \in Range(Sel(e.s, "open")) \cup Range(Sel(e.s, "close"))}
Apply(st, e) ==
  IF e.k = "wait" THEN LET to == st.n + e.dt IN [st EXCEPT !.n = to, !.nx = @ + st.c.iv * Len(Ticks(st, to))]
  ELSE [st EXCEPT !.w = Views(st, e), !.v = IF "obs" \in DOMAIN e /\ e.obs.val \in Finals(st, e) THEN e.obs.val ELSE CHOOSE x \in Finals(st, e) : TRUE,
                  !.nx = IF Control(st.c) /\ Changes(st, e) > 0 /\ st.c.iv > 0 THEN st.n + st.c.iv ELSE @]
\* obs: val, pub <<topic, at, timestamp, value>>, shown <<viewer, values>>, over, resp (answers), bad
Pub(o, j) == SelectSeq(o.pub, LAMBDA x : x[1] = j)
Near(a, b) == a - b \in -2..2
PubOk(st, e, o) ==
  IF ~Control(st.c) THEN o.pub = <<>> ELSE
  /\ \A x \in Range(o.pub) : Near(x[2], x[3]) /\ x[1] \in 1..st.c.T
  /\ \A j \in 1..st.c.T : LET q == Pub(o, j) IN
       IF e.k = "wait" THEN LET t == IF Blank(st.c, st.v) THEN <<>> ELSE Ticks(st, st.n + e.dt) IN
                            Len(q) = Len(t) /\ \A i \in 1..Len(t) : Near(q[i][2], t[i]) /\ q[i][4] = Out(st.c, j, st.v)
       ELSE /\ \A i \in 1..Len(q) : Near(q[i][2], st.n) /\ q[i][4] \in {Out(st.c, j, p) : p \in {y \in Posts(e) : ~Blank(st.c, y)}}
            /\ Len(q) <= Changes(st, e)
            /\ Changes(st, e) > 0 /\ ~Blank(st.c, o.val) => q # <<>> /\ Last(q)[4] = Out(st.c, j, o.val)
            /\ Len(q) = Len(Pub(o, 1))
OShown(o, k) == LET Y == SelectSeq(o.shown, LAMBDA x : x[1] = k) IN IF Y = <<>> THEN <<>> ELSE Y[1][2]
RECURSIVE Sub(_, _)
Sub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF Head(a) = Head(b) THEN Sub(Tail(a), Tail(b)) ELSE Sub(a, Tail(b))
ViewOk(st, e, o, k) ==
  LET q == OShown(o, k) IN
  IF e.k = "wait" THEN q = <<>>
  ELSE IF k \in Touched(e) THEN Range(q) \subseteq Seen(st, e) \cup Finals(st, e) \cup {st.v}
                                /\ (q # <<>> /\ Views(st, e)[k] = 1 => Last(q) = o.val)
  ELSE IF st.w[k] = 0 \/ Changes(st, e) = 0 THEN q = <<>>
  ELSE /\ q # <<>> /\ Last(q) = o.val
       /\ IF Control(st.c) THEN Range(q) \subseteq Seen(st, e) ELSE Sub(q, Hist(st, e))
C(b, name) == IF b THEN {} ELSE {name}
Check(st, e) ==
  IF e.k = "opfail" THEN {"W06_op"} ELSE
  LET o == e.obs IN
  C(o.val \in Finals(st, e), "W06_value")
  \cup C(PubOk(st, e, o), "W06_published")
  \cup C(\A k \in W : ViewOk(st, e, o, k), "W06_shown")
  \cup (IF e.k = "wait" THEN C(o.over = <<>> /\ o.resp = <<>>, "W06_over") ELSE
        C(Range(o.over) = {k \in W : st.w[k] = 1 /\ k \in Touched(e)} \cup {x.w : x \in {y \in Range(Sel(e.s, "open")) : Views(st, e)[y.w] = 0}}, "W06_over")
        \cup C(Len(o.resp) = Len(Sel(e.s, "post")) + Bads(e) /\ Len(SelectSeq(o.resp, LAMBDA r : r = 400)) = Bads(e) /\ Range(o.resp) \subseteq {200, 400}, "W06_answer"))
  \cup C(o.bad = <<>>, "W06_content")
\* ---------------------------------------------------------------- operations
Items(st) ==
  (IF Control(st.c) THEN { [k |-> "post", v |-> v] : v \in st.c.D } \cup { [k |-> "bad", i |-> i] : i \in 1..3 } ELSE { [k |-> "send", m |-> m] : m \in {0} \cup st.c.D })
  \cup { [k |-> "open", w |-> w] : w \in {x \in W : st.w[x] = 0} } \cup { [k |-> "close", w |-> w] : w \in {x \in W : st.w[x] = 1} }
Times == {331, 733, 1129, 2221}
Free(st, dt) == st.c.iv = 0 \/ ~Control(st.c) \/ LET r == (st.n + dt - st.nx) % st.c.iv IN r \in 6..(st.c.iv - 6)
Waits(st) == { [k |-> "wait", dt |-> dt] : dt \in {x \in Times : Free(st, x)} }
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Ops(st) == { [k |-> "ops", s |-> <<x>>] : x \in Items(st) } \cup { [k |-> "ops", s |-> <<x, y>>] : x, y \in {z \in Items(st) : z.k \in {"post", "send"}} } \cup Waits(st)
RECURSIVE Many(_, _, _)
Many(st, s, n) == IF n = 0 THEN s ELSE
  With(RandomElement(LET R == RandomElement(1..8) I == Items(st) P == {z \in I : z.k \in {"post", "send"}} IN IF R <= 4 THEN P ELSE IF R <= 6 THEN {z \in I : z.k = "open"} \cup P ELSE I),
    LAMBDA x : IF "w" \in DOMAIN x /\ \E i \in 1..Len(s) : "w" \in DOMAIN s[i] /\ s[i].w = x.w THEN Many(st, s, n - 1) ELSE Many(st, Append(s, x), n - 1))
GenOps(st) == LET x == RandomElement(1..4) IN
  IF x = 1 /\ Waits(st) # {} THEN One(Waits(st)) ELSE With(Many(st, <<>>, RandomElement({1, 1, 1, 2, 2, 3, 5, 8})), LAMBDA s : {[k |-> "ops", s |-> s]})
Inv(st) ==
  /\ Control(st.c) => (st.c.iv > 0 => st.nx > st.n)
  /\ st.c.b = "text" /\ st.c.x.max >= 0 => Len(st.v) <= st.c.x.max
  /\ Control(st.c) => st.v \in st.c.D \cup {st.c.v0}
=============================================================================
