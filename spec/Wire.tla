-------------------------------- MODULE Wire --------------------------------
(* One direction of a stream connection (streamtasks/connection.py).            *)
(* Bytes are abstracted to units: a frame is 4 marker bytes, 2 length units     *)
(* (2 bytes each) and 2 body units (the two halves of the body, possibly empty, *)
(* and possibly looking like a marker). Noise is a sequence of marker bytes and *)
(* other bytes that does not contain, and does not complete, a whole marker.    *)
(* The decoder automaton of the receiver is part of the state (dec); the        *)
(* monitor (Check) does not use it.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS MaxFrames, MaxNoise, MaxCuts


Noises == { <<0>>, <<1>>, <<1,2>>, <<1,2,3>>, <<1,1>>, <<1,2,1>>, <<2,3,4>>, <<1,2,3,0>>, <<4>>, <<1,2,3,1,2>>, <<0,1,0>> }

\* units: [u |-> "m", i] marker byte i (0: any other byte), [u |-> "l"|"b", f, i]
FrameUnits(n) == [i \in 1..4 |-> [u |-> "m", i |-> i, f |-> n]] \o <<[u |-> "l", i |-> 1, f |-> n], [u |-> "l", i |-> 2, f |-> n],
                    [u |-> "b", i |-> 1, f |-> n], [u |-> "b", i |-> 2, f |-> n]>>
NoiseUnits(p) == [i \in 1..Len(p) |-> [u |-> "m", i |-> p[i], f |-> 0]]

Cfgs == { [suspend |-> s] : s \in BOOLEAN }

Init0(cfg) == [ suspend |-> cfg.suspend,
  wire |-> <<>>,        \* units written and not yet seen by the receiver
  sent |-> 0,           \* frames sent so far
  order |-> <<>>,       \* frames put on the wire
  maybe |-> {},         \* sends that were cancelled: on the wire entirely or not at all
  whole |-> <<>>,       \* frames completely fed to the receiver
  got |-> <<>>,         \* frames returned by receive
  want |-> FALSE,       \* a receive is outstanding
  eof |-> FALSE, closed |-> FALSE, \* stream ended / receiver was told
  broken |-> FALSE,       \* writing fails
  blocked |-> FALSE, pend |-> <<>>, \* the writer does not drain; sends waiting for it
  gapnoise |-> FALSE,  \* noise since the last frame
  noise |-> 0, cuts |-> 0,
  dec |-> [ph |-> "sync", idx |-> 0, cur |-> 0, out |-> <<>>] ]

\* the receiver's automaton
Step(d, x) ==
  CASE d.ph = "sync" ->
       IF x.u = "m" /\ x.i = d.idx + 1
       THEN IF x.i = 4 THEN [d EXCEPT !.ph = "len", !.idx = 0, !.cur = x.f] ELSE [d EXCEPT !.idx = @ + 1]
       ELSE [d EXCEPT !.idx = IF x.u = "m" /\ x.i = 1 THEN 1 ELSE 0]
    [] d.ph = "len" -> IF x.i = 2 THEN [d EXCEPT !.ph = "body"] ELSE d
    [] OTHER -> IF x.i = 2 THEN [d EXCEPT !.ph = "sync", !.idx = 0, !.out = Append(@, d.cur)] ELSE d
RECURSIVE Decode(_, _)
Decode(d, s) == IF s = <<>> THEN d ELSE Decode(Step(d, Head(s)), Tail(s))

Whole(units) == LET b == SelectSeq(units, LAMBDA x : x.u = "b" /\ x.i = 2) IN [i \in 1..Len(b) |-> b[i].f]

Ops(st) ==
  (IF st.eof \/ st.sent >= MaxFrames THEN {} ELSE { [k |-> "send", n |-> st.sent + 1] })
  \cup (IF st.eof \/ st.blocked \/ st.gapnoise \/ st.noise >= MaxNoise THEN {} ELSE { [k |-> "noise", p |-> p] : p \in Noises })
  \cup (IF st.wire = <<>> \/ st.eof THEN {} ELSE { [k |-> "feed", u |-> u] : u \in ({1, 2, 3, 5, 8} \cap 1..Len(st.wire)) \cup {Len(st.wire)} })
  \cup (IF st.want THEN {} ELSE { [k |-> "recv"] })
  \cup (IF st.want THEN { [k |-> "rcancel"] } ELSE {})
  \cup (IF st.eof \/ st.cuts >= MaxCuts \/ st.blocked THEN {} ELSE { [k |-> "eof", u |-> Min({Len(st.wire), u})] : u \in {0, 1, 4, 5, 7} })
  \cup (IF ~st.suspend \/ st.eof \/ st.broken THEN {}
        ELSE IF st.blocked THEN { [k |-> "unblock", dropped |-> SetToSeq(d)] : d \in SUBSET (Range(st.pend) \cap st.maybe) } ELSE { [k |-> "block"] })
  \cup (IF st.blocked \/ st.eof \/ st.broken \/ st.cuts >= MaxCuts THEN {} ELSE { [k |-> "wbreak"] })
  \cup { [k |-> "scancel", n |-> n] : n \in Range(st.pend) \ st.maybe }

Feed(st, u) ==
  LET part == SubSeq(st.wire, 1, u)
  IN [st EXCEPT !.wire = SubSeq(@, u + 1, Len(@)), !.whole = @ \o Whole(part), !.dec = Decode(@, part)]

\* in the abstract, receives return as soon as they can
Recv(st) ==
  IF ~st.want THEN st
  ELSE IF Len(st.got) < Len(st.whole) THEN [st EXCEPT !.got = Append(@, st.whole[Len(st.got) + 1]), !.want = FALSE]
  ELSE IF st.eof THEN [st EXCEPT !.closed = TRUE, !.want = FALSE] ELSE st

\* what happens to the network side of an operation
Apply(st, e) ==
  CASE e.k = "send" -> IF st.broken THEN [st EXCEPT !.sent = e.n]
                       ELSE IF st.blocked THEN [st EXCEPT !.sent = e.n, !.pend = Append(@, e.n)]
                       ELSE [st EXCEPT !.sent = e.n, !.wire = @ \o FrameUnits(e.n), !.gapnoise = FALSE, !.order = Append(@, e.n)]
    [] e.k = "noise" -> [st EXCEPT !.wire = @ \o NoiseUnits(e.p), !.gapnoise = TRUE, !.noise = @ + 1]
    [] e.k = "feed" -> Recv(Feed(st, e.u))
    [] e.k = "recv" -> Recv([st EXCEPT !.want = TRUE])
    [] e.k = "rcancel" -> [st EXCEPT !.want = FALSE]
    [] e.k = "eof" -> LET s1 == Feed(st, e.u) IN Recv([s1 EXCEPT !.eof = TRUE, !.wire = <<>>, !.cuts = @ + 1])
    [] e.k = "block" -> [st EXCEPT !.blocked = TRUE]
    [] e.k = "unblock" -> LET w == SelectSeq(st.pend, LAMBDA n : ~(n \in Range(e.dropped)))
                          IN [st EXCEPT !.blocked = FALSE, !.pend = <<>>, !.gapnoise = @ /\ w = <<>>, !.order = @ \o w, !.wire = @ \o FlattenSeq([i \in 1..Len(w) |-> FrameUnits(w[i])])]
    [] e.k = "wbreak" -> [st EXCEPT !.broken = TRUE, !.cuts = @ + 1]
    [] e.k = "scancel" -> [st EXCEPT !.maybe = @ \cup {e.n}]
    [] OTHER -> st

\* Design: the automaton finds exactly the frames, whatever the noise and the cuts
Inv(st) ==
  /\ st.dec.out = st.whole
  /\ IsPrefix(st.got, st.order) /\ IsPrefix(st.whole, st.order)
  /\ st.closed => st.got = st.whole

\* Noise that contains or, together with more noise, completes a marker is indistinguishable from a frame: not exercised.

(* ------------------------------ monitor ------------------------------------ *)
(* After every operation the driver lets the connection run until it is quiet   *)
(* and records what the outstanding receive returned:                           *)
(*   obs = [r |-> "none"|"msg"|"closed"|"err", n, same, sdone, serr]            *)
(* sdone: sends that returned so far, serr: sends that failed                   *)
Want(st, e) ==
  LET s1 == Apply(st, e)
  IN CASE Len(s1.got) > Len(st.got) -> [r |-> "msg", n |-> s1.got[Len(s1.got)]]
       [] (st.want \/ e.k = "recv") /\ e.k # "rcancel" /\ ~s1.want -> [r |-> "closed", n |-> 0]
       [] OTHER -> [r |-> "none", n |-> 0]

Check(st, e) ==
  IF e.k = "opfail" THEN {"N08_op"}
  ELSE
  LET w == Want(st, e)
      o == e.obs
      s1 == Apply(st, e)
  IN (IF o.r = w.r /\ (w.r = "msg" => o.n = w.n) THEN {}
      ELSE {CASE w.r = "closed" -> "N08_closed" [] w.r = "none" -> "N08_invented" [] OTHER -> "N08_lost"})
     \cup (IF o.r = "msg" /\ ~o.same THEN {"N08_content"} ELSE {})
     \cup (IF e.k = "send" THEN
             CASE st.broken -> IF o.s = "closed" THEN {} ELSE {"N08_senderr"}
               [] st.blocked -> IF o.s = "pending" THEN {} ELSE {"N08_flow"}
               [] OTHER -> IF o.s = "ok" THEN {} ELSE {"N08_send"}
           ELSE IF e.k = "unblock" THEN
             (IF Range(e.dropped) \subseteq st.maybe /\ o.wrote = SelectSeq(st.pend, LAMBDA n : ~(n \in Range(e.dropped))) THEN {} ELSE {"N08_order"})
             \cup (IF o.left = 0 THEN {} ELSE {"N08_send"})
           ELSE {})
=============================================================================
