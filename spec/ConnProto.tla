------------------------------ MODULE ConnProto ------------------------------
(* Message level model of connection set-up: clients say hello (with their      *)
(* version and token), the server answers and links, either side may lose the   *)
(* connection at any point, the server may stop and start, and one client       *)
(* reconnects for ever. Checked: who gets linked, the server's count, at most   *)
(* one link per client, and that the reconnecting client gets linked again.     *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Clients, Rec, MaxLoss, MaxStops, Tries
\* hello kinds of the clients: "good", "bad" (token or version), "junk"
Kinds == {"good", "bad", "junk"}
VARIABLES up, stops, losses, tries,
          kind,    \* what a client will say
          cl,      \* client side: idle, said, linked, wait (reconnector pausing), gone
          sv,      \* server side of the client's connection: none, open, linked
          wire,    \* reply on its way: none, yes, no, eof
          hello,   \* hello on its way: none or a kind, or eof
          count
vars == <<up, stops, losses, tries, kind, cl, sv, wire, hello, count>>
All == Clients \cup {Rec}
Init == /\ up = FALSE /\ stops = 0 /\ losses = 0 /\ count = 0
        /\ kind \in [All -> Kinds] /\ kind[Rec] = "good"
        /\ cl = [c \in All |-> "idle"] /\ sv = [c \in All |-> "none"]
        /\ wire = [c \in All |-> "none"] /\ hello = [c \in All |-> "none"] /\ tries = [c \in All |-> 0]
After(c) == IF c = Rec THEN "wait" ELSE "gone"
SrvUp == ~up /\ up' = TRUE /\ UNCHANGED <<stops, losses, tries, kind, cl, sv, wire, hello, count>>
\* a stopping server closes its connections
SrvDown == /\ up /\ stops < MaxStops /\ up' = FALSE /\ stops' = stops + 1
           /\ sv' = [c \in All |-> "none"] /\ count' = 0
           /\ wire' = [c \in All |-> IF cl[c] \in {"said", "linked"} THEN "eof" ELSE "none"]
           /\ hello' = [c \in All |-> "none"]
           /\ UNCHANGED <<losses, tries, kind, cl>>
Connect(c) == /\ cl[c] = "idle" /\ (c # Rec => tries[c] < Tries)
              /\ tries' = [tries EXCEPT ![c] = IF c = Rec THEN @ ELSE @ + 1]
              /\ IF up THEN /\ cl' = [cl EXCEPT ![c] = "said"] /\ sv' = [sv EXCEPT ![c] = "open"]
                            /\ hello' = [hello EXCEPT ![c] = kind[c]] /\ wire' = [wire EXCEPT ![c] = "none"]
                       ELSE cl' = [cl EXCEPT ![c] = IF c = Rec THEN "wait" ELSE "idle"] /\ UNCHANGED <<sv, hello, wire>>
              /\ UNCHANGED <<up, stops, losses, kind, count>>
SrvHello(c) == /\ sv[c] = "open" /\ hello[c] # "none"
               /\ hello' = [hello EXCEPT ![c] = "none"]
               /\ IF hello[c] = "good" THEN sv' = [sv EXCEPT ![c] = "linked"] /\ count' = count + 1 /\ wire' = [wire EXCEPT ![c] = "yes"]
                  ELSE sv' = [sv EXCEPT ![c] = "none"] /\ UNCHANGED count /\ wire' = [wire EXCEPT ![c] = IF cl[c] = "said" THEN (IF hello[c] = "bad" THEN "no" ELSE "eof") ELSE "none"]
               /\ UNCHANGED <<up, stops, losses, tries, kind, cl>>
CliReply(c) == /\ wire[c] # "none"
               /\ wire' = [wire EXCEPT ![c] = "none"]
               /\ cl' = [cl EXCEPT ![c] = CASE wire[c] = "yes" /\ @ = "said" -> "linked"
                                            [] wire[c] \in {"no", "eof"} /\ @ \in {"said", "linked"} -> After(c)
                                            [] OTHER -> @]
               /\ UNCHANGED <<up, stops, losses, tries, kind, sv, hello, count>>
\* the server notices the end of a linked connection
SrvEof(c) == /\ sv[c] = "linked" /\ hello[c] = "eof"
             /\ sv' = [sv EXCEPT ![c] = "none"] /\ count' = count - 1 /\ hello' = [hello EXCEPT ![c] = "none"]
             /\ UNCHANGED <<up, stops, losses, tries, kind, cl, wire>>
Cut(c) == /\ losses < MaxLoss /\ cl[c] \in {"said", "linked"} /\ losses' = losses + 1
          /\ wire' = [wire EXCEPT ![c] = "eof"]
          /\ hello' = [hello EXCEPT ![c] = IF sv[c] # "none" THEN "eof" ELSE "none"]
          /\ UNCHANGED <<up, stops, tries, kind, cl, sv, count>>
\* the pause of the reconnector; it does not connect while its old connection is alive at the server
Pause == /\ cl[Rec] = "wait" /\ sv[Rec] = "none" /\ cl' = [cl EXCEPT ![Rec] = "idle"] /\ wire' = [wire EXCEPT ![Rec] = "none"]
         /\ UNCHANGED <<up, stops, losses, tries, kind, sv, hello, count>>
Next == SrvUp \/ SrvDown \/ Pause \/ \E c \in All : Connect(c) \/ SrvHello(c) \/ CliReply(c) \/ SrvEof(c) \/ Cut(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(SrvUp) /\ WF_vars(Pause) /\ WF_vars(Connect(Rec))
        /\ \A c \in All : WF_vars(SrvHello(c)) /\ WF_vars(CliReply(c)) /\ WF_vars(SrvEof(c))
N09 == \A c \in All : sv[c] = "linked" \/ cl[c] = "linked" => kind[c] = "good"
N09b == \A c \in All : kind[c] # "good" => cl[c] # "linked"
N10_count == count = Cardinality({c \in All : sv[c] = "linked"})
N10_again == <>[](cl[Rec] = "linked" /\ sv[Rec] = "linked")
=============================================================================
