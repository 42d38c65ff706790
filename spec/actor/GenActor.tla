------------------------------ MODULE GenActor ------------------------------
(* All short programs of one controller against an actor held at a gate.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE hist
Imm == [op |-> "send", a |-> 1, d |-> -1, body |-> <<>>]
Del(us) == [op |-> "send", a |-> 1, d |-> us, body |-> <<>>]
Nest(d) == [op |-> "send", a |-> 1, d |-> -1, body |-> <<[op |-> "send", a |-> 1, d |-> d, body |-> <<>>]>>]
StopIn == [op |-> "send", a |-> 1, d |-> -1, body |-> <<[op |-> "stop"]>>]
Stop == [op |-> "stop"]
Ops == {Imm, Del(0), Del(900), Del(1800), Nest(-1), Nest(300), StopIn, Stop}
Init == hist = <<[actors |-> 1], [op |-> "send", a |-> 1, d |-> -1, body |-> <<[op |-> "gate"]>>]>>
Next == /\ Len(hist) < Depth + 2
        /\ \E o \in Ops : hist' = Append(hist, o)
GSpec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth + 2 => PrintT("SCRIPT " \o ToJson(hist \o <<[op |-> "open"]>>))
=============================================================================
