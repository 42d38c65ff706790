------------------------------ MODULE MCBase16 ------------------------------
(* The scanner of parse_with_separators, one step per iteration, against the  *)
(* grammar, for all short texts and groupings; and the laws of the text form. *)
EXTENDS Base16
CONSTANTS MaxLen, MaxBytes, Chars, Groupings
ByteSet == {0, 31, 255}
GetChunks(n) == CASE n = 1 -> <<1>> [] n = 2 -> <<1, 1>> [] n = 3 -> <<2, 1>> [] n = 4 -> <<99>> [] n = 5 -> <<2, 2, 2>>
VARIABLES text, chunks, pos, left, ci, out, res
mvars == <<text, chunks, pos, left, ci, out, res>>
Init == /\ text \in UNION {[1..n -> Chars] : n \in 0..MaxLen} /\ \E g \in Groupings : chunks = GetChunks(g)
        /\ pos = 1 /\ left = chunks[1] /\ ci = 1 /\ out = <<>> /\ res = "run"
Step ==
    /\ res = "run" /\ UNCHANGED <<text, chunks>>
    /\ IF pos > Len(text) THEN res' = "ok" /\ UNCHANGED <<pos, left, ci, out>>
       ELSE IF left = 0 THEN
            IF text[pos] # Sep \/ pos = Len(text) \/ ci = Len(chunks) THEN res' = "bad" /\ UNCHANGED <<pos, left, ci, out>>
            ELSE res' = res /\ pos' = pos + 1 /\ ci' = ci + 1 /\ left' = chunks[ci + 1] /\ UNCHANGED out
       ELSE IF ~IsLetter(text[pos]) \/ pos = Len(text) THEN res' = "bad" /\ UNCHANGED <<pos, left, ci, out>>
       ELSE IF ~IsLetter(text[pos + 1]) THEN res' = "bad" /\ UNCHANGED <<pos, left, ci, out>>
       ELSE /\ out' = Append(out, 16 * Digit(text[pos]) + Digit(text[pos + 1]))
            /\ pos' = pos + 2 /\ left' = left - 1 /\ UNCHANGED <<res, ci>>
MSpec == Init /\ [][Step]_mvars
Agrees == /\ res = "ok" => Parse(text, chunks) = <<out>>
          /\ res = "bad" => Parse(text, chunks) = <<>>
\* one text for one sequence of bytes
OneForm == res = "ok" => Format(out, chunks) = text
RoundTrip == \A bs \in UNION {[1..n -> ByteSet] : n \in 0..MaxBytes} : \A g \in {2, 3, 4} :
                (Len(bs) <= FoldLeft(LAMBDA a, x : a + x, 0, GetChunks(g))) => Parse(Format(bs, GetChunks(g)), GetChunks(g)) = <<bs>>
ASSUME RoundTrip
=============================================================================
