------------------------------- MODULE Base16 -------------------------------
(* Texts of call-link root keys (lite/call_links/base16.rs, root_key.rs).     *)
(* A text is a sequence of one-character strings; bytes are numbers.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Letters == <<"b", "c", "d", "f", "g", "h", "k", "m", "n", "p", "q", "r", "s", "t", "x", "z">>
Sep == "-"
IsLetter(c) == \E i \in 1..16 : Letters[i] = c
Digit(c) == CHOOSE i \in 0..15 : Letters[i + 1] = c
RECURSIVE Split(_)
Split(t) == \* maximal runs between separators
    IF \A i \in DOMAIN t : t[i] # Sep THEN <<t>>
    ELSE LET k == CHOOSE i \in DOMAIN t : t[i] = Sep /\ \A j \in 1..(i - 1) : t[j] # Sep
         IN <<SubSeq(t, 1, k - 1)>> \o Split(SubSeq(t, k + 1, Len(t)))
Bytes(ls) == [i \in 1..(Len(ls) \div 2) |-> 16 * Digit(ls[2 * i - 1]) + Digit(ls[2 * i])]

\* A text over groups of chunks[1], chunks[2]... bytes: each group but the last is full, the last is not empty
\* and not over-full; the empty text stands for no bytes.
WellFormed(t, chunks) ==
    LET g == Split(t) n == Len(g) IN
    \/ t = <<>>
    \/ /\ n <= Len(chunks)
       /\ \A i \in 1..n : /\ \A j \in DOMAIN g[i] : IsLetter(g[i][j])
                          /\ Len(g[i]) % 2 = 0 /\ Len(g[i]) > 0
                          /\ IF i < n THEN Len(g[i]) = 2 * chunks[i] ELSE Len(g[i]) <= 2 * chunks[i]
Value(t) == Bytes(SelectSeq(t, LAMBDA c : c # Sep))
Parse(t, chunks) == IF WellFormed(t, chunks) THEN <<Value(t)>> ELSE <<>>      \* <<>>: refused

Pair(b) == <<Letters[(b \div 16) + 1], Letters[(b % 16) + 1]>>
RECURSIVE Format(_, _)
Format(bs, chunks) ==    \* bs fits the chunks
    IF bs = <<>> THEN <<>>
    ELSE LET c == IF Head(chunks) > Len(bs) THEN Len(bs) ELSE Head(chunks)
             head == FlattenSeq([i \in 1..c |-> Pair(bs[i])])
         IN IF c = Len(bs) THEN head ELSE head \o <<Sep>> \o Format(SubSeq(bs, c + 1, Len(bs)), Tail(chunks))

-----------------------------------------------------------------------------
(* Root keys: 16 random bytes (version 0), or these, a version byte whose high bit marks a key *)
(* the server has not completed yet, and four bytes from the server (version 1).               *)
Chunks0 == <<2, 2, 2, 2, 2, 2, 2, 2>>
Chunks1 == <<4, 4, 4, 4, 1, 4>>
LooksRandom(bs) == \A i \in 1..8 : LET a == bs[2 * i - 1] b == bs[2 * i] IN ~(a = b /\ a \div 16 = a % 16)
NoKey == [v |-> 9, b |-> <<>>]
FromBytes(bs) ==
    IF Len(bs) = 16 /\ LooksRandom(bs) THEN [v |-> 0, b |-> bs]
    ELSE IF Len(bs) = 21 /\ bs[17] % 128 = 1 /\ LooksRandom(bs) THEN [v |-> 1, b |-> bs]
    ELSE NoKey
FromText(t) ==
    LET p0 == Parse(t, Chunks0) p1 == Parse(t, Chunks1) IN
    IF p0 # <<>> /\ Len(p0[1]) = 16 THEN FromBytes(p0[1])
    ELSE IF p1 # <<>> /\ Len(p1[1]) = 21 THEN FromBytes(p1[1])
    ELSE NoKey
ToText(k) == IF k.v = 0 THEN Format(k.b, Chunks0) ELSE Format(k.b, Chunks1)
Usable(k) == k.v = 0 \/ k.b[17] < 128
\* names are sealed under the random part and the version
SealedUnder(k) == <<k.v, SubSeq(k.b, 1, 16)>>
=============================================================================
