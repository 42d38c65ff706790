-------------------------------- MODULE Wire --------------------------------
(* The byte form of messages (protocol buffers), written as a reader: which   *)
(* byte strings are messages at all, and what each of them says.              *)
(* A number is the sequence of its base-128 digits, least significant first,  *)
(* without high zeros (TLC's integers are too small for 64 bits).             *)
EXTENDS Integers, Sequences, SequencesExt
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % 128>> \o Digits(n \div 128)
Low32(d) == Strip(IF Len(d) < 5 THEN d ELSE SubSeq(d, 1, 4) \o <<d[5] % 16>>)
\* a number that is certainly small, else cap
Small(d, cap) == IF Len(d) > 3 THEN cap
                 ELSE LET n == (IF Len(d) > 0 THEN d[1] ELSE 0) + (IF Len(d) > 1 THEN 128 * d[2] ELSE 0) + (IF Len(d) > 2 THEN 16384 * d[3] ELSE 0)
                      IN IF n > cap THEN cap ELSE n

Bad == [ok |-> FALSE]
RECURSIVE Varint(_, _, _)
Varint(b, i, acc) ==   \* at most ten bytes, the value below 2^64
    IF i > Len(b) \/ Len(acc) = 10 THEN Bad
    ELSE IF b[i] >= 128 THEN Varint(b, i + 1, Append(acc, b[i] - 128))
    ELSE IF Len(acc) = 9 /\ b[i] > 1 THEN Bad
    ELSE [ok |-> TRUE, d |-> Strip(Append(acc, b[i])), next |-> i + 1]
Key(b, i) ==           \* field number and wire type
    LET v == Varint(b, i, <<>>) IN
    IF ~v.ok THEN Bad
    ELSE IF Len(v.d) > 5 \/ (Len(v.d) = 5 /\ v.d[5] > 15) THEN Bad
    ELSE LET D(k) == IF k <= Len(v.d) THEN v.d[k] ELSE 0
             tag == D(1) \div 8 + 16 * D(2) + 2048 * D(3) + 262144 * D(4) + 33554432 * D(5)
             wt == D(1) % 8
         IN IF tag = 0 \/ wt > 5 THEN Bad ELSE [ok |-> TRUE, tag |-> tag, wt |-> wt, next |-> v.next]
RECURSIVE Field(_, _)
RECURSIVE Group(_, _, _)
Group(b, i, tag) ==    \* skips to the end of the group
    LET k == Key(b, i) IN
    IF ~k.ok THEN Bad
    ELSE IF k.wt = 4 THEN IF k.tag = tag THEN [ok |-> TRUE, next |-> k.next] ELSE Bad
    ELSE LET f == Field(b, i) IN IF f.ok THEN Group(b, f.next, tag) ELSE Bad
Field(b, i) ==         \* one field: number, wire type, value
    LET k == Key(b, i) IN
    IF ~k.ok THEN Bad
    ELSE LET F(v, n) == [ok |-> TRUE, tag |-> k.tag, wt |-> k.wt, v |-> v, next |-> n] IN
    CASE k.wt = 0 -> LET v == Varint(b, k.next, <<>>) IN IF v.ok THEN F(v.d, v.next) ELSE Bad
      [] k.wt = 1 -> IF k.next + 7 <= Len(b) THEN F(SubSeq(b, k.next, k.next + 7), k.next + 8) ELSE Bad
      [] k.wt = 5 -> IF k.next + 3 <= Len(b) THEN F(SubSeq(b, k.next, k.next + 3), k.next + 4) ELSE Bad
      [] k.wt = 2 -> LET v == Varint(b, k.next, <<>>) IN
            IF ~v.ok THEN Bad
            ELSE LET n == Small(v.d, 1000000) IN
                 IF v.next + n - 1 <= Len(b) THEN F(SubSeq(b, v.next, v.next + n - 1), v.next + n) ELSE Bad
      [] k.wt = 3 -> LET g == Group(b, k.next, k.tag) IN IF g.ok THEN F(<<>>, g.next) ELSE Bad
      [] OTHER -> Bad
RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, fs |-> acc]
    ELSE LET f == Field(b, i) IN IF f.ok THEN FieldsFrom(b, f.next, Append(acc, f)) ELSE Bad
\* all fields of a message whose known fields have the wire types want[tag]
Read(b, want) ==
    LET r == FieldsFrom(b, 1, <<>>) IN
    IF ~r.ok THEN Bad
    ELSE IF \E i \in DOMAIN r.fs : r.fs[i].tag \in DOMAIN want /\ want[r.fs[i].tag] # r.fs[i].wt THEN Bad
    ELSE r
With(r, tag) == LET fs == SelectSeq(r.fs, LAMBDA f : f.tag = tag) IN [i \in DOMAIN fs |-> fs[i].v]
Last1(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>

RECURSIVE Utf8(_, _)
Utf8(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET In(k, lo, hi) == k <= Len(b) /\ b[k] >= lo /\ b[k] <= hi
             c == b[i] IN
         IF c < 128 THEN Utf8(b, i + 1)
         ELSE IF c \in 194..223 THEN In(i + 1, 128, 191) /\ Utf8(b, i + 2)
         ELSE IF c \in 224..239 THEN /\ In(i + 1, IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191)
                                     /\ In(i + 2, 128, 191) /\ Utf8(b, i + 3)
         ELSE IF c \in 240..244 THEN /\ In(i + 1, IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191)
                                     /\ In(i + 2, 128, 191) /\ In(i + 3, 128, 191) /\ Utf8(b, i + 4)
         ELSE FALSE
AllUtf8(ss) == \A i \in DOMAIN ss : Utf8(ss[i], 1)
=============================================================================
