------------------------------ MODULE GenRedact ------------------------------
EXTENDS Redact, Json
CONSTANTS First, MaxLines
Hex == <<"0", "1", "db8", "FFFF", "2001", "ab", "0a0b">>
Oct == <<"0", "7", "10", "255", "192", "001">>
I(k, t) == [k |-> k, t |-> t]
Secrets0 == {I("v6", V6Full(Segs(8, f, Hex))) : f \in First}
    \cup {I("v6", V6Short(Segs(p[1], p[3], Hex), Segs(p[2], p[3] + 3, Hex))) : p \in {q \in (0..7) \X (0..7) \X First : q[1] + q[2] <= 7}}
    \cup {I("v6", V6Zone(Segs(n, f, Hex), z)) : n \in 1..4, f \in First, z \in {"1", "eth0", "wlan0"}}
    \cup {I("v6", V6Of4(Segs(n, f, Hex), V4(Segs(4, f, Oct)))) : n \in 0..4, f \in First}
    \cup {I("v6", p \o V4(Segs(4, f, Oct))) : p \in {"::ffff:", "::FFFF:", "::ffff:0:", "::ffff:0000:"}, f \in First}
    \cup {I("v4", V4(Segs(4, f, Oct))) : f \in 0..5} \cup {I("v4", V4(Segs(3, f, Oct)) \o ".x") : f \in First}
    \cup {I("foundation", "candidate:" \o n) : n \in {"0", "1", "4294967295", "123456789012345678901234567890"}}
    \cup {I("pwd", p) : p \in {"a=ice-pwd:aB3+/xyz", "ice-pwd", " ice-pwd:1.2.3.4 and more"}}
Secrets == SetToSeq(Secrets0)
Words == <<"", "text ", "@", "<", "raddr=", "at 12:34:56 v1.2.3 ", "c=IN IP4 ", "[", "a=ice-ufrag:X ", "1 udp 2122270975 ">>
After == <<"", " 54609 typ host", "]:443", ">", ":80 and 7", ", ", "/64">>
W(t) == I("word", t)
VARIABLES lines
Init == lines = <<>>
Add(x) == lines' = Append(lines, x)
\* one secret in every surrounding; then lines with two secrets; then further lines
Next == \/ lines = <<>> /\ \E s \in DOMAIN Secrets, w \in DOMAIN Words, a \in DOMAIN After : Add(<<W(Words[w]), Secrets[s], W(After[a])>>)
        \/ lines = <<>> /\ \E s, t \in DOMAIN Secrets : Add(<<Secrets[s], W(" "), Secrets[t]>>)
        \/ lines = <<>> /\ \E w \in DOMAIN Words, a \in DOMAIN After : Add(<<W(Words[w]), W(After[a])>>)
        \/ /\ lines # <<>> /\ Len(lines) < MaxLines /\ Len(lines[1]) = 2
           /\ \E s \in DOMAIN Secrets : Add(<<W("x "), Secrets[s]>>)
Spec == Init /\ [][Next]_lines
Emit == lines = <<>> \/ PrintT("SCRIPT " \o ToJson(lines))
\* what is shown says nothing about the secrets: other secrets of the same kinds would be shown alike
Blind == \A s \in DOMAIN Secrets :
    LET other(i) == IF i.k = Secrets[s].k THEN Secrets[s] ELSE i
    IN ShownText([n \in DOMAIN lines |-> [m \in DOMAIN lines[n] |-> other(lines[n][m])]]) = ShownText(lines)
=============================================================================
