------------------------------- MODULE Redact -------------------------------
(* Public log text (core/util.rs redact_string).  A text is a sequence of     *)
(* lines, a line a sequence of items [k |-> kind, t |-> text]; "word" items   *)
(* are harmless, every other kind must not be readable afterwards.            *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Shown(i) == CASE i.k = "word" -> i.t
              [] i.k = "v4" -> "[REDACTED ipv4]"
              [] i.k = "v6" -> "[REDACTED ipv6]"
              [] i.k = "foundation" -> "candidate:******"
              [] i.k = "pwd" -> ""
Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, "", ss)
ShownLine(line) == IF \E n \in DOMAIN line : line[n].k = "pwd" THEN "a=ice-pwd:[ REDACTED ]"
                   ELSE Cat([n \in DOMAIN line |-> Shown(line[n])])
ShownText(lines) == [n \in DOMAIN lines |-> ShownLine(lines[n])]

\* a device name is shown by its first four characters, or the first one if it is not plain ASCII
ShownName(name, ascii) ==
    LET n == IF ascii THEN 4 ELSE 1 IN IF Len(name) <= n THEN name ELSE SubSeq(name, 1, n) \o <<".", ".", ".">>
\* an audio backend's message is a sequence of texts and names, as characters
ShownMessage(parts) ==
    FlattenSeq([i \in DOMAIN parts |-> IF parts[i].k = "name" THEN ShownName(parts[i].c, parts[i].ascii) ELSE parts[i].c])

\* the ways an address is written
Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, Head(ss), Tail(ss))
Segs(n, first, all) == [i \in 1..n |-> all[((first + i) % Len(all)) + 1]]
V4(o) == Join(o, ".")
V6Full(g) == Join(g, ":")
V6Short(a, b) == Join(a, ":") \o "::" \o Join(b, ":")
V6Zone(g, zone) == "fe80:" \o Cat([i \in DOMAIN g |-> ":" \o g[i]]) \o "%" \o zone
V6Of4(a, v4) == Join(a, ":") \o "::" \o v4
=============================================================================
