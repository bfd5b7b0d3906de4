------------------------------- MODULE VUtil -------------------------------
(* Operators shared by all modules of the specification.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

\* Print one behaviour with the observations the specification allows.
Emit(x) == PrintT(<<"CASE", ToJson(x)>>)

\* All pairs of two sequences, as a sequence
Cross(a, b) == [k \in 1..(Len(a) * Len(b)) |->
                  <<a[((k - 1) \div Len(b)) + 1], b[((k - 1) % Len(b)) + 1]>>]

MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeqs(Tail(ss))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
=============================================================================
