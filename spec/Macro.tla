------------------------------- MODULE Macro -------------------------------
(***************************************************************************)
(* C02: the macro table and macro expansion.                               *)
(*                                                                         *)
(* Text is a sequence of tokens.  The state is the table of the macros in  *)
(* force; #define expands the macros known so far in the replacement text  *)
(* and stores it, uses are replaced by the stored text (no rescanning).    *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxSteps, Rich, Many

Names == <<"A", "F", "G">> \o (IF Many THEN [i \in 1..30 |-> "M" \o ToString(i)] ELSE <<>>)
NameSet == Range(Names)

None == [k |-> "none", params |-> <<>>, body |-> <<>>]
Obj(b) == [k |-> "obj", params |-> <<>>, body |-> b]
Fn(p, b) == [k |-> "fn", params |-> p, body |-> b]

----------------------------------------------------------------------------
(* Calls: the argument list which starts at ts[1] = "(".                    *)

\* Scan the arguments: d nesting depth, cur the argument being read
RECURSIVE Scan(_, _, _, _)
Scan(ts, d, cur, args) ==
  IF ts = <<>> THEN [ok |-> FALSE, args |-> <<>>, rest |-> <<>>]
  ELSE LET h == Head(ts)  r == Tail(ts)
       IN IF h = ")" /\ d = 0 THEN [ok |-> TRUE, args |-> Append(args, cur), rest |-> r]
          ELSE IF h = "," /\ d = 0 THEN Scan(r, 0, <<>>, Append(args, cur))
          ELSE Scan(r, IF h = "(" THEN d + 1 ELSE IF h = ")" THEN d - 1 ELSE d,
                    Append(cur, h), args)

IsCall(ts) == ts # <<>> /\ ts[1] = "(" /\ Scan(Tail(ts), 0, <<>>, <<>>).ok
Call(ts) == Scan(Tail(ts), 0, <<>>, <<>>)

Index(p, x) == CHOOSE i \in 1..Len(p) : p[i] = x
\* Replace every parameter by its argument, all at once
Subst(m, args) ==
  FlattenSeqs(MapSeq(m.body, LAMBDA t :
    IF t \in Range(m.params) THEN args[Index(m.params, t)] ELSE <<t>>))

RECURSIVE Expand(_, _)
RECURSIVE ExpandAll(_, _)
ExpandAll(ss, mac) == IF ss = <<>> THEN <<>>
                      ELSE <<Expand(Head(ss), mac)>> \o ExpandAll(Tail(ss), mac)
Expand(ts, mac) ==
  IF ts = <<>> THEN <<>>
  ELSE LET h == Head(ts)  r == Tail(ts)
       IN IF h \in NameSet /\ mac[h].k = "obj" THEN mac[h].body \o Expand(r, mac)
          ELSE IF h \in NameSet /\ mac[h].k = "fn" /\ IsCall(r)
          THEN LET c == Call(r)
               IN Subst(mac[h], ExpandAll(c.args, mac)) \o Expand(c.rest, mac)
          ELSE <<h>> \o Expand(r, mac)

\* Text whose calls have the right number of arguments (others are errors in C)
RECURSIVE Good(_, _)
RECURSIVE GoodAll(_, _)
GoodAll(ss, mac) == \A i \in 1..Len(ss) : Good(ss[i], mac)
Good(ts, mac) ==
  IF ts = <<>> THEN TRUE
  ELSE LET h == Head(ts)  r == Tail(ts)
       IN IF h \in NameSet /\ mac[h].k = "fn" /\ r # <<>> /\ r[1] = "("
          THEN /\ IsCall(r)
               /\ LET c == Call(r)
                  IN /\ IF mac[h].params = <<>> THEN c.args = <<<<>>>>
                        ELSE Len(c.args) = Len(mac[h].params)
                     /\ GoodAll(c.args, mac)
                     /\ Good(c.rest, mac)
          ELSE Good(r, mac)

----------------------------------------------------------------------------
(* Replacement texts and uses.  N is replaced by a macro name.             *)

Inst(ts, n) == MapSeq(ts, LAMBDA t : IF t = "N" THEN n ELSE
                 IF t = "\"N\"" THEN "\"" \o n \o "\"" ELSE
                 IF t = "'N'" THEN "'" \o n \o "'" ELSE
                 IF t = "N_1" THEN n \o "_1" ELSE IF t = "xN" THEN "x" \o n ELSE t)

ObjBodies == << <<"1">>, <<>>, <<"N">>, <<"(", "N", "+", "2", ")">>,
                <<"N", "(", "3", ")">>, <<"\"N\"">>, <<"N", "(", "1", ",", "N", ")">>,
                <<"z", "N_1">>, <<"unsigned", "N">>, <<"{", "N", "}">> >>
FnBodies == << <<"x">>, <<"(", "x", "+", "x", ")">>, <<"N", "*", "x">>,
               <<"N", "(", "x", ")">>, <<"x", "\"x N\"", "'x'">>, <<"{", "x", "}">>,
               <<"N", "(", "x", ",", "N", ")">>, <<"xx", "+", "N", "(", "(", "x", ")", ")">>,
               <<>> >>
FnBodies2 == << <<"y", "-", "x">>, <<"x">>, <<"N", "(", "y", ")", "x">>,
                <<"N", "(", "y", ",", "x", ")">>, <<"{", "y", ",", "{", "x", "}", "}">> >>
FnBodies3 == << <<"w", "y", "x">>, <<"N", "(", "w", ",", "x", ")", "y">>, <<"w", "+", "w", "N">>,
                <<"\"w\"", "(", "x", ",", "y", ",", "w", ")">> >>
FnBodies0 == << <<"7">>, <<"N", "+", "1">>, <<"(", "N", "(", "5", ")", ")">> >>

Uses == << <<"N">>, <<"N", "(", "1", ")">>, <<"N", "(", "1", ",", "2", ")">>,
           <<"N", "(", "(", "1", ",", "2", ")", ",", "3", ")">>,
           <<"N", "(", ")">>, <<"N", "(", "A", ")">>, <<"N", "(", "F", "(", "1", ")", ")">>,
           <<"N", "(", "G", "(", "1", ",", "A", ")", ",", "F", ")">>,
           <<"N", "(", "\"a,)N\"", ")">>, <<"N", "(", "','", ",", "\"(\"", ")">>,
           <<"N", "N", ";", "N", "+", "N">>, <<"\"N\"", "N", "'N'">>,
           <<"N_1", "xN", "N">>, <<"N", "(", "N", "(", "N", "(", "1", ")", ")", ")", "N">>,
           <<"f", "(", "N", "(", "1", ")", ",", "N", ")">>,
           <<"\"\\\"\"", "N", "\"\\\\\"", "N">>, <<"N", "[", "N", "(", "0", ")", "]">>,
           <<"{", "N", "(", "{", "}", ")", "}">>,
           <<"N", "(", "\"s\"", "A", ",", "(", "A", ",", "'A'", ")", ")">>, <<"N", "(", "A", "\"A\"", ")">>,
           <<"N", "(", "1", ",", "A", "'x'", ",", "(", "(", "F", ")", ")", ")">>, <<"N", "(", "[", "A", ",", "2", "]", ")">>,
           <<"N", "(", ",", ")", "N", "(", ",", ",", ")">>, <<"N", "(", "F", "(", "2", ",", "3", ")", ",", "G", "(", "4", ")", ",", "N", ")">> >>

----------------------------------------------------------------------------
VARIABLES hist, mac
vars == <<hist, mac>>

Init == hist = <<>> /\ mac = [n \in NameSet |-> None]

NoSelf(n, b) == n \notin Range(b)

\* What #define makes of a replacement text
Alias(b) == Len(b) = 1 /\ b[1] \in NameSet /\ mac[b[1]].k = "fn"
ObjEntry(b) ==
  LET e == Expand(b, mac)
  IN IF Alias(e) THEN mac[e[1]] ELSE Obj(e)

Step(l, ms) == /\ Len(hist) < MaxSteps
               /\ hist' = Append(hist, l)
               /\ mac' = ms

DefObj(n, b) ==
  /\ NoSelf(n, b) /\ Good(b, mac)
  /\ Step([k |-> "obj", n |-> n, params |-> <<>>, b |-> b, e |-> <<>>],
          [mac EXCEPT ![n] = ObjEntry(b)])
DefFn(n, p, b) ==
  /\ NoSelf(n, b) /\ Good(b, mac)
  /\ Step([k |-> "fn", n |-> n, params |-> p, b |-> b, e |-> <<>>],
          [mac EXCEPT ![n] = Fn(p, Expand(b, mac))])
Undefine(n) == Step([k |-> "undef", n |-> n, params |-> <<>>, b |-> <<>>, e |-> <<>>],
                    [mac EXCEPT ![n] = None])
\* Text takes no effect on the table
Use(ts) == /\ Good(ts, mac)
           /\ Step([k |-> "use", n |-> "", params |-> <<>>, b |-> ts, e |-> Expand(ts, mac)], mac)
File == /\ hist # <<>> /\ Last(hist).k # "file"
        /\ Step([k |-> "file", n |-> "", params |-> <<>>, b |-> <<>>, e |-> <<>>], mac)

P(s) == IF Rich THEN {RandomElement(1..(Len(s) + 0 * Len(hist)))} ELSE 1..Len(s)
P1 == << <<"x">> >>

Defs ==
  \/ \E i \in P(Names), j \in P(ObjBodies), k \in P(Names) :
       DefObj(Names[i], Inst(ObjBodies[j], Names[k]))
  \/ \E i \in P(Names), j \in P(FnBodies), k \in P(Names) :
       DefFn(Names[i], <<"x">>, Inst(FnBodies[j], Names[k]))
  \/ \E i \in P(Names), j \in P(FnBodies2), k \in P(Names) :
       DefFn(Names[i], <<"x", "y">>, Inst(FnBodies2[j], Names[k]))
  \/ \E i \in P(Names), j \in P(FnBodies3), k \in P(Names) :
       DefFn(Names[i], <<"x", "y", "w">>, Inst(FnBodies3[j], Names[k]))
  \/ \E i \in P(Names), j \in P(FnBodies0), k \in P(Names) :
       DefFn(Names[i], <<>>, Inst(FnBodies0[j], Names[k]))
  \/ \E i \in P(Names) : Undefine(Names[i])

\* Many macros of many parameters, with random texts
ParamSeq == << "x", "y", "w", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15" >>
Words == <<"+", "-", "*", "z", "1", "[", "]", "&", "\"x, A\"", "unsigned", "'F'", "42">>
Word(k, v, w) == IF v <= 24 /\ k > 0 THEN ParamSeq[1 + ((v + 3 * w) % k)]
                 ELSE IF v <= 30 THEN Names[1 + ((5 * v + w) % Len(Names))] ELSE Words[1 + ((v + w) % Len(Words))]
WordSeq(k, n, xs) == [i \in 1..n |-> Word(k, xs[i], xs[i + 1])]
RECURSIVE ArgList(_, _, _)
ArgList(i, k, xs) ==
  IF i > k THEN <<>>
  ELSE (IF i > 1 THEN <<",">> ELSE <<>>) \o WordSeq(0, 1 + (xs[i] % 2), SubSeq(xs, i + 1, Len(xs))) \o ArgList(i + 1, k, xs)
Fits(n, b) == NoSelf(n, b) /\ Good(b, mac) /\ Len(Expand(b, mac)) < 60
DrawMany ==
  \E r \in {RandomElement(1..(10 + 0 * Len(hist)))}, i \in P(Names), k \in {RandomElement(0..(15 + 0 * Len(hist)))}, n \in {RandomElement(1..(14 + 0 * Len(hist)))},
     xs \in {[j \in 1..40 |-> RandomElement(1..(40 + 0 * Len(hist) + 0 * j))]} :
    LET name == Names[i]
        called == {m \in NameSet : mac[m].k = "fn"}
        f == IF called = {} THEN name ELSE CHOOSE m \in called : TRUE
        ff == IF r % 2 = 0 /\ mac[name].k = "fn" THEN name ELSE f
        use == <<ff, "(">> \o ArgList(1, Len(mac[ff].params), xs) \o <<")">> \o WordSeq(0, n, SubSeq(xs, 20, 40))
        plain == WordSeq(0, n, xs)
    IN IF r <= 3 /\ Fits(name, WordSeq(k, n, xs)) THEN DefFn(name, SubSeq(ParamSeq, 1, k), WordSeq(k, n, xs))
       ELSE IF r <= 6 /\ Fits(name, plain) THEN DefObj(name, plain)
       ELSE IF r = 7 /\ n = 1 THEN Undefine(name)
       ELSE IF r = 8 /\ n <= 3 /\ (IF hist = <<>> THEN FALSE ELSE Last(hist).k # "file") THEN File
       ELSE IF called # {} /\ Fits("", use) THEN Use(use)
       ELSE IF Fits("", plain) THEN Use(plain) ELSE Undefine(name)

Next == Defs \/ (Rich /\ (File \/ \E k \in P(Uses), i \in P(Names) : Use(Inst(Uses[k], Names[i]))))

----------------------------------------------------------------------------
(* Properties of the design.                                               *)

\* In the stored texts no object-like macro of an earlier definition remains
\* unexpanded at the time of definition
Latest == \A n \in NameSet :
  LET ds == {i \in 1..Len(hist) : hist[i].n = n}
  IN IF ds = {} THEN mac[n] = None
     ELSE LET d == hist[CHOOSE i \in ds : \A j \in ds : j <= i]
          IN /\ (d.k = "undef") <=> mac[n] = None
             /\ d.k = "fn" => mac[n].k = "fn" /\ mac[n].params = d.params
\* Expansion leaves no use of an object-like macro that was not in a stored text
TextInert == [][hist'[Len(hist')].k \in {"use", "file"} => mac' = mac]_vars
LocalDef == [][\A n \in NameSet : hist'[Len(hist')].n # n => mac'[n] = mac[n]]_vars
\* Text without macros is left as it is
Fixed == \A k \in 1..Len(Uses), i \in 1..Len(Names) :
  LET u == Inst(Uses[k], Names[i])
  IN (\A j \in 1..Len(u) : u[j] \in NameSet => mac[u[j]] = None) => Expand(u, mac) = u

Final == [n \in NameSet |-> mac[n]]
AllUses == LET us == FlattenSeqs(MapSeq(Names, LAMBDA n : MapSeq(Uses, LAMBDA u : Inst(u, n))))
           IN SelectSeq(us, LAMBDA u : Good(u, mac))
Gen == (IF Rich THEN Len(hist) = MaxSteps ELSE hist # <<>>) =>
         Emit([h |-> hist, fin |-> Final,
               u |-> IF Rich THEN <<>> ELSE MapSeq(AllUses, LAMBDA u : [b |-> u, e |-> Expand(u, mac)])])
=============================================================================
