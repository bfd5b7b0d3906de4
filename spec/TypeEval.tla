------------------------------ MODULE TypeEval ------------------------------
(***************************************************************************)
(* C05: resolving typedefs.  A type is [b, q, ds]: base, qualifiers of the *)
(* base and the derivations in the order they are applied, each with its   *)
(* qualifiers.  The state is the typedef table, which may change between   *)
(* evaluations; an evaluation changes nothing.                             *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxSteps, Mode      \* "small", "rich", "chain"

D(k, dq, n) == [k |-> k, q |-> dq, n |-> n]
Ty(b, tq, tds) == [b |-> b, q |-> tq, ds |-> tds]

Names == IF Mode = "rich" THEN <<"A", "B", "C", "D", "E">>
         ELSE IF Mode = "chain" THEN [i \in 1..60 |-> "T" \o ToString(i)]
         ELSE <<"A", "B", "C">>
NameSet == Range(Names)
Fund == <<"int", "unsigned long", "struct S", "signed char", "enum E1", "float", "union U", "signed">>
Unknown == <<"X">>
Bases == Names \o (IF Mode = "rich" THEN Fund \o Names ELSE <<"int">>) \o Unknown
FundSet == Range(Fund)

NoType == Ty("", <<>>, <<>>)

\* Derivations the generator attaches: k, qualifiers, size or signature
Ders == << <<>>, <<D("ptr", <<>>, 0)>>, <<D("arr", <<>>, 3)>>,
           <<D("arr", <<>>, 2), D("arr", <<>>, 5)>>,
           <<D("ptr", <<"const">>, 0), D("ptr", <<>>, 0)>>,
           <<D("fun", <<>>, 1)>>, <<D("fun", <<>>, 2), D("ptr", <<"volatile">>, 0)>>,
           <<D("arr", <<>>, 4), D("ptr", <<>>, 0)>>,
           <<D("ptr", <<>>, 0), D("arr", <<>>, 7), D("arr", <<>>, 8)>>,
           <<D("ptr", <<>>, 0), D("arr", <<>>, -1)>> >>
SmallDers == SubSeq(Ders, 1, 4)
Quals == << <<>>, <<>>, <<"const">>, <<"volatile">> >>

\* Legal C: no arrays of functions or unsized arrays, no function returning those
Legal(ds) == \A i \in 1..(Len(ds) - 1) :
  CASE ds[i + 1].k = "arr" -> ds[i].k # "fun" /\ ~(ds[i].k = "arr" /\ ds[i].n = -1)
    [] ds[i + 1].k = "fun" -> ds[i].k = "ptr"
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* One step: replace the typedef name by what it stands for.               *)
AddQual(t, more) ==
  IF t.ds = <<>> THEN Ty(t.b, t.q \o more, t.ds)
  ELSE Ty(t.b, t.q, [t.ds EXCEPT ![Len(t.ds)].q = @ \o more])
Through(def, t) ==
  LET d == AddQual(def, t.q) IN Ty(d.b, d.q, d.ds \o t.ds)

Ok(t) == [ok |-> TRUE, t |-> t]
Error == [ok |-> FALSE, t |-> NoType]
RECURSIVE Eval(_, _, _)
Eval(t, tab, used) ==
  IF t.b \in FundSet THEN Ok(t)
  ELSE IF t.b \in used \/ t.b \notin NameSet THEN Error
  ELSE IF tab[t.b] = NoType THEN Error
  ELSE Eval(Through(tab[t.b], t), tab, used \cup {t.b})

----------------------------------------------------------------------------
VARIABLES hist, table
vars == <<hist, table>>

Ev(k, n, t, r) == [k |-> k, n |-> n, t |-> t, r |-> r]
Init == hist = <<>> /\ table = [n \in NameSet |-> NoType]
\* T1 -> T2 -> ... with a derivation now and then
InitChain ==
  /\ hist = <<>>
  /\ \E last \in {"int", "X", "T1", "T30", "T60"} :
       table = [n \in NameSet |->
          LET i == CHOOSE i \in 1..60 : Names[i] = n
          IN Ty(IF i = 60 THEN last ELSE Names[i + 1],
                IF i % 7 = 0 THEN <<"const">> ELSE <<>>,
                IF i % 5 = 0 THEN Ders[2] ELSE IF i % 11 = 0 THEN Ders[3] ELSE <<>>)]

Step(e) == Len(hist) < MaxSteps /\ hist' = Append(hist, e)

Define(n, t) == Step(Ev("def", n, t, Error)) /\ table' = [table EXCEPT ![n] = t]
Remove(n) == /\ table[n] # NoType /\ Step(Ev("del", n, NoType, Error))
             /\ table' = [table EXCEPT ![n] = NoType]
Query(t) ==
  /\ LET r == Eval(t, table, {})
     IN (~r.ok \/ Legal(r.t.ds)) /\ Step(Ev("eval", "", t, r))
  /\ UNCHANGED table

R(s) == {RandomElement(1..(Len(s) + 0 * Len(hist)))}
P(s) == IF Mode = "rich" THEN R(s) ELSE 1..Len(s)
RandType(i) == Ty(Bases[RandomElement(1..(Len(Bases) + 0 * i))],
                  Quals[RandomElement(1..(Len(Quals) + 0 * i))],
                  Ders[RandomElement(1..(Len(Ders) + 0 * i))])
NextRich ==
  \/ \E i \in P(Names) : Define(Names[i], RandType(Len(hist)))
  \/ \E i \in P(Names) : Define(Names[i], RandType(Len(hist)))
  \/ \E i \in P(Names) : Remove(Names[i])
  \/ \E k \in 1..4 : Query(RandType(Len(hist) + k))
\* a table of three typedefs, then one evaluation
NextSmall ==
  IF Len(hist) < 3
  THEN \E i \in 1..Len(Bases), j \in 1..Len(SmallDers) :
         Define(Names[Len(hist) + 1], Ty(Bases[i], <<>>, SmallDers[j]))
  ELSE \E j \in 1..4 : Query(Ty("A", Quals[4], SmallDers[j]))
NextChain == \E i \in 1..60, j \in 1..2 : Query(Ty(Names[i], <<>>, Ders[j]))
Next == CASE Mode = "small" -> NextSmall [] Mode = "rich" -> NextRich [] OTHER -> NextChain

----------------------------------------------------------------------------
(* Properties of the design.                                               *)
Edge(n) == IF n \in NameSet THEN table[n].b ELSE ""
RECURSIVE Walk(_, _)
Walk(n, k) == IF k = 0 THEN n ELSE Walk(Edge(n), k - 1)
\* An evaluation fails exactly if following the names never ends in a
\* fundamental type (a cycle or an unknown name)
FailsRight ==
  hist # <<>> /\ Last(hist).k = "eval" =>
    LET e == Last(hist)
    IN e.r.ok <=> \E k \in 0..Len(Names) : Walk(e.t.b, k) \in FundSet
Resolved == hist # <<>> /\ Last(hist).k = "eval" /\ Last(hist).r.ok =>
              LET e == Last(hist)
              IN /\ e.r.t.b \in FundSet
                 \* the type's own derivations come last and in full
                 /\ Len(e.r.t.ds) >= Len(e.t.ds)
                 /\ SubSeq(e.r.t.ds, Len(e.r.t.ds) - Len(e.t.ds) + 1, Len(e.r.t.ds)) = e.t.ds
                 \* evaluating the result again changes nothing
                 /\ Eval(e.r.t, table, {}) = e.r
Pure == [][hist' # hist /\ Last(hist').k = "eval" => table' = table]_vars

Gen == (Len(hist) = MaxSteps) => Emit([h |-> hist])
GenChain == (Len(hist) = MaxSteps) => Emit([h |-> hist, tab |-> table])
=============================================================================
