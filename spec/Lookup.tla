------------------------------ MODULE Lookup ------------------------------
(***************************************************************************)
(* C12: looking up names in a library.                                     *)
(*                                                                         *)
(* A table has, per kind, definitions by name.  A lookup resolves a name,  *)
(* as it is or with a prefix, to one definition; its result is the object  *)
(* of that definition.  The specification has no memory: what is returned  *)
(* is a function of the table, the prefixes and the lookup.                *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxDefs, MaxLooks

VARIABLES tab,      \* <<kind, name>> -> definition
          pre,      \* prefixes in order
          hist
vars == <<tab, pre, hist>>

Kinds == <<"values", "functions", "types", "structs", "unions", "enums">>
Bases == <<"x", "y", "z">>
Prefixes == << <<>>, <<"P_">>, <<"P_", "Q_">>, <<"Q_", "P_">> >>
NameSeq == <<"x", "P_x", "Q_x", "P_Q_x", "y", "P_y", "Q_y", "z", "P_z", "Q_P_x">>
Names == Range(NameSeq)
\* names whose functions the library has
InLib == Names \ {"z", "P_y"}

Def(k, n) == <<k, n>> \in DOMAIN tab
\* A definition of a type: what it names
\*  [k |-> "int"|"structs"|"unions"|"enums"|"types", n |-> name]
Plain == [k |-> "int", n |-> ""]
Err == [k |-> "error", n |-> ""]

\* What a typedef finally stands for
RECURSIVE Base(_, _)
Base(t, fuel) ==
  IF t.k # "types" THEN t
  ELSE IF fuel = 0 \/ ~ Def("types", t.n) THEN Err
  ELSE Base(tab[<<"types", t.n>>].t, fuel - 1)
BaseOf(n) == Base([k |-> "types", n |-> n], 8)

\* Types which can be built: all they refer to is known
RECURSIVE BuiltFrom(_, _)
BuiltFrom(b, seen) ==
  /\ b # Err
  /\ b.k \in {"structs", "unions"} /\ b \notin seen =>
       BuiltFrom(Base([k |-> "types", n |-> tab[<<b.k, b.n>>].m], 8), seen \cup {b})
Built(b) == BuiltFrom(b, {})
Class(b) == IF ~ Built(b) THEN Err ELSE IF b.k \in {"int", "enums"} THEN [k |-> "class", n |-> "int"] ELSE b

\* Is name n defined in kind k, possibly by a typedef of such a type?
Known(k, n) == Def(k, n) \/ (k \in {"structs", "unions", "enums"} /\ Def("types", n) /\ BaseOf(n).k \in {k, "error"})

Spellings(n) == <<n>> \o MapSeq(pre, LAMBDA p : p \o n)
RECURSIVE FirstIn(_, _)
FirstIn(S, ns) == IF ns = <<>> THEN "" ELSE IF Head(ns) \in S THEN Head(ns) ELSE FirstIn(S, Tail(ns))

\* The object of the definition of n in kind k: structs, unions, enums and
\* functions are one object each; types give the class of what they stand for
Obj(k, n) ==
  CASE k = "values" -> [k |-> "value", n |-> ToString(tab[<<k, n>>].v)]
    [] k = "functions" -> IF n \in InLib /\ Built(BaseOf(tab[<<k, n>>].m)) THEN [k |-> "function", n |-> n] ELSE Err
    [] k = "types" -> Class(BaseOf(n))
    [] k = "enums" -> IF Def(k, n) THEN [k |-> k, n |-> n] ELSE BaseOf(n)
    [] OTHER -> Class(IF Def(k, n) THEN [k |-> k, n |-> n] ELSE BaseOf(n))

ByKind(k, n) ==
  LET s == FirstIn({x \in Names : Known(k, x)}, Spellings(n))
  IN IF s = "" THEN Err ELSE Obj(k, s)
RECURSIVE ByAttr(_, _)
ByAttr(ks, n) ==
  IF ks = <<>> THEN Err
  ELSE LET s == FirstIn({x \in Names : Def(Head(ks), x)}, Spellings(n))
       IN IF s # "" THEN Obj(Head(ks), s) ELSE ByAttr(Tail(ks), n)

\* Lookups: by attribute, by kind; the class of member m of a struct, of
\* what a parameter of a function points to, of the items of an array
Result(l) ==
  CASE l.a = "attr" -> ByAttr(Kinds, l.n)
    [] l.a = "kind" -> ByKind(l.k, l.n)
    [] l.a = "table" -> [k |-> "table", n |-> l.k]
    [] l.a = "member" -> LET o == ByKind(l.k, l.n)
                         IN IF o = Err THEN Err ELSE Obj("types", tab[<<o.k, o.n>>].m)
    [] l.a = "param" -> LET o == ByKind("functions", l.n)
                        IN IF o = Err THEN Err ELSE Obj("types", tab[<<"functions", o.n>>].m)
    [] l.a = "array" -> IF Def("types", l.n) THEN Obj("types", l.n) ELSE Err

Lookups ==
  [a : {"attr"}, k : {""}, n : Names] \cup [a : {"kind"}, k : Range(Kinds), n : Names]
  \cup [a : {"table"}, k : Range(Kinds), n : {""}] \cup [a : {"member"}, k : {"structs", "unions"}, n : Names]
  \cup [a : {"param"}, k : {""}, n : Names] \cup [a : {"array"}, k : {""}, n : Names]

Look(l) == /\ hist' = Append(hist, [l |-> l, r |-> Result(l)])
           /\ UNCHANGED <<tab, pre>>

----------------------------------------------------------------------------
D(t, v, m) == [t |-> t, v |-> v, m |-> m]
T(k, n) == [k |-> k, n |-> n]
\* m: the typedef named by a member or parameter; always defined
FixedTab ==
  (<<"types", "x">> :> D(T("structs", "x"), 0, "x")) @@ (<<"structs", "x">> :> D(Plain, 0, "P_y"))
  @@ (<<"types", "P_x">> :> D(Plain, 0, "x")) @@ (<<"functions", "P_x">> :> D(Plain, 0, "x"))
  @@ (<<"types", "P_y">> :> D(T("types", "Q_y"), 0, "x")) @@ (<<"types", "Q_y">> :> D(T("unions", "y"), 0, "x"))
  @@ (<<"unions", "y">> :> D(Plain, 0, "x")) @@ (<<"values", "Q_x">> :> D(Plain, 5, "x"))
  @@ (<<"enums", "y">> :> D(Plain, 0, "x")) @@ (<<"functions", "z">> :> D(Plain, 0, "x"))
  @@ (<<"types", "z">> :> D(T("enums", "y"), 0, "x")) @@ (<<"structs", "P_x">> :> D(Plain, 0, "P_x"))
FixedLooks == {l \in Lookups : /\ l.n \in {"x", "P_x", "y", "z", "Q_y", "", "P_y"} /\ Result(l) # Err
                               /\ l.a \notin {"table"}}
InitFixed == tab = FixedTab /\ pre \in Range(Prefixes) /\ hist = <<>>
NextFixed == /\ Len(hist) < MaxLooks
             /\ \/ \E l \in FixedLooks : Look(l)
                \/ \E l \in Lookups : l.n \in {"x", "z"} /\ Result(l) = Err /\ Look(l)

\* Random tables, every lookup in a random order
Pick(n) == RandomElement(1..(n + 0 * Cardinality(DOMAIN tab) + 0 * Len(hist)))
Start == (<<"types", "x">> :> D(Plain, 0, "x"))
InitRandom == tab = Start /\ pre \in Range(Prefixes) /\ hist = <<>>
DefSeq == <<"values", "functions", "functions", "types", "types", "types", "structs", "structs", "unions", "enums">>
RefSeq == <<"int", "structs", "structs", "unions", "enums", "types", "types", "missing">>
Refs(k) == {n \in Names : Def(k, n)}
Grow ==
  \E k \in {DefSeq[Pick(10)]}, n \in {NameSeq[Pick(10)]}, r \in {RefSeq[Pick(8)]},
     a \in {Pick(60)}, v \in {Pick(9)} :
    LET rs == SelectSeq(NameSeq, LAMBDA y : Def(r, y))
        t == IF r = "missing" THEN T("types", "nowhere") ELSE IF r = "int" \/ Len(rs) = 0 THEN Plain ELSE T(r, rs[1 + (a % Len(rs))])
        ms == SelectSeq(NameSeq, LAMBDA y : Def("types", y))
        d == D(IF k = "types" THEN t ELSE Plain, v, ms[1 + (a % Len(ms))])
    IN /\ tab' = IF Def(k, n) THEN tab ELSE (<<k, n>> :> d) @@ tab
       /\ UNCHANGED <<pre, hist>>
LookSeq == <<"attr", "attr", "kind", "kind", "kind", "table", "member", "param", "array">>
DrawLook ==
  \E a \in {LookSeq[Pick(9)]}, k \in {Kinds[Pick(6)]}, n \in {NameSeq[Pick(10)]}, s \in {Pick(2)} :
    Look([a |-> a, k |-> IF a \in {"kind", "table"} THEN k ELSE IF a = "member" THEN IF s = 1 THEN "structs" ELSE "unions" ELSE "",
          n |-> IF a = "table" THEN "" ELSE n])
Draw == IF Cardinality(DOMAIN tab) < MaxDefs THEN Grow ELSE Len(hist) < MaxLooks /\ DrawLook

----------------------------------------------------------------------------
(* Design. *)
\* The outcome of a lookup depends on nothing that happened before
Stateless == \A i, j \in 1..Len(hist) : hist[i].l = hist[j].l => hist[i].r = hist[j].r
\* A name which is defined in a kind is found as it is, with or without prefixes
Exact == \A k \in Range(Kinds), n \in Names : Def(k, n) => ByKind(k, n) = Obj(k, n)
\* An attribute is found iff some kind has it
AttrKind == \A n \in Names :
  LET S == {k \in Range(Kinds) : \E i \in 1..Len(Spellings(n)) : Def(k, Spellings(n)[i])}
  IN S = {} => ByAttr(Kinds, n) = Err

Entry == {[k |-> x[1], n |-> x[2], t |-> tab[x].t, v |-> tab[x].v, m |-> tab[x].m] : x \in DOMAIN tab}
Gen == Len(hist) = MaxLooks => Emit([tab |-> Entry, pre |-> pre, h |-> hist])
SpecFixed == InitFixed /\ [][NextFixed]_vars
=============================================================================
