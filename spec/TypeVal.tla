------------------------------ MODULE TypeVal ------------------------------
(***************************************************************************)
(* C19: descriptions of types, structs, unions and enums as values.        *)
(* A value goes through a history of operations (pickling, copying,        *)
(* evaluation of its repr, compatibility form on and off); the             *)
(* specification says which description each of them gives, and whether    *)
(* it is equal to another description.                                     *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxOps, MaxDecl

VARIABLES orig,  \* the description built by the user
          cur,   \* the one at hand
          hist   \* what was done: operation and what it gave
vars == <<orig, cur, hist>>

----------------------------------------------------------------------------
(* Descriptions. *)
Ptr == [d |-> "ptr", n |-> 0, ps |-> <<>>]
Ref == [d |-> "ref", n |-> 0, ps |-> <<>>]
Arr(n) == [d |-> "arr", n |-> n, ps |-> <<>>]
Fn(ps) == [d |-> "fn", n |-> 0, ps |-> ps]
Param(n, t) == [name |-> n, t |-> t]
Ty(b, ds, qs) == [k |-> "type", base |-> b, decls |-> ds, quals |-> qs]
None(n) == [i \in 1..n |-> <<>>]
Plain(b, ds) == Ty(b, ds, None(Len(ds) + 1))
\* a type the base of which is a type: the compatibility form of a function
Hacked(t, d, q) == [k |-> "hack", ret |-> t, fn |-> d, qual |-> q]

IsFunction(t) == t.k = "type" /\ t.decls # <<>> /\ t.decls[Len(t.decls)].d = "fn"
Add(t) == IF IsFunction(t)
          THEN Hacked(Ty(t.base, SubSeq(t.decls, 1, Len(t.decls) - 1), SubSeq(t.quals, 1, Len(t.quals) - 1)),
                      t.decls[Len(t.decls)], t.quals[Len(t.quals)])
          ELSE t
Remove(t) == IF t.k = "hack" THEN Ty(t.ret.base, Append(t.ret.decls, t.fn), Append(t.ret.quals, t.qual)) ELSE t

\* what is left of a type when it is compared with a plain tuple
Forget(t) == IF t.k = "type" THEN [t EXCEPT !.quals = None(Len(t.decls) + 1)]
             ELSE IF t.k = "hack" THEN [t EXCEPT !.qual = <<>>] ELSE t

\* places of a description, for small changes of it
Bases == {"int", "char", "T", "struct s", "unsigned int"}
Quals == {<<>>, <<"const">>, <<"volatile">>, <<"const", "volatile">>, <<"volatile", "const">>, <<"__attribute">>}

----------------------------------------------------------------------------
(* Small descriptions, all of them. *)
SmallParams == {<<>>, <<Param("", Plain("int", <<>>))>>, <<Param("a", Plain("int", <<>>))>>,
                <<Param("", Ty("int", <<>>, <<<<"const">>>>))>>, <<Param("", Plain("int", <<Ptr>>))>>}
SmallDecls == {Ptr, Arr(2), Arr(0), Arr(-1)} \cup {Fn(ps) : ps \in SmallParams}
SmallQuals == {<<>>, <<"const">>}
SmallTypes(n) == {Ty(b, ds, qs) : b \in {"int", "T"}, ds \in [1..n -> SmallDecls], qs \in [1..(n + 1) -> SmallQuals]}
InitSmall == \E n \in 0..MaxDecl : orig \in SmallTypes(n) /\ cur = orig /\ hist = <<>>
\* all descriptions one change away from t
Near(t) ==
  {[t EXCEPT !.base = b] : b \in Bases}
  \cup {[t EXCEPT !.decls[i] = d] : i \in 1..Len(t.decls), d \in SmallDecls}
  \cup {[t EXCEPT !.quals[i] = q] : i \in 1..Len(t.quals), q \in Quals}
  \cup (IF t.decls = <<>> THEN {} ELSE {[t EXCEPT !.decls = SubSeq(t.decls, 1, Len(t.decls) - 1), !.quals = SubSeq(t.quals, 1, Len(t.quals) - 1)]})
  \cup {[t EXCEPT !.decls = Append(t.decls, Ptr), !.quals = Append(t.quals, <<>>)]}
  \cup {[t EXCEPT !.decls = <<d>> \o t.decls, !.quals = <<<<>>>> \o t.quals] : d \in {Ptr, Arr(2)}}
NearCase == [a |-> orig, near |-> {[b |-> b, same |-> (b = orig), plain |-> (Forget(b) = Forget(orig))] : b \in Near(orig)},
             add |-> Add(orig), back |-> Remove(Add(orig))]
GenSmall == hist = <<>> => Emit(NearCase)

----------------------------------------------------------------------------
(* Random descriptions. *)
Pick(S) == RandomElement({x \in S : hist = hist})
RECURSIVE RandType(_), RandDecl(_), RandParams(_, _), RandDecls(_, _), RandQuals(_), RandMembers(_), RandItems(_)
RandParams(d, n) == IF n = 0 THEN <<>> ELSE <<Param(Pick({"", "a", "b"}), RandType(d))>> \o RandParams(d, n - 1)
RandDecl(d) == CHOOSE x \in {LET z == Pick(1..8)
               IN IF z <= 3 THEN Ptr ELSE IF z <= 5 THEN Arr(Pick({-1, 0, 1, 2, 10})) ELSE IF z = 6 THEN Ref
                  ELSE IF d = 0 THEN Ptr ELSE Fn(RandParams(d - 1, Pick(0..3)))} : TRUE
RandDecls(d, n) == IF n = 0 THEN <<>> ELSE <<RandDecl(d)>> \o RandDecls(d, n - 1)
RandQuals(n) == IF n = 0 THEN <<>> ELSE <<IF Pick(1..2) = 1 THEN <<>> ELSE Pick(Quals)>> \o RandQuals(n - 1)
RandType(d) == CHOOSE t \in {Ty(Pick(Bases), ds, RandQuals(Len(ds) + 1)) : ds \in {RandDecls(d, Pick(0..MaxDecl))}} : TRUE
RandMember == [name |-> Pick({"a", "b", "c", ""}), t |-> RandType(1), bits |-> Pick({0, 1, 2, 3}) * Pick({0, 1})]
RandMembers(n) == IF n = 0 THEN <<>> ELSE <<RandMember>> \o RandMembers(n - 1)
RandCompound(k) == [k |-> k, members |-> RandMembers(Pick(0..3)), pack |-> Pick({0, 1, 2, 4}) * Pick({0, 1})]
EnumNames == <<"a", "b", "A_1", "self", "args", "cls", "items", "keys", "_x">>
RandItems(n) == IF n = 0 THEN <<>> ELSE (IF Pick(1..3) = 1 THEN <<[name |-> EnumNames[n], val |-> Pick({-1, 0, 1, 7, 100000})]>> ELSE <<>>) \o RandItems(n - 1)
RandEnum == [k |-> "enum", items |-> RandItems(Len(EnumNames))]
RandValue == LET z == Pick(1..8)
             IN IF z <= 3 THEN RandType(2) ELSE IF z = 5 THEN RandCompound("struct") ELSE IF z = 6 THEN RandCompound("union")
                ELSE IF z = 7 THEN RandEnum
                ELSE CHOOSE x \in {Ty(t.base, Append(t.decls, Fn(RandParams(1, Pick(0..2)))), Append(t.quals, Pick(Quals))) : t \in {RandType(2)}} : TRUE
InitR == orig = [k |-> "none"] /\ cur = orig /\ hist = <<>>

Ops == {"pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5", "copy", "deepcopy", "repr", "add", "remove", "rebuild"}
Step(op, t) == IF op = "add" THEN Add(t) ELSE IF op = "remove" THEN Remove(t) ELSE t
Start == orig.k = "none" /\ \E v \in {RandValue} : orig' = v /\ cur' = v /\ hist' = hist
Do(op) == /\ orig.k # "none" /\ Len(hist) < MaxOps
          /\ (op = "add" => cur.k = "type") /\ (op = "remove" => orig.k = "type")
          /\ cur' = Step(op, cur)
          /\ hist' = Append(hist, [op |-> op, v |-> Step(op, cur)])
          /\ UNCHANGED orig
Next == \E op \in Ops : Do(op)
Draw == IF orig.k = "none" THEN Start ELSE \E op \in {IF cur.k = "type" THEN Pick(Ops) ELSE IF orig.k = "type" THEN Pick(Ops \ {"add"}) ELSE Pick(Ops \ {"add", "remove"})} : Do(op)

----------------------------------------------------------------------------
(* Design. *)
\* whatever was done, removing the compatibility form gives the original
Kept == orig.k # "none" => Remove(cur) = orig
\* the compatibility form loses nothing
Inverse == (orig.k = "type") => Remove(Add(orig)) = orig
\* only functions have one
OnlyFunctions == (orig.k = "type" /\ cur.k = "hack") => IsFunction(orig)

Gen == (orig.k # "none" /\ Len(hist) = MaxOps) => Emit([orig |-> orig, hist |-> hist])
=============================================================================
