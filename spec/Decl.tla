-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* C04: declarations.                                                      *)
(*                                                                         *)
(* A C type is a base with a sequence of derivations, the first one        *)
(* applied to the base.  The machine derives the types of the declarators  *)
(* of one declaration step by step; the text is obtained by the rule       *)
(* "declaration mimics use" and parsed back by the C grammar (Roundtrip),  *)
(* so that text and type are two independent definitions of the same.     *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxDer,    \* derivations per declarator
          MaxDecl,   \* declarators per declaration
          Rich       \* FALSE: small alphabet, exhaustive; TRUE: random choices

----------------------------------------------------------------------------
(* Types.  All derivations are records of the same shape.                  *)
Ptr(pq) == [k |-> "ptr", q |-> pq, n |-> "", ps |-> <<>>]
Arr(n) == [k |-> "arr", q |-> <<>>, n |-> n, ps |-> <<>>]     \* n: text of the size, "" if none
Fun(ps) == [k |-> "fun", q |-> <<>>, n |-> "", ps |-> ps]
Type(b, tq, tds) == [b |-> b, q |-> tq, ds |-> tds]
Param(n, t) == [n |-> n, t |-> t]

\* C forbids arrays of functions, functions returning arrays or functions, and
\* arrays whose element has unknown size
MayFollow(ds, k, n) ==
  IF ds = <<>> THEN TRUE
  ELSE LET l == Last(ds)
       IN CASE k = "ptr" -> TRUE
            [] k = "arr" -> l.k # "fun" /\ ~(l.k = "arr" /\ l.n = "")
            [] k = "fun" -> l.k = "ptr"

\* A type made of void must be a pointer or a function first
VoidOk(b, ds) == b # "void" \/ (ds # <<>> /\ ds[1].k # "arr")

----------------------------------------------------------------------------
(* Text: tokens of a declarator around the tokens s.  par says whether the *)
(* tokens so far start with a star (they bind weaker than [] and ()).      *)

RECURSIVE DeclToks(_, _, _, _), ParamToks(_), TypeToks(_, _, _)
\* ds from base to name; x[i] TRUE: redundant parentheses after derivation i
DeclToks(ds, s, star, x) ==
  IF ds = <<>> THEN s
  ELSE LET d == Last(ds)
           w == IF star /\ d.k # "ptr" THEN <<"(">> \o s \o <<")">> ELSE s
           t == CASE d.k = "ptr" -> <<"*">> \o d.q \o w
                  [] d.k = "arr" -> w \o (IF d.n = "" THEN <<"[", "]">> ELSE <<"[", d.n, "]">>)
                  [] d.k = "fun" -> w \o <<"(">> \o ParamToks(d.ps) \o <<")">>
           e == IF x # <<>> /\ Last(x) THEN <<"(">> \o t \o <<")">> ELSE t
       IN DeclToks(Front(ds), e, d.k = "ptr" /\ e = t,
                   IF x = <<>> THEN <<>> ELSE Front(x))
ParamToks(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET t == TypeToks(ps[1].t, IF ps[1].n = "" THEN <<>> ELSE <<ps[1].n>>, <<>>)
       IN IF Len(ps) = 1 THEN t ELSE t \o <<",">> \o ParamToks(Tail(ps))
TypeToks(t, name, x) == t.q \o <<t.b>> \o DeclToks(t.ds, name, FALSE, x)

----------------------------------------------------------------------------
(* The C grammar, read from the left: result [ds, n, r(est)].               *)

\* names starting with __ are qualifiers to the parser, with arguments or not
Quals == {"const", "volatile", "restrict", "near", "far", "__attr", "__attr2(3)", "__unaligned"}
Punct == {"*", "(", ")", "[", "]", ","}
RECURSIVE ReadQuals(_, _)
ReadQuals(ts, q) == IF ts # <<>> /\ ts[1] \in Quals THEN ReadQuals(Tail(ts), Append(q, ts[1]))
                    ELSE [q |-> q, r |-> ts]
RECURSIVE ReadDecl(_), ReadStars(_, _), ReadSuffix(_, _), ReadParams(_, _), ReadParam(_)
ReadStars(ts, ds) ==
  IF ts # <<>> /\ ts[1] = "*"
  THEN LET q == ReadQuals(Tail(ts), <<>>) IN ReadStars(q.r, Append(ds, Ptr(q.q)))
  ELSE [ds |-> ds, r |-> ts]
\* suffixes bind from left to right; the first one is applied last
ReadSuffix(ts, ds) ==
  IF ts = <<>> THEN [ds |-> ds, r |-> ts]
  ELSE IF ts[1] = "[" THEN
    IF ts[2] = "]" THEN ReadSuffix(SubSeq(ts, 3, Len(ts)), <<Arr("")>> \o ds)
    ELSE ReadSuffix(SubSeq(ts, 4, Len(ts)), <<Arr(ts[2])>> \o ds)
  ELSE IF ts[1] = "(" THEN
    LET p == ReadParams(Tail(ts), <<>>) IN ReadSuffix(p.r, <<Fun(p.ps)>> \o ds)
  ELSE [ds |-> ds, r |-> ts]
ReadParams(ts, ps) ==
  IF ts[1] = ")" THEN [ps |-> ps, r |-> Tail(ts)]
  ELSE IF ts[1] = "," THEN ReadParams(Tail(ts), ps)
  ELSE LET p == ReadParam(ts) IN ReadParams(p.r, Append(ps, p.p))
ReadParam(ts) ==
  LET q == ReadQuals(ts, <<>>)
      d == ReadDecl(Tail(q.r))
  IN [p |-> Param(d.n, Type(q.r[1], q.q, d.ds)), r |-> d.r]
ReadDecl(ts) ==
  LET st == ReadStars(ts, <<>>)
      r == st.r
      \* "(" starts a nested declarator unless it is a parameter list
      nested == r # <<>> /\ r[1] = "(" /\ Len(r) > 1
                /\ (r[2] \in {"*", "(", "["} \/ r[2] = "NAME" \/ r[2] \in {"p", "q"})
      in == IF nested THEN ReadDecl(Tail(r))
            ELSE IF r # <<>> /\ r[1] \notin Punct
                 THEN [ds |-> <<>>, n |-> r[1], r |-> Tail(r)]
                 ELSE [ds |-> <<>>, n |-> "", r |-> r]
      af == IF nested THEN Tail(in.r) ELSE in.r
      sf == ReadSuffix(af, <<>>)
  IN [ds |-> st.ds \o sf.ds \o in.ds, n |-> in.n, r |-> sf.r]

----------------------------------------------------------------------------
(* The recorded description: derivations from the base outwards, but the   *)
(* sizes of adjacent arrays in written order.                              *)
RECURSIVE RunLen(_)
RunLen(ds) == IF ds = <<>> \/ ds[1].k # "arr" THEN 0 ELSE 1 + RunLen(Tail(ds))
RECURSIVE Norm(_), NormType(_)
Norm(ds) ==
  IF ds = <<>> THEN <<>>
  ELSE LET n == RunLen(ds)
       IN IF n > 0 THEN Rev(SubSeq(ds, 1, n)) \o Norm(SubSeq(ds, n + 1, Len(ds)))
          ELSE IF ds[1].k = "fun"
               THEN <<Fun(MapSeq(ds[1].ps, LAMBDA p : Param(p.n, NormType(p.t))))>> \o Norm(Tail(ds))
               ELSE <<ds[1]>> \o Norm(Tail(ds))
NormType(t) == Type(t.b, t.q, Norm(t.ds))

----------------------------------------------------------------------------
(* Choices.                                                                *)
Bases == <<"int", "char", "unsigned int", "struct S", "Tid", "void", "long long",
           "union U", "enum E", "double", "unsigned long int", "signed char", "size_t", "float">>
QualSets == << <<>>, <<"const">>, <<"volatile">>, <<"const", "volatile">>, <<"restrict">>, <<"far">>, <<"__attr">>,
               <<"__attr2(3)">>, <<"const", "__unaligned">>, <<"near", "__attr2(3)">> >>
IntT == Type("int", <<>>, <<>>)
CChar == Type("char", <<"const">>, <<Ptr(<<>>)>>)
Void == Type("void", <<>>, <<>>)
FnPtr == Type("int", <<>>, <<Fun(<<Param("", IntT), Param("q", CChar)>>), Ptr(<<>>)>>)
Simple == <<IntT, CChar, Type("struct S", <<>>, <<Ptr(<<"const">>)>>), Type("Tid", <<>>, <<>>),
            Type("unsigned int", <<"const">>, <<>>),
            Type("int", <<>>, <<Arr("3"), Arr("")>>), Type("char", <<>>, <<Arr("2"), Arr("4"), Arr("5")>>),
            Type("int", <<>>, <<Ptr(<<>>), Arr("6"), Ptr(<<>>)>>),
            FnPtr,
            Type("void", <<>>, <<Ptr(<<>>), Fun(<<Param("", Void)>>), Ptr(<<"const">>), Arr("2")>>),
            Type("double", <<>>, <<Fun(<<Param("p", FnPtr), Param("", FnPtr)>>), Ptr(<<>>), Ptr(<<>>)>>),
            Type("char", <<>>, <<Fun(<<Param("", IntT), Param("", IntT)>>)>>),
            Type("int", <<>>, <<Arr("2"), Ptr(<<>>), Fun(<<>>), Ptr(<<>>)>>)>>
ParamLists == << <<>>, <<Param("", Void)>>, <<Param("p", IntT)>>,
                 <<Param("", CChar), Param("q", IntT)>>, <<Param("p", FnPtr)>>,
                 <<Param("", FnPtr), Param("q", Simple[10])>> >>
Sizes == <<"", "3", "7", "2">>

VARIABLES bs, qs, ds, x, done, cat, stor
vars == <<bs, qs, ds, x, done, cat, stor>>

R(s) == {RandomElement(1..(Len(s) + 0 * Len(ds)))}
P(s, n) == IF Rich THEN R(s) ELSE 1..n
Cats == <<"decl", "typedef", "def">>
Stors == <<"", "", "extern", "static">>

Init ==
  /\ \E i \in (IF Rich THEN 1..Len(Bases) ELSE {1}) : bs = Bases[i]
  /\ \E i \in (IF Rich THEN 1..Len(QualSets) ELSE {1}) : qs = QualSets[i]
  /\ \E i \in 1..3 : cat = Cats[i]
  /\ \E i \in (IF Rich THEN 2..4 ELSE {1}) : stor = Stors[i]
  /\ ds = <<>> /\ x = <<>> /\ done = <<>>

Add(d) == /\ Len(ds) < MaxDer /\ Len(done) < MaxDecl
          /\ MayFollow(ds, d.k, d.n)
          /\ ds' = Append(ds, d)
          \* redundant parentheses now and then
          /\ x' = Append(x, Rich /\ RandomElement(1..(5 + 0 * Len(ds))) = 1)
          /\ UNCHANGED <<bs, qs, done, cat, stor>>
AddPtr == \E i \in P(QualSets, 2) : Add(Ptr(QualSets[i]))
AddArr == \E i \in P(Sizes, 2) : Add(Arr(Sizes[i]))
RandParams == [i \in 1..RandomElement(1..(3 + 0 * Len(ds))) |->
                 Param(RandomElement({"", "p" \o ToString(i), "arg_" \o ToString(i)}), Simple[RandomElement(1..Len(Simple))])]
AddFun == IF Rich THEN Add(Fun(RandParams)) \/ (\E i \in R(ParamLists) : Add(Fun(ParamLists[i])))
          ELSE \E i \in 1..4 : Add(Fun(ParamLists[i]))
IsFun(s) == s # <<>> /\ Last(s).k = "fun"
EndDecl ==
  /\ Len(done) < MaxDecl
  /\ VoidOk(bs, ds) /\ (bs = "void" => ds # <<>>)
  /\ cat = "def" => IsFun(ds) /\ done = <<>>
  /\ \/ done = <<>> \/ cat # "def"
  /\ done' = Append(done, [ds |-> ds, x |-> x, pn |-> Rich /\ RandomElement(1..(6 + 0 * Len(ds))) = 1]) /\ ds' = <<>> /\ x' = <<>>
  /\ UNCHANGED <<bs, qs, cat, stor>>
Next == AddPtr \/ AddArr \/ AddFun \/ EndDecl

----------------------------------------------------------------------------
\* Text and type agree: reading the text of a declarator gives its derivations
Toks(d) == DeclToks(d.ds, IF d.pn THEN <<"(", "NAME", ")">> ELSE <<"NAME">>, FALSE, d.x)
Roundtrip == \A i \in 1..Len(done) :
  LET r == ReadDecl(Toks(done[i]))
  IN r.ds = done[i].ds /\ r.n = "NAME" /\ r.r = <<>>

Kind(d) == IF cat = "typedef" THEN "types" ELSE IF IsFun(d.ds) THEN "functions" ELSE "variables"
Out == [cat |-> cat, stor |-> stor, base |-> bs, q |-> qs,
        ds |-> MapSeq(done, LAMBDA d : [toks |-> Toks(d), kind |-> Kind(d), t |-> NormType(Type(bs, qs, d.ds))])]
\* A qualifier before a parenthesis takes it for its arguments, unless a
\* pointer follows
RECURSIVE Clash(_)
Clash(ts) == Len(ts) > 1 /\ ((ts[1] \in {"__attr", "__unaligned"} /\ ts[2] = "(" /\ (Len(ts) = 2 \/ ts[3] # "*")) \/ Clash(Tail(ts)))
Clear == \A i \in 1..Len(done) : ~ Clash((IF qs = <<>> THEN <<>> ELSE <<Last(qs)>>) \o Toks(done[i]))
Gen == Clear => ((ds = <<>> /\ done # <<>> /\ (~Rich \/ Len(done) = MaxDecl \/ cat = "def")) => Emit(Out))
=============================================================================
