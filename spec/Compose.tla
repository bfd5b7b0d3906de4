------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* C10: how definitions compose: keyword arguments, copied parsers and     *)
(* headers, overall and per file.                                          *)
(*                                                                         *)
(* A parser is a map from <<category, name>> to a value, and one such map  *)
(* per source ("" stands for the keyword arguments).  Headers are lists of *)
(* statements; creating a parser runs those of its headers.                *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxParsers, MaxFiles, MaxStmts, Fixed

VARIABLES files, parsers, hist
vars == <<files, parsers, hist>>

Empty == [k \in {} |-> 0]
New == [defs |-> Empty, fd |-> Empty]

Put(p, src, key, v) ==
  [defs |-> (key :> v) @@ p.defs,
   fd |-> (src :> ((key :> v) @@ (IF src \in DOMAIN p.fd THEN p.fd[src] ELSE Empty))) @@ p.fd]
Drop(m, key) == [k \in DOMAIN m \ {key} |-> m[k]]
Rem(p, key) == [defs |-> Drop(p.defs, key), fd |-> [s \in DOMAIN p.fd |-> Drop(p.fd[s], key)]]
Has(p, key) == key \in DOMAIN p.defs

\* Values: numbers, 0 for none
RemObj(p, n) == IF Has(p, <<"macros", n>>) THEN Rem(Rem(p, <<"macros", n>>), <<"values", n>>) ELSE p
RemFn(p, n) == Rem(p, <<"fnmacros", n>>)

\* The effect of a statement of source src
Run(p, src, s) ==
  LET n == s.n  v == s.v
  IN CASE s.k = "var" -> Put(Put(p, src, <<"variables", n>>, v), src, <<"values", n>>, v)
       [] s.k = "macro" -> Put(Put(RemFn(p, n), src, <<"macros", n>>, v), src, <<"values", n>>, v)
       [] s.k = "fnmacro" -> Put(RemObj(p, n), src, <<"fnmacros", n>>, v)
       [] s.k = "undef" -> RemFn(RemObj(p, n), n)
       [] s.k = "type" -> Put(p, src, <<"types", n>>, v)
       [] s.k = "struct" -> Put(Put(p, src, <<"structs", n>>, v), src, <<"types", "struct " \o n>>, 0)
       [] s.k = "union" -> Put(Put(p, src, <<"unions", n>>, v), src, <<"types", "union " \o n>>, 0)
       [] s.k = "enum" -> Put(Put(Put(p, src, <<"enums", n>>, v), src, <<"types", "enum " \o n>>, 0), src, <<"values", n \o "_e">>, v)
       [] s.k = "func" -> Put(p, src, <<"functions", n>>, v)
       \* the value of a macro in force
       [] s.k = "use" -> IF ~ Has(p, <<"macros", n>>) THEN p
                         ELSE LET w == p.defs[<<"macros", n>>]
                              IN Put(Put(p, src, <<"variables", "use_" \o n>>, w), src, <<"values", "use_" \o n>>, w)
       \* an array whose size is a constant
       [] s.k = "size" -> IF Has(p, <<"macros", n>>) THEN Put(p, src, <<"types", "arr_" \o n>>, 100 + p.defs[<<"macros", n>>]) ELSE p
       [] s.k = "ifdef" -> IF Has(p, <<"macros", n>>) \/ Has(p, <<"fnmacros", n>>) THEN Put(p, src, <<"types", "if_" \o n>>, v) ELSE p
       \* a reference to a struct
       [] s.k = "ref" -> LET q == Put(p, src, <<"types", "ref_" \o n>>, 200)
                         IN IF Has(p, <<"structs", n>>) THEN q
                            ELSE Put(Put(q, src, <<"structs", n>>, 0), src, <<"types", "struct " \o n>>, 0)

RECURSIVE RunAll(_, _, _)
RunAll(p, src, ss) == IF ss = <<>> THEN p ELSE RunAll(Run(p, src, Head(ss)), src, Tail(ss))
RECURSIVE RunFiles(_, _)
RunFiles(p, fs) == IF fs = <<>> THEN p
                   ELSE RunFiles(RunAll(p, "f" \o ToString(Head(fs)), files[Head(fs)]), Tail(fs))

\* All of q's definitions on top of p's, file by file
Import(p, q) ==
  [defs |-> q.defs @@ p.defs,
   fd |-> [s \in DOMAIN p.fd \cup DOMAIN q.fd |->
             IF s \notin DOMAIN q.fd THEN p.fd[s] ELSE IF s \notin DOMAIN p.fd THEN q.fd[s] ELSE q.fd[s] @@ p.fd[s]]]
RECURSIVE ImportAll(_, _)
ImportAll(p, js) == IF js = <<>> THEN p ELSE ImportAll(Import(p, parsers[Head(js)]), Tail(js))

RECURSIVE Kwargs(_, _)
Kwargs(p, ks) == IF ks = <<>> THEN p ELSE Kwargs(Put(p, "", <<ks[1].c, ks[1].n>>, ks[1].v), Tail(ks))

\* No name is a macro of both kinds (copies of several parsers)
Clear(p) == \A k \in DOMAIN p.defs : k[1] = "macros" => <<"fnmacros", k[2]>> \notin DOMAIN p.defs

Create(ks, js, fs) ==
  LET start == ImportAll(Kwargs(New, ks), js)
      p == RunFiles(start, fs)
  IN /\ Len(parsers) < MaxParsers
     /\ Clear(start)
     /\ parsers' = Append(parsers, p)
     /\ hist' = Append(hist, [ks |-> ks, js |-> js, fs |-> fs])
     /\ files' = files

----------------------------------------------------------------------------
S(k, n, v) == [k |-> k, n |-> n, v |-> v]
K(c, n, v) == [c |-> c, n |-> n, v |-> v]

\* A fixed set of headers, all parsers of them
FixedFiles == << <<S("macro", "m", 1), S("use", "m", 0), S("struct", "s", 1)>>,
                 <<S("use", "m", 0), S("macro", "m", 2), S("ref", "s", 0), S("var", "v", 2)>>,
                 <<S("undef", "m", 0), S("var", "v", 1), S("ifdef", "m", 3)>>,
                 <<S("fnmacro", "m", 1), S("enum", "s", 2), S("struct", "s", 3)>> >>
FixedKws == {<<>>, <<K("macros", "m", 9)>>, <<K("variables", "v", 9), K("values", "v", 9)>>}
SeqsUpTo2(T) == {<<>>} \cup {<<x>> : x \in T} \cup {x \in T \X T : x[1] # x[2]}
InitFixed == files = FixedFiles /\ parsers = <<>> /\ hist = <<>>
NextFixed ==
  \/ /\ Len(parsers) < 2
     /\ \E ks \in FixedKws, js \in SeqsUpTo2(1..Len(parsers)), fs \in SeqsUpTo2(1..4) :
          fs # <<>> /\ Create(ks, js, fs)
  \/ /\ Len(parsers) = 2
     /\ \E js \in {<<1, 2>>, <<2, 1>>, <<2>>} : Create(<<>>, js, <<>>)

\* Random headers
Kinds == <<"var", "macro", "macro", "fnmacro", "undef", "type", "struct", "union", "enum", "func", "use", "use", "ref", "size", "ifdef">>
NamesFor(k) == CASE k \in {"macro", "fnmacro", "undef", "use", "size", "ifdef"} -> <<"ma", "mb", "mc">>
                 [] k = "var" -> <<"va", "vb">> [] k = "type" -> <<"ta", "tb">>
                 [] k = "func" -> <<"ga", "gb">> [] OTHER -> <<"sa", "sb", "ta">>
KwCats == <<"macros", "variables", "types", "structs", "functions", "values">>
Pick(n) == RandomElement(1..(n + 0 * (Len(hist) + Len(files))))
InitSim == files = <<>> /\ parsers = <<>> /\ hist = <<>>
GrowFile ==
  \E k \in {Kinds[Pick(15)]}, i \in {Pick(6)}, v \in {Pick(5)}, r \in {Pick(4)} :
    LET n == NamesFor(k)[1 + (i % Len(NamesFor(k)))]
        s == S(k, n, v)
    IN /\ files' = IF files = <<>> \/ (r = 1 /\ Len(files) < MaxFiles) THEN Append(files, <<s>>)
                   ELSE [files EXCEPT ![Len(files)] = Append(@, s)]
       /\ UNCHANGED <<parsers, hist>>
Size == IF files = <<>> THEN 0 ELSE Len(FlattenSeqs(files))
\* a random sequence of distinct elements of 1..n, of length at most 3
Some(n, a, b, c, len) ==
  LET u == <<1 + (a % n), 1 + (b % n), 1 + (c % n)>>
      d2 == IF u[2] = u[1] THEN <<u[1]>> ELSE <<u[1], u[2]>>
      d3 == IF u[3] \in {u[1], u[2]} THEN d2 ELSE Append(d2, u[3])
  IN SubSeq(d3, 1, Min2(len, Len(d3)))
Draw ==
  IF Size < MaxStmts THEN GrowFile
  ELSE
  \E a \in {Pick(60)}, b \in {Pick(60)}, c \in {Pick(60)}, nf \in {Pick(4)}, d \in {Pick(60)}, e \in {Pick(60)}, nj \in {Pick(4)},
     kc \in {Pick(6)}, kn \in {Pick(6)}, kv \in {Pick(5)}, hk \in {Pick(3)} :
    LET fs == Some(Len(files), a, b, c, nf - 1)
        js == IF parsers = <<>> THEN <<>> ELSE Some(Len(parsers), d, e, d + e, nj - 1)
        c1 == KwCats[kc]
        ns == CASE c1 = "macros" -> <<"ma", "mb", "mc">> [] c1 \in {"variables", "values"} -> <<"va", "vb">>
                [] c1 = "types" -> <<"ta", "tb">> [] c1 = "structs" -> <<"sa", "sb">> [] OTHER -> <<"ga", "gb">>
        ks == IF hk = 1 THEN <<K(c1, ns[1 + (kn % Len(ns))], kv)>> ELSE <<>>
        start == ImportAll(Kwargs(New, ks), js)
    IN IF Clear(start) THEN Create(ks, js, fs) ELSE Create(ks, <<>>, fs)

----------------------------------------------------------------------------
(* Design.                                                                 *)

\* whatever is reported overall was defined by some source, and the other
\* way round everything of a source is defined overall
Consistent ==
  \A i \in 1..Len(parsers) :
    LET p == parsers[i]
    IN /\ \A k \in DOMAIN p.defs : \E s \in DOMAIN p.fd : k \in DOMAIN p.fd[s] /\ p.fd[s][k] = p.defs[k]
       /\ \A s \in DOMAIN p.fd : DOMAIN p.fd[s] \subseteq DOMAIN p.defs
\* parsers are independent
Independent == [][\A i \in 1..Len(parsers) : parsers'[i] = parsers[i]]_vars

Entry(m) == {[c |-> k[1], n |-> k[2], v |-> m[k]] : k \in DOMAIN m}
Out(p) == [defs |-> Entry(p.defs), fd |-> {[s |-> s, e |-> Entry(p.fd[s])] : s \in DOMAIN p.fd}]
Case == [files |-> files, h |-> hist, ps |-> [i \in 1..Len(parsers) |-> Out(parsers[i])]]
Gen == Len(parsers) = MaxParsers => Emit(Case)
SpecFixed == InitFixed /\ [][NextFixed]_vars
=============================================================================
