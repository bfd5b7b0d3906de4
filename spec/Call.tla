------------------------------- MODULE Call -------------------------------
(***************************************************************************)
(* C13, C14: calls of C functions and their results.                       *)
(*                                                                         *)
(* A signature is a sequence of parameters; a call supplies each of them   *)
(* by position, by keyword, as None (either way), as something of a wrong  *)
(* type, or not at all.  A C                                               *)
(* function records what arrives and writes a value of its own through     *)
(* every pointer: 16 * (number of the call) + (position); it returns       *)
(* 16 * (number of the call) + 15.  Now and then it writes nothing, or     *)
(* returns 0 (or NULL).                                                    *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxFuncs, MaxParams, MaxEvents, Small

VARIABLES sigs,    \* the functions declared
          ncalls,  \* calls which reached C
          res,     \* results of the successful calls
          ev, hist
vars == <<sigs, ncalls, res, ev, hist>>

Scalars == <<"int", "short", "double", "float", "ll", "ull", "uchar", "bool", "enum", "td", "int8", "char", "struct", "long", "ushort", "uint">>
Gens == <<"p_int", "p_double", "p_short", "p_ull", "p_td", "pint", "p_enum", "p_bool", "p_float", "p_cint", "p_void", "p_struct",
          "p_union", "p_tstruct", "pp_int", "pp_void", "pp_struct", "pp_double", "ppint", "pp_char", "ptstruct", "p_uchar", "p_long">>
Others == <<"p_char", "arr", "fn", "ppp_int", "p_cchar", "p_arr">>   \* pointers which are never generated
Rets == <<"void", "int", "double", "ull", "p_char", "p_int", "struct", "bool", "short", "p_struct", "p_void", "enum", "float", "pint", "ll", "uchar", "td", "ptstruct", "rfn", "rarr">>
IsGen(k) == k \in Range(Gens)
IsPtr(k) == IsGen(k) \/ k \in Range(Others)

Modes == {"pos", "posnull", "posbad", "kw", "kwnull", "kwbad", "omit"}
Bad(m) == m \in {"posbad", "kwbad"}
\* p: [k, n] kind and name ("" for none); ms: one mode per parameter
Positional(m) == m \in {"pos", "posnull", "posbad"}
Allowed(ps, ms) ==
  /\ \A i \in 1..Len(ps) : /\ ms[i] \in {"kw", "kwnull", "kwbad"} => ps[i].n # ""
                           \* everything is true or false
                           /\ Bad(ms[i]) => ps[i].k # "bool"
                           /\ Positional(ms[i]) => \A j \in 1..i : Positional(ms[j])
                           \* ctypes refuses these: left open
                           /\ ms[i] = "omit" => ps[i].k \notin {"p_char", "p_cchar"}
Wrong(ps, ms, unknown) ==
  \/ unknown
  \/ \E i \in 1..Len(ps) : \/ ms[i] \in {"posnull", "kwnull"} /\ ~ IsPtr(ps[i].k)
                           \/ ms[i] = "omit" /\ ~ IsGen(ps[i].k)

\* The error raised, if any: the call is wrong, or one of its values is
Error(ps, ms, unknown) == IF Wrong(ps, ms, unknown) THEN "call" ELSE IF \E i \in 1..Len(ps) : Bad(ms[i]) THEN "value" ELSE ""

\* What call c writes through parameter i, and returns; 0 for nothing
Written(c, i) == IF ((c + i) % 4) = 3 THEN 0 ELSE 16 * c + i
Returned(c) == IF (c % 4) = 3 THEN 0 ELSE 16 * c + 15

\* What the result has for parameter i: what was given, NULL, or what call c wrote
Arg(m, v, c, i) ==
  IF m \in {"pos", "kw"} THEN [o |-> "given", v |-> v]
  ELSE IF m \in {"posnull", "kwnull"} THEN [o |-> "null", v |-> 0]
  ELSE [o |-> "auto", v |-> Written(c, i)]

Log(e) == /\ ev' = ev + 1 /\ hist' = Append(hist, e)

\* vs: the number of the value given for each parameter
CallF(f, ms, vs, unknown) ==
  LET ps == sigs[f].ps
      err == Error(ps, ms, unknown)
      bad == err # ""
      c == ncalls + 1
      as == [i \in 1..Len(ps) |-> Arg(ms[i], vs[i], c, i)]
  IN /\ Allowed(ps, ms)
     /\ ncalls' = IF bad THEN ncalls ELSE c
     /\ res' = IF bad THEN res ELSE Append(res, [f |-> f, c |-> c, args |-> as, ret |-> Returned(c), live |-> TRUE])
     /\ Log([a |-> "call", f |-> f, ms |-> ms, vs |-> vs, u |-> unknown, err |-> err, r |-> IF bad THEN 0 ELSE Len(res) + 1, i |-> 0,
             res |-> res'])
     /\ UNCHANGED sigs

\* Replace an argument of a result
SetArg(r, i, v) ==
  /\ r \in 1..Len(res) /\ res[r].live /\ i \in 1..Len(res[r].args) /\ res[r].args[i].o # "auto"
  /\ res' = [res EXCEPT ![r].args[i] = [o |-> "set", v |-> v]]
  /\ Log([a |-> "set", f |-> 0, ms |-> <<>>, vs |-> <<v>>, u |-> FALSE, err |-> "", r |-> r, i |-> i, res |-> res'])
  /\ UNCHANGED <<sigs, ncalls>>

Discard(r) ==
  /\ r \in 1..Len(res) /\ res[r].live
  /\ res' = [res EXCEPT ![r].live = FALSE]
  /\ Log([a |-> "discard", f |-> 0, ms |-> <<>>, vs |-> <<>>, u |-> FALSE, err |-> "", r |-> r, i |-> 0, res |-> res'])
  /\ UNCHANGED <<sigs, ncalls>>

----------------------------------------------------------------------------
\* All short signatures, one call
P(k, i) == [k |-> k, n |-> "a" \o ToString(i)]
CoreKinds == {"int", "double", "struct", "p_int", "p_void", "p_struct", "pp_int", "pint", "p_char", "fn"}
AllKinds == Range(Scalars) \cup Range(Gens) \cup Range(Others)
ShortSigs == { <<>> } \cup { <<P(k, 1)>> : k \in AllKinds } \cup { <<P(k, 1), P(l, 2)>> : k \in CoreKinds, l \in CoreKinds }
             \cup (IF Small THEN {} ELSE { <<P(k, 1), P(l, 2), P(m, 3)>> : k \in CoreKinds, l \in CoreKinds, m \in CoreKinds })
             \cup { <<P(k, 1), P("p_int", 2), P(l, 3)>> : k \in CoreKinds, l \in CoreKinds }
InitShort ==
  /\ \/ \E ps \in ShortSigs : sigs = << [ret |-> "int", ps |-> ps] >>
     \/ \E t \in Range(Rets) : sigs = << [ret |-> t, ps |-> <<>>] >>
  /\ ncalls = 0 /\ res = <<>> /\ ev = 0 /\ hist = <<>>
NextShort ==
  /\ ev = 0
  /\ \E ms \in [1..Len(sigs[1].ps) -> Modes], u \in BOOLEAN :
       /\ Allowed(sigs[1].ps, ms)
       /\ LET n == Cardinality({i \in 1..Len(sigs[1].ps) : Bad(ms[i])}) IN n = 0 \/ (n = 1 /\ Len(sigs[1].ps) < 3)
       /\ CallF(1, ms, [i \in 1..Len(sigs[1].ps) |-> 1 + ((i + Len(sigs[1].ps)) % 5)], u)

\* Random signatures and sequences of calls
Pick(n) == RandomElement(1..(n + 0 * ev + 0 * Len(sigs)))
InitSim == sigs = <<>> /\ ncalls = 0 /\ res = <<>> /\ ev = 0 /\ hist = <<>>
Grow ==
  \E n \in {Pick(MaxParams + 1) - 1}, w \in {[i \in 1..MaxParams |-> Pick(10 + 0 * i)]}, x \in {[i \in 1..MaxParams |-> Pick(48 + 0 * i)]},
     t \in {Rets[Pick(20)]}, z \in {Pick(6)} :
    LET kind0(i) == IF w[i] <= 3 THEN Scalars[1 + (x[i] % 16)] ELSE IF w[i] <= 8 THEN Gens[1 + (x[i] % 23)] ELSE Others[1 + (x[i] % 6)]
        \* one struct by value at most: libffi mixes up two of them where the registers end
        kind(i) == IF kind0(i) = "struct" /\ (\E j \in 1..i - 1 : kind0(j) = "struct") THEN "int" ELSE kind0(i)
    IN /\ sigs' = Append(sigs, [ret |-> t, ps |-> [i \in 1..n |-> [k |-> kind(i), n |-> IF z = 1 /\ x[i] % 3 = 0 THEN "" ELSE "a" \o ToString(i)]]])
       /\ UNCHANGED <<ncalls, res, ev, hist>>
\* a way to supply the parameters, from random numbers

ModesFor(ps, x, npos) ==
  [i \in 1..Len(ps) |->
     LET k == ps[i].k
         null == IsPtr(k) /\ x[i] % 4 = 0
     IN IF i <= npos THEN IF null THEN "posnull" ELSE "pos"
        ELSE IF IsGen(k) /\ x[i] % 3 # 0 THEN "omit"
        ELSE IF ps[i].n = "" THEN "omit"
        ELSE IF null THEN "kwnull" ELSE "kw"]
DrawCall ==
  \E f \in {Pick(Len(sigs))}, x \in {[i \in 1..MaxParams |-> Pick(60 + 0 * i)]}, np \in {Pick(60)}, v \in {[i \in 1..MaxParams |-> Pick(6 + 0 * i)]},
     z \in {Pick(12)} :
    LET ps == sigs[f].ps
        \* unnamed parameters which cannot be generated need a position, and so do strings without a name
        last == IF {i \in 1..Len(ps) : ps[i].n = "" /\ (~ IsGen(ps[i].k))} = {} THEN 0
                ELSE CHOOSE i \in 1..Len(ps) : /\ ps[i].n = "" /\ ~ IsGen(ps[i].k)
                                              /\ \A j \in i + 1..Len(ps) : ~ (ps[j].n = "" /\ ~ IsGen(ps[j].k))
        npos == Max2(last, np % (Len(ps) + 1))
        ms0 == ModesFor(ps, x, npos)
        \* now and then something wrong
        q == 1 + (x[1] % Max2(1, Len(ps)))
        ms == IF z = 1 /\ Len(ps) > 0 /\ q > npos /\ ps[q].k \notin {"p_char", "p_cchar"} THEN [ms0 EXCEPT ![q] = "omit"]
              ELSE IF z = 2 /\ Len(ps) > 0 /\ ms0[q] \in {"pos", "kw"} THEN [ms0 EXCEPT ![q] = @ \o "null"]
              ELSE IF z = 4 /\ Len(ps) > 0 /\ ms0[q] \in {"pos", "kw"} /\ ps[q].k # "bool" THEN [ms0 EXCEPT ![q] = @ \o "bad"]
              ELSE ms0
    IN CallF(f, ms, [i \in 1..Len(ps) |-> v[i]], z = 3)
Draw ==
  IF Len(sigs) < MaxFuncs THEN Grow
  ELSE ev < MaxEvents /\
    \E z \in {Pick(10)}, r \in {Pick(20)}, i \in {Pick(60)}, v \in {Pick(6)} :
      LET s == IF res = <<>> THEN 0 ELSE 1 + (r % Len(res))
          n == IF s = 0 THEN 0 ELSE Len(res[s].args)
          j == IF n = 0 THEN 0 ELSE 1 + (i % n)
      IN IF z <= 2 /\ s # 0 /\ n # 0 /\ res[s].live /\ res[s].args[j].o # "auto" THEN SetArg(s, j, v)
         ELSE IF z = 3 /\ s # 0 /\ res[s].live THEN Discard(s)
         ELSE DrawCall

----------------------------------------------------------------------------
(* Design. *)
\* Nothing but replacing changes a result, and only the argument replaced
Stay == [][\A r \in 1..Len(res) :
             /\ res'[r].ret = res[r].ret
             /\ \A i \in 1..Len(res[r].args) : res'[r].args[i] # res[r].args[i] =>
                  hist'[Len(hist')].a = "set" /\ hist'[Len(hist')].r = r /\ hist'[Len(hist')].i = i]_vars
\* Generated objects belong to one call and one position
Fresh == \A r, s \in 1..Len(res) : \A i \in 1..Len(res[r].args), j \in 1..Len(res[s].args) :
           res[r].args[i].o = "auto" /\ res[s].args[j].o = "auto" /\ res[r].args[i].v = res[s].args[j].v /\ res[r].args[i].v # 0 => r = s /\ i = j
\* A call which is wrong does not reach C
Refused == \A i \in 1..Len(hist) : hist[i].a = "call" /\ hist[i].err # "" =>
             hist[i].res = IF i = 1 THEN <<>> ELSE hist[i - 1].res

Case == [sigs |-> sigs, h |-> hist]
GenShort == ev = 1 => Emit(Case)
Gen == ev = MaxEvents => Emit(Case)
SpecShort == InitShort /\ [][NextShort]_vars
=============================================================================
