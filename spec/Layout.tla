------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* C08: size, alignment and offsets of the types of a header, and the      *)
(* order in which a library is asked for them.                             *)
(*                                                                         *)
(* The state is a list of declarations of which the last may be open;      *)
(* adding a member moves the position (in bits) in the open struct as the  *)
(* ABI (System V, x86-64) prescribes.  Once the header is complete the     *)
(* types are requested in any order; requests change nothing.              *)
(*                                                                         *)
(* A type is a base followed by derivations from the inside to the         *)
(* outside.                                                                *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS Mode, MaxDecls, MaxMembers, MaxReq

BT(n, s) == [n |-> n, s |-> s]
BaseTable == <<BT("char", 1), BT("short", 2), BT("int", 4), BT("double", 8), BT("unsigned char", 1), BT("long", 8),
   BT("float", 4), BT("uint16_t", 2), BT("long double", 16), BT("bool", 1), BT("int64_t", 8), BT("wchar_t", 4),
   BT("unsigned long long", 8), BT("size_t", 8), BT("unsigned", 4), BT("int8_t", 1), BT("unsigned short int", 2),
   BT("long int", 8), BT("ssize_t", 8), BT("uint32_t", 4), BT("time_t", 8), BT("long long int", 8),
   BT("short int", 2), BT("unsigned int", 4), BT("unsigned long", 8), BT("uint64_t", 8), BT("uint8_t", 1),
   BT("int16_t", 2), BT("int32_t", 4), BT("unsigned short", 2), BT("long unsigned int", 8), BT("long long", 8),
   BT("unsigned long int", 8), BT("unsigned long long int", 8)>>
BitTable == <<BT("int", 4), BT("unsigned char", 1), BT("long long", 8), BT("unsigned short", 2), BT("unsigned int", 4)>>

VARIABLES
  plan,    \* kinds of all declarations of the header
  decls,   \* finished declarations
  cur,     \* members of the open one
  pos,     \* position in the open struct, in bits (union: size so far)
  al,      \* alignment of the open one so far, in bytes
  run,     \* bit size of the unit of the run of bit fields being laid out, or 0
  packing, \* the alignment #pragma pack put in force, 0 if none
  reqs     \* requests made
vars == <<plan, decls, cur, pos, al, run, packing, reqs>>

\* Bases
Bs(n, s) == [k |-> "base", n |-> n, i |-> 0]
Void == [k |-> "void", n |-> "void", i |-> 0]
Opaque == [k |-> "opaque", n |-> "", i |-> 0]
RefTo(i) == [k |-> "ref", n |-> "", i |-> i]
\* Derivations
Ptr == [k |-> "ptr", n |-> 0, ps |-> <<>>]
Arr(n) == [k |-> "arr", n |-> n, ps |-> <<>>]
Flex == [k |-> "flex", n |-> 0, ps |-> <<>>]
Fp(ps) == [k |-> "fp", n |-> 0, ps |-> ps]
T(b, m) == [b |-> b, m |-> m]

Tagged == {"struct", "union", "bad"}
Here == Len(decls) + 1
Kind == plan[Here]
Open == Here <= Len(plan)

BaseSize(n) == (CHOOSE r \in Range(BaseTable) : r.n = n).s

RECURSIVE Size(_), Align(_)
Size(t) ==
  IF t.m = <<>> THEN (IF t.b.k = "base" THEN BaseSize(t.b.n) ELSE decls[t.b.i].size)
  ELSE LET d == Last(t.m)
       IN CASE d.k \in {"ptr", "fp"} -> 8
            [] d.k = "arr" -> d.n * Size(T(t.b, Front(t.m)))
            [] d.k = "flex" -> 0
Align(t) ==
  IF t.m = <<>> THEN (IF t.b.k = "base" THEN BaseSize(t.b.n) ELSE decls[t.b.i].align)
  ELSE IF Last(t.m).k \in {"ptr", "fp"} THEN 8 ELSE Align(T(t.b, Front(t.m)))

\* Not represented (an unknown type inside)
RECURSIVE Broken(_)
Broken(t) == IF t.m # <<>> /\ Last(t.m).k \in {"ptr", "fp"} THEN FALSE
             ELSE IF t.m # <<>> THEN Broken(T(t.b, Front(t.m)))
             ELSE t.b.k = "ref" /\ decls[t.b.i].broken
\* All declarations a type mentions at any distance, later ones included
Mentioned(t) == (IF t.b.k = "ref" THEN {t.b.i} ELSE {}) \cup
                UNION {UNION {IF t.m[j].ps[p].b.k = "ref" THEN {t.m[j].ps[p].b.i} ELSE {} : p \in 1..Len(t.m[j].ps)} : j \in 1..Len(t.m)}

Up(x, a) == ((x + a - 1) \div a) * a
AlignOf(t) == IF packing = 0 THEN Align(t) ELSE Min2(packing, Align(t))
\* The end of a run of bit fields: C goes on at the next byte, the ctypes
\* module at the end of the unit.  Only where both agree is the struct one
\* that can be represented.
Byte == Up(pos, 8)
RunEnd(a) == IF run = 0 THEN TRUE ELSE Up(Byte, 8 * a) = Up(Up(pos, run), 8 * a)

Mem(t, off, w) == [t |-> t, off |-> off, w |-> w, anon |-> FALSE]

IsFlex(t) == IF t.m = <<>> THEN FALSE ELSE Last(t.m).k = "flex"

CanAdd(t) ==
  /\ Open /\ Kind \in {"struct", "union"} /\ Len(cur) < MaxMembers
  /\ IF cur = <<>> THEN TRUE ELSE IF Last(cur).t.m = <<>> THEN TRUE ELSE Last(Last(cur).t.m).k # "flex"
  /\ IF IsFlex(t) THEN Kind = "struct" /\ cur # <<>> ELSE TRUE
  /\ IF Kind = "union" THEN TRUE ELSE RunEnd(AlignOf(t))
AddMember(t) ==
  /\ CanAdd(t)
  /\ LET a == AlignOf(t)
         off == IF Kind = "union" THEN 0 ELSE Up(Byte, 8 * a)
     IN /\ cur' = Append(cur, Mem(t, off, -1))
        /\ pos' = IF Kind = "union" THEN Max2(pos, 8 * Size(t)) ELSE off + 8 * Size(t)
        /\ al' = Max2(al, a)
  /\ run' = 0
  /\ UNCHANGED <<plan, decls, packing, reqs>>

\* A bit field: placed in the unit the position is in if it fits
CanAddBit(bt, w) ==
  /\ Open /\ Kind \in {"struct", "union"} /\ Len(cur) < MaxMembers
  /\ packing = 0
  /\ w <= 8 * bt.s
  /\ IF cur = <<>> THEN TRUE ELSE IF Last(cur).t.m = <<>> THEN TRUE ELSE Last(Last(cur).t.m).k # "flex"
  \* (the ctypes module gets adjacent bit fields of a union wrong)
  /\ IF Kind = "union" THEN (IF cur = <<>> THEN TRUE ELSE Last(cur).w = -1)
     ELSE IF (IF run = 0 THEN FALSE ELSE Last(cur).t.b.n = bt.n) THEN TRUE ELSE run = 0 /\ pos % (8 * bt.s) = 0
AddBit(bt, w) ==
  /\ CanAddBit(bt, w)
  /\ LET u == 8 * bt.s
         off == IF Kind = "union" THEN 0 ELSE IF (pos % u) + w > u THEN Up(pos, u) ELSE pos
     IN /\ cur' = Append(cur, Mem(T(Bs(bt.n, bt.s), <<>>), off, w))
        /\ pos' = IF Kind = "union" THEN Max2(pos, w) ELSE off + w
        /\ al' = Max2(al, bt.s)
        /\ run' = IF Kind = "union" THEN 0 ELSE u
  /\ UNCHANGED <<plan, decls, packing, reqs>>

\* A member without name whose members belong to the enclosing struct as well
AddAnon(i) ==
  /\ i < Here /\ plan[i] \in {"struct", "union"} /\ CanAdd(T(RefTo(i), <<>>)) /\ ~decls[i].broken /\ decls[i].pack = packing
  /\ \A m \in Range(decls[i].members) : ~m.anon
  /\ \A m \in Range(cur) : IF m.anon THEN m.t.b.i # i ELSE TRUE
  /\ LET t == T(RefTo(i), <<>>)  a == AlignOf(t)
         off == IF Kind = "union" THEN 0 ELSE Up(Byte, 8 * a)
     IN /\ cur' = Append(cur, [Mem(t, off, -1) EXCEPT !.anon = TRUE])
        /\ pos' = IF Kind = "union" THEN Max2(pos, 8 * Size(t)) ELSE off + 8 * Size(t)
        /\ al' = Max2(al, a)
  /\ run' = 0
  /\ UNCHANGED <<plan, decls, packing, reqs>>

Fin(k, ms, s, a, br) == [kind |-> k, members |-> ms, size |-> s, align |-> a, pack |-> packing, broken |-> br]
Close(next_pack) ==
  /\ Open /\ Kind \in {"struct", "union"} /\ cur # <<>>
  /\ decls' = Append(decls, Fin(Kind, cur, Up(Up(pos, 8), 8 * al) \div 8, al, \E m \in Range(cur) : Broken(m.t)))
  /\ cur' = <<>> /\ pos' = 0 /\ al' = 1 /\ run' = 0
  /\ packing' = next_pack
  /\ UNCHANGED <<plan, reqs>>

Typedef(t) ==
  /\ Open /\ Kind = "typedef"
  /\ decls' = Append(decls, Fin("typedef", <<Mem(t, 0, -1)>>, Size(t), Align(t), Broken(t)))
  /\ UNCHANGED <<plan, cur, pos, al, run, packing, reqs>>
Enum == /\ Open /\ Kind = "enum"
        /\ decls' = Append(decls, Fin("enum", <<>>, 4, 4, FALSE))
        /\ UNCHANGED <<plan, cur, pos, al, run, packing, reqs>>
\* A struct with a member of an unknown type
Bad == /\ Open /\ Kind = "bad"
       /\ decls' = Append(decls, Fin("bad", <<>>, 1, 1, TRUE))
       /\ UNCHANGED <<plan, cur, pos, al, run, packing, reqs>>

Request(i, via) ==
  /\ ~Open /\ Len(reqs) < MaxReq
  /\ reqs' = Append(reqs, <<i, via>>)
  /\ UNCHANGED <<plan, decls, cur, pos, al, run, packing>>

Start == decls = <<>> /\ cur = <<>> /\ pos = 0 /\ al = 1 /\ run = 0 /\ reqs = <<>>

----------------------------------------------------------------------------
(* All structs of a few members.                                           *)

SmallTypes == {T(Bs("char", 1), <<>>), T(Bs("short", 2), <<>>), T(Bs("int", 4), <<>>), T(Bs("double", 8), <<>>),
               T(Bs("char", 1), <<Arr(3)>>), T(Void, <<Ptr>>), T(Bs("long double", 16), <<>>),
               T(Bs("short", 2), <<Arr(3), Arr(2)>>), T(Bs("int", 4), <<Flex>>)}
Packs == {0, 1, 2, 4, 8, 16}
InitOne == plan \in {<<"struct">>, <<"union">>} /\ packing \in Packs /\ Start
NextOne == \/ \E t \in SmallTypes : AddMember(t)
           \/ \E b \in Range(BitTable), w \in {1, 3, 8, 13, 32} : AddBit(b, w)
           \/ Close(0)

(* Structs which refer to each other, in all orders of requests.           *)
RefTypes(i) == [j \in 1..Len(plan) |-> T(RefTo(j), <<Ptr>>)] \o [j \in 1..(i - 1) |-> T(RefTo(j), <<>>)]
               \o <<T(Bs("char", 1), <<>>), T(Void, <<Fp(<<T(RefTo(Len(plan)), <<>>)>>)>>)>>
Rank(t) == CHOOSE j \in 1..Len(RefTypes(Here)) : RefTypes(Here)[j] = t
InitOrder == plan = <<"struct", "struct", "struct">> /\ packing = 0 /\ Start
NextOrder ==
  \/ \E j \in 1..(IF Open THEN Len(RefTypes(Here)) ELSE 0) :
       (IF cur = <<>> THEN TRUE ELSE j > Rank(Last(cur).t)) /\ AddMember(RefTypes(Here)[j])
  \/ (Len(cur) = MaxMembers /\ Close(0))
  \/ \E i \in 1..3 : Request(i, "tag")

----------------------------------------------------------------------------
(* Simulation.                                                             *)

Kinds == <<"struct", "struct", "union", "typedef", "typedef", "enum", "struct", "struct", "union", "typedef", "bad">>
InitSim == plan = <<>> /\ packing = 0 /\ Start
Seed == Len(decls) + Len(cur) + Len(reqs) + Len(plan)
R(n) == RandomElement(1..(n + 0 * Seed))
Packed(r) == CASE r = 1 -> 1 [] r = 2 -> 2 [] r = 3 -> 4 [] r = 4 -> 8 [] r = 5 -> 16 [] OTHER -> 0

\* plain: no union, bit field or array, at any depth, so that it may be passed by value
RECURSIVE Plain(_)
Plain(i) == decls[i].kind = "struct" /\ ~decls[i].broken
            /\ \A m \in Range(decls[i].members) :
                 m.w = -1 /\ (m.t.m = <<>> => m.t.b.k = "base" \/ Plain(m.t.b.i)) /\ (m.t.m # <<>> => Last(m.t.m).k = "ptr")
Param(r, i) == CASE r = 1 -> T(Bs("int", 4), <<>>) [] r = 2 -> T(Bs("double", 8), <<>>) [] r = 3 -> T(Bs("char", 1), <<Ptr>>)
                 [] r = 4 -> T(Void, <<Ptr>>) [] r = 5 -> T(Bs("unsigned short", 2), <<Ptr, Ptr>>)
                 [] OTHER -> IF i \in 1..Len(plan) /\ plan[i] \in {"struct", "union"} THEN
                               (IF r = 6 /\ i < Here /\ Plain(i) THEN T(RefTo(i), <<>>) ELSE T(RefTo(i), <<Ptr>>))
                             ELSE T(Bs("float", 4), <<Ptr>>)
FpOf(n, r1, r2, i) == Fp(CASE n = 1 -> <<>> [] n = 2 -> <<Param(r1, i)>> [] OTHER -> <<Param(r1, i), Param(r2, i)>>)
Mods(r, n, f) == CASE r \in 1..8 -> <<>> [] r = 9 -> <<Ptr>> [] r = 10 -> <<Arr(n)>> [] r = 11 -> <<Ptr, Arr(n)>>
                   [] r = 12 -> <<Arr(n), Ptr>> [] r = 13 -> <<Arr(n), Arr(2)>> [] r = 14 -> <<Ptr, Ptr>>
                   [] r = 15 -> <<f>> [] r = 16 -> <<f, Arr(n)>> [] r = 17 -> <<Ptr, f>> [] r = 18 -> <<Flex>>
                   [] r = 19 -> <<Arr(3), Ptr, Arr(n)>> [] r = 20 -> <<f, Ptr>> [] r = 21 -> <<Arr(2), Arr(n), Arr(3)>>
                   [] r = 22 -> <<Arr(n), Arr(1), Ptr, Ptr, Arr(2)>>
BaseOf(r, i) == IF r <= Len(BaseTable) THEN Bs(BaseTable[r].n, 0)
                ELSE IF r = Len(BaseTable) + 1 THEN Void
                ELSE IF r = Len(BaseTable) + 2 THEN Opaque
                ELSE RefTo(i)
\* a type which is complete where the member is declared
Proper(t) == LET n == Len(t.m)
                 whole == t.b.k = "base" \/ (t.b.k = "ref" /\ t.b.i < Here)
                 fp1 == n > 0 /\ t.m[1].k = "fp"
                 ok == t.b.k # "ref" \/ t.b.i < Here \/ plan[t.b.i] \in Tagged
             IN /\ ok
                /\ whole \/ (n > 0 /\ t.m[1].k = "ptr") \/ (t.b.k = "void" /\ fp1)
                /\ (fp1 /\ t.b.k = "ref" /\ t.b.i < Here) => Plain(t.b.i) \/ plan[t.b.i] = "enum"
                /\ (t.b.k = "ref" /\ t.b.i < Here /\ n > 0 /\ t.m[1].k \in {"arr", "flex"}) => decls[t.b.i].size > 0
                \* (numbers stay small)
                /\ (Mode = "wide" /\ whole /\ t.b.k = "ref") => decls[t.b.i].size < 3000 /\ (decls[t.b.i].size < 100 \/ t.m = <<>>)

Stop(r) == cur # <<>> /\ (IF Mode = "wide" THEN Len(cur) >= MaxMembers - r ELSE r <= 4 \/ Len(cur) = MaxMembers)
\* large structs: the numbers of items and bits are larger, too
Items(n) == IF Mode = "wide" THEN <<2, 9, 33, 130>>[n] ELSE n
Draw ==
  IF plan = <<>> THEN
    \E n \in {R(3)}, p \in {R(12)}, a \in {R(11)}, b \in {R(11)}, c \in {R(7)}, d \in {R(11)} :
      /\ plan' = [i \in 1..(MaxDecls - 2 + n) |-> Kinds[1 + ((CASE i = 1 -> c % 2 [] i % 3 = 0 -> a + i * c [] i % 3 = 1 -> b + i * d
                                                                [] OTHER -> a + i * b + d) % Len(Kinds))]]
      /\ packing' = Packed(p)
      /\ UNCHANGED <<decls, cur, pos, al, run, reqs>>
  ELSE IF ~Open THEN \E i \in {RandomElement(1..(Len(plan) + 0 * Seed))}, v \in {R(4)} : Request(i, <<"tag", "types", "attr", "alias">>[v])
  ELSE IF Kind = "enum" THEN Enum
  ELSE IF Kind = "bad" THEN Bad
  ELSE
  \E r \in {R(20)}, rb \in {R(Len(BaseTable) + 16)}, rm \in {R(22)}, n \in {Items(R(4))}, i \in {R(Len(plan))},
     p1 \in {R(7)}, p2 \in {R(7)}, pi \in {R(Len(plan))}, np \in {R(3)}, w \in {R(IF Mode = "wide" THEN 40 ELSE 12)}, bi \in {R(5)}, pk \in {R(12)} :
    LET t0 == T(BaseOf(rb, i), Mods(rm, n, FpOf(np, p1, p2, pi)))
        flex == t0.m # <<>> /\ Last(t0.m).k = "flex"
        t == IF Proper(t0) /\ (Kind = "typedef" => ~flex) THEN t0
             ELSE IF i >= Here /\ plan[i] \in Tagged THEN T(RefTo(i), <<Ptr>>) ELSE T(Bs("short", 2), <<>>)
    IN IF Kind = "typedef" THEN Typedef(t)
       ELSE IF Stop(r) THEN Close(IF r <= 2 THEN Packed(pk) ELSE packing)
       ELSE IF r >= 17 /\ CanAddBit(BitTable[bi], w) THEN AddBit(BitTable[bi], w)
       ELSE IF r = 16 /\ i < Here /\ plan[i] \in {"struct", "union"} /\ ENABLED AddAnon(i) THEN AddAnon(i)
       ELSE IF CanAdd(t) THEN AddMember(t)
       ELSE IF cur # <<>> THEN Close(packing) ELSE AddMember(T(Bs("int", 4), <<>>))

----------------------------------------------------------------------------
(* Design.                                                                 *)

\* members lie inside, on their boundary, and do not overlap in a struct
Bits(m) == IF m.w >= 0 THEN m.w ELSE 8 * Size(m.t)
Sound ==
  \A i \in 1..Len(decls) :
    LET d == decls[i]
    IN d.kind \in {"struct", "union"} =>
      /\ d.size % d.align = 0
      /\ \A j \in 1..Len(d.members) :
           LET m == d.members[j]
           IN /\ m.off + Bits(m) <= 8 * d.size
              /\ m.w = -1 => m.off % (8 * (IF d.pack = 0 THEN Align(m.t) ELSE Min2(d.pack, Align(m.t)))) = 0
              /\ m.w >= 0 => (m.off \div (8 * Size(m.t))) = ((m.off + m.w - 1) \div (8 * Size(m.t)))
              /\ (d.kind = "struct" /\ j > 1) => m.off >= d.members[j - 1].off + Bits(d.members[j - 1])
              /\ d.kind = "union" => m.off = 0
\* requests change no definition
Pure == [][~Open => decls' = decls]_vars

\* the declarations reached from i
RECURSIVE Reach(_)
Reach(S) == LET n == S \cup UNION {UNION {Mentioned(m.t) : m \in Range(decls[i].members)} : i \in S}
            IN IF n = S THEN S ELSE Reach(n)
Case == [decls |-> [i \in 1..Len(decls) |-> [decls[i] EXCEPT !.broken =
           IF decls[i].broken THEN "yes" ELSE IF \E j \in Reach({i}) : decls[j].broken THEN "maybe" ELSE "no"]],
         reqs |-> reqs]
GenOne == ~Open => Emit(Case)
Gen == (~Open /\ plan # <<>> /\ Len(reqs) = MaxReq) => Emit(Case)
SpecOrder == InitOrder /\ [][NextOrder]_vars
=============================================================================
