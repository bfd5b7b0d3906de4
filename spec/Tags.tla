------------------------------- MODULE Tags -------------------------------
(***************************************************************************)
(* C07: the registry of struct, union and enum tags.                       *)
(*                                                                         *)
(* The state is the registry, the stack of definitions being read (bodies  *)
(* nest) and the names declared so far; every action reads a piece of a    *)
(* header.  An anonymous definition is known by its number, which is no    *)
(* tag.                                                                    *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxSteps, MaxDepth, Rich

StructTags == IF Rich THEN {"Sa", "Sb", "Sc", "Sd"} ELSE {"Sa", "Sb"}
UnionTags == IF Rich THEN {"Ua", "Ub"} ELSE {"Ua"}
EnumTags == IF Rich THEN {"Ea", "Eb"} ELSE {"Ea"}
TagSet == StructTags \cup UnionTags \cup EnumTags
KindOf(t) == IF t \in StructTags THEN "struct" ELSE IF t \in UnionTags THEN "union" ELSE "enum"

VARIABLES
  tags,     \* tag -> "none" | "ref" | "open" | "def"
  entries,  \* sequence of [id, kind, members, full]: the definitions in the order of their ends
  nanon,    \* anonymous definitions started
  stack,    \* definitions being read: [id, kind, form, members]
  names,    \* names declared: [n, cat, base, p, a]
  nid,      \* to make fresh names
  hist      \* the text, in pieces
vars == <<tags, entries, nanon, stack, names, nid, hist>>

Init == /\ tags = [t \in TagSet |-> "none"]
        /\ entries = <<>> /\ nanon = 0 /\ stack = <<>> /\ names = <<>> /\ nid = 0 /\ hist = <<>>

Base(n) == [k |-> "base", n |-> n]
TagBase(id) == [k |-> "tag", n |-> id]
Fresh(i) == "n" \o ToString(nid + i)
Put(s) == hist' = Append(hist, s)
Outer == stack = <<>>
Top == stack[Len(stack)]
IsEnum == ~Outer /\ Top.kind = "enum"
InBody == ~Outer /\ ~IsEnum
WithMembers(ms) == [stack EXCEPT ![Len(stack)].members = @ \o ms]

Steps == Len(hist)
\* leave room to end the definitions being read
Room == Steps + Len(stack) < MaxSteps

\* A reference to a tag leaves the entry as it is and makes one without members
\* if there is none
Refer(t) == tags' = [tags EXCEPT ![t] = IF @ = "none" THEN "ref" ELSE @]

Stars(p) == IF p = 0 THEN "" ELSE IF p = 1 THEN "*" ELSE "**"
Sub(a) == IF a = 0 THEN "" ELSE "[" \o ToString(a) \o "]"
D(n, p, a) == Stars(p) \o n \o Sub(a)

----------------------------------------------------------------------------
(* Definitions.                                                            *)

Forms == IF Rich THEN {"plain", "typedef", "var", "static", "const", "proto"} ELSE {"plain", "typedef", "var"}

\* The start of a definition: "typedef struct T {"
CanOpen(kind, tag, form) ==
  /\ Steps + Len(stack) + 3 <= MaxSteps
  /\ Len(stack) < MaxDepth
  /\ ~IsEnum
  /\ tag # "" => tags[tag] \in {"none", "ref"} /\ KindOf(tag) = kind
  /\ Outer \/ form \in {"var", "const"} \/ (form = "plain" /\ tag = "")
  /\ form = "plain" /\ tag = "" => (kind = "enum" \/ InBody)
  /\ form = "plain" /\ InBody => kind # "enum"
Open(kind, tag, form) ==
  /\ CanOpen(kind, tag, form)
  /\ LET id == IF tag = "" THEN "#" \o ToString(nanon) ELSE tag
     IN /\ stack' = Append(stack, [id |-> id, kind |-> kind, form |-> form, members |-> <<>>])
        /\ nanon' = IF tag = "" THEN nanon + 1 ELSE nanon
        /\ tags' = IF tag = "" THEN tags ELSE [tags EXCEPT ![tag] = "open"]
        /\ Put((CASE form = "typedef" -> "typedef " [] form = "static" -> "static "
                   [] form = "const" -> "const " [] OTHER -> "")
                 \o kind \o (IF tag = "" THEN "" ELSE " " \o tag) \o " {")
  /\ UNCHANGED <<entries, names, nid>>

BaseTypes == IF Rich THEN {"int", "unsigned char", "double", "long long", "uint16_t"} ELSE {"int"}

M(n, base, p, a, b) == [n |-> n, base |-> base, p |-> p, a |-> a, b |-> b, v |-> 0, q |-> FALSE]

\* Members of base types
Member(bt, f) ==
  /\ Room /\ InBody
  /\ LET x == Fresh(1)  y == Fresh(2)  z == Fresh(3)  b == Base(bt)
         c == CASE f = 1 -> [t |-> D(x, 0, 0), ms |-> <<M(x, b, 0, 0, -1)>>]
                [] f = 2 -> [t |-> D(x, 0, 0) \o ", " \o D(y, 1, 3) \o ", " \o D(z, 0, 2),
                             ms |-> <<M(x, b, 0, 0, -1), M(y, b, 1, 3, -1), M(z, b, 0, 2, -1)>>]
                [] f = 3 -> [t |-> x \o " : 3, " \o y \o ":5", ms |-> <<M(x, b, 0, 0, 3), M(y, b, 0, 0, 5)>>]
                [] f = 4 -> [t |-> x \o ":1, :2, " \o y \o " : 4",
                             ms |-> <<M(x, b, 0, 0, 1), M("", b, 0, 0, 2), M(y, b, 0, 0, 4)>>]
                [] f = 5 -> [t |-> "**" \o x, ms |-> <<M(x, b, 2, 0, -1)>>]
     IN /\ f \in {3, 4} => bt \in {"int", "unsigned char"}
        /\ stack' = WithMembers(c.ms)
        /\ Put(bt \o " " \o c.t \o ";")
  /\ nid' = nid + 3
  /\ UNCHANGED <<tags, entries, nanon, names>>

\* Members which refer to a tag: by value if it is complete, by pointer else
RefMember(t, two) ==
  /\ Room /\ InBody
  /\ LET x == Fresh(1)  y == Fresh(2)  p == IF tags[t] = "def" THEN 0 ELSE 1  b == TagBase(t)
     IN /\ stack' = WithMembers(IF two THEN <<M(x, b, p, 0, -1), M(y, b, 1, 4, -1)>> ELSE <<M(x, b, p, 0, -1)>>)
        /\ Put(KindOf(t) \o " " \o t \o " " \o D(x, p, 0) \o (IF two THEN ", " \o D(y, 1, 4) ELSE "") \o ";")
  /\ Refer(t)
  /\ nid' = nid + 2
  /\ UNCHANGED <<entries, nanon, names>>

\* An enumerator: one more than the last, or explicit
Enumerator(v) ==
  /\ Room /\ IsEnum
  /\ LET x == Fresh(1)
         last == IF Top.members = <<>> THEN -1 ELSE Top.members[Len(Top.members)].v
         val == IF v = 0 THEN last + 1 ELSE v
     IN /\ stack' = WithMembers(<<[M(x, Base("int"), 0, 0, -1) EXCEPT !.v = val]>>)
        /\ Put((IF Top.members = <<>> THEN "" ELSE ", ") \o x \o (IF v = 0 THEN "" ELSE " = " \o ToString(v)))
  /\ nid' = nid + 1
  /\ UNCHANGED <<tags, entries, nanon, names>>

N(n, cat, base, p, a, ty) == [n |-> n, cat |-> cat, base |-> base, p |-> p, a |-> a, params |-> ty, q |-> FALSE]

\* The end of a definition, with the names declared with it
Close ==
  /\ ~Outer /\ Top.members # <<>>
  /\ LET e == Top  under == SubSeq(stack, 1, Len(stack) - 1)
         b == TagBase(e.id)  x == Fresh(1)  y == Fresh(2)
         isVar == e.form \in {"var", "static", "const"}
         t == IF e.form = "plain" THEN "" ELSE IF e.form = "proto" THEN x \o "(int " \o y \o ")"
              ELSE D(x, 0, 0) \o ", " \o D(y, 1, 2)
         anonMember == e.form = "plain" /\ e.id \notin TagSet
         Q(r) == [r EXCEPT !.q = (e.form = "const")]
         ms == IF isVar THEN <<Q(M(x, b, 0, 0, -1)), Q(M(y, b, 1, 2, -1))>>
               ELSE IF anonMember THEN <<M("", b, 0, 0, -1)>> ELSE <<>>
         ns == IF isVar THEN <<Q(N(x, "variables", b, 0, 0, <<>>)), Q(N(y, "variables", b, 1, 2, <<>>))>>
               ELSE IF e.form = "typedef" THEN <<N(x, "types", b, 0, 0, <<>>), N(y, "types", b, 1, 2, <<>>)>>
               ELSE IF e.form = "proto" THEN <<N(x, "functions", b, 0, 0, <<y>>)>> ELSE <<>>
         nested == Len(under) > 0
     IN /\ entries' = Append(entries, [id |-> e.id, kind |-> e.kind, members |-> e.members])
        /\ tags' = IF e.id \in TagSet THEN [tags EXCEPT ![e.id] = "def"] ELSE tags
        /\ stack' = IF nested THEN [under EXCEPT ![Len(under)].members = @ \o ms] ELSE under
        /\ names' = IF nested THEN names ELSE names \o ns
        /\ Put("} " \o t \o ";")
  /\ nid' = nid + 2
  /\ UNCHANGED nanon

----------------------------------------------------------------------------
(* References outside of definitions.                                      *)

RefForms == IF Rich THEN {"decl", "typedef", "typedefptr", "ptr", "proto", "extern"}
            ELSE {"decl", "typedef", "ptr", "proto"}
Reference(t, f) ==
  /\ Room /\ Outer
  /\ LET k == KindOf(t) \o " " \o t  x == Fresh(1)  y == Fresh(2)  b == TagBase(t)
     IN CASE f = "decl" -> Put(k \o ";") /\ names' = names
          [] f = "typedef" -> Put("typedef " \o k \o " " \o x \o ", *" \o y \o ";")
               /\ names' = names \o <<N(x, "types", b, 0, 0, <<>>), N(y, "types", b, 1, 0, <<>>)>>
          [] f = "typedefptr" -> Put("typedef const " \o k \o " *" \o x \o ";")
               /\ names' = names \o <<[N(x, "types", b, 1, 0, <<>>) EXCEPT !.q = TRUE]>>
          [] f = "ptr" -> Put(k \o " *" \o x \o ";") /\ names' = names \o <<N(x, "variables", b, 1, 0, <<>>)>>
          [] f = "proto" -> Put(k \o " *" \o x \o "(" \o k \o " *" \o y \o ");")
               /\ names' = names \o <<N(x, "functions", b, 1, 0, <<y>>)>>
          [] f = "extern" -> Put("extern " \o k \o " " \o x \o "[3];")
               /\ names' = names \o <<N(x, "variables", b, 0, 3, <<>>)>>
  /\ Refer(t)
  /\ nid' = nid + 2
  /\ UNCHANGED <<entries, nanon, stack>>

NewFile == /\ Room /\ Outer /\ hist # <<>> /\ hist[Len(hist)] # "--file"
           /\ Put("--file")
           /\ UNCHANGED <<tags, entries, nanon, stack, names, nid>>

Next ==
  \/ \E k \in {"struct", "union", "enum"}, f \in Forms : Open(k, "", f)
  \/ \E t \in TagSet, f \in Forms : Open(KindOf(t), t, f)
  \/ \E bt \in BaseTypes, f \in 1..(IF Rich THEN 5 ELSE 2) : Member(bt, f)
  \/ \E t \in TagSet, two \in (IF Rich THEN BOOLEAN ELSE {FALSE}) : RefMember(t, two)
  \/ \E v \in {0, 7} : Enumerator(v)
  \/ Close
  \/ \E t \in TagSet, f \in RefForms : Reference(t, f)
  \/ NewFile

\* The same with one kind of action drawn at random (simulation)
Draw ==
  \E r \in {RandomElement(1..(20 + 0 * Len(hist)))}, t \in {RandomElement({x \in TagSet : Len(hist) >= 0})},
     f \in {RandomElement({x \in Forms : Len(hist) >= 0})}, bt \in {RandomElement({x \in BaseTypes : Len(hist) >= 0})},
     i \in {RandomElement(1..(5 + 0 * Len(hist)))}, k \in {RandomElement({x \in {"struct", "union", "enum"} : Len(hist) >= 0})},
     rf \in {RandomElement({x \in RefForms : Len(hist) >= 0})} :
  LET closing == ~Outer /\ Top.members # <<>> /\ (~Room \/ r <= 5)
  IN IF closing THEN Close
     ELSE IF IsEnum THEN Enumerator(IF r < 14 THEN 0 ELSE r - 18)
     ELSE IF r <= 12 THEN
       IF CanOpen(k, "", f) /\ r <= 6 THEN Open(k, "", f)
       ELSE IF CanOpen(KindOf(t), t, f) THEN Open(KindOf(t), t, f)
       ELSE IF InBody THEN Member("int", i) ELSE Reference(t, rf)
     ELSE IF InBody THEN IF r <= 17 THEN Member(bt, IF bt \in {"int", "unsigned char"} THEN i ELSE (i % 2) + 1)
                         ELSE RefMember(t, r % 2 = 0)
     ELSE IF r = 13 /\ hist # <<>> /\ hist[Len(hist)] # "--file" THEN NewFile
     ELSE Reference(t, rf)

----------------------------------------------------------------------------
(* Design.                                                                 *)

Ids == {entries[i].id : i \in 1..Len(entries)}
TypeOK == \A t \in TagSet : tags[t] \in {"none", "ref", "open", "def"}
\* one complete entry per defined tag and per finished anonymous definition
OneEntry ==
  /\ \A i, j \in 1..Len(entries) : entries[i].id = entries[j].id => i = j
  /\ \A t \in TagSet : (tags[t] = "def") <=> (t \in Ids)
  /\ Outer => Cardinality(Ids \ TagSet) = nanon
\* whatever refers to a definition refers to one that exists
Closed ==
  Outer => /\ \A i \in 1..Len(names) : names[i].base.n \in Ids \/ (names[i].base.n \in TagSet /\ tags[names[i].base.n] # "none")
           /\ \A i \in 1..Len(entries) : \A j \in 1..Len(entries[i].members) :
                LET b == entries[i].members[j].base
                IN b.k = "tag" => b.n \in Ids \/ (b.n \in TagSet /\ tags[b.n] # "none")

Case == [h |-> hist, entries |-> entries, names |-> names,
         refs |-> {t \in TagSet : tags[t] = "ref"}]
Gen == (Outer /\ Steps >= 1) => Emit(Case)
GenEnd == (Outer /\ ~Room) => Emit(Case)
\* a complete definition stays as it is
StaysDefined == [][\A t \in TagSet : tags[t] = "def" => tags'[t] = "def"
                   /\ \A i \in 1..Len(entries) : entries'[i] = entries[i]]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
