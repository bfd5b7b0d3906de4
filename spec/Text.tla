------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* C18: comments, literals, continued lines and replacements, character by *)
(* character.  Texts are sequences of one-character strings.               *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxLen, Alphabet, MaxRules, Replacing

VARIABLES text,  \* the characters so far
          st,    \* state of the reader
          out,   \* the text without comments
          rules  \* the replacements of the user
vars == <<text, st, out, rules>>

BS == "\\"
NL == "\n"
Quote == {"\"", "'"}

----------------------------------------------------------------------------
(* The reader: [s, q, o]: state, quote of the literal, output.  A slash    *)
(* and the backslash of a line which may be continued are held back.       *)
R0 == [s |-> "code", q |-> "", o |-> <<>>]
Fail == [s |-> "fail", q |-> "", o |-> <<>>]
Put(r, c) == Append(r.o, c)
Read(r, c) ==
  CASE r.s = "fail" -> r
    [] r.s = "code" ->
         IF c = "/" THEN [r EXCEPT !.s = "slash"]
         ELSE IF c \in Quote THEN [s |-> "literal", q |-> c, o |-> Put(r, c)]
         ELSE [r EXCEPT !.o = Put(r, c)]
    [] r.s = "slash" ->
         IF c = "/" THEN (IF r.o # <<>> /\ r.o[Len(r.o)] = BS THEN Fail     \* no joint in C, but unusual
                          ELSE [r EXCEPT !.s = "line"])
         ELSE IF c = "*" THEN [r EXCEPT !.s = "block"]
         ELSE IF c = BS THEN Fail        \* a marker must not be split over lines
         ELSE IF c \in Quote THEN [s |-> "literal", q |-> c, o |-> r.o \o <<"/", c>>]
         ELSE [r EXCEPT !.s = "code", !.o = r.o \o <<"/", c>>]
    [] r.s = "line" ->
         IF c = NL THEN [r EXCEPT !.s = "code", !.o = r.o \o <<" ", NL>>]
         ELSE IF c = BS THEN [r EXCEPT !.s = "linebs"]
         ELSE r
    [] r.s = "linebs" ->                 \* the comment goes on after a joint
         IF c = BS THEN r ELSE [r EXCEPT !.s = "line"]
    [] r.s = "block" -> IF c = "*" THEN [r EXCEPT !.s = "star"] ELSE r
    [] r.s = "star" ->
         IF c = "/" THEN [r EXCEPT !.s = "code", !.o = Put(r, " ")]
         ELSE IF c = "*" THEN r
         ELSE IF c = BS THEN Fail
         ELSE [r EXCEPT !.s = "block"]
    [] r.s = "literal" ->
         IF c = r.q THEN [s |-> "code", q |-> "", o |-> Put(r, c)]
         ELSE IF c = NL THEN Fail        \* a literal ends on its line
         ELSE IF c = BS THEN [r EXCEPT !.s = "escape", !.o = Put(r, c)]
         ELSE [r EXCEPT !.o = Put(r, c)]
    [] r.s = "escape" ->
         IF c = "x" THEN [r EXCEPT !.s = "hex", !.o = Put(r, c)]
         ELSE [r EXCEPT !.s = "literal", !.o = Put(r, c)]
    [] r.s = "hex" ->
         IF c \in {"1", "a"} THEN [r EXCEPT !.s = "literal", !.o = Put(r, c)] ELSE Fail
Complete(r) == r.s \in {"code", "slash", "line"}
Result(r) == IF r.s = "slash" THEN Append(r.o, "/") ELSE r.o

RECURSIVE ReadAll(_, _)
ReadAll(r, t) == IF t = <<>> THEN r ELSE ReadAll(Read(r, Head(t)), Tail(t))

\* Continued lines are joined
RECURSIVE Join(_)
Join(t) == IF Len(t) < 2 THEN t
           ELSE IF t[1] = BS /\ t[2] = NL THEN Join(SubSeq(t, 3, Len(t)))
           ELSE <<t[1]>> \o Join(Tail(t))

----------------------------------------------------------------------------
(* Replacements: a pattern is a sequence of sets of characters; the        *)
(* matches are taken from the left and do not overlap.                     *)
Matches(p, t) == Len(t) >= Len(p) /\ \A i \in 1..Len(p) : t[i] \in p[i]
RECURSIVE Sub(_, _, _)
Sub(p, w, t) ==
  IF t = <<>> THEN <<>>
  ELSE IF Matches(p, t) THEN w \o Sub(p, w, SubSeq(t, Len(p) + 1, Len(t)))
  ELSE <<t[1]>> \o Sub(p, w, Tail(t))
RECURSIVE SubAll(_, _)
SubAll(rs, t) == IF rs = <<>> THEN t ELSE SubAll(Tail(rs), Sub(rs[1].p, rs[1].w, t))

Rule(p, w) == [p |-> p, w |-> w]
RulePool == << Rule(<<{"a"}>>, <<"b">>), Rule(<<{"b"}>>, <<"a", "a">>), Rule(<<{"a", "b"}, {"a"}>>, <<>>),
               Rule(<<{"/"}, {"*"}>>, <<"b">>), Rule(<<{"b"}>>, <<"/", "/">>), Rule(<<{"a"}>>, <<"/", "*">>),
               Rule(<<{NL}>>, <<" ">>), Rule(<<{"*", "a"}>>, <<"*", "/">>), Rule(<<{" "}>>, <<NL>>),
               Rule(<<{BS}, {NL}>>, <<"a">>), Rule(<<{"\""}>>, <<"'">>), Rule(<<{"a"}, {"a"}>>, <<"a">>) >>

----------------------------------------------------------------------------
Init ==
  /\ text = <<>> /\ st = R0 /\ out = <<>>
  /\ IF Replacing THEN \E n \in 1..MaxRules : rules \in [1..n -> 1..Len(RulePool)]
     ELSE rules = <<>>
\* the same pattern only once
Distinct == \A i, j \in 1..Len(rules) : i # j => RulePool[rules[i]].p # RulePool[rules[j]].p

Type(c) == /\ Len(text) < MaxLen
           /\ text' = Append(text, c) /\ st' = Read(st, c)
           /\ (Replacing \/ st'.s # "fail")
           /\ out' = out /\ UNCHANGED rules
Next == \E c \in Alphabet : Type(c)

\* Random texts, from pieces which make markers likely
Pieces == << <<"/", "*">>, <<"*", "/">>, <<"/", "/">>, <<"\"">>, <<"'">>, <<BS>>, <<NL>>, <<" ">>, <<"a">>, <<"x">>, <<"1">>,
             <<BS, NL>>, <<BS, "\"">>, <<BS, "'">>, <<BS, BS>>, <<"*">>, <<"/">>, <<"a", "b">>, <<"\t">>, <<"\"", "\"">>, <<"%">>,
             <<"/", "*", "/">>, <<"*", "*", "/">>, <<"/", "/", "*">>, <<NL, NL>>, <<";">>, <<"\"", "/", "*", "\"">>, <<"'", "\"", "'">>,
             <<BS, "x", "1">>, <<"{">>, <<"}">> >>
Pick(n) == RandomElement(1..(n + 0 * Len(text)))
RECURSIVE Safe(_, _)
\* a piece that leads to no failure
Safe(r, c) == IF c = <<>> THEN TRUE ELSE LET x == Read(r, c[1]) IN x.s # "fail" /\ Safe(x, Tail(c))
\* towards the end, comments and literals are closed
Closing == IF st.s \in {"block"} THEN <<"*", "/">> ELSE IF st.s = "star" THEN <<"/">>
           ELSE IF st.s = "literal" THEN <<st.q>> ELSE IF st.s = "escape" THEN <<"a", st.q>>
           ELSE IF st.s = "linebs" THEN <<"a">> ELSE IF st.s = "hex" THEN <<"1", st.q>> ELSE <<"a">>
InitR ==
  /\ text = <<>> /\ st = R0 /\ out = <<>>
  /\ rules \in {[i \in 1..RandomElement(0..MaxRules) |-> RandomElement(1..Len(RulePool))] : k \in {1}}
Draw ==
  /\ Len(text) < MaxLen
  /\ \E i \in {Pick(Len(Pieces))}, j \in {Pick(Len(Pieces))}, z \in {Pick(6)} :
       LET c == IF Len(text) > MaxLen - 8 \/ (z = 1 /\ st.s # "code") THEN Closing
                ELSE IF Safe(st, Pieces[i]) THEN Pieces[i] ELSE IF Safe(st, Pieces[j]) THEN Pieces[j] ELSE Closing
       IN text' = text \o c /\ st' = ReadAll(st, c)
  /\ UNCHANGED <<out, rules>>

----------------------------------------------------------------------------
(* Directives: #define with joints anywhere.                               *)
Dir == <<"#", "d", "e", "f", "i", "n", "e", " ", "A", " ", "1", " ", "2">>
Joint == <<BS, NL>>
InitD == /\ \E i, j, k \in 0..Len(Dir) : /\ i <= j /\ j <= k
              /\ text = SubSeq(Dir, 1, i) \o Joint \o SubSeq(Dir, i + 1, j) \o Joint \o SubSeq(Dir, j + 1, k)
                        \o (IF k = Len(Dir) THEN <<>> ELSE Joint) \o SubSeq(Dir, k + 1, Len(Dir))
         /\ st = R0 /\ out = <<>> /\ rules = <<>>
NextD == FALSE /\ UNCHANGED vars
JoinedD == Join(text) = Dir \/ Join(text) = Dir \o <<BS, NL>>

----------------------------------------------------------------------------
(* Texts with many matches. *)
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN <<>> ELSE t \o Times(t, n - 1)
Units == { <<"a">>, <<"b">>, <<"a", "b", NL>>, <<"/", "*", "b", "*", "/">>, <<BS, NL>>, <<"b", " ", "a">>, <<"\"", "a", "\"", NL>>,
           <<"/", "/", "a", NL, "a">>, <<"a", "a", "b">> }
InitM == /\ \E u \in Units, v \in {<<>>, <<NL>>, <<"a", "b">>}, n \in {2, 14} : text = Times(u \o v, n)
         /\ \E n \in 1..2 : rules \in [1..n -> 1..Len(RulePool)]
         /\ st = R0 /\ out = <<>>

----------------------------------------------------------------------------
(* Design. *)
\* reading the whole text is reading it character by character
Whole == ~ Replacing => st = ReadAll(R0, text)
\* removing comments again changes nothing
Stable == (Complete(st) /\ ~ Replacing) => Join(Result(st)) = Join(Result(ReadAll(R0, Result(st))))
              \/ ReadAll(R0, Result(st)).s = "fail" \/ \E i \in 1..Len(Result(st)) : Result(st)[i] = "/"
\* a text without slashes has no comments
Same == (~ Replacing /\ st.s # "fail" /\ \A i \in 1..Len(text) : text[i] # "/") => st.o = text
\* joining leaves no joint behind and keeps everything else
Joined == LET j == Join(text) IN Len(j) <= Len(text) /\ (Len(text) - Len(j)) % 2 = 0

Case ==
  LET raw == SubAll([i \in 1..Len(rules) |-> RulePool[rules[i]]], text)
      r == ReadAll(R0, raw)
  IN [text |-> text, rules |-> [i \in 1..Len(rules) |-> [p |-> RulePool[rules[i]].p, w |-> RulePool[rules[i]].w]], raw |-> raw,
      ok |-> Complete(r), out |-> Result(r), joined |-> Join(Result(r))]
Gen == ((IF Replacing THEN Len(text) = MaxLen /\ Distinct ELSE Len(text) = MaxLen /\ Complete(st))) => Emit(Case)
GenR == (Len(text) >= MaxLen /\ Distinct) => Emit(Case)
GenM == Distinct => Emit(Case)
GenD == Emit(Case)
=============================================================================
