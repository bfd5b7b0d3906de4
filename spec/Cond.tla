-------------------------------- MODULE Cond --------------------------------
(***************************************************************************)
(* C01: conditional directives.                                            *)
(*                                                                         *)
(* A header is a sequence of lines fed one at a time.  The state is the    *)
(* stack of open #if groups and the macro table.  A frame records whether  *)
(* a branch of its chain was taken (hit), whether the current branch is    *)
(* the taken one (on), and whether #else was seen.  A line takes effect    *)
(* iff every frame is on.                                                  *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxLines,   \* length of the histories
          MaxNest,    \* depth of nesting
          Rich        \* FALSE: few conditions (exhaustive), TRUE: all of them

Macros == <<"A", "B">>
\* Values a macro can have: an integer, or one of the tags below
Undef == -1          \* not defined
FnLike == -2         \* defined as function-like macro (no value in a condition)
Vals == <<0, 1, 2, 16>>

----------------------------------------------------------------------------
(* Conditions: abstract syntax, evaluated against the macro table.          *)

Def(m) == [t |-> "def", m |-> m]
Mac(m) == [t |-> "mac", m |-> m]
Lit(v) == [t |-> "int", v |-> v]
Not(e) == [t |-> "not", e |-> e]
Cmp(o, l, r) == [t |-> "cmp", o |-> o, l |-> l, r |-> r]
And(l, r) == [t |-> "and", l |-> l, r |-> r]
Or(l, r) == [t |-> "or", l |-> l, r |-> r]

CmpVal(o, x, y) ==
  LET b == CASE o = "==" -> x = y
             [] o = "!=" -> x # y
             [] o = "<"  -> x < y
             [] o = "<=" -> x <= y
             [] o = ">"  -> x > y
             [] o = ">=" -> x >= y
  IN IF b THEN 1 ELSE 0

RECURSIVE Eval(_, _)
Eval(e, mac) ==
  CASE e.t = "def" -> IF mac[e.m] = Undef THEN 0 ELSE 1
    [] e.t = "mac" -> IF mac[e.m] < 0 THEN 0 ELSE mac[e.m]
    [] e.t = "int" -> e.v
    [] e.t = "not" -> IF Eval(e.e, mac) = 0 THEN 1 ELSE 0
    [] e.t = "cmp" -> CmpVal(e.o, Eval(e.l, mac), Eval(e.r, mac))
    [] e.t = "and" -> IF Eval(e.l, mac) # 0 /\ Eval(e.r, mac) # 0 THEN 1 ELSE 0
    [] e.t = "or"  -> IF Eval(e.l, mac) # 0 \/ Eval(e.r, mac) # 0 THEN 1 ELSE 0

True(e, mac) == Eval(e, mac) # 0

Ops == <<"==", "!=", "<", "<=", ">", ">=">>
Operands == <<Mac("A"), Mac("B"), Lit(1), Lit(16)>>
Operands2 == <<Lit(0), Lit(1), Lit(10), Lit(16), Mac("B")>>
Plain == <<Def("A"), Def("B"), Mac("A"), Mac("B"), Lit(0), Lit(1), Lit(16)>>
Cmps == MapSeq(Cross(Ops, Cross(Operands, Operands2)),
               LAMBDA p : Cmp(p[1], p[2][1], p[2][2]))
Atoms == Plain \o Cmps
Few == <<Def("A"), Def("B"), Mac("A"), Lit(0), Not(Def("A")), Not(Mac("B")),
         Cmp("!=", Mac("A"), Lit(1)), Cmp(">", Mac("B"), Lit(0)),
         Cmp("==", Mac("A"), Lit(16))>>
Pairs == Cross(Few, Few)
L2 == MapSeq(Pairs, LAMBDA p : And(p[1], p[2]))
      \o MapSeq(Pairs, LAMBDA p : Or(p[1], p[2]))
Tiny == <<Def("A"), Not(Def("B")), Mac("A"), Cmp("!=", Mac("B"), Lit(2)), Lit(1)>>
Triples == Cross(Tiny, Cross(Tiny, Tiny))
L3 == MapSeq(Triples, LAMBDA p : Or(And(p[1], p[2][1]), p[2][2]))
      \o MapSeq(Triples, LAMBDA p : Or(p[1], And(p[2][1], p[2][2])))
      \o MapSeq(Triples, LAMBDA p : And(Or(p[1], p[2][1]), p[2][2]))
      \o MapSeq(Triples, LAMBDA p : And(p[1], Not(Or(p[2][1], p[2][2]))))
      \o MapSeq(Triples, LAMBDA p : Not(And(p[1], Or(p[2][1], Not(p[2][2])))))
AllConds == Atoms \o MapSeq(Atoms, LAMBDA e : Not(e)) \o L2
            \o MapSeq(L2, LAMBDA e : Not(e)) \o L3
SmallConds == <<Mac("A"), Def("A"), Not(Def("B"))>>
Conds == IF Rich THEN AllConds ELSE SmallConds

----------------------------------------------------------------------------
(* The machine.                                                            *)

VARIABLES hist,     \* lines so far
          frames,   \* open groups
          mac,      \* macro table
          live      \* after each line: is text here taken?
vars == <<hist, frames, mac, live>>

On(fs) == \A i \in 1..Len(fs) : fs[i].on
Frame(v) == [hit |-> v, on |-> v, els |-> FALSE]

Init == /\ hist = <<>> /\ frames = <<>> /\ live = <<>>
        /\ mac = [m \in Range(Macros) |-> Undef]

Line(l, fs, ms) ==
  /\ Len(hist) < MaxLines
  /\ hist' = Append(hist, l)
  /\ frames' = fs
  /\ mac' = ms
  /\ live' = Append(live, On(fs))

If(kind, e) ==
  /\ Len(frames) < MaxNest
  /\ LET v == On(frames) /\ True(e, mac)
     IN Line([k |-> kind, e |-> e], Append(frames, Frame(v)), mac)

Elif(e) ==
  /\ frames # <<>> /\ ~Last(frames).els
  /\ LET f == Last(frames)
         \* the condition matters only if no earlier branch was taken
         v == ~f.hit /\ On(Front(frames)) /\ True(e, mac)
     IN Line([k |-> "elif", e |-> e],
             Append(Front(frames), [hit |-> f.hit \/ v, on |-> v, els |-> FALSE]), mac)

Else ==
  /\ frames # <<>> /\ ~Last(frames).els
  /\ LET f == Last(frames)
         v == ~f.hit /\ On(Front(frames))
     IN Line([k |-> "else"],
             Append(Front(frames), [hit |-> TRUE, on |-> v, els |-> TRUE]), mac)

Endif == frames # <<>> /\ Line([k |-> "endif"], Front(frames), mac)

Define(m, v) ==
  Line([k |-> "define", m |-> m, v |-> v], frames,
       IF On(frames) THEN [mac EXCEPT ![m] = v] ELSE mac)

Undefine(m) ==
  Line([k |-> "undef", m |-> m], frames,
       IF On(frames) THEN [mac EXCEPT ![m] = Undef] ELSE mac)

Pick(s) == IF Rich THEN {RandomElement(1..(Len(s) + 0 * Len(hist)))} ELSE 1..Len(s)

NextSmall ==
  \/ \E i \in Pick(Conds) : If("if", Conds[i])
  \/ \E i \in Pick(Conds) : Elif(Conds[i])
  \/ If("ifdef", Def("A")) \/ If("ifndef", Not(Def("A")))
  \/ Else \/ Endif
  \/ Define("A", 1) \/ Define("A", 0) \/ Undefine("A")
NextRich ==
  \/ \E i \in Pick(Conds) : If("if", Conds[i])
  \/ \E i \in Pick(Conds) : Elif(Conds[i])
  \/ \E m \in {Macros[i] : i \in Pick(Macros)} :
       If("ifdef", Def(m)) \/ If("ifndef", Not(Def(m)))
  \/ Else \/ Endif
  \/ \E m \in {Macros[i] : i \in Pick(Macros)} :
       \/ \E i \in Pick(Vals) : Define(m, Vals[i])
       \/ Define(m, FnLike)
       \/ Undefine(m)
Next == IF Rich THEN NextRich ELSE NextSmall

----------------------------------------------------------------------------
(* Properties of the design.                                               *)

\* Of every chain at most one branch is on, and none inside a skipped group
Sane == \A i \in 1..Len(frames) :
          /\ frames[i].on => frames[i].hit
          /\ frames[i].on => On(SubSeq(frames, 1, i - 1))

\* Inside a group that is not taken nothing changes
SkippedInert == [][~On(frames) /\ Len(frames') >= Len(frames)
                     => mac' = mac]_vars
\* A chain takes at most one branch: once hit, no later branch is on
OneBranch == [][\A i \in 1..Len(frames) :
                  (i <= Len(frames') /\ Len(frames') = Len(frames)
                   /\ frames[i].hit /\ frames'[i] # frames[i]) => ~frames'[i].on]_vars
\* Else is taken only if nothing was, and then exactly if the rest is
ElseRule == [][(frames # <<>> /\ Len(frames') = Len(frames)
                /\ Last(frames').els /\ ~Last(frames).els)
               => (Last(frames').on <=> (~Last(frames).hit /\ On(Front(frames))))]_vars

Out == [lines |-> hist, live |-> live, mac |-> mac, open |-> Len(frames)]
Gen == Len(hist) = MaxLines => Emit(Out)

----------------------------------------------------------------------------
(* One condition at a time, in every macro environment.                    *)
EnvVals == <<Undef, FnLike, 0, 1, 2, 16>>
InitExpr ==
  /\ \E i, j \in 1..Len(EnvVals) :
       mac = [m \in Range(Macros) |-> IF m = "A" THEN EnvVals[i] ELSE EnvVals[j]]
  /\ \E k \in 1..Len(AllConds) : hist = <<AllConds[k]>>
  /\ frames = <<>> /\ live = <<>>
NextExpr == UNCHANGED vars
GenExpr == Emit([e |-> hist[1], mac |-> mac, v |-> Eval(hist[1], mac)])
=============================================================================
