-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* C03: #pragma pack.  The state is the alignment in force (0 stands for   *)
(* the default) and the stack of records pushed.  Structs may be nested    *)
(* and pragmas may stand between their members; a struct has the alignment *)
(* in force where it starts.  Pragmas and structs in branches that are not *)
(* taken, at whatever depth, do not count.                                 *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxSteps, MaxVal, Wide, Conds

Vals == IF Wide THEN <<1, 2, 4, 8, 16>> ELSE <<2, 4>>
OptVals == <<0>> \o Vals            \* 0: no value given
OptNames == IF Wide THEN <<"", "r1", "r2", "r3">> ELSE IF Conds THEN <<"">> ELSE <<"", "r1", "r2">>

VARIABLES hist, cur, stack, open, n, br
vars == <<hist, cur, stack, open, n, br>>

Init == hist = <<>> /\ cur = 0 /\ stack = <<>> /\ open = <<>> /\ n = 0 /\ br = <<>>

\* br: the conditionals around this point, each with: its current branch is
\* taken, one of its branches was taken, it has come to its else
On == \A i \in 1..Len(br) : br[i].on

Event(k, v, nm) == [k |-> k, v |-> v, n |-> nm]
Step(e) == Len(hist) < MaxSteps /\ hist' = Append(hist, e)
Keep == UNCHANGED <<open, n, br>>

SetTo(v) == Step(Event("set", v, "")) /\ cur' = (IF On THEN v ELSE cur) /\ UNCHANGED stack /\ Keep
Reset == Step(Event("set", 0, "")) /\ cur' = (IF On THEN 0 ELSE cur) /\ UNCHANGED stack /\ Keep

Push(nm, v) ==
  /\ Step(Event("push", v, nm)) /\ Keep
  /\ LET c == IF v = 0 THEN cur ELSE v
     IN IF On THEN cur' = c /\ stack' = Append(stack, [v |-> c, n |-> nm]) ELSE UNCHANGED <<cur, stack>>

\* Index of the record a pop starts removing at (0: none)
Nearest(nm) ==
  LET is == {i \in 1..Len(stack) : stack[i].n = nm}
  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
Top(s) == IF s = <<>> THEN 0 ELSE Last(s).v

Pop(nm, v) ==
  /\ Step(Event("pop", v, nm)) /\ Keep
  /\ LET i == IF nm = "" THEN Len(stack) ELSE Nearest(nm)
         missing == nm # "" /\ i = 0
         s == IF i = 0 THEN stack ELSE SubSeq(stack, 1, i - 1)
     IN IF On
        THEN /\ stack' = s
             /\ cur' = IF v # 0 THEN v ELSE IF missing THEN cur ELSE Top(s)
        ELSE UNCHANGED <<cur, stack>>

\* A struct or union starts here; the event carries its expected packing
Start(k) ==
  /\ On /\ Len(open) < 2
  /\ Step(Event(k, cur, "")) /\ open' = Append(open, n + 1) /\ n' = n + 1
  /\ UNCHANGED <<cur, stack, br>>
Finish ==
  /\ On /\ open # <<>> /\ Step(Event("end", 0, ""))
  /\ open' = Front(open) /\ UNCHANGED <<cur, stack, n, br>>
\* A complete struct in a branch that is not taken
Ghost == ~ On /\ Step(Event("ghost", 0, "")) /\ UNCHANGED <<cur, stack, open, n, br>>

\* Conditionals; v = 1: the condition holds
If(v) ==
  /\ Len(br) < 3 /\ Step(Event("if", v, ""))
  /\ br' = Append(br, [on |-> v = 1, was |-> v = 1, els |-> FALSE]) /\ UNCHANGED <<cur, stack, open, n>>
Elif(v) ==
  /\ br # <<>> /\ IF br = <<>> THEN FALSE ELSE ~ Last(br).els
  /\ Step(Event("elif", v, ""))
  /\ br' = Append(Front(br), [on |-> ~ Last(br).was /\ v = 1, was |-> Last(br).was \/ v = 1, els |-> FALSE])
  /\ UNCHANGED <<cur, stack, open, n>>
Else ==
  /\ br # <<>> /\ IF br = <<>> THEN FALSE ELSE ~ Last(br).els
  /\ Step(Event("else", 0, ""))
  /\ br' = Append(Front(br), [on |-> ~ Last(br).was, was |-> TRUE, els |-> TRUE])
  /\ UNCHANGED <<cur, stack, open, n>>
Endif ==
  /\ br # <<>> /\ Step(Event("endif", 0, ""))
  /\ br' = (IF br = <<>> THEN br ELSE Front(br)) /\ UNCHANGED <<cur, stack, open, n>>
\* A new header starts with the default and without records
File ==
  /\ Wide /\ open = <<>> /\ hist # <<>> /\ br = <<>>
  /\ Step(Event("file", 0, "")) /\ cur' = 0 /\ stack' = <<>> /\ UNCHANGED <<open, n, br>>

P(s) == IF Wide THEN {RandomElement(1..(Len(s) + 0 * Len(hist)))} ELSE 1..Len(s)

Pragmas ==
  \/ \E i \in P(Vals) : SetTo(Vals[i])
  \/ Reset
  \/ \E i \in P(OptVals), j \in P(OptNames) : Push(OptNames[j], OptVals[i])
  \/ \E i \in P(OptVals), j \in P(OptNames) : Pop(OptNames[j], OptVals[i])

Branches == If(0) \/ If(1) \/ Elif(0) \/ Elif(1) \/ Else \/ Endif

Next == Pragmas \/ (Conds /\ Branches) \/ (Wide /\ (Start("struct") \/ Start("union") \/ Finish \/ Ghost \/ File))

----------------------------------------------------------------------------
(* Properties of the design.                                               *)
Sane == /\ cur \in {0} \cup Range(Vals)
        /\ \A i \in 1..Len(stack) : stack[i].v \in {0} \cup Range(Vals)
\* After a pop that gives no value the alignment is that of the top record
PopTop == [][(hist' # hist /\ Last(hist').k = "pop" /\ Last(hist').v = 0 /\ stack' # stack)
               => cur' = Top(stack')]_vars
\* A pop never adds records, and with a name it removes that record
PopName == [][(hist' # hist /\ Last(hist').k = "pop" /\ stack' # stack)
               => /\ Len(stack') < Len(stack)
                  /\ Last(hist').n # "" => stack[Len(stack') + 1].n = Last(hist').n
                  /\ \A i \in (Len(stack') + 2)..Len(stack) : Last(hist').n # "" => stack[i].n # Last(hist').n]_vars
\* Balanced push/pop pairs leave the stack as it was
OnlyPack == [][(hist' # hist /\ Last(hist').k \notin {"set", "push", "pop", "file"})
               => cur' = cur /\ stack' = stack]_vars
\* Nothing happens in branches that are not taken, and of the branches of a
\* conditional one at most is taken
Off == [][~ On => cur' = cur /\ stack' = stack /\ n' = n]_vars
OneBranch == [][\A i \in 1..Len(br) : i <= Len(br') /\ br[i].was /\ Last(hist').k \in {"elif", "else"} /\ i = Len(br)
                  => ~ br'[i].on]_vars

\* cases: in the exhaustive configuration the alignment after every step
VARIABLE seen
svars == <<vars, seen>>
SInit == Init /\ seen = <<>>
SNext == Next /\ seen' = Append(seen, IF On' THEN cur' ELSE 99)
Gen == Len(hist) = MaxSteps => Emit([h |-> hist, seen |-> seen, open |-> Len(open)])
=============================================================================
