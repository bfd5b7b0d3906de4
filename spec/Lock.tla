------------------------------- MODULE Lock -------------------------------
(***************************************************************************)
(* C15: calls into a library opened with lock_calls.                       *)
(*                                                                         *)
(* Part 1, the design: threads call functions; a call takes the lock of    *)
(* the library (which its owner may take again), runs the function - which *)
(* may call back, and the callback may call again - and gives it back,     *)
(* also when the call fails.                                               *)
(* Part 2, scripts: programs of several threads with a gate in every       *)
(* function, and the order in which calls are started and gates opened.    *)
(* What the real threads do then is recorded and checked by LockTrace.     *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS Threads, MaxCalls, MaxDepth, Reentrant, MaxStarts, MaxOps, Deep

VARIABLES st,      \* per thread: its stack of calls, [s, n] state and calls still to make from callbacks
          left,    \* per thread: the calls still to start
          owner, depth,
          \* scripts
          script, gates, starts
vars == <<st, left, owner, depth, script, gates, starts>>

None == 0
Top(t) == st[t][Len(st[t])]
SetTop(t, x) == st' = [st EXCEPT ![t][Len(st[t])] = x]
Push(t, x) == Append(st[t], x)
Inside(t) == \E i \in 1..Len(st[t]) : st[t][i].s = "inside"

----------------------------------------------------------------------------
(* Part 1. *)
Calls == {"plain", "fails"} \cup {"cb"}
NewCall(k) == [s |-> "wants", n |-> IF k = "cb" THEN 1 ELSE 0, f |-> k = "fails"]

Init ==
  /\ st = [t \in 1..Threads |-> <<>>] /\ left = [t \in 1..Threads |-> MaxCalls] /\ owner = None /\ depth = 0
  /\ script = <<>> /\ gates = 0 /\ starts = 0

Begin(t) ==
  /\ st[t] = <<>> /\ left[t] > 0
  /\ \E k \in Calls : st' = [st EXCEPT ![t] = <<NewCall(k)>>]
  /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<owner, depth>>
Acquire(t) ==
  /\ st[t] # <<>> /\ Top(t).s = "wants"
  /\ owner = None \/ (Reentrant /\ owner = t)
  /\ owner' = t /\ depth' = depth + 1
  /\ SetTop(t, [Top(t) EXCEPT !.s = IF Top(t).f THEN "left" ELSE "locked"]) /\ UNCHANGED left
Enter(t) == /\ st[t] # <<>> /\ Top(t).s = "locked" /\ SetTop(t, [Top(t) EXCEPT !.s = "inside"]) /\ UNCHANGED <<left, owner, depth>>
CallBack(t) ==
  /\ st[t] # <<>> /\ Top(t).s = "inside" /\ Top(t).n > 0 /\ Len(st[t]) < MaxDepth
  /\ \E k \in Calls : st' = [st EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].n = @ - 1], NewCall(k))]
  /\ UNCHANGED <<left, owner, depth>>
Leave(t) ==
  /\ st[t] # <<>> /\ Top(t).s = "inside" /\ (Top(t).n = 0 \/ Len(st[t]) = MaxDepth)
  /\ SetTop(t, [Top(t) EXCEPT !.s = "left"]) /\ UNCHANGED <<left, owner, depth>>
Release(t) ==
  /\ st[t] # <<>> /\ Top(t).s = "left"
  /\ depth' = depth - 1 /\ owner' = IF depth = 1 THEN None ELSE owner
  /\ st' = [st EXCEPT ![t] = Front(@)] /\ UNCHANGED left
Step(t) == Acquire(t) \/ Enter(t) \/ CallBack(t) \/ Leave(t) \/ Release(t)
Next == (\E t \in 1..Threads : Begin(t) \/ Step(t)) /\ UNCHANGED <<script, gates, starts>>
\* The lock must not starve a thread
Spec == Init /\ [][Next]_vars
             /\ (\A u \in 1..Threads : WF_vars(Step(u) /\ UNCHANGED <<script, gates, starts>>))
             /\ (\A u \in 1..Threads : SF_vars(Acquire(u) /\ UNCHANGED <<script, gates, starts>>))

\* No two threads are inside the library
Mutex == \A t, u \in 1..Threads : Inside(t) /\ Inside(u) => t = u
\* The lock is held exactly as often as the owner has calls in progress
Held == depth = Cardinality({<<t, i>> \in (1..Threads) \X (1..MaxDepth) : i <= Len(st[t]) /\ st[t][i].s # "wants"})
\* Every call ends
Ends == \A t \in 1..Threads : st[t] # <<>> ~> st[t] = <<>>

----------------------------------------------------------------------------
(* Part 2.  A call: its kind and the calls its callback makes.  Kinds:     *)
(* plain; fails (refused by ctypes); refused (by the wrapper); raises (the *)
(* callback ends with an exception after its calls); other (a function     *)
(* reached by its name without prefix).                                    *)
Node(k, cs) == [k |-> k, cs |-> cs]
Leafs == { Node(k, <<>>) : k \in {"plain", "fails", "refused", "other"} }
\* The calls with callbacks
CB1 == { Node("plain", <<x>>) : x \in Leafs } \cup { Node("raises", <<x>>) : x \in Leafs }
CB2 == { Node("plain", <<x>>) : x \in CB1 } \cup { Node("plain", <<x, y>>) : x \in Leafs, y \in Leafs }
Trees == Leafs \cup CB1 \cup CB2
RECURSIVE Gates(_)
Gates(n) == IF n.k \in {"fails", "refused"} THEN 0
            ELSE 1 + (IF n.cs = <<>> THEN 0 ELSE Gates(n.cs[1]) + (IF Len(n.cs) > 1 THEN Gates(n.cs[2]) ELSE 0))
RECURSIVE GatesOf(_)
GatesOf(ops) == IF ops = <<>> THEN 0 ELSE Gates(Head(ops)) + GatesOf(Tail(ops))

\* A thread starts and makes these calls one after the other
StartS(ops) ==
  /\ starts < MaxStarts
  /\ script' = Append(script, [a |-> "start", ops |-> ops]) /\ gates' = gates + GatesOf(ops) /\ starts' = starts + 1
\* The gate of the function running is opened
OpenS == gates > 0 /\ script' = Append(script, [a |-> "open", ops |-> <<>>]) /\ gates' = gates - 1 /\ UNCHANGED starts
Rest == UNCHANGED <<st, left, owner, depth>>

InitS == Init
Short == IF Deep THEN Trees ELSE Leafs \cup { Node("plain", <<Node("plain", <<>>)>>), Node("raises", <<Node("fails", <<>>)>>) }
NextS == Rest /\ (OpenS \/ \E n \in Short : StartS(<<n>>))
SpecS == InitS /\ [][NextS]_vars

Pick(n) == RandomElement(1..(n + 0 * Len(script) + 0 * gates))
RECURSIVE AsSeq(_)
AsSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o AsSeq(s \ {x})
TreeSeq == AsSeq(Trees)
Draw ==
  Rest /\ \E z \in {Pick(3)}, k \in {Pick(MaxOps)}, x \in {[i \in 1..MaxOps |-> Pick(Len(TreeSeq) + 0 * i)]} :
    IF gates > 0 /\ ((z = 1 /\ starts > 1) \/ starts = MaxStarts) THEN OpenS
    ELSE StartS([i \in 1..k |-> TreeSeq[x[i]]])
\* As many gates are opened as there are
Balanced == gates >= 0
Gen == starts = MaxStarts /\ gates = 0 => Emit(script)
=============================================================================
