---------------------------- MODULE LockTrace ----------------------------
(***************************************************************************)
(* C15: is a recorded history of calls one the specification allows?       *)
(* Events [e, t, c, v] of thread t and call c, in the order recorded:      *)
(*   call    the wrapper is called (p: the call whose callback does it)    *)
(*   enter   the C function begins                                         *)
(*   leave   the C function ends                                           *)
(*   return  the wrapper returned v                                        *)
(*   error   the wrapper raised                                            *)
(*   end     nothing is left to happen                                     *)
(***************************************************************************)
EXTENDS VUtil, TraceData

VARIABLES n, pos, stack, bad
tvars == <<n, pos, stack, bad>>
\* stack: per thread the calls in progress, [c, s]
Busy(t) == \E i \in 1..Len(stack[t]) : stack[t][i].s = "inside"
E == Traces[n][pos]
TopOf(t) == stack[t][Len(stack[t])]
Value(c) == 2 * c + 1

Allowed ==
  CASE E.e = "call" -> stack[E.t] = <<>> \/ TopOf(E.t).s = "inside"
    [] E.e = "enter" -> stack[E.t] # <<>> /\ TopOf(E.t) = [c |-> E.c, s |-> "called", k |-> "good"]
                        /\ \A u \in DOMAIN stack : u # E.t => ~ Busy(u)
    [] E.e = "leave" -> stack[E.t] # <<>> /\ TopOf(E.t).c = E.c /\ TopOf(E.t).s = "inside"
    [] E.e = "return" -> stack[E.t] # <<>> /\ TopOf(E.t).c = E.c /\ TopOf(E.t).s = "left" /\ E.v = Value(E.c)
    [] E.e = "error" -> stack[E.t] # <<>> /\ TopOf(E.t) = [c |-> E.c, s |-> "called", k |-> "bad"]
    [] E.e = "end" -> \A u \in DOMAIN stack : stack[u] = <<>>
    [] OTHER -> FALSE
After(t) ==
  CASE E.e = "call" -> Append(stack[t], [c |-> E.c, s |-> "called", k |-> IF E.v = 0 THEN "good" ELSE "bad"])
    [] E.e = "enter" -> [stack[t] EXCEPT ![Len(stack[t])].s = "inside"]
    [] E.e = "leave" -> [stack[t] EXCEPT ![Len(stack[t])].s = "left"]
    [] E.e \in {"return", "error"} -> Front(stack[t])
    [] OTHER -> stack[t]

TInit == n \in 1..Len(Traces) /\ pos = 1 /\ stack = [t \in 1..MaxThreads |-> <<>>] /\ bad = 0
TNext ==
  /\ bad = 0 /\ pos <= Len(Traces[n])
  /\ IF Allowed THEN /\ stack' = [stack EXCEPT ![E.t] = After(E.t)] /\ pos' = pos + 1 /\ bad' = 0
                ELSE /\ bad' = pos /\ UNCHANGED <<stack, pos>>
  /\ UNCHANGED n
\* At no moment do two threads execute functions of the library
TMutex == \A t, u \in 1..MaxThreads : Busy(t) /\ Busy(u) => t = u
Report == bad > 0 => Emit([n |-> n, pos |-> pos])
Done == pos = Len(Traces[n]) + 1 => Emit([n |-> n, pos |-> 0])
=============================================================================
