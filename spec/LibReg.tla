------------------------------ MODULE LibReg ------------------------------
(***************************************************************************)
(* C11: at most one live wrapper per shared library file.                  *)
(*                                                                         *)
(* The file system: directories 1 and 2; files <<1,"a">>, <<2,"a">> and    *)
(* <<1,"b">> (numbers 1, 2, 3) and <<2,"junk">> (number 4, no library);    *)
(* "dlink" is a link to a directory, "flink" (in directory 2) one to a     *)
(* file.  Both can be changed, and so can the current directory.           *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS NSlots, MaxSteps, NArgs

VARIABLES cwd, dlink, flink,   \* the file system
          dirs,                \* directories registered for libraries, last one first
          live,                \* file -> its wrapper, 0 if none
          wargs,               \* wrapper -> arguments it was opened with
          slots,               \* what is kept: slot -> wrapper, 0 if empty
          hist
vars == <<cwd, dlink, flink, dirs, live, wargs, slots, hist>>

Files == 1..3
Slots == 1..NSlots
File(d, n) == CASE n = "a" -> d [] n = "b" /\ d = 1 -> 3 [] n = "junk" /\ d = 2 -> 4
                [] n = "flink" /\ d = 2 -> flink [] OTHER -> 0

RECURSIVE First(_, _)
First(ds, n) ==
  IF ds = <<>> THEN 0
  ELSE LET f == File(IF Head(ds) = 3 THEN dlink ELSE Head(ds), n)
       IN IF f # 0 THEN f ELSE First(Tail(ds), n)

\* A designation: how, directory (3: the link), name
Target(g) ==
  CASE g.k = "bare" -> First(dirs, g.n)
    [] g.k = "rel" -> File(cwd, g.n)
    [] OTHER -> File(IF g.d = 3 THEN dlink ELSE g.d, g.n)
\* abs: absolute; up: with ..; rel: ./name; out: relative with ../; cdll: loaded
\* by that path by ctypes; cdllrel: loaded by a relative path
Kinds == {"abs", "up", "out", "cdll", "cdllout"}
Designs ==
  {[k |-> k, d |-> d, n |-> n] : k \in Kinds, d \in 1..3, n \in {"a", "b", "flink", "junk"}}
  \cup {[k |-> k, d |-> 0, n |-> n] : k \in {"rel", "bare", "cdllrel"}, n \in {"a", "b", "flink", "junk"}}
IsCdll(g) == g.k \in {"cdll", "cdllout", "cdllrel"}
TargetOf(g) == IF g.k = "cdllrel" THEN File(cwd, g.n) ELSE Target(g)

Ev(a, g, s, x, y, res) == [a |-> a, g |-> g, s |-> s, x |-> x, y |-> y, r |-> res]
None == [k |-> "", d |-> 0, n |-> ""]

Init ==
  /\ cwd = 1 /\ dlink = 1 /\ flink = 3 /\ dirs = <<>>
  /\ live = [f \in Files |-> 0] /\ wargs = <<>>
  /\ slots = [s \in Slots |-> 0] /\ hist = <<>>

\* Open with arguments a (bad ones fail unless the wrapper exists); keep the
\* wrapper itself, or only one of its functions.  ctypes itself must be able to
\* load the library for the cdll designations.
CanOpen(g, s) == slots[s] = 0 /\ (IsCdll(g) => TargetOf(g) \in Files)
Open(g, s, a, bad, keep) ==
  LET f == TargetOf(g)
      ok == f \in Files /\ (live[f] # 0 \/ bad = "")
      new == ok /\ live[f] = 0
      w == IF ~ ok THEN 0 ELSE IF new THEN Len(wargs) + 1 ELSE live[f]
  IN /\ CanOpen(g, s)
     /\ wargs' = IF new THEN Append(wargs, a) ELSE wargs
     /\ live' = IF ok THEN [live EXCEPT ![f] = w] ELSE live
     /\ slots' = [slots EXCEPT ![s] = w]
     /\ hist' = Append(hist, Ev("open", g, s, IF bad = "" THEN ToString(a) ELSE bad, keep,
                                [w |-> w, f |-> IF ok THEN f ELSE 0, args |-> IF ok THEN wargs'[w] ELSE 0]))
     /\ UNCHANGED <<cwd, dlink, flink, dirs>>

Drop(s) ==
  /\ slots[s] # 0
  /\ slots' = [slots EXCEPT ![s] = 0]
  /\ live' = [f \in Files |-> IF live[f] = slots[s] /\ \A t \in Slots \ {s} : slots[t] # slots[s] THEN 0 ELSE live[f]]
  /\ hist' = Append(hist, Ev("drop", None, s, "", "", [w |-> 0, f |-> 0, args |-> 0]))
  /\ UNCHANGED <<cwd, dlink, flink, dirs, wargs>>

Move(a, n) ==
  /\ cwd' = IF a = "cd" THEN n ELSE cwd
  /\ dlink' = IF a = "dlink" THEN n ELSE dlink
  /\ flink' = IF a = "flink" THEN n ELSE flink
  /\ dirs' = IF a = "dir" THEN <<n>> \o dirs ELSE dirs
  /\ hist' = Append(hist, Ev(a, None, n, "", "", [w |-> 0, f |-> 0, args |-> 0]))
  /\ UNCHANGED <<live, wargs, slots>>

Bads == {"headers", "noheader", "convention"}
\* the reference for exhaustive exploration: one kind of each
Next ==
  /\ Len(hist) < MaxSteps
  /\ \/ \E g \in Designs, s \in Slots : s = 1 /\ slots[1] = 0 /\ Open(g, 1, 1, "", "wrapper")
     \/ \E g \in Designs, s \in Slots : s = 2 /\ slots[1] # 0 /\ slots[2] = 0 /\ Open(g, 2, 2, "", "wrapper")
     \/ Drop(1)
     \/ \E n \in 1..2 : n # cwd /\ Move("cd", n)
     \/ \E n \in 1..2 : n # dlink /\ Move("dlink", n)
     \/ \E n \in Files : n # flink /\ Move("flink", n)
     \/ \E n \in 1..3 : Len(dirs) < 2 /\ Move("dir", n)

----------------------------------------------------------------------------
\* Random histories
Pick(n) == RandomElement(1..(n + 0 * Len(hist)))
Names == <<"a", "a", "b", "flink", "junk">>
KindSeq == <<"abs", "up", "out", "rel", "bare", "cdll", "cdllout", "cdllrel">>
BadSeq == <<"", "", "", "", "headers", "noheader", "convention">>
KeepSeq == <<"wrapper", "used", "function", "result">>
Draw ==
  /\ Len(hist) < MaxSteps
  /\ \E r \in {Pick(12)}, k \in {Pick(8)}, d \in {Pick(3)}, n \in {Pick(5)}, s \in {Pick(NSlots)},
        a \in {Pick(NArgs)}, b \in {Pick(7)}, u \in {Pick(4)} :
     LET g == [k |-> KindSeq[k], d |-> IF KindSeq[k] \in {"rel", "bare", "cdllrel"} THEN 0 ELSE d, n |-> Names[n]]
         bad == IF BadSeq[b] = "convention" /\ IsCdll(g) THEN "headers" ELSE BadSeq[b]
         open == CanOpen(g, s)
     IN IF r <= 7 /\ open THEN Open(g, s, a, bad, KeepSeq[u])
        ELSE IF slots[s] # 0 /\ r # 12 THEN Drop(s)
        ELSE IF r \in {8, 12} THEN Move("cd", 1 + (d % 2))
        ELSE IF r = 9 THEN Move("dlink", 1 + (d % 2))
        ELSE IF r = 10 THEN Move("flink", d)
        ELSE IF Len(dirs) < 4 THEN Move("dir", d)
        ELSE Move("cd", 1 + (d % 2))

----------------------------------------------------------------------------
\* One wrapper per file, kept exactly while something keeps it; never shared
OneWrapper ==
  /\ \A f, g \in Files : live[f] # 0 /\ live[f] = live[g] => f = g
  /\ {live[f] : f \in Files} \ {0} = {slots[s] : s \in Slots} \ {0}
\* A file open before and after a step keeps its wrapper, as long as its arguments
Stable == [][\A f \in Files : live[f] # 0 /\ live'[f] # 0 => live'[f] = live[f]]_vars

Case == [h |-> hist]
Gen == Len(hist) = MaxSteps => Emit(Case)
\* exhaustive runs: histories whose last step matters
GenOpen == Len(hist) = MaxSteps /\ hist[MaxSteps].a = "open" /\ (slots[1] # 0 \/ slots[2] # 0) => Emit(Case)
Spec == Init /\ [][Next]_vars
=============================================================================
