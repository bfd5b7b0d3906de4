-------------------------------- MODULE Arch --------------------------------
(***************************************************************************)
(* C22: the architecture of the library a path leads to.                   *)
(*                                                                         *)
(* A file system of files of various kinds and links to them.  What a path *)
(* object answers depends on the platform and on the kind of the file the  *)
(* path leads to when it is first asked, and on nothing else: not on the   *)
(* spelling of the path, not on the questions asked before.  Libraries for *)
(* another word size are refused with a reason, the others are opened.     *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS NPaths,    \* number of paths
          MaxSteps,
          Small      \* only a few kinds and questions

VARIABLES fs,      \* fs[p]: <<"none">>, <<"dir">>, <<"file", kind>>, <<"link", q>>
          objs,    \* path objects: [p, known, a] the path and the answer given, if any
          plat,    \* the platform
          tool,    \* is the program which recognises files there?
          loaded,  \* paths libraries were opened by: to the system they stay what they were
          hist
vars == <<fs, objs, plat, tool, loaded, hist>>

(* Kinds of files.  PE files have a machine type (its two bytes), an       *)
(* offset of the header, and possibly a damage.                            *)
Machines == <<[c |-> <<76, 1>>, b |-> <<32>>],    \* I386
              [c |-> <<100, 134>>, b |-> <<64>>], \* AMD64
              [c |-> <<0, 2>>, b |-> <<64>>],     \* IA64
              [c |-> <<192, 1>>, b |-> <<>>],     \* ARM
              [c |-> <<0, 0>>, b |-> <<>>],
              [c |-> <<76, 255>>, b |-> <<>>],    \* unknown types
              [c |-> <<134, 100>>, b |-> <<>>],
              [c |-> <<1, 76>>, b |-> <<>>]>>
Offsets == <<64, 65, 68, 128, 255, 256, 4096, 65536, 70001>>
Damages == <<"", "", "", "", "mz", "pe", "short", "far">>
Pe(m, o, d) == <<"pe", Machines[m].c, Offsets[o], Damages[d]>>
Elf == {<<"elf", b, e>> : b \in {32, 64}, e \in {"le", "be"}}
Plain == Elf \cup {<<"so">>, <<"text">>, <<"empty">>, <<"bytes">>}
MachineBits(c) == LET S == {m \in 1..Len(Machines) : Machines[m].c = c} IN Machines[CHOOSE m \in S : TRUE].b
Bits(pl, k) ==
  IF pl = "linux" THEN IF ~ tool THEN <<>> ELSE IF k[1] = "elf" THEN <<k[2]>> ELSE IF k[1] = "so" THEN <<64>> ELSE <<>>
  ELSE IF k[1] = "pe" THEN (IF k[4] = "" THEN MachineBits(k[2]) ELSE <<>>) ELSE <<>>

\* what a path leads to; links may lead to links, in circles, or nowhere
RECURSIVE Target(_, _)
Target(p, n) == IF n = 0 THEN <<"none">> ELSE IF fs[p][1] = "link" THEN Target(fs[p][2], n - 1) ELSE fs[p]
Leads(p) == Target(p, NPaths + 1)
Answer(p) == LET t == Leads(p) IN IF t[1] = "file" THEN Bits(plat, t[2]) ELSE <<>>
\* opening the library (this Python has 64 bits)
Opened(p) == LET t == Leads(p)
             IN IF t[1] # "file" THEN "absent"
                ELSE IF t[2][1] = "so" THEN "ok"
                ELSE IF t[2][1] = "elf" /\ t[2][2] = 32 /\ tool THEN "bitness" ELSE "fails"

Log(e) == hist' = Append(hist, e)
Init == fs = [p \in 1..NPaths |-> <<"none">>] /\ objs = <<>> /\ plat = "linux" /\ tool = TRUE /\ loaded = {} /\ hist = <<>>
\* objects that answered stay with their answer; whether they notice a
\* change of the file is left open, so they are not asked again
Put(p, x) == /\ p \in loaded => x \in {<<"none">>, <<"dir">>, <<"file", <<"so">>>>}
             /\ fs' = [fs EXCEPT ![p] = x] /\ UNCHANGED <<plat, tool, loaded>>
             /\ objs' = SelectSeq([i \in 1..Len(objs) |-> [objs[i] EXCEPT !.i = i]], LAMBDA o : ~ o.known)
             /\ Log([op |-> "put", p |-> p, x |-> x, keep |-> [i \in 1..Len(objs') |-> objs'[i].i]])
Make(p) == objs' = Append(objs, [p |-> p, known |-> FALSE, i |-> 0]) /\ UNCHANGED <<fs, plat, tool, loaded>> /\ Log([op |-> "make", p |-> p])
\* ask an object in one of several ways
Ask(i, how) == /\ UNCHANGED <<fs, plat, tool, loaded>> /\ objs' = [objs EXCEPT ![i].known = TRUE]
               /\ Log([op |-> "ask", i |-> i, how |-> how, r |-> Answer(objs[i].p)])
RECURSIVE Chain(_, _)
Chain(p, n) == IF n > 0 /\ fs[p][1] = "link" THEN {p} \cup Chain(fs[p][2], n - 1) ELSE {p}
Open(p, how) == /\ UNCHANGED <<fs, objs, plat, tool>>
                /\ loaded' = IF Opened(p) = "ok" THEN loaded \cup Chain(p, NPaths + 1) ELSE loaded
                /\ Log([op |-> "open", p |-> p, how |-> how, r |-> Opened(p)])
Platform(x) == plat' = x /\ objs' = <<>> /\ UNCHANGED <<fs, tool, loaded>> /\ Log([op |-> "platform", x |-> x])
\* without it nothing is known, but libraries are opened all the same
Tool(b) == tool' = b /\ objs' = <<>> /\ UNCHANGED <<fs, plat, loaded>> /\ Log([op |-> "tool", x |-> b])
Hows == <<"arch", "is_32bit", "is_64bit", "bitness">>

Next == /\ Len(hist) < MaxSteps
        /\ \/ \E p \in 1..NPaths :
                \/ \E k \in Plain : Put(p, <<"file", k>>)
                \/ \E m \in 1..(IF Small THEN 3 ELSE Len(Machines)) : Put(p, <<"file", Pe(m, 1, 1)>>)
                \/ \E q \in 1..NPaths : Put(p, <<"link", q>>)
                \/ Put(p, <<"dir">>) \/ (fs[p] # <<"none">> /\ Put(p, <<"none">>))
                \/ Make(p)
                \/ (plat = "linux" /\ Open(p, "path"))
           \/ \E i \in 1..Len(objs), h \in (IF Small THEN {1, 3} ELSE 1..4) : Ask(i, Hows[h])
           \/ (plat = "linux" /\ Platform("win32"))
           \/ (plat = "linux" /\ Tool(~ tool))
Spec == Init /\ [][Next]_vars

Pick(n) == RandomElement(1..(n + 0 * Len(hist)))
PlainSeq == <<<<"elf", 32, "le">>, <<"elf", 32, "be">>, <<"elf", 64, "le">>, <<"elf", 64, "be">>, <<"so">>, <<"so">>, <<"text">>, <<"empty">>, <<"bytes">>>>
Draw ==
  /\ Len(hist) < MaxSteps
  /\ \E op \in {Pick(24)}, p \in {Pick(NPaths)}, q \in {Pick(NPaths)}, a \in {Pick(60)}, b \in {Pick(9)}, d \in {Pick(8)} :
       IF op <= 4 THEN Put(p, <<"file", IF p \in loaded THEN <<"so">> ELSE IF (a % 3 = 0) = (plat = "linux") THEN Pe(1 + (a % 8), b, d) ELSE PlainSeq[b]>>)
       ELSE IF op <= 7 THEN Put(p, IF a % 7 = 0 THEN <<"dir">> ELSE IF a % 7 = 1 \/ p \in loaded THEN <<"none">> ELSE <<"link", q>>)
       ELSE IF op <= 11 /\ plat = "linux" THEN Open(p, IF a % 3 = 0 /\ tool /\ (Opened(p) # "absent" \/ a % 5 = 0) THEN "name" ELSE "path")
       ELSE IF op = 12 /\ a % 3 = 0 THEN Platform(IF plat = "linux" THEN "win32" ELSE "linux")
       ELSE IF (op = 12 /\ a % 3 = 1) \/ (op = 13 /\ ~ tool) THEN Tool(~ tool)
       ELSE IF op <= 15 \/ objs = <<>> THEN Make(p)
       ELSE Ask(1 + (a % Len(objs)), Hows[1 + (d % 4)])

----------------------------------------------------------------------------
TypeOK == \A p \in 1..NPaths : Answer(p) \in {<<>>, <<32>>, <<64>>}
\* paths that lead to the same file get the same answer, circles none
OnlyTheFile == \A p, q \in 1..NPaths : Leads(p) = Leads(q) => Answer(p) = Answer(q) /\ Opened(p) = Opened(q)
\* a library is refused for its word size exactly when its architecture says so
Refused == plat = "linux" => \A p \in 1..NPaths : (Opened(p) = "bitness") = (Answer(p) = <<32>>)
\* asking and opening change nothing
Pure == [][Last(hist').op \in {"ask", "open"} => fs' = fs]_vars
SmallEnd == IF hist = <<>> THEN FALSE ELSE Last(hist).op \in {"ask", "open"}
GenSmall == SmallEnd => Emit([h |-> hist])
Gen == Len(hist) = MaxSteps => Emit([h |-> hist])
=============================================================================
