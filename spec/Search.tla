------------------------------ MODULE Search ------------------------------
(***************************************************************************)
(* C17: finding headers and libraries.                                     *)
(*                                                                         *)
(* Directories 1..NDirs may or may not exist and hold entries; those       *)
(* registered are searched backwards, after the ones passed in the call    *)
(* and before the fixed ones (PyCLibrary's own and the system's).          *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS NDirs, MaxOps

VARIABLES there,   \* existing directories
          entry,   \* entry[d][n]: "none", "file", "dir" or "link" (to nowhere)
          reg,     \* [h, l]: the directories registered for headers and libraries
          hist
vars == <<there, entry, reg, hist>>

Dirs == 1..NDirs
\* 5, 6: headers the fixed directories have: PyCLibrary's own and the system's;
\* 9: a library of the system
Headers == 1..6
Libs == 7..9
Names == Headers \cup Libs
Fixed(n) == IF n = 5 THEN "own" ELSE IF n = 6 THEN "system" ELSE IF n = 9 THEN "syslib" ELSE ""
\* the directory 0 is the current one, which is not searched
Where == 0..NDirs

None == [d |-> 99, by |-> ""]
RECURSIVE First(_, _)
First(ds, n) ==
  IF ds = <<>> THEN None
  ELSE IF ds[1] \in there /\ entry[ds[1]][n] = "file" THEN [d |-> ds[1], by |-> "dir"] ELSE First(Tail(ds), n)
Found(ds, r, n) ==
  LET f == First(ds \o Rev(r), n)
  IN IF f # None THEN f ELSE IF Fixed(n) # "" THEN [d |-> 98, by |-> Fixed(n)] ELSE None
RegOf(n) == IF n \in Headers THEN reg.h ELSE reg.l

Log(a, ds, n, what, r) == hist' = Append(hist, [a |-> a, ds |-> ds, n |-> n, what |-> what, r |-> r])

Init == /\ there = Where /\ entry = [d \in Where |-> [n \in Names |-> "none"]]
        /\ reg = [h |-> <<>>, l |-> <<>>] /\ hist = <<>>

Exists(d) == d \in there
Register(k, ds) ==
  /\ reg' = [reg EXCEPT ![k] = @ \o SelectSeq(ds, Exists)]
  /\ Log("register", ds, 0, k, None) /\ UNCHANGED <<there, entry>>
\* By the functions, or by the parser and the library wrapper
Find(ds, n) == Log("find", ds, n, "", Found(ds, RegOf(n), n)) /\ UNCHANGED <<there, entry, reg>>
FindPath(d, n) == Log("path", <<d>>, n, "", IF d \in there /\ entry[d][n] = "file" THEN [d |-> d, by |-> "dir"] ELSE None) /\ UNCHANGED <<there, entry, reg>>
Use(n) ==
  /\ Log("use", <<>>, n, "", IF n \in Headers /\ entry[0][n] = "file" THEN [d |-> 0, by |-> "dir"] ELSE Found(<<>>, RegOf(n), n))
  /\ UNCHANGED <<there, entry, reg>>
Put(d, n, w) ==
  /\ d \in there /\ entry[d][n] # w
  /\ entry' = [entry EXCEPT ![d][n] = w] /\ Log("put", <<d>>, n, w, None) /\ UNCHANGED <<there, reg>>
Rmdir(d) ==
  /\ d \in there /\ d # 0
  /\ there' = there \ {d} /\ entry' = [entry EXCEPT ![d] = [n \in Names |-> "none"]]
  /\ Log("rmdir", <<d>>, 0, "", None) /\ UNCHANGED reg
Mkdir(d) ==
  /\ d \notin there
  /\ there' = there \cup {d} /\ Log("mkdir", <<d>>, 0, "", None) /\ UNCHANGED <<entry, reg>>

\* All short histories over two directories and one name, which is in both
InitSmall ==
  /\ there \in { Where, Where \ {NDirs} }
  /\ \E n \in {1, 6} : \E in \in SUBSET there : entry = [d \in Where |-> [m \in Names |-> IF m = n /\ d \in in THEN "file" ELSE "none"]]
  /\ reg = [h |-> <<>>, l |-> <<>>] /\ hist = <<>>
Start == [there |-> there, entry |-> entry]
Seqs == { <<>> } \cup { <<d>> : d \in Dirs } \cup { <<d, e>> : d \in Dirs, e \in Dirs }
NextSmall ==
  Len(hist) < MaxOps /\
  \E n \in {1, 6} :
    \/ Len(hist) < MaxOps - 1 /\ \E ds \in Seqs : ds # <<>> /\ Register("h", ds)
    \/ Len(hist) = MaxOps - 1 /\ ((\E ds \in Seqs : Find(ds, n)) \/ Use(n))

\* Random histories
Pick(n) == RandomElement(1..(n + 0 * Len(hist)))
Draw ==
  Len(hist) < MaxOps /\
  \E z \in {Pick(20)}, n \in {Pick(9)}, d \in {Pick(NDirs)}, k \in {Pick(4) - 1}, x \in {[i \in 1..3 |-> Pick(NDirs + 0 * i)]}, w \in {Pick(8)} :
    LET ds == [i \in 1..k |-> x[i]]
        e == IF w = 8 THEN 0 ELSE d
        what == IF z = 1 THEN "none" ELSE IF w = 1 THEN "dir" ELSE IF w = 2 THEN "link" ELSE "file"
    IN IF z <= 6 /\ e \in there /\ entry[e][n] # what THEN Put(e, n, what)
       ELSE IF z <= 9 THEN (IF ds = <<>> THEN Find(ds, n) ELSE Register(IF w % 2 = 0 THEN "h" ELSE "l", ds))
       ELSE IF z = 10 THEN (IF d \in there THEN Rmdir(d) ELSE Mkdir(d))
       ELSE IF z = 11 /\ d \notin there THEN Mkdir(d)
       ELSE IF z = 12 THEN FindPath(e, n)
       ELSE IF z <= 17 THEN Find(ds, n)
       ELSE Use(n)

----------------------------------------------------------------------------
(* Design. *)
\* What is found is a file in one of the directories asked for, and no better one has it
Sound == \A n \in Names, ds \in Seqs :
  LET r == Found(ds, RegOf(n), n) IN
    r.by = "dir" => /\ r.d \in there /\ entry[r.d][n] = "file"
                    /\ r.d \in Range(ds) \cup Range(RegOf(n))
                    /\ (\E d \in Range(ds) : d \in there /\ entry[d][n] = "file") => r.d \in Range(ds)
\* The directory registered last wins
Latest == \A n \in Names : RegOf(n) # <<>> /\ Last(RegOf(n)) \in there /\ entry[Last(RegOf(n))][n] = "file"
            => Found(<<>>, RegOf(n), n).d = Last(RegOf(n))
\* Searching has no effect
Pure == [][hist'[Len(hist')].a \in {"find", "path", "use"} => UNCHANGED <<there, entry, reg>>]_vars
Gen == Len(hist) = MaxOps => Emit([h |-> hist])
\* with the state at the beginning, which nothing changes in the small model
GenSmall == Len(hist) = MaxOps => Emit([h |-> hist, there |-> there, entry |-> [d \in Where |-> [n \in {1, 6} |-> entry[d][n]]]])
SpecSmall == InitSmall /\ [][NextSmall]_vars
=============================================================================
