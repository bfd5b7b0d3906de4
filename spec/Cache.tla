------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* C09: the cache file of a parser.                                        *)
(*                                                                         *)
(* Headers have a content (a version number) and a modification time, the  *)
(* cache file holds what a parser reported together with its arguments.    *)
(* The environment edits, touches, removes and restores headers, changes   *)
(* the arguments and damages the cache; a parser is opened with the cache  *)
(* at any moment.                                                          *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS NHeaders, NArgs, MaxSteps

H == 1..NHeaders
Args == 1..NArgs

VARIABLES
  ver,     \* content of each header
  mtime,   \* its modification time
  there,   \* does it exist
  args,    \* arguments the next parser gets
  cache,   \* the cache file
  clock,
  back,    \* was a header ever given other content without becoming newer
  result,  \* what the last parser reported
  hist
vars == <<ver, mtime, there, args, cache, clock, back, result, hist>>

NoCache == [st |-> "none", args |-> 0, snap |-> [h \in H |-> 0], t |-> 0]
Nothing == [st |-> "none", args |-> 0, snap |-> [h \in H |-> 0]]

Init == /\ ver = [h \in H |-> 0] /\ mtime = [h \in H |-> 0] /\ there = [h \in H |-> TRUE]
        /\ args = 1 /\ cache = NoCache /\ clock = 1 /\ back = FALSE /\ result = Nothing /\ hist = <<>>

\* The headers the arguments ask for; the harness gives each number its meaning
FilesOf(a) == IF a % 3 = 0 /\ NHeaders > 1 THEN H \ {NHeaders} ELSE H

Log(x) == hist' = Append(hist, x)
E(a) == [a |-> a, h |-> 0, n |-> 0, chk |-> FALSE, use |-> FALSE, st |-> "", cargs |-> 0, snap |-> ver, args |-> args]
Room == Len(hist) < MaxSteps

\* Other content, newer than everything before
Edit(h) == /\ Room /\ there[h] /\ clock' = clock + 1
           /\ ver' = [ver EXCEPT ![h] = @ + 1] /\ mtime' = [mtime EXCEPT ![h] = clock + 1]
           /\ Log([E("edit") EXCEPT !.h = h, !.n = ver[h] + 1])
           /\ UNCHANGED <<there, args, cache, back, result>>
\* Other content which looks old
EditBack(h) == /\ Room /\ there[h]
               /\ ver' = [ver EXCEPT ![h] = @ + 1] /\ back' = TRUE
               /\ Log([E("back") EXCEPT !.h = h, !.n = ver[h] + 1])
               /\ UNCHANGED <<mtime, there, args, cache, clock, result>>
Touch(h) == /\ Room /\ there[h] /\ clock' = clock + 1
            /\ mtime' = [mtime EXCEPT ![h] = clock + 1]
            /\ Log([E("touch") EXCEPT !.h = h])
            /\ UNCHANGED <<ver, there, args, cache, back, result>>
\* Exactly as old as the cache, which is not newer than it
Same(h) == /\ Room /\ there[h] /\ cache.st # "none" /\ mtime[h] # cache.t
           /\ mtime' = [mtime EXCEPT ![h] = cache.t]
           /\ back' = (back \/ cache.snap[h] # ver[h])
           /\ Log([E("same") EXCEPT !.h = h])
           /\ UNCHANGED <<ver, there, args, cache, clock, result>>
Remove(h) == /\ Room /\ there[h] /\ there' = [there EXCEPT ![h] = FALSE]
             /\ Log([E("remove") EXCEPT !.h = h])
             /\ UNCHANGED <<ver, mtime, args, cache, clock, back, result>>
Restore(h) == /\ Room /\ ~there[h] /\ there' = [there EXCEPT ![h] = TRUE]
              /\ Log([E("restore") EXCEPT !.h = h])
              /\ UNCHANGED <<ver, mtime, args, cache, clock, back, result>>
SetArgs(a) == /\ Room /\ a # args /\ args' = a
              /\ Log([E("args") EXCEPT !.n = a])
              /\ UNCHANGED <<ver, mtime, there, cache, clock, back, result>>
\* k: 1 deleted, 2 overwritten, 3 cut off
Damage(k) == /\ Room /\ cache.st # "none"
             /\ cache' = IF k = 1 THEN NoCache ELSE [cache EXCEPT !.st = "bad"]
             /\ Log([E("damage") EXCEPT !.n = k])
             /\ UNCHANGED <<ver, mtime, there, args, clock, back, result>>
\* A parser of an older version writes the cache
OldFormat == /\ Room /\ \A h \in FilesOf(args) : there[h]
             /\ cache' = [st |-> "old", args |-> args, snap |-> ver, t |-> clock + 1]
             /\ clock' = clock + 1
             /\ Log(E("old"))
             /\ UNCHANGED <<ver, mtime, there, args, back, result>>

Newer == \E h \in FilesOf(args) : there[h] /\ mtime[h] > cache.t
Valid == cache.st = "good" /\ cache.args = args /\ ~Newer

\* A parser with the current arguments and the cache
Open(chk) ==
  /\ Room
  /\ ~chk => cache.st # "old"
  /\ LET use == IF chk THEN Valid ELSE cache.st = "good"
         miss == \E h \in FilesOf(args) : ~there[h]
         e == [E("open") EXCEPT !.chk = chk, !.use = use]
     IN IF use THEN /\ result' = [st |-> "ok", args |-> cache.args, snap |-> cache.snap]
                    /\ Log([e EXCEPT !.st = "ok", !.cargs = cache.args, !.snap = cache.snap])
                    /\ UNCHANGED <<cache, clock>>
        ELSE IF miss THEN /\ result' = [Nothing EXCEPT !.st = "error"]
                          /\ Log([e EXCEPT !.st = "error"])
                          /\ UNCHANGED <<cache, clock>>
        ELSE /\ result' = [st |-> "ok", args |-> args, snap |-> ver]
             /\ cache' = [st |-> "good", args |-> args, snap |-> ver, t |-> clock + 1]
             /\ clock' = clock + 1
             /\ Log([e EXCEPT !.st = "ok", !.cargs = args])
  /\ UNCHANGED <<ver, mtime, there, args, back>>

Next == \/ \E h \in H : Edit(h) \/ EditBack(h) \/ Touch(h) \/ Same(h) \/ Remove(h) \/ Restore(h)
        \/ \E a \in Args : SetArgs(a)
        \/ \E k \in 1..3 : Damage(k)
        \/ OldFormat
        \/ \E c \in BOOLEAN : Open(c)

\* Simulation: half of the steps open a parser
Draw ==
  \E r \in {RandomElement(1..(20 + 0 * Len(hist)))}, h \in {RandomElement(1..(NHeaders + 0 * Len(hist)))},
     a \in {RandomElement(1..(NArgs + 0 * Len(hist)))}, k \in {RandomElement(1..(3 + 0 * Len(hist)))} :
    IF Len(hist) >= MaxSteps THEN FALSE
    ELSE IF r = 1 /\ there[h] THEN Edit(h)
    ELSE IF r \in {2, 3} /\ there[h] THEN EditBack(h)
    ELSE IF r = 4 /\ there[h] THEN Touch(h)
    ELSE IF r = 5 /\ k = 1 /\ there[h] /\ cache.st # "none" /\ mtime[h] # cache.t THEN Same(h)
    ELSE IF r = 5 /\ there[h] THEN Remove(h)
    ELSE IF r <= 8 /\ ~there[h] THEN Restore(h)
    ELSE IF r = 9 /\ a # args THEN SetArgs(a)
    ELSE IF r \in {10, 13, 14} THEN SetArgs(IF args % 2 = 1 /\ args < NArgs THEN args + 1 ELSE Max2(1, args - 1))
    ELSE IF r = 11 /\ cache.st # "none" THEN Damage(k)
    ELSE IF r = 12 /\ (\A x \in FilesOf(args) : there[x]) THEN OldFormat
    ELSE Open(r < 19 \/ cache.st = "old")

\* From any arguments to any others
InitPairs == /\ ver = [h \in H |-> 0] /\ mtime = [h \in H |-> 0] /\ there = [h \in H |-> TRUE]
             /\ args \in Args /\ cache = NoCache /\ clock = 1 /\ back = FALSE /\ result = Nothing /\ hist = <<>>
NextPairs == CASE Len(hist) \in {0, 2, 3} -> Open(TRUE)
               [] Len(hist) = 1 -> \E a \in Args : SetArgs(a)
               [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Design: what a parser with validity checking reports is what one without *)
(* cache would, as long as edited headers are newer.                       *)
Opened == hist # <<>> /\ Last(hist).a = "open"
Fresh == (Opened /\ Last(hist).chk /\ result.st = "ok" /\ ~back)
           => result.args = args /\ \A h \in FilesOf(args) : there[h] => result.snap[h] = ver[h]
\* an error only when a header is missing
ErrorOnlyIfMissing == (Opened /\ result.st = "error") => \E h \in FilesOf(args) : ~there[h]
\* after a successful opening with checking the cache is current
Current == (Opened /\ Last(hist).chk /\ result.st = "ok") => Valid
Case == [h |-> hist, first |-> IF hist = <<>> THEN 1 ELSE hist[1].args]
Gen == Len(hist) = MaxSteps => Emit(Case)
Spec == Init /\ [][Next]_vars
=============================================================================
