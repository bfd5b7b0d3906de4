------------------------------- MODULE Init -------------------------------
(***************************************************************************)
(* C16: initialisation.                                                    *)
(*                                                                         *)
(* A process starts without any declared types; the first of init,         *)
(* auto_init, the creation of a parser or the opening of a library settles *)
(* them for good.                                                          *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxOps, Wide

VARIABLES done, types, mods, hist
vars == <<done, types, mods, hist>>

\* A declared type: its name and the number of the ctypes class given for it
Ty(n, c) == [n |-> n, c |-> c]
WinTypes == {Ty("__int64", 0)}          \* 0: which class is not specified
WinMods == {"__based", "__declspec", "__fastcall", "__restrict", "__sptr", "__uptr", "__w64", "__unaligned", "__nullterminated"}
Systems == {"", "win32", "linux2", "darwin"}

Names(ts) == {t.n : t \in ts}
Functional(ts) == \A s, t \in ts : s.n = t.n => s = t
\* What the platform adds; the types of the user come first
AddTypes(ts, sys) == IF sys = "win32" THEN ts \cup {t \in WinTypes : t.n \notin Names(ts)} ELSE ts
AddMods(ms, sys) == IF sys = "win32" THEN ms \cup WinMods ELSE ms

Log(a, sys, ts, ms, ok) ==
  hist' = Append(hist, [a |-> a, sys |-> sys, ts |-> ts, ms |-> ms, ok |-> ok, done |-> done', types |-> types', mods |-> mods'])

Settle(ts, ms) ==
  IF done THEN UNCHANGED <<done, types, mods>>
  ELSE done' = TRUE /\ types' = ts /\ mods' = ms

Init == done = FALSE /\ types = {} /\ mods = {} /\ hist = <<>>
Call(ts, ms) == Settle(ts, ms) /\ Log("init", "", ts, ms, ~ done)
Auto(ts, ms, sys) == Settle(AddTypes(ts, sys), AddMods(ms, sys)) /\ Log("auto", sys, ts, ms, ~ done)
\* The platform the checks run on adds nothing
Parser == Settle({}, {}) /\ Log("parser", "", {}, {}, TRUE)
Library == Settle({}, {}) /\ Log("library", "", {}, {}, TRUE)

TypeSets == { {}, {Ty("my_t", 1)}, {Ty("my_t", 2), Ty("__int64", 3)}, {Ty("size_t", 4)}, {Ty("other", 5), Ty("int", 6)} }
ModSets == { {}, {"MOD"}, {"__mod", "API"} }
Next ==
  Len(hist) < MaxOps /\
  (\/ Parser \/ Library
   \/ \E ts \in TypeSets, ms \in ModSets : Call(ts, ms) \/ \E sys \in Systems : Auto(ts, ms, sys))

\* Random choices
Pool == <<"my_t", "other", "__int64", "size_t", "time_t", "long", "u32", "T2", "Handle", "int8_t">>
ModPool == <<"MOD", "__mod", "API", "__declspec", "__restrict", "far_", "X1", "WINAPI">>
Pick(n) == RandomElement(1..(n + 0 * Len(hist)))
Draw ==
  Len(hist) < MaxOps /\
  \E z \in {Pick(10)}, s \in {<<"", "win32", "linux2", "darwin">>[Pick(4)]},
     x \in {[i \in 1..Len(Pool) |-> Pick(16 + 0 * i)]}, y \in {[i \in 1..Len(ModPool) |-> Pick(3 + 0 * i)]} :
    LET ts == { Ty(Pool[i], x[i]) : i \in {j \in 1..Len(Pool) : x[j] <= 7} }
        ms == { ModPool[i] : i \in {j \in 1..Len(ModPool) : y[j] = 1} }
    IN IF z <= 4 THEN Call(ts, ms) ELSE IF z <= 8 THEN Auto(ts, ms, s) ELSE IF z = 9 THEN Parser ELSE Library

----------------------------------------------------------------------------
(* Design. *)
\* Settled once and for all
Once == [][done => done' /\ types' = types /\ mods' = mods]_vars
\* Exactly the first operation succeeds, if it is one that can fail
FirstOnly == \A i \in 1..Len(hist) : hist[i].a \in {"init", "auto"} => (hist[i].ok <=> i = 1)
\* What was asked for is there
Kept == hist # <<>> => hist[1].ts \subseteq types /\ hist[1].ms \subseteq mods
Fun == Functional(types)
Gen == Len(hist) = MaxOps => Emit(hist)
Spec == Init /\ [][Next]_vars
=============================================================================
