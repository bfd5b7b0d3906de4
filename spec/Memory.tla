------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* C21: arrays, casts and callbacks.                                       *)
(*                                                                         *)
(* An object is a sequence of bytes.  A handle is a Python object which    *)
(* gives access to a part of an object as elements of some type: an array  *)
(* or a row of one, a pointer made by a cast, or a pointer that C          *)
(* returned.  All handles of an object show the same bytes, to Python and  *)
(* to C, as long as one of them keeps it alive.                            *)
(*                                                                         *)
(* Numbers are sequences of bytes, the lowest first.                       *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxObjs, MaxHandles, MaxSteps, Small

VARIABLES mem, hs,
          kept,      \* the callback C has been given, 0 for none
          hist
vars == <<mem, hs, kept, hist>>

L(o, s) == [o |-> o, s |-> s]
One(s) == [size |-> s, leaves |-> <<L(0, s)>>]
Types ==
  [u8 |-> One(1), ch |-> One(1), u16 |-> One(2), u32 |-> One(4),
   P |-> [size |-> 4, leaves |-> <<L(0, 1), L(2, 2)>>],                        \* struct { u8; u16; }
   row |-> [size |-> 4, leaves |-> <<L(0, 2), L(2, 2)>>],                      \* u16 [2]
   U |-> [size |-> 4, leaves |-> <<L(0, 4), L(0, 1), L(1, 1), L(2, 1), L(3, 1)>>],  \* union { u32; u8 [4]; }
   void |-> [size |-> 1, leaves |-> <<>>]]
Elem == {"u8", "ch", "u16", "u32", "P", "row", "U"}
Scalar == {"u8", "ch", "u16", "u32"}

RECURSIVE Prod(_)
Prod(ds) == IF ds = <<>> THEN 1 ELSE Head(ds) * Prod(Tail(ds))

Bytes(h) == IF h.k = "arr" THEN Prod(h.dims) * Types[h.t].size ELSE Len(mem[h.o]) - h.off
\* number of elements within reach
Count(h) == Bytes(h) \div Types[h.t].size
Sub(m, o, s) == [i \in 1..s |-> m[o + i]]
Put(m, o, bs) == [i \in 1..Len(m) |-> IF i > o /\ i <= o + Len(bs) THEN bs[i - o] ELSE m[i]]
Num(v, s) == [i \in 1..s |-> IF i <= Len(v) THEN v[i] ELSE 0]

\* Everything a handle shows
View(m, h) ==
  FlattenSeqs([e \in 1..Count(h) |->
    LET ls == Types[h.t].leaves
    IN [l \in 1..Len(ls) |-> Sub(m[h.o], h.off + (e - 1) * Types[h.t].size + ls[l].o, ls[l].s)]])

\* after every step, what all handles show
Log(e, m, hh) ==
  hist' = Append(hist, [e |-> e, see |-> [i \in 1..Len(hh) |-> IF hh[i].live THEN View(m, hh[i]) ELSE <<>>]])

H(o, off, k, t, dims, own) == [o |-> o, off |-> off, k |-> k, t |-> t, dims |-> dims, own |-> own, live |-> TRUE, sub |-> FALSE]
New(e, h) == /\ hs' = Append(hs, h) /\ mem' = mem /\ kept' = kept /\ Log(e, mem, Append(hs, h))
Change(e, o, m) == LET mm == [mem EXCEPT ![o] = m]
                   IN mem' = mm /\ UNCHANGED <<hs, kept>> /\ Log(e, mm, hs)

RECURSIVE Zeros(_)
Zeros(n) == [i \in 1..n |-> 0]

\* vals: numbers, at most as many as there are elements in the first dimension
Build(t, dims, vals) ==
  LET s == Types[t].size
      n == Prod(dims) * s
      m == [i \in 1..n |-> LET e == (i - 1) \div s IN IF e < Len(vals) THEN Num(vals[e + 1], s)[1 + ((i - 1) % s)] ELSE 0]
      h == H(Len(mem) + 1, 0, "arr", t, dims, TRUE)
  IN /\ Len(mem) < MaxObjs /\ Len(hs) < MaxHandles
     /\ vals # <<>> => t \in Scalar /\ Len(dims) = 1 /\ Len(vals) <= dims[1]
     /\ mem' = Append(mem, m) /\ hs' = Append(hs, h) /\ kept' = kept
     /\ Log([op |-> "build", t |-> t, dims |-> dims, vals |-> [i \in 1..Len(vals) |-> Num(vals[i], s)]], Append(mem, m), Append(hs, h))

Can(i) == i <= Len(hs) /\ hs[i].live
Row(i, r) ==
  /\ Can(i) /\ Len(hs) < MaxHandles /\ hs[i].k = "arr" /\ Len(hs[i].dims) > 1 /\ r < hs[i].dims[1]
  /\ New([op |-> "row", h |-> i, r |-> r],
         [H(hs[i].o, hs[i].off + r * Prod(Tail(hs[i].dims)) * Types[hs[i].t].size, "arr", hs[i].t, Tail(hs[i].dims), TRUE) EXCEPT !.sub = TRUE])
Cast(i, t) ==
  /\ Can(i) /\ Len(hs) < MaxHandles
  \* (ctypes does not promise that a pointer to a part of an array keeps it)
  /\ New([op |-> "cast", h |-> i, t |-> t], H(hs[i].o, hs[i].off, "ptr", t, <<>>, hs[i].own /\ ~ hs[i].sub))
Write(i, e, l, v) ==
  /\ Can(i) /\ e < Count(hs[i]) /\ l <= Len(Types[hs[i].t].leaves)
  /\ LET h == hs[i]
         lf == Types[h.t].leaves[l]
     IN Change([op |-> "write", h |-> i, e |-> e, l |-> l, v |-> Num(v, lf.s)], h.o,
               Put(mem[h.o], h.off + e * Types[h.t].size + lf.o, Num(v, lf.s)))

\* What a parameter of type t * takes
Takes(h, t) == h.t = t /\ (h.k = "ptr" \/ Len(h.dims) = 1)

RECURSIVE Sum(_, _, _)
Sum(a, b, c) == IF a = <<>> THEN <<>> ELSE LET x == a[1] + b[1] + c IN <<x % 256>> \o Sum(Tail(a), Tail(b), x \div 256)
\* void add_t(t *a, int n, t d)
Add(i, n, d) ==
  /\ Can(i) /\ hs[i].t \in {"u8", "u16", "u32"} /\ Takes(hs[i], hs[i].t) /\ n <= Count(hs[i])
  /\ LET h == hs[i]
         s == Types[h.t].size
         m == mem[h.o]
     IN Change([op |-> "add", h |-> i, n |-> n, d |-> Num(d, s)], h.o,
               Put(m, h.off, FlattenSeqs([e \in 1..n |-> Sum(Sub(m, h.off + (e - 1) * s, s), Num(d, s), 0)])))
\* void setp(struct P *p, int k, u8 a, u16 b)
SetP(i, e, a, b) ==
  /\ Can(i) /\ Takes(hs[i], "P") /\ e < Count(hs[i])
  /\ LET h == hs[i]
         at == h.off + e * 4
     IN Change([op |-> "setp", h |-> i, e |-> e, a |-> Num(a, 1), b |-> Num(b, 2)], h.o,
               Put(Put(mem[h.o], at, Num(a, 1)), at + 2, Num(b, 2)))
\* void copy(void *dst, const void *src, int n)
Copy(i, j, n) ==
  /\ Can(i) /\ Can(j) /\ n <= Bytes(hs[i]) /\ n <= Bytes(hs[j])
  /\ Change([op |-> "copy", h |-> i, g |-> j, n |-> n], hs[i].o, Put(mem[hs[i].o], hs[i].off, Sub(mem[hs[j].o], hs[j].off, n)))
\* u16 *after(u16 *a, int n)
After(i, n) ==
  /\ Can(i) /\ Takes(hs[i], "u16") /\ n <= Count(hs[i]) /\ Len(hs) < MaxHandles
  /\ New([op |-> "after", h |-> i, n |-> n], H(hs[i].o, hs[i].off + 2 * n, "ptr", "u16", <<>>, FALSE))

\* A Python function as callback: callback c turns x into
V16(bs) == bs[1] + 256 * bs[2]
B16(x) == <<x % 256, (x \div 256) % 256>>
F(c, n, x) == CASE c = 1 -> x + n + 1 [] c = 2 -> 2 * x [] c = 3 -> 65535 - x [] OTHER -> n
\* int apply(int (*f)(int n, u16 *x), u16 *a, int n): f(0, a) + f(1, a + 1) ...
RECURSIVE Total(_)
Total(xs) == IF xs = <<>> THEN 0 ELSE Head(xs) + Total(Tail(xs))
Apply(i, n, c) ==
  /\ Can(i) /\ Takes(hs[i], "u16") /\ n <= Count(hs[i])
  /\ LET h == hs[i]
         m == mem[h.o]
         ys == [e \in 1..n |-> F(c, e - 1, V16(Sub(m, h.off + 2 * (e - 1), 2))) % 65536]
     IN Change([op |-> "apply", h |-> i, n |-> n, c |-> c, r |-> Total(ys)], h.o, Put(m, h.off, FlattenSeqs([e \in 1..n |-> B16(ys[e])])))
\* void sort16(u16 *a, int n, int (*cmp)(const u16 *, const u16 *)), stable
Less(c, x, y) == CASE c = 1 -> x < y [] c = 2 -> x > y [] OTHER -> (x % 256) < (y % 256)
RECURSIVE Insert(_, _, _)
Insert(c, x, ys) == IF ys = <<>> THEN <<x>> ELSE IF Less(c, x, Last(ys)) THEN Append(Insert(c, x, Front(ys)), Last(ys)) ELSE Append(ys, x)
RECURSIVE Sorted(_, _)
Sorted(c, xs) == IF xs = <<>> THEN <<>> ELSE Insert(c, Last(xs), Sorted(c, Front(xs)))
Sort(i, n, c) ==
  /\ Can(i) /\ Takes(hs[i], "u16") /\ n <= Count(hs[i])
  /\ LET h == hs[i]
         m == mem[h.o]
         ys == Sorted(c, [e \in 1..n |-> V16(Sub(m, h.off + 2 * (e - 1), 2))])
     IN Change([op |-> "sort", h |-> i, n |-> n, c |-> c], h.o, Put(m, h.off, FlattenSeqs([e \in 1..n |-> B16(ys[e])])))

\* void keep(fn f); int fire(int n, int x); fn kept(void): the callback is
\* C's, and called through C or through the pointer C returns
Keep(c) == kept' = c /\ UNCHANGED <<mem, hs>> /\ Log([op |-> "keep", c |-> c], mem, hs)
Fire(n, x, how) == /\ kept # 0 /\ UNCHANGED <<mem, hs, kept>>
                   /\ Log([op |-> "fire", n |-> n, x |-> x, how |-> how, r |-> F(kept, n, x)], mem, hs)

\* Other shapes of callbacks: int mix(int (*)(char, short, double, u8, P *), int n);
\* void times(void (*)(void), int n); long member(struct V *v, int x) through
\* a member of a struct; double half(double (*)(float, long long), int n)
Shapes == <<"mix", "times", "member", "half">>
Shape(k, n) == UNCHANGED <<mem, hs, kept>> /\ Log([op |-> "shape", k |-> Shapes[k], n |-> n,
                 args |-> CASE k = 1 -> <<65 + (n % 26), 0 - n, n, (200 + n) % 256, n % 256, 3 * n>>
                            [] k = 2 -> <<>> [] k = 3 -> <<n, 7 - n>> [] OTHER -> <<n, 1000 * n>>,
                 r |-> CASE k = 1 -> 5 * n [] k = 2 -> n % 5 [] k = 3 -> 100 * n [] OTHER -> 3 * n], mem, hs)

\* The program forgets a handle
Drop(i) ==
  /\ Can(i)
  /\ LET h2 == [hs EXCEPT ![i].live = FALSE]
     IN \* no dangling pointers
        /\ (\A j \in 1..Len(h2) : h2[j].o = hs[i].o => ~ h2[j].live) \/ (\E j \in 1..Len(h2) : h2[j].o = hs[i].o /\ h2[j].live /\ h2[j].own)
        /\ hs' = h2 /\ UNCHANGED <<mem, kept>> /\ Log([op |-> "drop", h |-> i], mem, h2)

----------------------------------------------------------------------------
Init == mem = <<>> /\ hs = <<>> /\ kept = 0 /\ hist = <<>>

V1 == <<1, 2, 3, 4>>
V2 == <<255, 255, 254, 1>>
SmallNext ==
  /\ Len(hist) < MaxSteps
  /\ \/ \E t \in Elem, dims \in {<<2>>, <<2, 1>>, <<1, 2, 2>>}, vals \in {<<>>, <<V2>>, <<V1, V2>>} : Len(hist) = 0 /\ Build(t, dims, vals)
     \/ \E i \in 1..Len(hs) :
          \/ \E r \in 0..1 : Row(i, r)
          \/ \E t \in Elem \cup {"void"} : Cast(i, t)
          \/ \E e \in {0, Count(hs[i]) - 1}, l \in {1, Len(Types[hs[i].t].leaves)} : e >= 0 /\ l > 0 /\ Write(i, e, l, V2)
          \/ Add(i, Count(hs[i]), V1)
          \/ \E e \in 0..1 : SetP(i, e, V1, V2)
          \/ \E j \in 1..Len(hs), n \in {1, 3} : Copy(i, j, n)
          \/ After(i, 1)
          \/ Apply(i, Count(hs[i]), 1) \/ Sort(i, Count(hs[i]), 2)
          \/ Drop(i)
     \/ \E k \in 1..4 : Len(hist) = 1 /\ Shape(k, 3)
Spec == Init /\ [][SmallNext]_vars

Pick(n) == RandomElement(1..(n + 0 * Len(hist)))
Dims == << <<1>>, <<2>>, <<3>>, <<5>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>, <<4>>, <<7>>, <<2, 3>> >>
TypeSeq == <<"u8", "ch", "u16", "u32", "P", "row", "U", "u16", "u16">>
Byte(x) == (x * 37) % 256
Val(x) == <<Byte(x), Byte(x + 3), Byte(x + 6), Byte(x + 8)>>
Draw ==
  /\ Len(hist) < MaxSteps
  /\ \E op \in {Pick(18)}, a \in {Pick(60)}, b \in {Pick(60)}, c \in {Pick(256)}, d \in {Pick(256)} :
       LET live == SelectSeq([i \in 1..Len(hs) |-> i], LAMBDA i : hs[i].live)
           i == live[1 + (a % Len(live))]
           j == live[1 + (b % Len(live))]
           n == Count(hs[i])
           usable(t) == SelectSeq(live, LAMBDA x : Takes(hs[x], t))
           u == usable("u16")
           k == u[1 + (a % Len(u))]
           wr == n > 0 /\ hs[i].t # "void"
           dims == Dims[1 + (b % Len(Dims))]
           t == TypeSeq[1 + (a % Len(TypeSeq))]
           vals == IF t \in Scalar /\ Len(dims) = 1 /\ c % 3 # 0 THEN [x \in 1..(d % (dims[1] + 1)) |-> Val(c + x * d)] ELSE <<>>
           drops == SelectSeq(live, LAMBDA x : ENABLED Drop(x))
           low == SelectSeq(live, LAMBDA x : hs[x].t \in {"u8", "u16", "u32"} /\ Takes(hs[x], hs[x].t))
           ps == usable("P")
           ps2 == SelectSeq(ps, LAMBDA x : Count(hs[x]) > 0)
           rows == SelectSeq(live, LAMBDA x : hs[x].k = "arr" /\ Len(hs[x].dims) > 1)
           room == Len(hs) < MaxHandles
       IN IF live = <<>> \/ (op <= 2 /\ Len(mem) < MaxObjs /\ room)
          THEN IF Len(mem) < MaxObjs /\ room THEN Build(t, dims, vals) ELSE Keep(1 + (c % 4))
          ELSE IF op = 3 /\ rows # <<>> /\ room THEN LET x == rows[1 + (a % Len(rows))] IN Row(x, c % hs[x].dims[1])
          ELSE IF op \in {4, 5} /\ room THEN Cast(i, IF c % 9 = 0 THEN "void" ELSE TypeSeq[1 + (c % Len(TypeSeq))])
          ELSE IF op = 6 /\ low # <<>> THEN LET x == low[1 + (a % Len(low))] IN Add(x, c % (Count(hs[x]) + 1), Val(d))
          ELSE IF op = 7 /\ ps2 # <<>> THEN LET x == ps2[1 + (a % Len(ps2))] IN SetP(x, c % Count(hs[x]), Val(d), Val(b))
          ELSE IF op = 8 THEN Copy(i, j, c % (1 + Min2(Bytes(hs[i]), Bytes(hs[j]))))
          ELSE IF op = 9 /\ u # <<>> /\ room THEN After(k, c % (Count(hs[k]) + 1))
          ELSE IF op \in {10, 11} /\ u # <<>> THEN Apply(k, c % (Count(hs[k]) + 1), 1 + (d % 4))
          ELSE IF op = 12 /\ u # <<>> THEN Sort(k, c % (Count(hs[k]) + 1), 1 + (d % 3))
          ELSE IF op = 13 /\ drops # <<>> THEN Drop(drops[1 + (a % Len(drops))])
          ELSE IF op = 14 THEN Keep(1 + (c % 4))
          ELSE IF op \in {15, 16} /\ kept # 0 THEN Fire(c % 5, d, 1 + (a % 2))
          ELSE IF op = 17 THEN Shape(1 + (a % 4), c % 30)
          ELSE IF wr THEN Write(i, c % n, 1 + (d % Len(Types[hs[i].t].leaves)), Val(a + b))
          ELSE Keep(1 + (c % 4))

----------------------------------------------------------------------------
(* Design.                                                                 *)

TypeOK == /\ \A o \in 1..Len(mem) : \A i \in 1..Len(mem[o]) : mem[o][i] \in 0..255
          /\ \A i \in 1..Len(hs) : hs[i].off + (IF hs[i].k = "arr" THEN Bytes(hs[i]) ELSE Count(hs[i]) * Types[hs[i].t].size) <= Len(mem[hs[i].o])
\* handles of one object and type at the same place show the same
Shared == \A i, j \in 1..Len(hs) :
            hs[i].o = hs[j].o /\ hs[i].off = hs[j].off /\ hs[i].t = hs[j].t =>
              LET a == View(mem, hs[i]) b == View(mem, hs[j]) n == Min2(Len(a), Len(b)) IN SubSeq(a, 1, n) = SubSeq(b, 1, n)
\* a live handle has an owner
NoDangling == \A i \in 1..Len(hs) : hs[i].live => \E j \in 1..Len(hs) : hs[j].live /\ hs[j].own /\ hs[j].o = hs[i].o
\* a step changes at most one object, and never its size
OneObject == [][/\ \A o \in 1..Len(mem) : Len(mem'[o]) = Len(mem[o])
                /\ Cardinality({o \in 1..Len(mem) : mem'[o] # mem[o]}) <= 1]_vars

Gen == Len(hist) = MaxSteps => Emit([h |-> hist])
=============================================================================
