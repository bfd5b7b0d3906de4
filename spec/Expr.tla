-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* C06: values of constants.                                               *)
(*                                                                         *)
(* Expressions are token sequences; Val is a reference evaluator of C's    *)
(* constant expressions (precedence grammar, integers with truncating      *)
(* division, exact dyadic floating point numbers, strings).  The machine   *)
(* defines constants of several kinds one after the other, each may refer  *)
(* to earlier ones: macros by textual replacement, others by value.        *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxSteps, Mode     \* "pairs", "lits", "rich"

----------------------------------------------------------------------------
(* Values: integers, fractions n/d with d a power of two, strings.         *)
V(t, n, d, s) == [t |-> t, n |-> n, d |-> d, s |-> s]
VInt(n) == V("int", n, 1, "")
VFlt(n, d) == V("flt", n, d, "")
VStr(s) == V("str", 0, 1, s)
VNone == V("none", 0, 1, "")
VBig == V("big", 0, 1, "")     \* leaves the range the model computes in: no case

Lim == 30000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Reduce(_, _)
Reduce(n, d) == IF d > 1 /\ n % 2 = 0 THEN Reduce(n \div 2, d \div 2) ELSE <<n, d>>
MkFlt(n, d) == LET p == Reduce(n, d) IN
  IF Abs(p[1]) > Lim \/ p[2] > 64 THEN VBig ELSE VFlt(p[1], p[2])
MkInt(n) == IF Abs(n) > Lim THEN VBig ELSE VInt(n)

\* Truncating division and its remainder
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)

\* Bitwise operators on two's complement numbers of 17 bits
W == 131072
ToU(x) == x % W
ToS(x) == IF x >= W \div 2 THEN x - W ELSE x
RECURSIVE Bits(_, _, _, _)
Bits(o, a, b, w) ==
  IF w = 1 THEN 0
  ELSE LET x == a % 2  y == b % 2
           z == CASE o = "&" -> x * y
                  [] o = "|" -> IF x + y > 0 THEN 1 ELSE 0
                  [] o = "^" -> (x + y) % 2
       IN z + 2 * Bits(o, a \div 2, b \div 2, w \div 2)
BitOp(o, a, b) == ToS(Bits(o, ToU(a), ToU(b), W))
Pow2(n) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512>>[n + 1]

Num(v) == v.t \in {"int", "flt"}
IsPow2(x) == Abs(x) \in {1, 2, 4, 8, 16, 32}
Bin(o, a, b) ==
  IF a.t = "none" \/ b.t = "none" THEN VNone
  ELSE IF a.t = "big" \/ b.t = "big" THEN VBig
  ELSE IF ~Num(a) \/ ~Num(b) THEN VNone
  ELSE IF a.t = "int" /\ b.t = "int" THEN
    CASE o = "+" -> MkInt(a.n + b.n)
      [] o = "-" -> MkInt(a.n - b.n)
      [] o = "*" -> MkInt(a.n * b.n)
      [] o = "/" -> IF b.n = 0 THEN VNone ELSE MkInt(TDiv(a.n, b.n))
      [] o = "%" -> IF b.n = 0 THEN VNone ELSE MkInt(TMod(a.n, b.n))
      [] o = "<<" -> IF a.n < 0 \/ b.n < 0 \/ b.n > 9 THEN VBig ELSE IF a.n > 60 THEN VBig ELSE MkInt(a.n * Pow2(b.n))
      [] o = ">>" -> IF a.n < 0 \/ b.n < 0 \/ b.n > 9 THEN VBig ELSE MkInt(a.n \div Pow2(b.n))
      [] OTHER -> VInt(BitOp(o, a.n, b.n))
  ELSE CASE o = "+" -> MkFlt(a.n * b.d + b.n * a.d, a.d * b.d)
         [] o = "-" -> MkFlt(a.n * b.d - b.n * a.d, a.d * b.d)
         [] o = "*" -> MkFlt(a.n * b.n, a.d * b.d)
         [] o = "/" -> IF b.n = 0 THEN VBig
                       ELSE IF ~IsPow2(b.n) THEN VBig
                       ELSE IF b.n > 0 THEN MkFlt(a.n * b.d, a.d * b.n) ELSE MkFlt(-(a.n * b.d), a.d * (-b.n))
         [] OTHER -> VNone           \* not defined for floating point numbers
Un(o, a) ==
  IF ~Num(a) THEN (IF a.t = "big" THEN VBig ELSE VNone)
  ELSE CASE o = "+" -> a
         [] o = "-" -> V(a.t, -a.n, a.d, "")
         [] o = "~" -> IF a.t = "int" THEN VInt(-a.n - 1) ELSE VNone

----------------------------------------------------------------------------
(* Literals: text and value.                                               *)
L(s, v) == [s |-> s, v |-> v]
IntLits == <<L("0", VInt(0)), L("1", VInt(1)), L("2", VInt(2)), L("3", VInt(3)), L("7", VInt(7)),
  L("10", VInt(10)), L("5L", VInt(5)), L("12l", VInt(12)), L("9LL", VInt(9)), L("6ll", VInt(6)),
  L("0x10", VInt(16)), L("0XfF", VInt(255)), L("0xaL", VInt(10)), L("010", VInt(8)), L("017", VInt(15)),
  L("00", VInt(0)), L("0012", VInt(10)), L("077L", VInt(63)), L("100", VInt(100)), L("0x0", VInt(0)),
  L("0xE", VInt(14)), L("0x1e", VInt(30)), L("0777", VInt(511)), L("1234", VInt(1234))>>
ULits == <<L("4U", VInt(4)), L("8u", VInt(8)), L("0x1FUL", VInt(31)), L("3ul", VInt(3)), L("011u", VInt(9)),
  L("2ULL", VInt(2)), L("6LU", VInt(6)), L("0xfull", VInt(15))>>
FltLits == <<L("1.5", VFlt(3, 2)), L("2.", VFlt(2, 1)), L(".5", VFlt(1, 2)), L("1e2", VFlt(100, 1)),
  L("25E-2", VFlt(1, 4)), L("1.25e+1", VFlt(25, 2)), L("0.75f", VFlt(3, 4)), L("3.0F", VFlt(3, 1)),
  L("2.5L", VFlt(5, 2)), L(".125e1", VFlt(5, 4)), L("0.0", VFlt(0, 1)), L("1.e1", VFlt(10, 1)), L("00.5", VFlt(1, 2))>>
StrLits == <<L("\"abc\"", VStr("abc")), L("\"\"", VStr("")), L("\"a b, c\"", VStr("a b, c")),
  L("\"1 + 1\"", VStr("1 + 1")), L("\"say \\\"hi\\\"\"", VStr("say \"hi\"")), L("\"a\\\\b\"", VStr("a\\b")),
  L("\"(int)0x10\"", VStr("(int)0x10")), L("\"'\"", VStr("'")), L("\"010L\"", VStr("010L"))>>
Lits == IntLits \o ULits \o FltLits \o StrLits
LitOf(s) == LET is == {i \in 1..Len(Lits) : Lits[i].s = s}
            IN IF is = {} THEN VNone ELSE Lits[CHOOSE i \in is : TRUE].v
IsLit(s) == \E i \in 1..Len(Lits) : Lits[i].s = s

----------------------------------------------------------------------------
(* Reference evaluator: C's grammar, lowest binding first.                 *)
Levels == << {"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"} >>
Bad == [ok |-> FALSE, v |-> VNone, r |-> <<>>]
Good(v, r) == [ok |-> TRUE, v |-> v, r |-> r]

RECURSIVE ReadLevel(_, _, _), ReadMore(_, _, _, _), ReadUnary(_, _), ReadStrs(_, _)
ReadLevel(ts, p, env) ==
  IF p > 6 THEN ReadUnary(ts, env)
  ELSE LET a == ReadLevel(ts, p + 1, env)
       IN IF a.ok THEN ReadMore(a.v, a.r, p, env) ELSE Bad
ReadMore(v, ts, p, env) ==
  IF ts # <<>> /\ ts[1] \in Levels[p]
  THEN LET b == ReadLevel(Tail(ts), p + 1, env)
       IN IF b.ok THEN ReadMore(Bin(ts[1], v, b.v), b.r, p, env) ELSE Bad
  ELSE Good(v, ts)
\* adjacent strings are one string
ReadStrs(s, ts) ==
  IF ts # <<>> /\ LitOf(ts[1]).t = "str" THEN ReadStrs(s \o LitOf(ts[1]).s, Tail(ts))
  ELSE Good(VStr(s), ts)
ReadUnary(ts, env) ==
  IF ts = <<>> THEN Bad
  ELSE LET h == ts[1]  r == Tail(ts)
       IN IF h \in {"+", "-", "~"}
          THEN LET a == ReadUnary(r, env) IN IF a.ok THEN Good(Un(h, a.v), a.r) ELSE Bad
          ELSE IF h = "(" THEN LET a == ReadLevel(r, 1, env)
                               IN IF a.ok /\ a.r # <<>> /\ a.r[1] = ")" THEN Good(a.v, Tail(a.r)) ELSE Bad
          ELSE IF IsLit(h) THEN IF LitOf(h).t = "str" THEN ReadStrs("", ts) ELSE Good(LitOf(h), r)
          ELSE IF h \in DOMAIN env THEN Good(env[h], r)
          ELSE Bad
Val(ts, env) == LET a == ReadLevel(ts, 1, env)
                IN IF a.ok /\ a.r = <<>> THEN a.v ELSE VNone

----------------------------------------------------------------------------
(* Trees, to produce texts: printed with the parentheses they need.        *)
Leaf(s) == [k |-> "leaf", o |-> s, a |-> <<>>]
UnE(o, e) == [k |-> "un", o |-> o, a |-> <<e>>]
BinE(o, e, f) == [k |-> "bin", o |-> o, a |-> <<e, f>>]
LevelOf(o) == CHOOSE p \in 1..6 : o \in Levels[p]
Prec(e) == IF e.k = "bin" THEN LevelOf(e.o) ELSE 7
Paren(ts) == <<"(">> \o ts \o <<")">>
RECURSIVE Show(_), EvalTree(_, _)
Show(e) ==
  CASE e.k = "leaf" -> <<e.o>>
    [] e.k = "un" -> <<e.o>> \o (IF Prec(e.a[1]) < 7 THEN Paren(Show(e.a[1])) ELSE Show(e.a[1]))
    [] e.k = "bin" -> (IF Prec(e.a[1]) < Prec(e) THEN Paren(Show(e.a[1])) ELSE Show(e.a[1]))
                      \o <<e.o>>
                      \o (IF Prec(e.a[2]) <= Prec(e) THEN Paren(Show(e.a[2])) ELSE Show(e.a[2]))
EvalTree(e, env) ==
  CASE e.k = "leaf" -> IF IsLit(e.o) THEN LitOf(e.o) ELSE IF e.o \in DOMAIN env THEN env[e.o] ELSE VNone
    [] e.k = "un" -> Un(e.o, EvalTree(e.a[1], env))
    [] e.k = "bin" -> Bin(e.o, EvalTree(e.a[1], env), EvalTree(e.a[2], env))

BinOps == <<"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|">>
UnOps == <<"-", "~", "+">>

----------------------------------------------------------------------------
(* The machine.  tab: constants in force.  A macro has its text.           *)
VARIABLES hist, tab, file
vars == <<hist, tab, file>>

Entry(n, k, f, ts, v) == [n |-> n, k |-> k, f |-> f, ts |-> ts, v |-> v]
Find(n) == LET is == {i \in 1..Len(tab) : tab[i].n = n} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
\* replace the macros in a text
Expand(ts) == FlattenSeqs(MapSeq(ts, LAMBDA t :
                LET i == Find(t) IN IF i # 0 /\ tab[i].k = "macro" THEN tab[i].ts ELSE <<t>>))
\* constants visible to a macro: those of earlier files; to others: all so far
Env(macro) == LET is == {i \in 1..Len(tab) : tab[i].k = "const" /\ (macro => tab[i].f < file)}
              IN [n \in {tab[i].n : i \in is} |-> tab[CHOOSE i \in is : tab[i].n = n].v]
Value(ts, macro) == Val(Expand(ts), Env(macro))

Nm(i) == "k" \o ToString(Len(hist) + 1) \o "_" \o ToString(i)
Ev(k, ns, es, vs) == [k |-> k, f |-> file, ns |-> ns, es |-> es, vs |-> vs]
Step(e, t) == Len(hist) < MaxSteps /\ hist' = Append(hist, e) /\ tab' = t /\ UNCHANGED file

Fits(v) == v.t # "big"
DefMacro(ts) ==
  LET v == Value(ts, TRUE)
  IN Fits(v) /\ Step(Ev("macro", <<Nm(1)>>, <<ts>>, <<v>>),
                     Append(tab, Entry(Nm(1), "macro", file, Expand(ts), v)))
DefVar(ts) ==
  LET v == Value(ts, FALSE)
  IN Fits(v) /\ Step(Ev("var", <<Nm(1)>>, <<ts>>, <<v>>), Append(tab, Entry(Nm(1), "const", file, <<>>, v)))
DefArray(tss) ==
  LET vs == MapSeq(tss, LAMBDA ts : Value(ts, FALSE))
  IN (\A i \in 1..Len(vs) : Fits(vs[i]) /\ vs[i].t # "none") /\ Step(Ev("array", <<Nm(1)>>, tss, vs), tab)
Size(ts) ==
  LET v == Value(ts, FALSE)
  IN v.t = "int" /\ v.n > 0 /\ Step(Ev("size", <<Nm(1)>>, <<ts>>, <<v>>), tab)
\* enumerators one after the other; an empty text: one more than the last
RECURSIVE EnumVals(_, _, _, _)
EnumVals(tss, i, last, t) ==
  IF i > Len(tss) THEN <<>>
  ELSE LET env == [n \in DOMAIN Env(FALSE) \cup {Nm(j) : j \in 1..(i - 1)} |->
                     IF n \in DOMAIN Env(FALSE) THEN Env(FALSE)[n]
                     ELSE t[CHOOSE j \in 1..(i - 1) : Nm(j) = n]]
           v == IF tss[i] = <<>> THEN (IF last.t = "int" THEN MkInt(last.n + 1) ELSE VNone)
                ELSE Val(Expand(tss[i]), env)
       IN <<v>> \o EnumVals(tss, i + 1, v, Append(t, v))
DefEnum(tss) ==
  LET vs == EnumVals(tss, 1, VInt(-1), <<>>)
  IN /\ \A i \in 1..Len(vs) : vs[i].t \in {"int", "none"}
     /\ Step(Ev("enum", [i \in 1..Len(vs) |-> Nm(i)], tss, vs),
             tab \o [i \in 1..Len(vs) |-> Entry(Nm(i), "const", file, <<>>, vs[i])])
NewFile == /\ hist # <<>> /\ Last(hist).k # "file" /\ file < 3
           /\ hist' = Append(hist, Ev("file", <<>>, <<>>, <<>>)) /\ file' = file + 1 /\ UNCHANGED tab

\* texts which are no constant expressions
NonConst == << <<"unknown_name">>, <<"f", "(", "1", ")">>, <<"1", "+">>, <<"{", "1", "}">>, <<"len">>,
               <<"print">>, <<"True">>, <<"None">>, <<"(", "1">>, <<"1", "2">>, <<"unknown_name", "+", "1">>,
               <<"\"abc\"", "+", "1">>, <<"\"a b, c\"", "*", "2">>, <<"int">>, <<"lambda", ":", "1">>, <<"[", "1", "]">>,
               <<"1", "if", "2", "else", "3">>, <<"2", "**", "3">>, <<"1", "and", "2">>, <<"not", "1">>,
               <<"k1_1", ".", "real">>, <<"(", ")">>, <<"open", "(", "\"abc\"", ")">>, <<"do", "{", "}">>,
               <<"1", "/", "0">>, <<"5", "%", "(", "3", "-", "3", ")">>, <<"1.5", "<<", "2">>, <<"~", "1.5">>, <<"1.5", "%", "2">>,
               <<"sys", ".", "path">>, <<"1", ",", "2">>, <<"__builtins__">>, <<"self">>, <<"expr">>, <<"args">> >>
VarNonConst == << <<"unknown_name">>, <<"f", "(", "1", ")">>, <<"unknown_name", "+", "1">>, <<"&", "g">>,
                  <<"1", "/", "0">>, <<"len">>, <<"f", "(", "\"abc\"", ",", "2", ")", "+", "1">> >>

R(s) == RandomElement(1..(Len(s) + 0 * Len(hist)))
Coin(n) == RandomElement(1..(n + 0 * Len(hist))) = 1
\* constants a text may refer to: not those made of unsigned constants, and in
\* macros not those of the same file
IsU(ts) == \E i \in 1..Len(ts) : \E j \in 1..Len(ULits) : ULits[j].s = ts[i]
Visible(macro, t) == SelectSeq(tab, LAMBDA e : ~IsU(e.ts) /\ e.v.t \in {t, "none"}
                                    /\ (e.v.t = "none" => Coin(6) /\ (macro \/ e.k = "const"))
                                    /\ (macro /\ e.k = "const" => e.f < file))
RandLeaf(macro, t) ==
  LET vis == Visible(macro, t)
      ls == CASE t = "int" -> IntLits [] t = "flt" -> FltLits [] t = "str" -> StrLits
  IN IF vis # <<>> /\ Coin(3) THEN Leaf(vis[R(vis)].n) ELSE Leaf(ls[R(ls)].s)
FltOps == <<"+", "-", "*", "/">>
RECURSIVE RandTree(_, _, _)
RandTree(d, macro, t) ==
  IF d = 0 \/ Coin(4) THEN RandLeaf(macro, t)
  ELSE IF t = "flt" THEN
    IF Coin(4) THEN UnE("-", RandTree(d - 1, macro, t))
    ELSE BinE(FltOps[R(FltOps)], RandTree(d - 1, macro, t), RandTree(d - 1, macro, IF Coin(3) THEN "int" ELSE "flt"))
  ELSE IF Coin(5) THEN UnE(UnOps[R(UnOps)], RandTree(d - 1, macro, t))
  ELSE BinE(BinOps[R(BinOps)], RandTree(d - 1, macro, t), RandTree(d - 1, macro, t))
\* unsigned constants only where no negative number can appear
RECURSIVE RandU(_)
UOps == <<"+", "*", "/", "%", "<<", ">>", "&", "^", "|">>
RandU(d) == IF d = 0 \/ Coin(4) THEN Leaf(IF Coin(2) THEN ULits[R(ULits)].s ELSE IntLits[R(IntLits)].s)
            ELSE BinE(UOps[R(UOps)], RandU(d - 1), RandU(d - 1))
RandText(macro) ==
  IF Coin(8) THEN Show(RandU(2)) ELSE IF Coin(8) THEN Show(RandLeaf(macro, "str"))
  ELSE LET t == IF Coin(5) THEN "flt" ELSE "int"
       IN IF Coin(6) THEN Paren(Show(RandTree(2, macro, t))) ELSE Show(RandTree(3, macro, t))
RandInt(macro) == Show(RandTree(2, macro, "int"))

Act(a) ==
  CASE a \in {1, 2, 3} -> DefMacro(RandText(TRUE))
    [] a = 4 -> DefMacro(NonConst[R(NonConst)])
    [] a \in {5, 6} -> DefVar(RandText(FALSE))
    [] a = 7 -> IF Coin(2) THEN DefVar(VarNonConst[R(VarNonConst)]) ELSE NewFile
    [] a = 8 -> DefArray([i \in 1..(1 + R(<<1, 2>>)) |-> RandText(FALSE)])
    [] a = 9 -> Size(RandInt(FALSE))
    [] a \in {10, 11} ->
         DefEnum([i \in 1..(1 + R(<<1, 2, 3>>)) |->
           IF Coin(2) THEN <<>> ELSE IF Coin(12) THEN <<"unknown_name">>
           ELSE IF i > 1 /\ Coin(3) THEN <<Nm(1), "+", "2">> ELSE RandInt(FALSE)])
NextRich == \E a \in {R(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>), R(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>), R(<<1, 2, 3, 4, 5>>)} : Act(a)

Init == hist = <<>> /\ tab = <<>> /\ file = 1
Next == Mode = "rich" /\ NextRich

\* All pairs of operators in both shapes, with and without unary operators
Tri == << <<"7", "3", "2">>, <<"0x10", "010", "3">>, <<"1.5", "2.", ".5">>, <<"12l", "5L", "1">> >>
WithUn(i, e) == IF i = 0 THEN e ELSE UnE(UnOps[i], e)
InitPairs ==
  /\ tab = <<>> /\ file = 1
  /\ \E i, j \in 1..Len(BinOps), t \in 1..Len(Tri), u \in 0..2, v \in 0..2, right \in BOOLEAN :
       LET a == WithUn(u, Leaf(Tri[t][1]))  b == Leaf(Tri[t][2])  c == WithUn(v, Leaf(Tri[t][3]))
           e == IF right THEN BinE(BinOps[i], a, BinE(BinOps[j], b, c))
                ELSE BinE(BinOps[i], BinE(BinOps[j], a, b), c)
           x == Val(Show(e), <<>>)
       IN hist = <<[k |-> "pair", f |-> 1, ns |-> <<>>, es |-> <<Show(e)>>, vs |-> <<x, EvalTree(e, <<>>)>>]>>
InitLits ==
  /\ tab = <<>> /\ file = 1
  /\ \E i \in 1..(Len(Lits) + Len(NonConst)), u \in 0..4 :
       LET s == IF i <= Len(Lits) THEN <<Lits[i].s>> ELSE NonConst[i - Len(Lits)]
           ts == CASE u = 0 -> s [] u = 1 -> <<"-">> \o s [] u = 2 -> Paren(s) [] u = 3 -> <<"~">> \o s
                   [] u = 4 -> <<"\"abc\"">> \o s
       IN hist = <<[k |-> "pair", f |-> 1, ns |-> <<>>, es |-> <<ts>>, vs |-> <<Val(ts, <<>>), VNone>>]>>

----------------------------------------------------------------------------
(* Large integer constants: their value in limbs of base 10000, the lowest *)
(* first, by Horner's rule over the digits.                                *)
Big(s, base, digits) == [s |-> s, base |-> base, digits |-> digits]
Rep(x, n) == [i \in 1..n |-> x]
BigLits == <<Big("2147483648", 10, <<2,1,4,7,4,8,3,6,4,8>>), Big("4294967295U", 10, <<4,2,9,4,9,6,7,2,9,5>>),
  Big("0xFFFFFFFF", 16, Rep(15, 8)), Big("0x7fffffffffffffffLL", 16, <<7>> \o Rep(15, 15)),
  Big("0xFFFFFFFFFFFFFFFFULL", 16, Rep(15, 16)), Big("0x80000000UL", 16, <<8>> \o Rep(0, 7)),
  Big("037777777777", 8, <<3>> \o Rep(7, 10)), Big("9223372036854775807L", 10, <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>),
  Big("18446744073709551615ull", 10, <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>), Big("0xDEADBEEFu", 16, <<13,14,10,13,11,14,14,15>>),
  Big("01777777777777777777777LU", 8, <<1>> \o Rep(7, 21)), Big("1000000000000", 10, <<1>> \o Rep(0, 12)) >>
\* multiply limbs by b and add c
RECURSIVE MulAdd(_, _, _)
MulAdd(ls, b, c) == IF ls = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET x == ls[1] * b + c IN <<x % 10000>> \o MulAdd(Tail(ls), b, x \div 10000)
RECURSIVE Horner(_, _, _)
Horner(ls, base, ds) == IF ds = <<>> THEN ls ELSE Horner(MulAdd(ls, base, ds[1]), base, Tail(ds))
InitBig == /\ tab = <<>> /\ file = 1
           /\ \E i \in 1..Len(BigLits) : hist = <<[s |-> BigLits[i].s, l |-> Horner(<<>>, BigLits[i].base, BigLits[i].digits)]>>
GenBig == Emit([s |-> hist[1].s, l |-> hist[1].l])

----------------------------------------------------------------------------
\* The text of a tree means what the tree means
Roundtrip == (Mode = "pairs") => hist[1].vs[1] = hist[1].vs[2]
\* the first enumerator is 0, each other one more than the last unless given
EnumRule == \A h \in 1..Len(hist) : hist[h].k = "enum" =>
  \A i \in 1..Len(hist[h].es) : hist[h].es[i] = <<>> =>
     IF i = 1 THEN hist[h].vs[i] = VInt(0)
     ELSE hist[h].vs[i - 1].t = "int" => hist[h].vs[i] = MkInt(hist[h].vs[i - 1].n + 1)
GenOne == hist[1].vs[1].t # "big" => Emit([e |-> hist[1].es[1], v |-> hist[1].vs[1]])
Gen == (Len(hist) = MaxSteps) => Emit([h |-> hist])
=============================================================================
