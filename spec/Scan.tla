-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* C20: what lies between and inside of declarations.                      *)
(*                                                                         *)
(* A header is a sequence of pieces.  The state is the stack of what is    *)
(* open: a linkage block ("L"), a function body ("F"), the body of         *)
(* something that is not understood ("G"), a block in one of these ("B").  *)
(* On the top level and in linkage blocks, declarations are recorded; in   *)
(* bodies nothing is, however the text looks, except for macros, since     *)
(* directives do not care about blocks.  Text that is not understood       *)
(* records nothing, hides nothing, and is what is reported as unparsed.    *)
(*                                                                         *)
(* "@" in a text stands for a name of its own per piece.                   *)
(***************************************************************************)
EXTENDS VUtil

CONSTANTS MaxSteps, MaxDepth, Mode

VARIABLES h, st
vars == <<h, st>>

W(c, n, v) == [c |-> c, n |-> n, v |-> v]
Decl(t, w) == [t |-> t, w |-> w]

\* Declarations and what they record
Ds == <<
  Decl("int @;", <<W("variables", "@", "int")>>),
  Decl("static const char *@ = \"}{; int zz;\";", <<W("variables", "@", "char *")>>),
  Decl("typedef unsigned long @;", <<W("types", "@", "unsigned long")>>),
  Decl("typedef void (*@)(int inx, char *);", <<W("types", "@", "void (int, char *) *")>>),
  Decl("char *@(int ina, double);", <<W("functions", "@", "char * (int, double)")>>),
  Decl("struct @ { int ina; char inb[4]; };", <<W("structs", "@", "ina int; inb char [4]"), W("types", "struct @", "struct @")>>),
  Decl("union @ { double ina; struct @q { int inb; } inc; };",
       <<W("unions", "@", "ina double; inc struct @q"), W("types", "union @", "union @"),
         W("structs", "@q", "inb int"), W("types", "struct @q", "struct @q")>>),
  Decl("enum @ { @A, @B = 5, };", <<W("enums", "@", "@A 0; @B 5"), W("types", "enum @", "enum @")>>),
  Decl("extern double @[3], *@q;", <<W("variables", "@", "double [3]"), W("variables", "@q", "double *")>>),
  Decl("typedef struct @q { int ina; } @, *@p;",
       <<W("structs", "@q", "ina int"), W("types", "struct @q", "struct @q"), W("types", "@", "struct @q"), W("types", "@p", "struct @q *")>>),
  Decl("double @[] = { 1, 2, };", <<W("variables", "@", "double [-1]")>>),
  Decl("char @[] = \"a\" \"{\" ;", <<W("variables", "@", "char [-1]")>>),
  Decl("int (*@)(void);", <<W("variables", "@", "int (void) *")>>),
  Decl("struct @ { int ina; } @q = { 1 };", <<W("structs", "@", "ina int"), W("types", "struct @", "struct @"), W("variables", "@q", "struct @")>>),
  Decl("void @(void); short @q(short);", <<W("functions", "@", "void (void)"), W("functions", "@q", "short (short)")>>)
>>

\* Macros, each on lines of its own
Ms == <<
  Decl("#define @ 17", <<W("macros", "@", "17")>>),
  Decl("#define @ {", <<W("macros", "@", "{")>>),
  Decl("  # define @ \"}\" // }", <<W("macros", "@", "\"}\"")>>),
  Decl("#define @ int zz;", <<W("macros", "@", "int zz;")>>),
  Decl("#define @ 1 + \\\n  2", <<W("macros", "@", "1 + 2")>>),
  Decl("#define @(zz) { int zz; }", <<W("fnmacros", "@", "")>>)
>>

\* Text that is not understood
Junk(t) == [t |-> t, bare |-> FALSE]
Js == <<
  Junk(";"), Junk(";;"), Junk("_Static_assert(sizeof(int) == 4, \"int zz;\");"),
  Junk("asm(\"nop; int zz;\");"), Junk("DECLARE(zz, zy)"), Junk("DECLARE(zz, zy);"),
  [t |-> "BEGIN_DECLS", bare |-> TRUE],
  Junk("int zz[2][2] = { { 1, 2 }, { 3, 4 } };"),
  Junk("point_t zz = { .x = 1, .y = 2 };"),
  Junk("int zz(const char *inf, ...);"),
  Junk("void zz(void) __attribute__((noreturn));"),
  Junk("int zz(int ina[static 3]);"), Junk("int zz[sizeof(int)];"),
  Junk("enum { };"), Junk("struct { int zz __attribute__((packed)); char *zy; };"),
  Junk(")"), Junk("("), Junk("]"), Junk("["), Junk("@ := 3"), Junk("= 5"), Junk("*"), Junk("$ ? % !"),
  Junk("__asm__(\"int zz;\");"), Junk("\"int zz;\""), Junk("'{'"), Junk("(L\"} int zz; {\")"), Junk("\"\\\"; int zz; \\\\\""), Junk("'\"'"),
  Junk("zz(\"text with ( and { and int zy;\", zy);"),
  Junk("int zz = { \"}\", \"{\" , .a = \"int zy;\" };"),
  Junk("int (*zz[])(int, ...) = { ina, inb };"),
  Junk("{ int zz; typedef int zy; { char zx; } }"), Junk("{ }"), Junk("{ \"}\" ; int zz; }"),
  Junk("3 4.5 0x10"),
  Junk("int zz(int, ...) { int zy; while (1) { int zx; } }"),
  Junk("static int zz(void) __attribute__((cold)) { struct zy { int zx; }; typedef char zw; }")
>>
\* Directives without effect: not reported either
Ps == <<"#error zz; int zy;", "#include <zz.h>", "#line 3", "#pragma once", "#pragma zz int zy;", "#ident \"zz\"", "#warning don't int zz;",
        "#if 0\n} int zz; typedef int zy; {\n#endif", "#ifdef zz\n}\n#elif defined(zy)\n{\n#endif", "#if 0\n#define zz 3\n\"\n#endif",
        "/* int zz; } */", "// typedef int zz; {", "/* \" */", "// don't", "#undef zz">>

\* Heads of bodies
Ls == <<"extern \"C\" {", "extern \"C\"\n{", "extern  \"C++\"  {">>
Fs == <<
  Decl("int @(int ina, char *inb) {", <<W("functions", "@", "int (int, char *)")>>),
  Decl("static inline void @(void)\n{", <<W("functions", "@", "void (void)")>>),
  Decl("const char *(*@(int ina))(double) {", <<W("functions", "@", "char * (double) * (int)")>>),
  Decl("unsigned long @(double (*inf)(int)) {", <<W("functions", "@", "unsigned long (double (int) *)")>>)
>>
Gs == <<"int zz(const char *inf, ...) {", "void zz(int ina[static 2]) {", "point_t zz[] = {", "static int zz(void) __attribute__((cold)) {", "{", "int zz() try {">>
Bs == <<"{", "if (ina) {", "for (int inb = 0; inb < 3; inb++) {", "do {", "switch (ina) { case 1:", "struct zz {", "zz: {", "else if (c == '}') {", "int zz(int zy) {", "if (strcmp(s, \"}\")) {", "while (*s != '\"') {">>
Ss == <<"int zz;", "static char zz[] = \"x\";", "typedef int zz;", "struct zz { int zy; };", "enum zz { zy, zx };", "zz(1, 2);", "return zz;", ";", "extern int zz(void);",
        "char zz = '}';", "char *zz = \"{\";", "s = \"int zy;\";", "c = '\\'';", "s = \"\\\"}\";", "c = '\"';", "/* } int zz; */ ;", "// { typedef int zz;\n;", "s = \"/*\"; c = '{'; s = \"*/\";",
        "break;", "in1 = in2 ? '{' : '}';", "s = L\"}\";", "asm(\"int zz;\");", "s = \"a\" \"}\" \"b\";", "s = \"a\"\"{\";", "s = \"\\\\\"; c = '\\\\';", "zz(')', \"//\", '}');",
        "typedef struct { int zz; } zy;", "union zz { int zy; } zx = { 3 };", "extern \"C\" int zz;", "int zz = 3, *zy = &zz;", "void zz(int), zy(void);">>

Texts(k) == CASE k = "D" -> MapSeq(Ds, LAMBDA d : d.t) [] k = "M" -> MapSeq(Ms, LAMBDA d : d.t) [] k = "J" -> MapSeq(Js, LAMBDA d : d.t)
              [] k = "P" -> Ps [] k = "L" -> Ls [] k = "F" -> MapSeq(Fs, LAMBDA d : d.t) [] k = "G" -> Gs [] k = "B" -> Bs [] k = "S" -> Ss
              [] k = "C" -> <<"}">> [] k = "N" -> <<"">>
Len_(k) == CASE k = "D" -> Len(Ds) [] k = "M" -> Len(Ms) [] k = "J" -> Len(Js) [] k = "P" -> Len(Ps) [] k = "L" -> Len(Ls)
             [] k = "F" -> Len(Fs) [] k = "G" -> Len(Gs) [] k = "B" -> Len(Bs) [] k = "S" -> Len(Ss) [] OTHER -> 1

----------------------------------------------------------------------------
Top(s) == IF s = <<>> THEN "T" ELSE Last(s)
Outside(s) == Top(s) \in {"T", "L"}
\* is the stack inside of something not understood
Strange(s) == "G" \in Range(s)

\* Pieces that may come next.  Text that looks like a type on its own must
\* not be followed by something that looks like a declarator.
RECURSIVE BareEnd(_)
BareEnd(ps) == IF ps = <<>> THEN FALSE ELSE IF Last(ps).k \in {"P", "M"} THEN BareEnd(Front(ps))
               ELSE Last(ps).k = "J" /\ Js[Last(ps).i].bare
AfterBare == BareEnd(h)
After(s, k) ==
  CASE k = "D" -> Outside(s)
    [] k = "J" -> Outside(s) /\ ~ AfterBare
    [] k \in {"L", "F", "G"} -> Outside(s) /\ Len(s) < MaxDepth /\ ~ (k = "G" /\ AfterBare)
    [] k = "B" -> ~ Outside(s) /\ Len(s) < MaxDepth
    [] k = "S" -> ~ Outside(s)
    [] k = "C" -> s # <<>>
    [] k = "N" -> s = <<>> /\ (IF h = <<>> THEN FALSE ELSE Last(h).k # "N")
    [] k \in {"M", "P"} -> TRUE
Kinds == {"D", "J", "L", "F", "G", "B", "S", "C", "N", "M", "P"}

\* what a piece does to the stack
Apply(s, k) == CASE k \in {"L", "F", "G", "B"} -> Append(s, k) [] k = "C" -> Front(s) [] OTHER -> s

Piece(k, i) ==
  [k |-> k, i |-> i, t |-> Texts(k)[i],
   \* what it records
   w |-> CASE k = "D" -> Ds[i].w [] k = "M" -> Ms[i].w [] k = "F" -> Fs[i].w [] OTHER -> <<>>,
   \* whether its text is reported as unparsed
   u |-> CASE k \in {"J", "L", "G"} -> TRUE
           [] k \in {"B", "S"} -> Strange(st)
           [] k = "C" -> Top(st) = "L" \/ Strange(st)
           [] OTHER -> FALSE]
Add(k, i) == /\ After(st, k) /\ h' = Append(h, Piece(k, i)) /\ st' = Apply(st, k)

Init == h = <<>> /\ st = <<>>

\* All sequences of kinds; the pieces take turns
Turn(k) == 1 + ((7 * Len(h) + 5 * Len(st) + Len(SelectSeq(h, LAMBDA p : p.k = k)) + (IF h = <<>> THEN 0 ELSE h[Len(h)].i)) % Len_(k))
\* enough steps are left to close everything
Fits(s, n) == n + Len(s) <= MaxSteps
Next == /\ Mode = "kinds" /\ Len(h) < MaxSteps
        /\ \E k \in Kinds : Fits(Apply(st, k), Len(h) + 1) /\ Add(k, Turn(k))
Spec == Init /\ [][Next]_vars

\* All pieces next to all declarations, one before and one after
Around == {<<k, i>> : k \in {"J", "P", "M", "D"}, i \in 1..50}
Inside == {<<k, i>> : k \in {"S", "B", "P", "M"}, i \in 1..50}
Seq3(a, b, c) == <<a, b, c>>
RECURSIVE Build(_, _, _)
Build(ps, hh, s) == IF ps = <<>> THEN hh
  ELSE LET k == ps[1][1] i == ps[1][2]
           p == [k |-> k, i |-> i, t |-> Texts(k)[i], w |-> CASE k = "D" -> Ds[i].w [] k = "M" -> Ms[i].w [] k = "F" -> Fs[i].w [] OTHER -> <<>>,
                 u |-> CASE k \in {"J", "L", "G"} -> TRUE [] k \in {"B", "S"} -> Strange(s)
                         [] k = "C" -> Top(s) = "L" \/ Strange(s) [] OTHER -> FALSE]
       IN Build(Tail(ps), Append(hh, p), Apply(s, k))
D_(n) == <<"D", 1 + (n % Len(Ds))>>
InitPairs ==
  \E x \in Around \cup Inside, d \in 1..Len(Ds), f \in 0..4 :
    /\ x[2] <= Len_(x[1])
    /\ f = 0 => x[1] \in {"J", "P", "M", "D"}
    /\ f > 0 => x[1] \in {"S", "B", "P", "M"}
    /\ f > 0 => (x[2] + f + d) % 3 = 0
    /\ LET head == IF f = 0 THEN <<>> ELSE IF f <= 2 THEN << <<"F", 1 + ((d + f) % Len(Fs))>> >> ELSE << <<"G", 1 + ((d + f + x[2]) % Len(Gs))>> >>
           mid == IF x[1] = "B" THEN <<x, <<"S", 1 + ((d + f) % Len(Ss))>>, <<"C", 1>> >> ELSE <<x>>
           tail == IF f = 0 THEN <<>> ELSE << <<"C", 1>> >>
       IN h = Build(<<D_(d + x[2])>> \o head \o mid \o tail \o << <<"D", d>> >>, <<>>, <<>>)
    /\ st = <<>>
Stop == FALSE /\ UNCHANGED vars

\* Long headers
Pick(n) == RandomElement(1..(n + 0 * Len(h)))
Weights == <<"D", "D", "J", "J", "L", "F", "F", "G", "B", "B", "S", "S", "S", "C", "C", "C", "N", "M", "P">>
RECURSIVE Choose(_, _)
Choose(a, n) == IF n = 0 THEN "P" ELSE IF After(st, Weights[1 + (a % 19)]) THEN Weights[1 + (a % 19)] ELSE Choose(a + 7, n - 1)
Draw ==
  IF Len(h) < MaxSteps
  THEN \E a \in {Pick(190)}, r \in {Pick(1000)} : LET k == Choose(a, 19) IN Add(k, 1 + (r % Len_(k)))
  ELSE st # <<>> /\ Add("C", 1)

----------------------------------------------------------------------------
(* Design.                                                                 *)

TypeOK == Range(st) \subseteq {"L", "F", "G", "B"} /\ Len(st) <= MaxDepth

\* the stack is that of the braces of the pieces
RECURSIVE Opened(_)
Opened(ps) == IF ps = <<>> THEN 0 ELSE (CASE ps[1].k \in {"L", "F", "G", "B"} -> 1 [] ps[1].k = "C" -> -1 [] OTHER -> 0) + Opened(Tail(ps))
Balanced == Mode # "pairs" => Opened(h) = Len(st)

\* nothing is both recorded and reported, except that directives in a block
\* take effect while the block is reported
Either == \A j \in 1..Len(h) : h[j].u => h[j].w = <<>>

\* inside of a body nothing but macros is recorded
BodiesSilent == [][Len(h') > Len(h) /\ ~ Outside(st) => h'[Len(h')].w = <<>> \/ h'[Len(h')].k = "M"]_vars
\* text in between changes nothing: what is recorded is that of the rest
RECURSIVE Recs(_)
Recs(ps) == FlattenSeqs([j \in 1..Len(ps) |-> ps[j].w])
JunkSilent == Recs(SelectSeq(h, LAMBDA p : p.k \in {"D", "M", "F"})) = Recs(h)

Case == [h |-> [j \in 1..Len(h) |-> [t |-> h[j].t, k |-> h[j].k, w |-> h[j].w, u |-> h[j].u]]]
GenAll == st = <<>> /\ h # <<>> /\ Len(h) = MaxSteps => Emit(Case)
GenPairs == Emit(Case)
GenEnd == Len(h) >= MaxSteps /\ st = <<>> => Emit(Case)
=============================================================================
