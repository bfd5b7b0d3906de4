# per property: module of the specification, note on the level
LEVELS = {
"C01": ("Cond", "Exhaustive over all directive histories of 4 (5) lines and all conditions of the grammar in all macro environments; seeded simulation for histories of up to 24 lines. The model is bound to the code by replay of these behaviours."),
"C02": ("Macro", "Exhaustive over short histories of #define/#undef/use; seeded simulation of long histories over several files. The model is bound to the code by replay of these behaviours and comparison of the token sequences."),
"C03": ("Pack", "Exhaustive over all histories of a few pragmas; seeded simulation of long histories with all sorts of lines between. The model is bound to the code by replay of these behaviours."),
"C04": ("Decl", "Exhaustive over all declarators of bounded depth; seeded simulation of deeper declarators, lists, prototypes and qualifiers. The model is bound to the code by replay of these declarations."),
"C05": ("TypeEval", "Exhaustive over all small typedef tables (cycles and unknown names included); seeded simulation of larger tables. The model is bound to the code by replay."),
"C06": ("Expr", "Exhaustive over all pairs of operators and all literal spellings of the specification; seeded simulation of deep expressions and sequences of constants over several files. The evaluator of the specification is cross-checked with gcc and bound to the code by replay."),
"C07": ("Tags", "Exhaustive over all short sequences of definitions and references of tags; seeded simulation of long ones over several files. The model is bound to the code by replay."),
"C08": ("Layout", "Exhaustive over small structs of all member types and packings; seeded simulation of nested types, bit fields and orders of requests. The layout algorithm of the specification is cross-checked with gcc, and the classes returned by the library are compared with it."),
"C09": ("Cache", "Exhaustive over all short histories and all changes of arguments; seeded simulation of long histories with damage and truncation. The model is bound to the code by replay against parsers without cache."),
"C10": ("Compose", "Exhaustive over all pairs of parsers of four fixed headers and the copies of them; seeded simulation of random headers, initial definitions and chains of copies. The model is bound to the code by replay."),
"C11": ("LibReg", "Exhaustive over all short histories of openings by every designation; seeded simulation of long histories. The model is bound to the code by replay, one process per history."),
"C12": ("Lookup", "Exhaustive over all sequences of two (three) lookups in a table full of clashes, with all prefix lists; seeded simulation of random tables and long sequences. The model is bound to the code by replay."),
"C13": ("Call", "Exhaustive over all ways (positional, keyword, NULL, omitted, unknown keyword) to call all short signatures; seeded simulation of longer signatures and of sequences of calls. The model is bound to the code by replay: compiled functions record what arrives."),
"C14": ("Call", "Exhaustive over all ways to call all short signatures; seeded simulation of sequences of calls, replaced arguments and discarded results, every live result read after every step. The model is bound to the code by replay against compiled functions."),
"C15": ("Lock", "The locking protocol is model-checked (mutual exclusion, progress under fairness); all scripts of two or three calls and random scripts, with callbacks and failing calls, are run by real threads through gated C functions; the histories recorded are checked against the specification by TLC (LockTrace)."),
"C16": ("Init", "Exhaustive over all pairs of operations with all combinations of types, modifiers and systems (the quick check replays a sample); seeded simulation of longer histories over larger pools. The model is bound to the code by replay, one process per history, with headers that use every declared type and modifier."),
"C17": ("Search", "Exhaustive over all registrations of up to two times two directories with every distribution of a file; seeded simulation of long histories with files, directories and dangling links appearing and disappearing. The model is bound to the code by replay, one process per history."),
"C18": ("Text", "Exhaustive over all texts of 6 (7) characters of the seven that matter and over short texts with all pairs of replacements; seeded simulation of texts of 60 characters with up to three replacements; joints at all places of a directive. The model is bound to the code by replay."),
"C19": ("TypeVal", "Exhaustive over all types of up to two derivations and everything one change away from them, and over short histories; seeded simulation of larger descriptions and longer histories. The model is bound to the code by replay, and its laws are checked on what the parser makes of the same types."),
"C20": ("Scan", "Exhaustive over all short sequences of kinds of pieces and over all pieces next to all declarations, on the top level and in bodies; seeded simulation of headers of 40 pieces with nested blocks, linkage blocks and several files. The model is bound to the code by replay, also of the text reported as unparsed."),
"C21": ("Memory", "Exhaustive over all short histories of building, casting, writing and calling; seeded simulation of histories of 36 steps over up to four objects and nine handles. The model is bound to the code by replay: every live handle is read completely after every step."),
"C22": ("Arch", "Exhaustive over all short histories of files, links, questions and openings; seeded simulation of histories of 60 steps over four paths with names of all sorts. The model is bound to the code by replay."),
}
