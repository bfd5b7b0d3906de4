import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
CP="pyclibrary/c_parser.py"; CL="pyclibrary/c_library.py"; BK="pyclibrary/backends/ctypes.py"; UT="pyclibrary/utils.py"; IN="pyclibrary/init.py"

prop("C01","Conditional directives keep exactly the lines C would keep",
"For every properly nested arrangement of #if, #ifdef, #ifndef, #elif, #else and #endif, a line of a header takes effect (as a declaration, #define, #undef or #pragma pack) if and only if every group around it is taken, where each chain takes its first branch whose condition is true and takes #else only when no branch was. Conditions built from defined, !, &&, ||, parentheses, comparisons, macros and integer constants in decimal or hexadecimal with or without U/L suffixes evaluate as in C, an identifier that is no macro counting as 0. Nothing inside a group that is not taken has any effect, including nested conditionals and their conditions.",
["inputs","histories"],"all nested sequences of conditional directives interleaved with #define/#undef and declarations, at any depth, over all truth assignments of the conditions (comparisons not chained and ! not applied to the left operand of one without parentheses)",
"test_conditionals parses one header with nesting depth 2 and ten hand-picked groups; no test has #elif/#else below a skipped parent, several #elif branches, hexadecimal or suffixed constants, or !=.",
[CP],[("branch stack (if_true / if_hit)","CParser.preprocess"),("condition evaluation","CParser.eval_preprocessor_expr"),("defined operator","CParser.preprocess")],
[("if_true/if_hit","per open group: is this branch active, has a branch been taken","CParser.preprocess")],["CParser.defs['variables']","CParser.defs['macros']"])

prop("C02","Macro table and macro expansion follow #define and #undef",
"At every point of the sequence of headers the macros in force are those given by the latest active #define not followed by an active #undef, whatever file these are in; a redefinition replaces the earlier definition, also when it changes between object-like and function-like. Each later use of an object-like macro and each later call of a function-like macro (arguments may contain nested parentheses, commas inside them, string literals and further macro calls) is replaced by its replacement text, in which macros defined before it were already expanded and each parameter is replaced by the expanded argument; a macro defined as the bare name of a function-like macro behaves as that macro did then. All other text, in particular string literals and a function-like macro's name that is not called, is left unchanged.",
["inputs","histories"],"all sequences of #define/#undef/text lines over object-like and function-like macros, one or several files; parameter names are not themselves macros, calls have the right number of arguments and stand on one line, no # or ##, no macro used in its own definition, in a file no name is used before its #define there",
"test_values and test_macro_function check about 20 fixed definitions, each used once; no test redefines with another kind, undefines a function-like macro, crosses files, nests calls inside arguments with parentheses, or puts macro names into strings.",
[CP],[("definition","CParser.process_macro_defn, compile_fn_macro"),("expansion","CParser.expand_macros, expand_fn_macro"),("removal","CParser.rem_def")],
[("macros / fnmacros","object-like and function-like macros in force","CParser.defs")],["preprocessed text CParser.files","CParser.defs['macros'], ['fnmacros']"])

prop("C03","Every struct or union gets the packing that #pragma pack put in force",
"The packing recorded for a struct or union is the alignment in force at the line where it starts: pack(n) sets it, pack() resets it to the default (None), push (optionally with a name and n) sets it to n if given and adds a record holding the resulting alignment, pop removes the top record (or everything down to and including the nearest record of the given name) and makes n, or else the alignment of the record then on top (the default when there is none), current. A pop naming no existing record changes nothing except an alignment n it gives, a pop with no record left yields the default, and other pragmas and skipped lines change nothing. This holds wherever the pragma and the struct sit in the file, whatever directives, comments, blank, continued or skipped lines lie between, before or after.",
["inputs","histories"],"all sequences of pack pragmas (set, reset, push, pop with every optional part), structs/unions written on one or several lines, and unrelated or skipped lines; every header starts with the default and an empty record",
"test_pragmas looks at one sequence of 8 pragmas and not at structs; test_struct/test_unions have one packed struct each. No test has a struct adjacent to a pragma, lines dropped by skipped groups before a pragma, repeated names, or unbalanced pops.",
[CP],[("pragma state machine","CParser.preprocess"),("line-to-packing lookup","CParser.packing_at, process_struct")],
[("pack_list / pack_stack","alignment per line; stack of records","CParser.preprocess")],["CParser.defs['structs'][n].pack","CParser.defs['unions'][n].pack"])

prop("C04","Declarations are recorded with exactly the C type they declare",
"For every declaration of a variable, typedef, function prototype or function definition built from pointers, arrays (sized or not), functions and parentheses nested in any legal way, with type qualifiers and storage classes, every declared name is recorded in the right category with a type description that lists the derivations in C precedence order, array sizes in written order, qualifiers at the level they qualify, and every parameter with its own name (None when absent) and type. Each name in a declarator list gets its own type, and nothing but the declared names is recorded.",
["inputs","programs"],"all legal declarators up to a bounded nesting depth, all combinations of qualifiers (const, volatile, restrict, near, far and names starting with two underscores, with or without arguments in parentheses, written before or after the base type or after a *), parameter lists (named, unnamed, empty, void), and declarator lists (an initialiser only on the last); no variadic functions, no attributes after the declarator",
"the tests contain fewer than 20 declarators, none nested deeper than a pointer to function, and no array of function pointers, function returning function pointer, or pointer to array parameter.",
[CP],[("declarator grammar","CParser.build_parser"),("derivation order","CParser.process_declarator, process_type"),("recording","process_variable, process_typedef, process_function")],
None,["CParser.defs['variables'|'types'|'functions']"])

prop("C05","Typedefs resolve to their fundamental type, or fail with DefinitionError",
"Evaluating a type resolves its typedef chain completely: the result has a fundamental, struct, union or enum base, followed by the derivations of every typedef passed through, from the innermost typedef outwards, then the type's own, meaning the same C type (arrays of array typedefs included) and carrying every qualifier at the level it qualifies. A chain that leads to an unknown name or into a cycle raises DefinitionError and always terminates. Evaluation is a pure function of the type and the typedef table: it changes neither and repeating it gives an equal result.",
["inputs","histories"],"all typedef tables (chains, diamonds, cycles, undefined ends), all derivations and qualifiers on every level, repeated and interleaved evaluations",
"test_eval evaluates three types against one table; test_typedef checks one chain of length 2, one unknown name and one cycle.",
[CP],[("resolution","Type.eval, CParser.eval_type"),("fundamental test","Type.is_fund_type")],
None,["Type.eval","CParser.eval_type"])

prop("C06","Constants have the value C gives them, and non-constants have None",
"The value recorded for a macro, an initialised variable, an array of initialisers, an enumerator or an array size whose expression is built from decimal, octal, hexadecimal and floating constants with their suffixes, string literals, names of earlier constants, parentheses and the operators + - * / % << >> & ^ | ~ is the value C computes, as long as all values are in the range of int or floating. An enumerator without a value is one more than the previous one (the first is 0). Text that is no such constant expression has the value None, never some other Python object; this includes a division by zero.",
["inputs","programs"],"all constant expressions over the listed constants and operators, chained through macros, enumerators, variables and array sizes; no casts, sizeof, character constants (except as enumerators), ?:, comparisons or logical operators",
"test_values and test_enums check about 20 literals and one enum with an expression; none chains enumerators through macros and array sizes or tries text that happens to be valid Python.",
[CP],[("evaluation","CParser.eval_expr, CParser.eval"),("number grammar","hexint, decint, floating"),("enumeration","CParser.process_enum")],
None,["CParser.defs['values'], ['enums'], ['variables']"])

prop("C07","Tags keep their complete definition; anonymous ones never collide",
"Each struct, union and enum defined in the headers is recorded under its tag with its members in order, each with its type, bit width and (enum) value, and stays so whatever other references to the tag come before or after it, in the same or another file. A tag that is only referred to is recorded as having no members. Every anonymous struct, union or enum gets an entry of its own, different from all others and from all tags, to which exactly the typedefs, variables and members declared with it refer.",
["inputs","histories"],"all sequences, over one or several files, of definitions, forward and backward references, nested and anonymous definitions of struct, union and enum tags; tags do not start with anon_ and the head of a function definition contains no anonymous one",
"tests define each tag once, never refer to a tag before its definition, and have at most two anonymous definitions per kind.",
[CP],[("tag registry","CParser.process_struct, process_enum"),("anonymous numbering","process_struct, process_enum")],
[("structs/unions/enums","tag to definition","CParser.defs")],["CParser.defs['structs'|'unions'|'enums'|'types']"])

prop("C08","ctypes classes have the size, offsets and shape of the C types",
"For every type in the headers (base types, pointers, arrays, function pointers, structs, unions, enums and typedefs of these, nested in any way, with #pragma pack and bit fields) the ctypes object obtained from the library has the C compiler's size, and for structs and unions the same members, in the same order, at the same offsets and with the same element types, array shapes and bit widths. A type that cannot be represented raises an error instead of yielding a different layout. Obtaining types changes nothing: definitions stay as parsed and every type comes out the same however often and in whatever order types are requested.",
["inputs","programs","histories"],"all struct/union definitions from the supported member types up to a bounded size and nesting, each packing, and all orders of requesting the types; bit fields in unpacked structs, in runs of one type that start and end at the boundary of a unit",
"tests look at one array field and instantiate two structs; no size, offset, packing, union, bit field or repeated request is checked.",
[BK,CL],[("type construction","CTypesCLibrary._get_type"),("struct construction","CTypesCLibrary._get_struct"),("base type table","init_clibrary")],
None,["ctypes.sizeof/alignment/offset of the classes returned by CLibrary"])

prop("C09","Using a cache file never changes what the parser reports",
"Whatever happened before (headers edited, added or removed from the list, parser arguments changed, cache deleted, overwritten by other content, cut off at any byte by a crash, or written by an older cache format), a parser created with a cache file ends up with the same definitions, per file and overall, as one created now without a cache, given that an edited header is newer than the cache. A cache that is current (no existing header newer, same arguments, same format, intact) is used instead of parsing, and one that is not is replaced by a current one. With validity checking off an intact cache is loaded as it is, whatever its age or arguments, and headers that cannot be found are an error only when no usable cache exists.",
["histories","crash_points","configurations"],"all interleavings of header edits, argument changes, cache damage/truncation/deletion/version changes and parser constructions; headers with different base names, the same initialisation of PyCLibrary throughout",
"the cached test class never even runs its cache setup; no test reads a cache back, changes an argument, or damages a cache file.",
[CP],[("validity check","CParser.load_cache"),("write","CParser.write_cache"),("pickling of descriptions","Type.__getnewargs__"),("options","CParser.init_opts")],
[("cache file","opts, file_defs, version","CParser.write_cache")],["CParser(..., cache=...).defs/.file_defs","return value of process_all"])

prop("C10","Definitions compose across files, copied parsers and initial values",
"The definitions a parser reports are the ones given as keyword arguments, then those of each copied parser in order, then those of each header in order, a later definition of a name in a category overriding the earlier; per file it reports exactly the definitions that file (by base name, None for keyword arguments) made and that are still in force or overridden by a later file, and searching for a name or pattern finds, and printing the definitions overall or of a file prints, exactly these; a declaration is found as text on the line it stands on. Macros and values of earlier sources are visible to later headers. Parsers are independent of each other: using one, or copying from it, never changes another.",
["inputs","histories"],"all choices and orders of header files, initial definitions and (chains of) copied parsers, with names clashing across all of them; headers with different base names",
"every test parses a single file with a fresh parser; copy_from, several files, initial definitions and find are never used.",
[CP],[("bookkeeping","CParser.add_def, rem_def, import_dict"),("search","CParser.find")],
[("defs / file_defs","merged and per-file definitions","CParser")],["CParser.defs, CParser.file_defs, CParser.find", "str(parser), print_all, find_text"])

prop("C11","A shared library has at most one live wrapper",
"While a wrapper for a shared library file is alive, opening that file again returns the very same wrapper, however it is designated (absolute or relative path, path through symbolic links, bare name found through the library search path, or an already loaded ctypes library). Wrappers of different files are always different objects, a failed opening leaves no trace, and once a wrapper has been discarded and collected opening the file again gives a new, fully working one with the arguments given then.",
["histories"],"all sequences of opening (by every designation, successfully or not), keeping, dropping and reopening several library files, one thread, paths and search directories that keep their meaning while a wrapper lives",
"test_already_opened_library opens one file twice in one fixed way; symlinks, names, relative paths, dropped wrappers and failures are not covered.",
[CL,"pyclibrary/backends/__init__.py",BK],[("registry","CLibraryMeta.__call__, CLibraryMeta.libs"),("identification","get_library_path")],
[("libs","weak map from library path to wrapper","CLibraryMeta")],["identity of objects returned by CLibrary(...)"])

prop("C12","Looking up a name in a library does not depend on earlier lookups",
"lib.name finds the first of values, functions, types, structs, unions and enums in which the name itself, or else the name with one of the prefixes in order, is defined; lib(kind, name) does the same within one kind, resolving typedef names of structs, unions and enums, and lib[kind] is the parser's own table. The outcome (object or error) is the same whatever was looked up before and by whichever spelling, repeated lookups return the identical object, and one C struct or union has one single class no matter through which alias, member, parameter or prefix it is reached.",
["histories","inputs"],"all sequences of lookups by attribute, by kind and by table over names that clash between kinds and with prefixes, plus aliases; a value None counts as not defined",
"each test performs a handful of single lookups on a fresh name; the prefix test is empty; no name is looked up under two spellings.",
[CL,BK],[("attribute lookup","CLibrary.__getattr__"),("kind lookup","CLibrary.__call__, _make_obj_"),("alias resolution","_resolve_struct_alias, _get_struct")],
[("_objs_, _all_objs_, _structs_","objects already built","CLibrary")],["results of lib.name, lib(kind, name), lib[kind]"])

prop("C13","Every call argument reaches the C function in its declared place",
"In a call each positional argument, keyword argument (by the header's parameter name) and None (a NULL pointer) arrives at the C function in the position the header declares with its value intact, for every calling convention annotation the platform ignores. Every omitted pointer (one or two levels, to numbers other than characters, to void or to structs) arrives as a fresh zero-initialised object of that call, not shared with any other call. An unknown keyword, None for a parameter that is no pointer, or an omitted argument that is no such pointer raises TypeError, a value of a type that cannot become the parameter's type raises ctypes.ArgumentError, and in each case the C function is not called.",
["inputs","histories"],"all signatures up to a bounded length over the parameter kinds, and for each all ways of supplying, omitting or nulling every argument once, in sequences of calls (None not for arrays with a size, no unions by value, at most one struct by value)",
"five call tests, none uses keyword arguments, None, several omitted pointers, an error case, or a calling-convention annotation.",
[CL,BK],[("argument assembly","CFunction.__call__"),("pointer generation","CTypesCLibrary._get_pointer"),("signature set-up","CFunction.__init__, _init_function")],
None,["arguments recorded by the called C functions","exceptions"])

prop("C14","A call result reports exactly what the C call returned and wrote",
"The result object of a call gives the function's return value when called and as first unpacked item, and every argument by position, by name, and in order as second unpacked item: for a pointer that was generated automatically what the function wrote there (one level dereferenced), otherwise the argument as passed; auto() lists exactly the generated ones in order. Replacing an argument of a result affects that result only, asking for an unknown name raises KeyError, and results stay valid and unchanged when further calls are made or others are discarded.",
["inputs","histories"],"all signatures and supply patterns of C13, all ways of reading the result, and sequences of calls whose results are read late",
"only two tests read an output argument and none reads by name, uses auto(), or reads a result after another call.",
[CL],[("result access","CallResult.__call__, __getitem__, __iter__, auto, find_arg")],
None,["CallResult"])

prop("C15","With lock_calls no two calls into a library overlap, and none deadlocks",
"For a library opened with lock_calls, at no moment do two threads execute functions of that library, for any number of threads and functions and any schedule. Every call is eventually executed: a call made from a callback of the same thread proceeds, and a call that fails or raises leaves the library usable by all threads. Calls return the same results as without locking.",
["schedules","histories"],"all schedules of threads calling the functions of one locked library, including re-entrant calls from callbacks in the same thread and failing calls",
"no test opens a library with lock_calls or uses threads.",
[CL],[("call lock","CFunction.__call__, CLibrary.__init__")],
[("lock","re-entrant lock of the library","CLibrary")],["enter/leave events recorded inside the C functions"])

prop("C16","Initialisation happens exactly once and its types and modifiers stick",
"init or auto_init can take effect only once and only before any parser or library exists; each later attempt raises RuntimeError and leaves the recognised types and modifiers as they were, while creating a parser without having initialised does it with the platform defaults. Types declared at initialisation are from then on fundamental types for every parser and map to the given ctypes types in every library, the modifiers are skipped in declarations wherever a qualifier may be written, all standard C types stay recognised, and the caller's dict and list are left as given.",
["histories","configurations"],"all orders of init, auto_init (each platform), parser creation and library opening with all combinations of extra types (single words) and modifiers",
"test_init resets the private flags between tests and looks only at module internals; no test parses with the declared types or modifiers or checks the state after a refused second init.",
[IN,CP,BK],[("once guard","init"),("grammar set-up","_init_cparser"),("type table","init_clibrary")],
[("_init","initialised flag","CParser, CLibrary")],["exceptions, parsed definitions and ctypes types after initialisation"])

prop("C17","Headers and libraries are found in the most recently added directory",
"A header or library given by name is taken from the first directory containing it: the directories passed in the call in order, then those registered by the user, the one added last first, then (headers) PyCLibrary's own and the system include directories; OSError is raised (also by the parser, for a header) when none has it. Registered directories that do not exist are ignored, a file given by an existing path is used as it is, and searching changes neither the caller's arguments nor the outcome of later searches nor any file, whatever characters the name contains. A library no directory contains is looked for among those of the system.",
["histories","configurations"],"all sequences of registering directories, searching with and without explicit directories, and creating or deleting files",
"test_find_file registers one directory and finds one file.",
[UT,CP],[("search order","find_header, find_library"),("registration","add_header_locations, add_library_locations"),("header lookup","CParser.find_headers")],
[("HEADER_DIRS, LIBRARY_DIRS","registered directories","pyclibrary.utils")],["returned paths, OSError"])

prop("C18","Comments disappear, literals survive, continued lines join",
"For every header, comments of both kinds are replaced by white space and everything else, in particular string and character literals containing comment markers, quotes or backslashes, stays as written; comment markers inside comments or literals have no effect. Lines ending in a backslash are joined with the next before directives are processed, and the user's replacements are applied to the raw text of every file before all else, each to all its matches in the given order.",
["inputs"],"all texts over the characters that matter for comments, literals and line joining in which literals and block comments are terminated and no backslash at the end of a line splits a comment marker, an escape sequence or stands before a // comment",
"two fixed pairs of before/after files with about a dozen comments.",
[CP],[("comment removal","CParser.remove_comments"),("joining","CParser.preprocess"),("replacement","CParser.load_file")],
None,["CParser.files after remove_comments / process_all"])

prop("C19","Type descriptions are faithful values",
"Two type descriptions are equal exactly when base, derivations and qualifiers are equal (compared with a plain tuple, qualifiers do not count), and != is always the opposite of ==. Pickling, copying and evaluating the repr of a type, struct, union or enum description each give back an equal description of the same class with the same qualifiers and packing, and adding and then removing the function compatibility form gives back the original type.",
["inputs"],"all type, struct, union and enum descriptions built from bases, derivations (nested function parameters included) and qualifiers up to a bounded size",
"TestType/TestStructUnion check about ten hand-written descriptions, one of them pickled, comparing only its repr.",
[CP],[("equality","Type.__eq__, __ne__"),("persistence","Type.__getnewargs__"),("compatibility form","add_compatibility_hack, remove_compatibility_hack"),("repr","Type, Compound, Enum __repr__")],
None,["==, !=, repr, pickle, copy on descriptions"])
prop("C20","Unknown text and bodies hide no declaration and declare nothing",
"A header is made of declarations, macros and function definitions the parser supports, linkage blocks, and other text it does not understand. Each supported declaration on the top level or in linkage blocks is recorded exactly as if all other text were absent, wherever it stands. Nothing is recorded from the body of a function, whatever its statements, nested blocks, literals and comments look like, nor from string literals or from the braces belonging to text that is not understood; only directives take effect there as anywhere. What process_all(return_unparsed=True) returns for each file is, white space aside, exactly the text that is not understood, and asking for it changes nothing about what is recorded.",
["inputs"],"all sequences of declarations, macros, directives without effect, linkage blocks, function definitions with bodies of any structure, and pieces of text that is no declaration (balanced braces; not continuing or starting a declaration next to it; no C++ classes or namespaces, no old-style function definitions, no declaration between unknown parentheses)",
"test_function has a handful of definitions with a body of one or two statements, test_misc two unknown lines; no test has braces in literals within bodies, local declarations, linkage blocks, or looks at the unparsed text.",
[CP],[("scanning","CParser.parse_defs"),("function bodies","CParser.build_parser (function_decl)"),("directives in bodies","CParser.preprocess")],
None,["all categories of CParser.defs","result of process_all(return_unparsed=True)"])
prop("C21","Arrays, casts and callbacks share their memory and values with C",
"build_array gives an array with the dimensions and element type asked for, filled with the given initial values in order and zeros after them. cast_to gives a pointer of the type asked for to the very memory of the object. The element and pointer types may be given as a name, a Type or a ctypes class, all meaning the same. Whatever is written through an array, a row of it, a cast, a pointer returned by C, or by a C function that was passed any of these, is seen through all others, and a cast keeps the array alive. A Python function wrapped in the type of a function pointer (from lib('types', ...) or arg_c_type, by name or position of the argument) is called by C with the arguments C passes, and C gets what it returns, also when C keeps the pointer and calls it later or hands it back.",
["histories","inputs"],"all histories of building (integer, char, struct, union and array elements, one or several dimensions), casting, writing, passing to C functions, calling back and forgetting objects; initial values for one dimension only, types named by a base type or a typedef, no cast of a row outliving its array",
"no test calls build_array, cast_to or arg_c_type; test_call passes one callback.",
[BK,CL],[("arrays","CTypesCLibrary._get_array, build_array"),("casts","CTypesCLibrary._cast_to, cast_to"),("types of arguments","CFunction.arg_c_type, CTypesCLibrary._get_type")],
[("ctypes objects","memory shared by Python and C","CTypesCLibrary")],["elements of the objects","arguments and results of C functions and callbacks"])
prop("C22","The architecture of a library depends on the file alone, not on its path",
"The path of a library found or given tells the word sizes of the file it leads to, through any links: 32 or 64 for ELF files on Linux and for PE files of known machine types on Windows, whatever the position of the PE header, and nothing (arch is empty, is_32bit, is_64bit and bitness are 'n/a') for anything else, for damaged or missing files, and when the program which recognises files is missing. The answer is the same for all ways to ask, all spellings of the path, all names of files and directories, and whatever was asked before about other paths. CLibrary refuses a library known to be for another word size with OSError, by path and by name, and opens every library which is not.",
["histories","inputs","configurations"],"all histories of creating, replacing, linking and deleting files of all these kinds under arbitrary names, asking and opening, with and without the recognising program; an object which has answered is not asked again after the files changed; no scripts starting with #!; Windows only as far as reading PE files goes",
"no test looks at the architecture of a library; test_find_file and the library tests have one library in one ordinary place.",
[UT,CL],[("recognition","get_arch, get_shared_library_arch"),("answers","LibraryPath.arch, is_32bit, is_64bit, bitness"),("refusal","CLibraryMeta.__call__")],
[("_arch","answer of a path object","LibraryPath")],["attributes of the result of find_library","success or OSError of CLibrary(...)"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
