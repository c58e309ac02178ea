#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARSE = ["src/tokenize.cpp", "src/parse.cpp", "src/check_pattern.cpp", "src/parameter_names.cpp", "src/lex.l", "src/lex.yy.c"]
CT = ["src/templates/common.h", "src/templates/common.c", "src/templates/c.h", "src/templates/c.c"]
CXXT = ["src/templates/common.h", "src/templates/common.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp"]

p("G01", "Every prototype becomes exactly one API entry with its exact name and type",
  "For any list of supported C declarations (functions, objects, arrays, function pointers, with any pointers, qualifiers, redundant parentheses, parameter shapes and `...`), the generator exposes exactly one entry per declaration, under the declared name, and the symbol pointer's type is the declared type. Nothing is lost, duplicated, renamed, reordered inside a declaration, or given a different type, whatever order or number of declarations the input has; a name declared twice is an error.",
  ["inputs"], "all declaration lists made from the declarator grammar within the stated size bounds",
  "The tests read one fixed prototype file of seven symbols; the parser has one branch per declarator shape and they combine.",
  PARSE + ["src/gendlopen.cpp"],
  [("pattern-based classification of each declaration", "src/check_pattern.cpp"), ("splitting into type, symbol and parameters", "src/parse.cpp"), ("superfluous parentheses removal, typedef creation and formatting", "src/tokenize.cpp")],
  observe=["gendlopen -print-symbols", "types of the symbols in the compiled generated header"])

p("G02", "Text that is documented as ignored never changes the result",
  "Inserting comments, preprocessor lines, struct/union/enum/typedef blocks, `extern`, empty statements, a byte order mark, whitespace, line breaks or CRLF line ends between any two tokens (blocks, preprocessor lines and empty statements between declarations or on lines of their own), or backslash-newline splices inside comments, preprocessor and %option lines, leaves the generated output unchanged. Ignored text neither swallows a following declaration nor leaks any of its own tokens into one, however these constructs nest or follow each other.",
  ["inputs"], "all insertions of every ignorable item, and every pair of them, at every token boundary of the base inputs",
  "One hand-written file contains a handful of comments; each lexer state transition pair is a separate case.",
  ["src/lex.l", "src/lex.yy.c", "src/tokenize.cpp"],
  [("lexer start conditions for comments, preprocessor lines and splices", "src/lex.l"), ("block skipping by brace counting", "src/tokenize.cpp")],
  state=[("lexer start condition", "which kind of ignored text the scanner is inside", "src/lex.l"), ("block / curly_count", "inside an ignored struct/union/enum/typedef", "src/tokenize.cpp")],
  observe=["gendlopen -print-symbols"])

p("G03", "Malformed declarations are refused; accepted ones are reproduced token by token",
  "For any sequence of declaration tokens the generator either stops with an error message and exit code 1, or every token of every declaration (apart from `extern` and redundant parentheses) appears in the generated declaration in its original order. Text which does not have the structure of a declaration (parentheses and brackets that do not nest, tokens after the end of the declarator, no type in front) is refused. It never silently drops, adds or reassigns part of a declaration it does not understand, and it never produces output for an input that has no symbols.",
  ["inputs"], "all token sequences up to the stated length over the token alphabet",
  "The tests contain only valid input.",
  PARSE, [("pattern checks and error paths", "src/check_pattern.cpp, src/parse.cpp"), ("parameter list validation", "src/parameter_names.cpp")],
  observe=["exit status", "gendlopen -print-symbols"])

p("G04", "No input makes the generator crash, hang or end abnormally",
  "For any bytes as prototype text, Clang AST dump, custom template or external templates, and any command line, the generator terminates by itself with exit code 0, or with a non-zero exit code and a message on standard error. It is never killed by a signal or an uncaught exception and never reads or writes outside its own memory.",
  ["inputs", "configurations"], "all byte strings up to the stated length over an alphabet with one representative per lexer/parser/template character class, all command lines up to the stated length",
  "Tests pass well-formed files only.",
  PARSE + ["src/substitute.cpp", "src/options.cpp", "src/opt_parser.h", "src/clang_ast.cpp", "src/main.cpp", "src/generate.cpp", "src/data.cpp"],
  [("exception handling at top level", "src/main.cpp"), ("bounds-checked token access", "src/utils.hpp, src/check_pattern.cpp")],
  observe=["wait status of the process", "address and undefined-behaviour sanitizer reports"])

p("G05", "Every spelling of an option, on the command line or in the input, is equivalent",
  "Each command line option has the same effect as `-name=value`, `-name value` and with `--`, independent of its position relative to other different options and the input file, and each `%option` line has exactly the effect of the corresponding command line option, also when options are split over several lines. `-ignore-options` makes every `%option` line have no effect, and unknown options, missing or empty values are reported as errors instead of being ignored.",
  ["configurations", "inputs"], "all option subsets/sequences up to the stated length in every spelling",
  "The tests use one input with some %option lines and a dozen fixed command lines.",
  ["src/options.cpp", "src/opt_parser.h", "src/opt_parser++.hpp", "src/gendlopen.cpp", "src/lex.l", "src/tokenize.cpp"],
  [("command line parser", "src/opt_parser.h, src/options.cpp"), ("%option parser", "src/options.cpp, src/lex.l")],
  observe=["generated output", "exit status"])

p("G06", "Symbol filters select exactly the requested symbols",
  "With `-P` prefixes and `-S` names the output contains exactly the declared symbols that start with one of the prefixes or equal one of the names, each once; without filters it contains all of them. A `-S` name that is not declared is an error naming exactly the missing symbols, and selecting nothing is an error; this holds equally for prototype text and for Clang AST input, where `-ast-all-symbols` disables the filters.",
  ["inputs", "configurations"], "all symbol sets and all combinations of up to the stated number of prefixes and names over a colliding name alphabet, in both input kinds",
  "One test passes one fixed filter list.",
  ["src/parse.cpp", "src/clang_ast.cpp", "src/utils.hpp", "src/utils.cpp"],
  [("filter mode and prefix test", "src/utils.hpp, src/utils.cpp"), ("text filtering", "src/parse.cpp"), ("AST filtering", "src/clang_ast.cpp")],
  observe=["gendlopen -print-symbols", "exit status and message"])

p("G07", "A Clang AST dump gives the same API as the prototypes it was made from",
  "For prototypes whose AST is dumped by Clang, reading the dump gives the same symbols with the same types as reading the prototypes as text, including parameter counts, function pointers, arrays and variadic functions. Colour codes, a byte order mark, CRLF line ends, and unrelated declarations or attributes in the dump do not change this.",
  ["inputs"], "all declarations of the AST grammar within the bounds, alone and in ordered pairs, in every dump encoding",
  "One stored dump of one header is used.",
  ["src/clang_ast.cpp", "src/lex.l", "src/lex.yy.c", "src/tokenize.cpp"],
  [("line recognition in the scanner", "src/lex.l"), ("declaration and parameter extraction", "src/clang_ast.cpp")],
  observe=["types of the symbols in the compiled generated header", "gendlopen -print-symbols"])

p("G08", "Parameter name modes keep types and give usable, consistent names",
  "`-param=read` keeps the names given, `-param=create` gives every parameter a fresh distinct name, and `-param=skip` needs no names; in all three the function types are exactly those declared. The names used when a wrapper forwards its arguments are those of its own parameters, in order and complete, and a parameter list that visibly does not fit the mode (a name missing where names are read, an empty parameter, a stray pointer) is refused with an error.",
  ["inputs", "configurations"], "all parameter lists up to the stated length over all parameter shapes, in all modes",
  "Two fixed files with seven prototypes exercise create and skip.",
  ["src/parameter_names.cpp", "src/check_pattern.cpp"],
  [("reading and creating names", "src/parameter_names.cpp")],
  observe=["custom template output of %%args%% and %%param_names%%"])

p("G09", "Templates are expanded exactly as documented",
  "A template line with function, object or symbol placeholders is emitted once for every matching symbol, in order, with each placeholder replaced by that symbol's own text; all other lines are copied once; lines ending in `@` are joined with the next; `return` is omitted for void functions; the PARAM_SKIP sections are kept or dropped according to the parameter mode; and prefixes are substituted. Mixing placeholders of different kinds in one line is an error.",
  ["inputs", "configurations"], "all templates up to the stated number of lines/fragments over the fragment alphabet, for all symbol sets and modes",
  "No test uses a custom template, and the built-in ones contain a fixed set of lines.",
  ["src/substitute.cpp", "src/utils.cpp", "src/gendlopen.cpp"],
  [("line assembly", "src/utils.cpp get_lines"), ("per-line substitution", "src/substitute.cpp"), ("prefix replacement", "src/gendlopen.cpp")],
  observe=["output of -template"])

p("G10", "A custom prefix renames every public name and nothing else",
  "With `-prefix=X` the output equals the default output with every `gdo`/`GDO` name prefix replaced by X in the matching case, in all formats and with all options; user symbols, user text and the meaning of the code are unchanged. Headers generated with different prefixes can be used in the same program without clashing.",
  ["configurations", "inputs"], "all formats x parameter modes x separate/single x prefix spellings x symbol sets within the bounds",
  "Two tests use one prefix for one file each.",
  ["src/gendlopen.cpp", "src/substitute.cpp", "src/generate.cpp", "src/templates"],
  [("regex based prefix replacement", "src/gendlopen.cpp replace_prefixes")],
  observe=["generated files", "compilation and linking of two prefixed headers"])

p("G11", "Output files: never overwrite silently, never write through a symlink",
  "Without `-force` an existing output path (`-out`, and both files of `-separate`) of any kind is left byte for byte untouched and the run fails; with `-force` the output is a new file holding exactly the generated text, and the target of a symlink at that path is untouched. With `-separate` exactly the header and body files with the documented extensions appear, and no other file is created, changed or removed.",
  ["configurations", "histories"], "all file system states of the output paths x output options, and all sequences of runs up to the stated length",
  "The build always uses -force on absent or regular files.",
  ["src/generate.cpp", "src/cio_ofstream.hpp", "src/cio_ofstream.cpp", "src/data.cpp"],
  [("open with existence check", "src/generate.cpp open_ofstream"), ("extension handling", "src/generate.cpp generate")],
  observe=["directory snapshots before and after", "exit status"])

p("G12", "Exit status 0 means the complete output was written and all input was read",
  "Whenever opening, reading or writing any file or stream fails or is cut short at any point, the generator exits with a non-zero status; when it exits with 0 the output equals that of a fault-free run.",
  ["fault_sequences"], "a failure injected at every I/O system call index and every written byte position of each scenario",
  "No test makes an I/O call fail.",
  ["src/cio_ofstream.hpp", "src/cio_ofstream.cpp", "src/open_file.cpp", "src/utils.cpp", "src/generate.cpp", "src/main.cpp", "src/lex.l"],
  [("stream wrappers", "src/cio_ofstream.*, src/open_file.*"), ("top-level error handling", "src/main.cpp")],
  observe=["exit status", "bytes in the output"])

p("G13", "Dumped templates round-trip: external templates behave like the built-in ones",
  "`-dump-templates` writes templates which, passed back with `-templates-path`, give the same output as the built-in ones for every format and option, and dumping is the identity on the template sources the program was built from. The build-time embedding and the run-time loading of any template text (with LF line ends) agree line by line.",
  ["inputs", "configurations"], "all formats and options; all template texts up to the stated length over the template character alphabet",
  "No test dumps or loads templates.",
  ["src/gen_templates_data.c", "src/data.cpp", "src/utils.cpp", "src/templates"],
  [("build-time embedding", "src/gen_templates_data.c"), ("run-time loading and dumping", "src/data.cpp")],
  observe=["dumped files", "generated output"])

p("G14", "Line directives map every output line to its true origin",
  "With `-line`, following the `#line` directives of the output, each emitted line is attributed to the template file and the line number it came from (or to the output file's own line number for generated sections), and removing the directives gives the output without `-line`.",
  ["configurations", "inputs"], "all formats x parameter modes x symbol sets (none/one/many of each kind) and all small custom templates",
  "One test compiles a file with -line but does not look at the numbers.",
  ["src/substitute.cpp", "src/generate.cpp", "src/data.cpp"],
  [("line counting", "src/substitute.cpp, src/generate.cpp")],
  observe=["output of -line"])

p("G15", "Output depends only on the input and the options",
  "With `-no-date` the generated text is a function of the prototypes, templates and options alone: the same bytes result from a file or standard input, to standard output or to a file of the implied name, in any working directory, locale, time zone, environment or at any time. Without `-no-date` only the date line differs.",
  ["configurations"], "all combinations of environment, input channel and output channel for all formats",
  "Each header is generated once per build.",
  ["src/generate.cpp", "src/open_file.cpp", "src/options.cpp"],
  [("date note", "src/generate.cpp note"), ("channel selection", "src/open_file.cpp, src/cio_ofstream.cpp")],
  observe=["generated output"])

p("G16", "Every generated file compiles cleanly in every documented configuration",
  "For every symbol set accepted by the generator, the output of each format, with each documented macro, single or separate, is accepted without errors by a C or C++ compiler (both languages for the C formats), also when included twice or from several translation units that are linked together where documented.",
  ["configurations", "inputs"], "all formats x modes x separate x pragma/guard x documented macro settings x symbol set shapes within the bounds",
  "Some thirty fixed combinations are compiled.",
  CT + CXXT + ["src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.h", "src/templates/plugin.c", "src/generate.cpp"],
  [("templates", "src/templates"), ("generated defines and guards", "src/generate.cpp")],
  observe=["compiler and linker exit status"])

p("G17", "Defines, includes, library names and guards appear as documented",
  "Each `-D`, `-include` and `-library` value, in every documented form, appears in the output exactly as documented and in the given order, before any code that depends on it; `-no-pragma-once` gives a working include guard; the default library used by the generated code is the one requested. A malformed value never produces code that silently means something else.",
  ["configurations", "inputs"], "all documented forms x values over a small alphabet, all sequences up to the stated length",
  "Two fixed values are tested.",
  ["src/gendlopen.cpp", "src/generate.cpp"],
  [("value formatting", "src/gendlopen.cpp add_inc/add_def, src/generate.cpp format_libname")],
  observe=["generated output", "preprocessed macro values"])

p("G18", "Library file name macros follow each platform's naming convention",
  "For every target platform the file name macros and the C++ helper give the documented name for any library name and API number (for example libfoo.so.1, libfoo.1.dylib, foo-1.dll), the narrow and wide variants agree, and the default-library macros resolve consistently from whichever of them the user or the generator defined.",
  ["configurations"], "all platform macro sets x names x API strings x default-library macro definitions",
  "The tests see only the host platform.",
  ["src/templates/filename_macros.h", "src/templates/common.h", "src/templates/cxx.cpp"],
  [("platform conditionals", "src/templates/filename_macros.h")],
  observe=["preprocessed macro expansions"])

p("R01", "C API: state queries and symbol pointers always match what was loaded",
  "After any sequence of calls to the generated C API in any loader environment, the library counts as loaded exactly when a load succeeded and no free has succeeded since; each symbol pointer is either null or the address which the currently loaded library gave for that very symbol; the all/no/any queries agree with the pointers; and every call returns true exactly when it achieved, or found already achieved, what it promises. A failed call leaves the state as documented.",
  ["histories", "fault_sequences", "configurations"], "all call sequences of any length over the API with all loader answers (fixpoint of the reachable state space) for each symbol set",
  "Tests run a few straight-line call sequences with a healthy library.",
  CT, [("handle structure and API functions", "src/templates/c.c")],
  state=[("library handle", "currently loaded library or none", "src/templates/c.h"), ("symbol pointers", "resolved addresses", "src/templates/c.h")],
  observe=["return values and pointers of the generated API under a mock loader"])

p("R02", "Loaded handles are balanced: never leaked, double-closed or used after close",
  "In every format and after any sequence of calls, each handle obtained from the loader is closed at most once and never used after being closed, no call can overwrite a live handle, and once everything is freed (explicitly, by destructor, by auto-release at exit, or on an error path that promises it) no handle is left open. Freeing is always safe, also repeatedly or when nothing was loaded.",
  ["histories", "fault_sequences"], "all call sequences of any length, for all formats, with all loader answers including failing close",
  "The tests do not observe open and close calls.",
  CT + CXXT + ["src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp", "src/templates/plugin.c"],
  [("free paths", "src/templates/c.c, cxx.cpp, minimal.h, minimal_cxxeh.hpp, plugin.c")],
  observe=["dlopen/dlclose ledger of the mock loader"])

p("R03", "Errors are reported: message after every failure, none after success",
  "The last-error text is never null or empty, is bounded and terminated whatever the size of the message, tells about the failure of the most recent call if that call failed, and says that there was no error if it succeeded. An error of an earlier call never shows through after a later success.",
  ["histories", "fault_sequences", "inputs"], "all call sequences with all loader answers, message sizes around the buffer size",
  "Tests read an error message only in one failing path.",
  CT + CXXT, [("error buffer handling", "src/templates/c.c, src/templates/cxx.cpp")],
  state=[("error buffer", "last message", "src/templates/c.h")], observe=["gdo_last_error(), gdo::dl::error()"])

p("R04", "C++ loader class: any number of objects shares one consistent library state",
  "After any sequence of constructions, method calls and destructions of loader objects, loaded state, symbol pointers, queries, flags, file name and library path agree with what was requested and with the one library shared by all objects; destroying an object frees the library exactly if its automatic freeing is enabled; free reports success exactly as documented, also when forced.",
  ["histories", "fault_sequences"], "all sequences over constructors, methods and destructors of two objects with all loader answers",
  "Tests use one object in straight-line code.",
  CXXT, [("loader class", "src/templates/cxx.hpp, src/templates/cxx.cpp")],
  state=[("static handle and symbol pointers", "shared by all objects", "src/templates/cxx.cpp"), ("per-object filename, flags, path, error", "object state", "src/templates/cxx.hpp")],
  observe=["public methods of the class under a mock loader"])

p("R05", "Minimal C API: all or nothing",
  "After any sequence of loads and frees, the minimal C API either returns no error and every symbol pointer belongs to the library just loaded, or returns a non-empty error message naming the problem, with no library open and every symbol pointer null. Freeing leaves all pointers null.",
  ["histories", "fault_sequences"], "all call sequences of any length with all loader answers for each symbol set",
  "One test loads once and frees once.",
  ["src/templates/minimal.h"], [("load and free functions", "src/templates/minimal.h")],
  observe=["return values, pointers and ledger under a mock loader"])

p("R06", "Minimal C++ API: all or nothing, with the right exception",
  "After any sequence of loads and frees, loading either returns normally with every symbol pointer belonging to the library just loaded, or throws the library error or the symbol error matching the failing step, naming the file or symbol, with no library open and every symbol pointer null.",
  ["histories", "fault_sequences"], "all call sequences of any length with all loader answers for each symbol set",
  "One test loads once and checks one exception.",
  ["src/templates/minimal_cxxeh.hpp"], [("load and free functions", "src/templates/minimal_cxxeh.hpp")],
  observe=["exceptions, pointers and ledger under a mock loader"])

p("R07", "Plugin loader: one faithful entry per file, everything released",
  "For any list of file names the plugin loader returns one entry per name, in order, with a private copy of the name, the handle if and only if that file could be loaded, and for each symbol exactly what that library provides; null or empty names and an empty list are handled as documented. Releasing frees every handle and every allocation exactly once, and several plugin sets can coexist.",
  ["histories", "inputs", "fault_sequences"], "all file lists up to the stated length over all file kinds, all interleavings of load and release of two sets",
  "One test loads a fixed list.",
  ["src/templates/plugin.h", "src/templates/plugin.c"], [("load and release", "src/templates/plugin.c")],
  observe=["returned structure, loader ledger and allocation ledger"])

p("R08", "Wrapped functions forward faithfully and never call through null",
  "Calling a generated wrapper runs the user's hook first, then calls the loaded symbol exactly once with the same arguments in the same order and returns its result, for every signature including variadic ones. If the symbol is not loaded the program prints a message naming the symbol and aborts before anything is called.",
  ["histories", "inputs", "configurations"], "all signatures within the bounds x all load states x hook settings x languages",
  "A few fixed signatures with one library are called.",
  CT + CXXT, [("wrapper code", "src/templates/c.h, src/templates/cxx.hpp"), ("load check", "src/templates/c.c _gdo_wrap_check_loaded, src/templates/cxx.cpp not_loaded")],
  observe=["call ledger of the mock library, termination kind, messages"])

p("R09", "Library path is that of the library loaded now",
  "The library path query returns the path of the currently loaded library, from whichever system facility answers, or null/empty with an error message if nothing is loaded or no facility answers; it never returns the path of a library that was freed or replaced, and overlong or missing answers never overflow or corrupt anything.",
  ["histories", "fault_sequences"], "all call sequences with all answers of the path facilities (absent, relative, absolute, at and over the buffer size)",
  "One test prints the path after one load.",
  CT + CXXT, [("path lookup and cache", "src/templates/c.c, src/templates/cxx.cpp, src/templates/common.c")],
  state=[("path cache", "last path found", "src/templates/c.h, src/templates/cxx.hpp")],
  observe=["gdo_library_path(), gdo::dl::library_path() under mock system calls"])

p("R10", "Loaded symbols are used in source exactly like linked ones",
  "Once loaded, any expression that uses a symbol by its plain name (calls, reads, writes, increments, indexing, member access, address-of an object, sizeof; a function name called or used as a value) has the same meaning and effect as when the library is linked directly, in every format. With aliasing disabled the plain names are untouched and the prefixed names are available.",
  ["inputs", "configurations"], "all use expressions of the grammar for each symbol kind x all formats and alias modes",
  "Tests use a few calls and one assignment.",
  ["src/templates/c.h", "src/templates/c.c", "src/templates/cxx.hpp", "src/templates/cxx.cpp", "src/templates/minimal.h", "src/templates/minimal_cxxeh.hpp"],
  [("alias macros", "src/templates/*")],
  observe=["values computed by the linked and the loaded program"])

p("R11", "Auto-loading loads on first use, once, or ends the program with a clear message",
  "With auto-loading, calling any function in any load state first makes it callable by opening the default library at most once and resolving all symbols, or only the requested one in lazy mode, then performs the call; if that is impossible the program prints the library, symbol and reason and exits with status 1 without calling anything and without leaving a library open.",
  ["histories", "fault_sequences", "configurations"], "all sequences of wrapper and API calls with all loader answers",
  "One success path is tested.",
  CT + CXXT, [("autoload code", "src/templates/c.c _gdo_wrap_check_loaded, src/templates/cxx.cpp not_loaded")],
  observe=["loader ledger, call ledger, termination kind and message"])

p("R12", "Auto-release registers once and frees at exit whatever is loaded",
  "Enabling auto-release registers the release function at most once however often it is called, reports failure to register and allows a retry, and at exit the library that is loaded at that time is freed exactly once, whatever loads and frees happened before or after.",
  ["histories", "fault_sequences"], "all call sequences with all registration and loader answers, each ended by exit",
  "One test enables it once and exits.",
  CT, [("registration flag", "src/templates/c.c gdo_enable_autorelease")],
  state=[("registration flag", "whether the exit handler is registered", "src/templates/c.h")],
  observe=["atexit and dlclose ledger"])

p("R13", "The Windows back end behaves like the POSIX one",
  "Compiled for Windows (narrow or wide characters, native or dlfcn loader API), the generated code obeys the same state, balance and error guarantees: loading, symbol lookup, freeing, queries and messages give the same observable results for the same sequence of calls and loader answers.",
  ["histories", "configurations", "fault_sequences"], "all call sequences with all loader answers of a mock Win32 API for each configuration",
  "The Windows code is not even compiled by the tests here.",
  CT + CXXT + ["src/templates/minimal.h", "src/templates/plugin.c"],
  [("GDO_WINAPI branches", "src/templates/c.c, src/templates/cxx.cpp")],
  observe=["return values, pointers, messages and ledger under a mock Win32 API"])

p("R14", "Every other platform variant gives the same results",
  "Compiled for AIX, macOS, Android, FreeBSD or a Linux with PROCMAP_QUERY, the generated code obeys the same state, balance and error guarantees as on glibc Linux, and the library path is the one the platform reports for the loaded library (on AIX with the archive member in parentheses), found even if other libraries lie next to it, never overflowing the buffer, and an error if the platform gives none.",
  ["histories", "configurations", "fault_sequences"], "all call sequences with all answers of mocks of loadquery(), ioctl(PROCMAP_QUERY), dlinfo(), dladdr() and /proc/self/maps for each platform",
  "The tests only run on the host platform.",
  CT + CXXT,
  [("loadquery() and ld_info", "src/templates/common.c, src/templates/c.c, src/templates/cxx.cpp"), ("PROCMAP_QUERY", "src/templates/common.c"), ("feature macros", "src/templates/common.h")],
  observe=["return values, pointers, messages and ledger under mocks of the platform's interfaces"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
