"""Source of properties.jsonl (run: python3 tools/gen_props.py). One P(...) call per property."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(id=id, title=title, statement=statement,
                    quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=["mcpyrate/" + f if not f.startswith(("demo", "doc")) else f for f in files],
                                 state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                 mechanism=[dict(name=n, where="mcpyrate/" + w) for n, w in mechanism],
                                 observe_at=observe, hook_needed=hook)))

P("C01", "Unparsing any Python AST gives source that parses back to the same AST",
  "For every syntactically valid Python module, statement suite or expression of the running language version, "
  "unparsing its AST yields source text that parses back to an equal AST (source positions, type comments and string-prefix kinds aside). "
  "In particular the text compiles to the same program, whatever construct, operator nesting, string content, f-string, pattern or type parameter it contains.",
  ["inputs", "programs"], "every parser-produced AST of the running Python, every nesting of constructs",
  "The repository has no unparser test module at all; the demos only print a few expressions.",
  ["unparser.py"], [("recursive per-node-type dispatch, parenthesize everything", "unparser.py:Unparser")],
  ["mcpyrate.unparse"])

P("C02", "Colored, debug, dumped and fallback renderings stay faithful to the tree",
  "For every AST, syntax highlighting changes nothing but ANSI codes: with the codes removed, colored output of the unparser and of the AST dumper equals the plain output; "
  "the textual AST dump evaluates back to an equal AST; debug rendering shows each statement's own line number. "
  "Rendering never modifies the tree, and rendering with fallbacks never raises, even for invalid, partial or marker-containing trees.",
  ["inputs", "programs"], "every AST, valid or not, with or without macro-expander markers, every rendering option",
  "Rendering is only exercised by eye via the demos; no test compares renderings or feeds broken trees.",
  ["unparser.py", "astdumper.py", "colorizer.py", "ansi.py"],
  [("maybe_colorize and setcolor", "unparser.py:Unparser.maybe_colorize"), ("dump", "astdumper.py:dump"), ("fallbacks", "unparser.py:unparse_with_fallbacks")],
  ["mcpyrate.unparse", "mcpyrate.unparser.unparse_with_fallbacks", "mcpyrate.dump", "mcpyrate.colorizer.colorize"])

P("C03", "Code that uses no macros compiles exactly as plain Python would compile it",
  "For every module that uses no macros, dialects or phases, compiling or importing it with the macro expander enabled gives the same code (bytecode, constants, names, line table, flags, docstring) "
  "and the same outcome as standard Python, including the same SyntaxError (itself, or as the cause of the import error) when it does not compile. "
  "Enabling the expander therefore never changes what existing modules do.",
  ["programs"], "every macro-free Python source text, with any future-imports, docstring, encoding cookie and constructs",
  "Existing tests import a handful of modules and assert on a few values only; no test compares code objects with CPython's.",
  ["importer.py", "compiler.py", "expander.py", "core.py", "astfixers.py", "multiphase.py", "coreutils.py"],
  [("source_to_xcode", "importer.py:source_to_xcode"), ("compile", "compiler.py:compile"), ("global postprocess", "core.py:global_postprocess")],
  ["import of a module with mcpyrate.activate", "mcpyrate.compiler.compile / expand", "importlib loader.get_code"])

P("C04", "Macros expand exactly once each, in the documented order, with the right inputs",
  "Every expr, block, decorator and identifier macro invocation in a module is expanded exactly once per appearance, outside-in by default, block macros of one `with` left to right, decorator macros innermost first, "
  "and inside-out or one-layer exactly where a macro asks for it; macro output is re-expanded until no invocation remains. "
  "Each macro receives the documented arguments (tree, syntax kind, macro arguments, as-part, whole invocation, expander), and its output replaces exactly its invocation; nothing else in the program changes. The macro collector finds each invocation that is in a tree, once, and nothing else.",
  ["programs"], "every program mixing the four invocation types, parametric arguments, nesting, recursion modes and macro outputs",
  "Tests and demos use a few fixed nestings, and check only final values, not the trace of expansions.",
  ["expander.py", "core.py"],
  [("visit_* methods", "expander.py:MacroExpander"), ("expand and recursion modes", "core.py:BaseMacroExpander"), ("destructure_candidate", "expander.py:destructure_candidate")],
  ["log of macro calls recorded by monitor macros", "expanded AST"])

P("C05", "Whatever valid AST a macro returns, the result is well formed and compiles",
  "For every documented kind of macro return value (a node, a list, None; with or without source locations and ctx; with nodes reused in several places of the output, or wrapped in expander markers), "
  "the tree handed to Python has correct Load/Store/Del contexts everywhere, complete and consistent locations, no markers and no empty suites, so that it compiles. "
  "It then computes what the intended program computes, with None meaning a dummy that evaluates to None (expression) or deletion (statements).",
  ["programs", "inputs"], "every macro output shape in every syntactic position",
  "Tests cover a few outputs produced by quasiquotes; ctx and location repair run implicitly on few shapes.",
  ["astfixers.py", "core.py", "expander.py", "markers.py"],
  [("fix_ctx", "astfixers.py:fix_ctx"), ("fix_locations", "astfixers.py:fix_locations"), ("global_postprocess", "core.py:global_postprocess"), ("delete_markers", "markers.py:delete_markers")],
  ["compiled code object", "AST after expansion", "run-time results"])

P("C06", "Line numbers and coverage of expanded code match the original source",
  "Code that a macro passes through unchanged keeps its source positions, nodes a macro creates without positions get those of the macro invocation, and positions a macro sets are kept, so tracebacks of expanded code point at the right source lines. "
  "Every line holding an executed macro invocation is reported as covered, even when the macro removes its input, and the lines of code that did not run are not.",
  ["programs"], "every placement of macro invocations and every output shape",
  "No test looks at tracebacks, line tables or coverage of expanded code.",
  ["core.py", "expander.py", "astfixers.py", "coreutils.py"],
  [("_add_coverage_dummy_node", "expander.py"), ("fix_locations", "astfixers.py:fix_locations"), ("expand: location fill-in", "core.py:BaseMacroExpander.expand")],
  ["sys.monitoring / sys.settrace line events", "exception tracebacks", "AST positions after expansion"])

P("C07", "A failing macro is reported at its use site and leaves the expander usable",
  "Any exception raised while expanding a macro aborts the module's compilation at once with an error that names the file and line of the macro use site (nested use sites combined into one report), with the macro's own exception as its cause; misuse of macro syntax or names is likewise a compile-time error. "
  "After the failure no partial state survives: recursion mode, quote and phase levels, bindings, sys.modules and global registries are as before, and later compilations behave as if the failure had not happened.",
  ["fault_sequences", "programs"], "every exception type, every macro and nesting position, every later compilation",
  "No test raises from a macro inside nested expansions and then continues compiling.",
  ["core.py", "expander.py", "utils.py", "quotes.py", "importer.py"],
  [("MacroApplicationError telescoping", "core.py:BaseMacroExpander.expand"), ("NestingLevelTracker", "utils.py:NestingLevelTracker"), ("_recurse_mode restore", "core.py:BaseMacroExpander._recurse_mode")],
  ["exceptions escaping import/compile/run", "result of subsequent compilations"])

P("C08", "A quasiquote evaluates to exactly the AST of the quoted code",
  "For every expression or statement suite without unquotes, evaluating it inside a quasiquote at run time gives an AST equal to what Python's parser produces for that code (positions and ctx aside), and a fresh tree on every evaluation. "
  "Nothing in the quoted code runs or is looked up when the quote is evaluated, and evaluating one quote never affects another.",
  ["programs"], "every quotable expression and statement suite",
  "test_quotes.py quotes about a dozen fixed snippets.",
  ["quotes.py"], [("q", "quotes.py:q"), ("astify", "quotes.py:astify")], ["run-time value of q[...] and with q as quoted"])

P("C09", "Unquotes insert exactly the requested piece, at the right quote level",
  "Inside a quasiquote each unquote of the current level puts in exactly what it is documented to (value, name, AST, AST list, statement splice), in its position in the program text, for every nesting of unquotes and nested quotes, and all other code is kept as written. "
  "Invalid uses (outside a quote, wrong type, wrong syntax) are reported as errors and never yield a silently different tree.",
  ["programs"], "every combination of unquote operators, positions, list lengths and quote levels",
  "test_quotes.py tries each operator in one or two positions.",
  ["quotes.py"], [("unquote operators u n a s t", "quotes.py"), ("splice_ast_literals", "quotes.py:splice_ast_literals"), ("quote level", "quotes.py:_quotelevel")],
  ["run-time value of quotes compared with reference substitution"])

P("C10", "Lifted values and quoted trees survive the lift-unlift round trip",
  "For every value of the supported types (numbers of all kinds, strings, bytes, constants, tuples, lists, sets, dicts, ASTs, and nestings), lifting it into code and running that code gives an equal value of the same type (dicts keep their order), and reversing a lifted AST restores the AST. "
  "Unsupported values are rejected with an error rather than altered.",
  ["inputs"], "every supported value and AST, arbitrarily nested",
  "The tests lift single numbers, strings and small lists.",
  ["quotes.py"], [("lift and astify", "quotes.py:astify"), ("unastify", "quotes.py:unastify")], ["u[...] in quotes", "mcpyrate.quotes.astify / unastify"])

P("C11", "Hygienic captures always refer to the definition-site value or macro",
  "A value, macro or name captured hygienically denotes the object it had at the definition site when the quote was evaluated, whatever the use site binds or rebinds under that name, in every module, thread and run, including when the expanded module is loaded from bytecode in another process. "
  "Captures in a tree are recognizable as such. Captures never mix: captures of different objects under equal names stay distinct, and generated unique names never collide with each other or with names in use.",
  ["programs", "histories"], "every captured value and name, use-site scope, capture history and process boundary",
  "test_quotes.py captures one value and one macro in a single process.",
  ["quotes.py", "core.py", "utils.py"],
  [("h", "quotes.py:h"), ("capture_value / lookup_value", "quotes.py"), ("capture_macro / lookup_macro", "quotes.py"), ("gensym", "utils.py:gensym")],
  ["run-time values of expanded code", "imports in fresh processes from .pyc"],
  state=[("capture caches", "values and macros captured so far, by frozen key", "quotes.py")])

P("C12", "Imports never use stale macro-expanded bytecode",
  "After any history of edits (each leaving a modification time at least a second later than the last import) to a module, to the modules and packages its macros and dialects come from, or to their own such dependencies, with imports in between, importing in a new process gives the same result as deleting all caches and importing. "
  "That holds for direct and transitive, absolute and relative macro-imports and dialect-imports, multi-phase modules, edits that add, drop or change imports, macro libraries without source files or loaded by other loaders, and bytecode compiled ahead of time with `py_compile`, which is used as it is when nothing has changed.",
  ["histories"], "every history of edits, touches and imports over every dependency graph",
  "The stable tests run each module twice without any edit in between.",
  ["importer.py", "coreutils.py"],
  [("path_xstats", "importer.py:path_xstats"), ("macro-import statement discovery and its cache", "importer.py")],
  ["module namespaces of imports in fresh processes", "order of source and pyc mtimes"],
  state=[(".mcpyrate.pickle dependency cache", "relative/absolute macro-import statements of a source file, by mtime", "importer.py")])

P("C13", "Cache files speed up imports but can never change or break them",
  "When nothing changed since the last import, modules are loaded from bytecode without expanding macros again; yet if any cache file (bytecode or macro dependency cache) is missing, truncated, detectably corrupt, outdated, unreadable, unwritable, or written concurrently by another process, the import succeeds with the same result as with no caches at all. "
  "The same holds when bytecode writing is disabled.",
  ["fault_sequences", "crash_points", "configurations"], "every corruption or loss of each cache file, every permission state, concurrent importers",
  "No test damages a cache file, changes permissions, or imports from several processes.",
  ["importer.py", "pycachecleaner.py"],
  [("try/except around the dependency cache", "importer.py:path_xstats"), ("set_data via SourceLoader", "importer.py")],
  ["import results and macro-expansion counts in fresh processes"])

P("C14", "Multi-phase modules run their phases in order and end as the flat module",
  "A module with phase blocks is compiled from the highest phase number down to 0; code of each phase sees exactly the code of the higher phases lifted before it, in source order per phase, macros defined in a higher phase are usable by self-macro-import, and the reported phase number is right in each. "
  "The finished module has, in source order, the content of all phases plus the rest, and only its final state is visible to importers. It makes no difference whether it is imported, run, or compiled ahead of time with `py_compile` and imported later, and whether its name is an identifier.",
  ["programs"], "every arrangement, numbering and content of phase blocks, docstrings, future-imports and self-imports",
  "One test and one demo with two or three fixed phases.",
  ["multiphase.py", "importer.py", "compiler.py"],
  [("extract_phase", "multiphase.py:extract_phase"), ("multiphase_expand", "multiphase.py:multiphase_expand"), ("split_multiphase_module_body helpers", "multiphase.py")],
  ["event log recorded by the module's own top-level code per phase", "final module namespace"])

P("C15", "Temporary and dynamic modules never leak into or damage the module registry",
  "Multi-phase compilation, temporary modules and run-time module creation leave the global module registry and parent packages exactly as documented: a temporary module is visible under its name only while in use, whatever a multi-phase compilation found registered is put back, also on errors, and unrelated modules are untouched. "
  "Created modules get unique names and documented attributes, in any nesting and any sequence of successes and failures.",
  ["fault_sequences", "histories"], "every sequence and nesting of module creations, runs, failures, with pre-existing or absent parents",
  "The tests create modules on the success path only.",
  ["compiler.py", "multiphase.py"],
  [("create_module", "compiler.py:create_module"), ("temporary_module", "compiler.py:temporary_module"), ("multiphase sys.modules swap", "multiphase.py:multiphase_expand")],
  ["sys.modules and parent package attributes before/after each operation"])

P("C16", "Running code at run time is the same as importing the same code as a module",
  "For every macro-enabled, dialect-enabled or multi-phase program, expanding, compiling and running it at run time, whether given as source text, AST or statement list, produces the module namespace, docstring, future-import effects and side effects that importing a file with the same source produces; and so does importing bytecode of it compiled ahead of time. "
  "Running more code in an existing module continues in its namespace, as if appended. An AST or statement list run in a module that has no Python source file is left unmodified, and the requested optimization level applies to every phase.",
  ["programs"], "every program, every input form, every sequence of runs in one module",
  "test_compiler.py runs a few fixed snippets.",
  ["compiler.py", "importer.py", "multiphase.py"],
  [("expand / compile / run", "compiler.py")], ["module namespaces from run() and from import"])

P("C17", "Dialects transform the whole module in the documented order, each exactly once",
  "Dialect-imports apply their source transformers in order of appearance, then their AST transformers, then macro expansion, then the postprocessors, each once per dialect-import, each seeing exactly its predecessors' output with the right source file and line information. "
  "The dialect-import becomes an ordinary absolute module import, transformers not provided are skipped, text outside the transformers' own effects is unchanged, and transformer failures are reported as such.",
  ["programs", "inputs"], "every combination, order, position and formatting of dialect-imports, dialect kinds and module bodies",
  "Seven fixed test modules, with one or two dialects each.",
  ["dialects.py", "importer.py", "compiler.py"],
  [("transform_source", "dialects.py:DialectExpander.transform_source"), ("transform_ast", "dialects.py:DialectExpander.transform_ast"), ("postprocess_ast", "dialects.py:DialectExpander.postprocess_ast")],
  ["event log of recording dialects", "import results"])

P("C18", "Splicing puts the code exactly at the paste point and loses nothing",
  "Splicing an expression, statements or a module body into a template yields the template with exactly each paste-here marker replaced by the given code, everything else intact and in order. "
  "For dialect templates, the docstring, future-imports, dialect-imports and macro-imports of both code and template end up where Python and the expander require, each kept once, with locations filled in.",
  ["inputs", "programs"], "every template, marker position and count, and spliced code",
  "test_splicing.py checks a few fixed templates.",
  ["splicing.py", "coreutils.py"],
  [("splice_expression / splice_statements / splice_dialect", "splicing.py")], ["returned trees"])

P("C19", "AST walkers visit each node once with correctly scoped state and collections",
  "A walk visits every node reachable in the tree exactly once in field order; state set for a subtree, for one field or for the following siblings is visible exactly there and restored afterwards, also across nested walks and exceptions; everything collected is reported in visiting order. "
  "Transformers replace, splice or delete exactly what their callback returns; plain visitors leave the tree unchanged.",
  ["programs", "inputs"], "every tree, and every interleaving of state, withstate, collect, visit and return values",
  "No test covers the walkers directly.",
  ["walkers.py"], [("BaseASTWalker state stack", "walkers.py:BaseASTWalker"), ("ASTVisitor / ASTTransformer", "walkers.py")],
  ["event log of recording walkers vs a reference model"])

P("C20", "Renaming changes every identifier occurrence of a name and nothing else",
  "Renaming a name in a tree renames every place where that identifier occurs as an identifier (names, attributes, parameters, keyword arguments, definitions, imports and aliases, exception variables, global and nonlocal declarations, pattern captures, type parameters), and leaves every other identifier, string and constant unchanged. "
  "The result equals the AST of the source text with the identifier token replaced.",
  ["programs"], "every program and identifier",
  "One indirect use in tests.",
  ["utils.py"], [("rename", "utils.py:rename")], ["returned tree"])

P("C21", "Macro- and dialect-imports resolve exactly like Python's own imports",
  "Absolute, relative and self macro- and dialect-imports, from modules and packages at any depth and any search-path layout, find the same module as the equivalent Python import, and expand into an absolute import of that module; macro bindings get the as-name given and are in effect in the importing module only, and macro names themselves are not bound at run time. "
  "Names that do not exist or are not callable, and forbidden forms, give an error at compile time.",
  ["configurations", "programs"], "every package layout, search path and import form",
  "A few fixed imports from one package.",
  ["coreutils.py", "expander.py", "dialects.py"],
  [("resolve_package / relativize", "coreutils.py"), ("find_macros", "expander.py:find_macros"), ("get_macros", "coreutils.py")],
  ["expanded AST and namespaces of modules in generated package trees"])

P("C22", "A macro-enabled REPL session behaves like the same program, and survives errors",
  "In a macro-enabled console, entering any sequence of inputs (statements, expressions, multi-line blocks, macro-imports of libraries that may change meanwhile, macro definitions and redefinitions) yields the namespace and echoed values the same code would give, with macros callable as soon as imported or declared and the latest definition winning. "
  "Any failing input, from syntax errors to failing macros and macro libraries, is reported and leaves the session usable with all earlier state intact.",
  ["histories", "fault_sequences"], "every sequence of inputs, including failing ones",
  "No test drives the REPL.",
  ["repl/console.py", "repl/iconsole.py", "repl/utils.py"],
  [("MacroConsole.runsource", "repl/console.py:MacroConsole"), ("InteractiveMacroTransformer", "repl/iconsole.py:InteractiveMacroTransformer")],
  ["console namespace, output and return values per input"])

P("C23", "Running a program under macropython is like running it with python",
  "Starting a script or module through the bootstrapper gives the program the environment plain Python would give it (main-module name, file and identity, command-line arguments, first search path entry, package context, working directory, standard streams), with macros enabled, including in the main program itself. "
  "Uncaught exceptions and exits of the program give the exit status Python would give, with the same exceptions and program locations in the error output, and exit handlers run as in Python.",
  ["configurations", "programs"], "every invocation form, argument vector, program layout and exit path",
  "One test family runs macropython on fixed demo files and checks success only.",
  ["repl/macropython.py", "repl/utils.py"],
  [("import_module_as_main", "repl/macropython.py:import_module_as_main"), ("main", "repl/macropython.py:main")],
  ["stdout, stderr, exit code, self-description printed by the launched program"])

P("C24", "The bytecode cache cleaner deletes only bytecode cache directories",
  "Cleaning a directory tree deletes all bytecode cache directories in it (and only reports them in a dry run) and deletes or modifies nothing else, inside or outside the tree, whatever files, links and nesting the tree has; entries that another process deletes meanwhile are no error. "
  "Paths that are not directories are rejected.",
  ["inputs", "configurations"], "every directory tree, including symbolic links and odd names",
  "Not tested.",
  ["pycachecleaner.py"], [("getpycachedirs / deletepycachedirs", "pycachecleaner.py")],
  ["file system snapshot before and after, inside a scratch directory"])

P("C25", "Expanding modules from several threads gives the same results as sequentially",
  "Importing, compiling and running any set of independent macro-using modules concurrently in several threads gives for each module the same expanded code and results as doing so one after another. "
  "Quote nesting, recursion mode, bindings, captures and generated names of one expansion are never affected by another one in progress.",
  ["schedules"], "every interleaving of concurrent expansions",
  "All tests are single-threaded.",
  ["quotes.py", "utils.py", "core.py", "expander.py", "compiler.py"],
  [("quote level tracking", "quotes.py:_quotelevel"), ("capture caches", "quotes.py"), ("gensym", "utils.py:gensym"), ("create_module name generation", "compiler.py")],
  ["expanded code per module under forced interleavings"],
  state=[("_quotelevel", "current quasiquote nesting depth", "quotes.py")])

P("C26", "Debugging aids only observe: with or without them, the program is the same",
  "Wrapping code in expansion stepping (around macros that treat their input as opaque), or using the binding-display, phase-stepping and dialect-stepping aids, gives the same expanded program, the same macro calls, dialect calls and phases, and the same run-time results as without them. "
  "What they print is faithful: the code before expansion, one numbered step for each layer of expansion (in detailed mode, also every macro application with its input and output), and the last step showing the final code; the code after each dialect transformer that did something; the code of each phase; the bindings in effect at that point. Nothing is printed that was not asked for. "
  "After a failure while stepping, the aids work as usual.",
  ["programs"], "every program that can be wrapped in a debugging aid",
  "Demos print stepping output which nobody checks.",
  ["debug.py", "metatools.py", "multiphase.py", "dialects.py"],
  [("step_expansion", "debug.py:step_expansion"), ("StepExpansion dialect", "debug.py:StepExpansion"), ("step_phases", "debug.py:step_phases"), ("stepr", "metatools.py:stepr")],
  ["expansion event log and results with and without the aid", "stderr text"])

P("C27", "Run-time expansion tools agree with ordinary macro expansion",
  "Expanding a run-time AST value with the expand family of tools, with macro bindings taken from where they are used, gives the same tree as writing that code in a module with those bindings: fully for the recursive forms, one layer for the once forms, and statement or expression forms alike. "
  "Bindings obtained at run time are a snapshot of the bindings in effect where requested, extraction of bindings and expand_first affect exactly the macros named, and fill_location fills in exactly the missing positions.",
  ["programs"], "every tree, binding set, and member of the expand family",
  "test_quotes.py uses two of the forms on one snippet.",
  ["metatools.py", "utils.py", "quotes.py"],
  [("expandr, expand1r, expands, expand1s, expand and others", "metatools.py"), ("extract_bindings", "utils.py:extract_bindings"), ("macro_bindings, expand_first, fill_location", "metatools.py")],
  ["trees returned by the tools"])

P("C28", "A Bunch obeys the mutable-mapping contract, with attribute access as an alias",
  "Under any sequence of operations a Bunch behaves as the equivalent dictionary: contents, length, order, iteration, views, equality, copying, update, pop and errors; reading, writing and deleting attributes is the same as the item operation with that key. "
  "Its own method names cannot be shadowed, its representation evaluates back to an equal bunch, and attribute protocol functions such as hasattr, getattr with default, copying and pickling work.",
  ["histories"], "every sequence of operations, keys and values",
  "Not tested directly.",
  ["bunch.py"], [("Bunch", "bunch.py:Bunch"), ("bunchify", "bunch.py:bunchify")], ["results of operations vs a dict model"])

P("C29", "Statement and identifier utilities keep code meaning on every input",
  "Generated symbols are fresh within a session and never equal an existing name; flattening, docstring, future-import and package-path helpers, macro-call destructuring and quoting-level tracking return exactly what is documented for every input, whatever nesting, exceptions or paths are involved. "
  "Helpers that split a module prologue lose, duplicate or reorder no statement.",
  ["inputs", "histories"], "every input of each public utility and every sequence of calls, including exceptional exits",
  "The utilities are reached only indirectly, with fixed inputs.",
  ["utils.py", "coreutils.py", "markers.py"],
  [("gensym, flatten, getdocstring, NestingLevelTracker", "utils.py"), ("split_futureimports, inject_after_futureimports, isfutureimport", "coreutils.py"), ("get_markers, check_no_markers_remaining", "markers.py")],
  ["return values vs reference models"])

P("C30", "Macro support can be switched on and off at any time, completely",
  "After deactivate(), imports, reloads and runs through the import system behave as in Python without mcpyrate: sources are compiled as written, bytecode files count as up to date by their own source file alone, nothing else is written, and import hooks that were there before mcpyrate are back. After activate(), macro support is complete again, including recompilation when macro libraries change. "
  "Both can be repeated in any number and order, also in the middle of an import or a macro expansion; modules already imported and the run-time compiler interface keep working either way.",
  ["histories"], "every sequence of switches, imports, reloads and edits",
  "No test calls deactivate().",
  ["activate.py", "importer.py"],
  [("activate, deactivate", "activate.py"), ("source_to_xcode, path_xstats", "importer.py")],
  ["results of imports vs a model of the loading rules", "bytecode and dependency cache files"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in OUT:
            f.write(json.dumps(p) + "\n")
    print(len(OUT), "properties")
