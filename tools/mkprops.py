#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a table here for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe)}})

# ---------------------------------------------------------------- the C++ tool
prop('C01', 'Text helpers split, strip, match and replace exactly',
     'Splitting on white space yields exactly the maximal non-blank runs in order (keeping a quoted or angled phrase whole when asked to); splitting on a delimiter yields the pieces whose join gives the input back, capped at the requested count; stripping removes all and only the outer white space. '
     'Prefix and suffix tests, and their strip variants, succeed exactly when the text has that prefix or suffix and then remove exactly it; replace-all replaces every occurrence and nothing else; shortening to a width keeps text that fits and otherwise marks the cut.',
     'inputs', 'every string up to the bound, every byte value for the white-space functions',
     'The five stable unit tests feed a handful of literals to three of the functions.', 'iwyu_string_util.h',
     [('Split, SplitOnWhiteSpace*, StripWhiteSpace*, StartsWith, EndsWith, Strip*, ReplaceAll, Ellipsize', 'iwyu_string_util.h')])
prop('C02', 'Equivalent file names reduce to one canonical name, others stay apart',
     'Turning an unquoted file path into its canonical name normalises the path, drops one known header or source extension, then one test affix, then an -inl suffix, and maps an /internal/ directory to /public/ and /include/ to /src/, so that a source file and its headers share one name; nothing else is dropped, and names the compiler makes up stay as they are. '
     'A name, also when written in double quotes or angle brackets, is a header exactly when it does not end in a known source extension; normalisation resolves "." and ".." components and doubled slashes without changing which file is named.',
     'inputs', 'every path up to the bound, and every directory shape x stem x suffix x extension of the families',
     'No test calls the path functions directly; end-to-end tests need a binary that does not link here.', 'iwyu_path_util.cc iwyu_path_util.h',
     [('GetCanonicalName, IsHeaderFile, Basename, NormalizeFilePath, NormalizeDirPath', 'iwyu_path_util.cc')])
prop('C03', 'A file is spelled relative to its longest search directory',
     'The include spelling produced for a file path is the path relative to the longest search directory that contains it, in angle brackets exactly when that directory is a system directory; outside all of them it is relative to the including file\'s directory when below it, else the full path, in double quotes. '
     'The search list holds each configured directory once, longest first, with its user/system kind.',
     'inputs configurations', 'every search-path configuration of the listed directory shapes and every path within the bound',
     'Whether a path falls under one of several nested directories depends on the whole configuration; no unit test covers it.', 'iwyu_path_util.cc iwyu_globals.cc',
     [('ConvertToQuotedInclude, AddQuotes, IsQuotedInclude', 'iwyu_path_util.cc'), ('ComputeHeaderSearchPaths, NormalizeHeaderSearchPaths, SetHeaderSearchPaths', 'iwyu_globals.cc')])
prop('C04', 'Every command-line argument reaches one consumer with its value intact',
     'Each command-line word goes either to the tool (when introduced by -Xiwyu) or to the compiler driver, keeping order, and none is lost, duplicated or moved. '
     'Each documented tool option sets exactly its documented setting to the given value and nothing else, repeated options accumulate or override as documented; exit-code options accept exactly decimal integers in range, and a value outside a documented choice, an unknown option or a missing value ends the program with a failure status instead of being ignored.',
     'inputs configurations', 'every argument list of the bounded length over option names, symbolic option text and symbolic values',
     'Tests pass a few fixed option strings through the end-to-end runner, which does not run here.', 'iwyu_globals.cc iwyu_globals.h',
     [('OptionsParser, CommandlineFlags::ParseArgv, ParseIntegerOptarg', 'iwyu_globals.cc')])
prop('C05', 'Response files expand to the words a compiler would see',
     'An @file argument is replaced, in place, by the words of that file: words are separated by white space, single and double quotes group, a backslash escapes the next character, and nested @file arguments are expanded too. '
     'Expansion never reads outside the file text, always ends, keeps all other arguments in order, and leaves an @name whose file cannot be read (or is already being expanded) as it is. '
     'On the way to the compiler driver only -save-temps words are dropped, and the words the tool adds go before a "--" and never override a resource directory the user gave.',
     'inputs', 'every response-file text up to the bound over the significant characters',
     'No test covers response files; the interesting inputs are short combinations of quotes and backslashes.', 'iwyu_driver.cc',
     [('ExpandArgsFromBuf, ExpandArgv, ExecuteAction', 'iwyu_driver.cc')])
prop('C06', 'Patterns in options and mappings match whole names',
     'A regular expression given in an option or mapping matches a name only as a whole, never a mere part of it, in each dialect, and a replacement rewrites exactly the matched name with its groups filled in. '
     'Glob options (keep, check-also, no-inline-include style) apply exactly to the paths their pattern matches after the same path normalisation.',
     'inputs', 'every name within the bound against families of patterns, in both dialects',
     'Anchoring bugs show only on names that contain the pattern as a proper part; tests use a handful of names.', 'iwyu_regex.cc iwyu_globals.cc iwyu_port.h',
     [('RegexMatch, RegexReplace', 'iwyu_regex.cc'), ('GlobMatchesPath', 'iwyu_port.cc'), ('CommandlineFlags / AddGlobTo*, Should*For', 'iwyu_globals.cc')])
prop('C07', 'Mappings resolve to every reachable public header and never to a private one',
     'Asking which headers provide a file or symbol yields the public headers reachable from it through any chain of mappings, each once, in the order mappings were given (a header before what it maps to, itself first if public), and never a header marked private while a public one is reachable. '
     'Mapping chains are followed transitively whatever order mappings were added, and mapping cycles neither loop nor lose headers.',
     'inputs histories', 'every mapping graph within the node/edge bound with every public/private marking and insertion order',
     'Tests use fixed mapping files; closure and ordering errors need particular graph shapes.', 'iwyu_include_picker.cc iwyu_include_picker.h',
     [('MakeMapTransitive, GetPublicValues, GetCandidateHeadersForFilepath, GetCandidateHeadersForSymbol, HasMapping', 'iwyu_include_picker.cc')])
prop('C08', 'Visibility, friend and mapping-file directives take effect exactly as written',
     'A header named private in a directive or mapping is private and one named public is public, a statement about the include name outweighs one about the file path, contradictory statements about one name stop the program, and friend directives let exactly the matching includers use the private header. '
     'The well-formed entries of a mapping file (and of the files it refers to) change the mappings as written up to the first malformed one, which is reported; missing files and files referring to themselves are skipped without crashing or looping.',
     'inputs histories', 'every sequence of directives within the bound, every entry kind with symbolic names',
     'Tests use a few fixed mapping files and pragma headers.', 'iwyu_include_picker.cc',
     [('MarkIncludeAsPrivate, MarkPathAsPublic, AddFriendRegex, AddMappingsFromFile, GetVisibility', 'iwyu_include_picker.cc')])
prop('C09', 'The suggested spelling is one the includer already uses when possible',
     'For a used file, the chosen spelling is one under which the including file already includes it when there is one, otherwise the one produced from the search path (or from the directory of the includer); this holds for friends and mapped headers too, and a mapping to a text is proposed as written. '
     'Whether one file counts as provided by another (through mappings) is answered the same way for every equivalent path.',
     'inputs histories', 'every small include history and mapping state within the bound',
     'Depends on the history of include directives seen; tests sample a few.', 'iwyu_include_picker.cc',
     [('BestQuotedIncludesForIncluder, GetMappedPublicHeaders, HasMapping, IsPublic', 'iwyu_include_picker.cc')])
prop('C10', 'The demanded includes cover every full use and nothing else',
     'Every symbol use that needs a complete definition is covered: by the file itself, by what an associated header will include, or by a demanded include that provides it; no include is demanded that no use and no associated-header rule needs. '
     'When several headers could provide a symbol, the choice follows the documented preference: the file itself, an include the associated header keeps, one both present and already needed, one already needed, one present, and then the header covering most uses (ties: most often listed first, then alphabetical). '
     'A header that re-exports what it includes directly keeps that include.',
     'inputs histories', 'every set of uses with symbolic candidate-header lists within the bound, every state of the existing includes',
     'Set-cover mistakes need particular overlaps between candidate sets.', 'iwyu_output.cc',
     [('internal::CalculateMinimalIncludes, IwyuFileInfo::CalculateIwyuViolations', 'iwyu_output.cc')])
prop('C11', 'The printed add, remove and full lists agree with each other',
     'In the report for a file, a line is in the add list exactly when it is desired and not present, in the remove list exactly when it is present and not desired, and in the full list exactly when it is desired; each line appears once per list, removed lines with their line number, and a repeated include is removed unless marked to be kept. '
     'The number of reported edits, which decides the exit code, equals the lines to add and to remove at every verbosity, and a file that needs neither is called correct instead.',
     'inputs histories configurations', 'every combination of present, repeated, kept and used includes within the bound, every print level',
     'Tests compare whole reports for fixed sources.', 'iwyu_output.cc',
     [('PrintableDiffs, CalculateDesiredIncludesAndForwardDeclares, IwyuFileInfo::CalculateAndReportIwyuViolations', 'iwyu_output.cc')])
prop('C12', 'Report lines are ordered, wrapped and commented deterministically',
     'Report lines come out in the documented order (precompiled header, associated header, its -inl.h, quoted includes when these are to come first, <*.h>, other angled includes, other includes) and alphabetically within a kind, independent of the order in which includes were met and uses recorded. '
     'A why-comment names the symbols used from the header, most used first and then by name, aligned, and below verbosity 3 it is cut so that no comment makes a line exceed the configured maximum length; a line without comments is printed unchanged.',
     'inputs configurations', 'every set of includes, symbol list and maximum length within the bound',
     'Tests only use the default line length and few symbols.', 'iwyu_output.cc iwyu_output.h',
     [('OutputLine::printable_line, GetLineSortOrdinal, GetSortKey, GetSymbolsSortedByFrequency', 'iwyu_output.cc')])
prop('C13', 'Pragma comments are recognised exactly and have exactly their documented effect',
     'A comment is acted on exactly when it starts with the tool prefix and goes on with a known directive and its right arguments; any other comment changes nothing, and a directive that is malformed is reported at its line. '
     'A keep or export region covers exactly the includes between its begin and its end in the same file, and nested, unmatched or open regions are reported. '
     'A directive behind an include keeps, exports or associates exactly that include, whatever directives came before and whatever command-line keeps apply.',
     'inputs histories', 'every directive with any deviation within the bound, every sequence of directives and includes within the bound',
     'Tests use fixed headers with correct pragmas.', 'iwyu_preprocessor.cc docs/IWYUPragmas.md',
     [('HandlePragmaComment, MatchOneToken, MatchTwoTokens, MaybeProtectInclude, AddDirectInclude, FileChanged_ExitToFile', 'iwyu_preprocessor.cc')])
prop('C14', 'A use is demanded exactly when no intended provider already covers it',
     'A full use of a symbol is dropped only when its own file defines it, when the defining file includes the using file back, when it stands in a source file that is not included, or, in transitive-includes-only mode, when nothing reachable defines it; every other use demands an include of the definition or of the public header standing for it. '
     'A use is reported as a violation, naming its place, the symbol and the header, exactly when neither the file nor its associated header directly includes what is demanded. '
     'Includes brought in by a header from the command line are added, kept or removed exactly as the prefix-header mode says, and the first include is never removed when it stands for a precompiled header.',
     'inputs configurations', 'every use and include graph within the bound, every prefix-header mode',
     'The decision depends on a combination of facts that tests sample sparsely.', 'iwyu_output.cc',
     [('ProcessSymbolUse, CalculateIwyuForFullUse, CalculateIwyuViolations, EmitWarningMessages, CleanupPrefixHeaderIncludes', 'iwyu_output.cc'), ('IsPrefixHeader and the handling of the first include', 'iwyu_preprocessor.cc')])
prop('C15', 'Forward declarations are proposed and removed only when that is valid',
     'A forward declaration is kept or added exactly when a use needs just the declaration, no include that is wanted (here or in the associated header) and no earlier definition in the file provides the type, and the associated header does not declare it for good; an existing visible one is preferred to a new one, every other one is removed unless it must stay (marked to be kept, made by a macro). '
     'A use of a type in namespace std or an inline namespace, inhibited by a directive, exported by a header, or under no-forward-declarations, demands an include instead; uses of nested and local types demand nothing. '
     'The printed declaration names the same entity: its namespaces, its template parameters, its kind and its name.',
     'inputs histories', 'every bounded combination of declarations, uses, includes, modes and namespaces',
     'Tests compare fixed sources.', 'iwyu_output.cc',
     [('ProcessForwardDeclare, ProcessFullUse, CalculateIwyuForForwardDeclareUse, PrintForwardDeclare, CalculateDesiredIncludesAndForwardDeclares', 'iwyu_output.cc')])
prop('C16', 'Source text is read back exactly',
     'The text from a location to the end of its line, the place after the next occurrence of a search text, the name in an include as written, a token\'s text and whether a line contains a text are exactly what the characters of the file say. '
     'Reading never goes past the end of the buffer.',
     'inputs', 'every buffer within the bound and every location in it',
     'Edge cases at buffer end and odd line ends are not in the tests.', 'iwyu_lexer_utils.cc iwyu_lexer_utils.h',
     [('GetSourceTextUntilEndOfLine, GetLocationAfter, GetIncludeNameAsWritten, GetTokenText, LineHasText, GetNextMacroTokenKind', 'iwyu_lexer_utils.cc')])
prop('C17', 'Intended providers and transitive includes are computed completely',
     'A file counts as reachable from another exactly when there is a chain of includes between them, whatever the order of discovery and with cycles. '
     'What a file intends to provide is itself, its direct includes, and whatever is reachable from those of them, or from the file itself, that mappings state to be public. '
     'A private header also provides what the public headers it maps to provide, and nothing else is provided.',
     'inputs histories', 'every include graph within the bound with every choice of public headers',
     'Tests use fixed include trees; closure errors need particular graphs.', 'iwyu_preprocessor.cc',
     [('PopulateIntendsToProvideMap, PopulateTransitiveIncludeMap, AddAllIncludesAsFileEntries, FileTransitivelyIncludes, PublicHeaderIntendsToProvide', 'iwyu_preprocessor.cc')])
prop('C18', 'Inhibitions and file ownership follow only the directives that name them',
     'A no-include or no-forward-declare directive suppresses exactly the named header or symbol (with or without leading colons, anonymous namespaces aside) in exactly the file containing it. '
     'A forward declaration is kept or exported exactly when it ends in such a region or its last line carries the directive. '
     'A header is reported on exactly when it has the canonical name of the main file, is its first include with the same base name, or matches a check-also pattern, and system headers never belong to the main file.',
     'inputs histories', 'every bounded set of directives, files and queries',
     'Tests cover one directive at a time.', 'iwyu_preprocessor.cc',
     [('IncludeIsInhibited, ForwardDeclareIsInhibited, ForwardDeclareIsMarkedKeep, ForwardDeclareIsExported, BelongsToMainCompilationUnit', 'iwyu_preprocessor.cc')])

prop('C19', 'Uses of macros demand the file that defines the macro',
     'Every use of a macro in a file that is reported on (its expansion, a test whether it is defined, its mention in the body of another macro that would expand it) demands the file with the definition, as any other use does. '
     'Nothing is demanded for a macro that is predefined or undefined, for the name of a function-like macro with no arguments after it, for a name that is not to be expanded, and for the parameters of the macro being defined. '
     'A file that directly includes a user of its own macro keeps that include if it is reported on, and otherwise stands for it unless the user is public or the file is a prefix header.',
     'inputs histories', 'every bounded macro body and every combination of use, file and definition',
     'Tests run a few fixed macros, and need the whole compiler.', 'iwyu_preprocessor.cc',
     [('MacroDefined, MacroExpands, Ifdef, Ifndef, Defined, ReportMacroUse, GetNextMacroTokenKind', 'iwyu_preprocessor.cc')])

prop('C20', 'Uses of functions, variables and members demand a header only when needed',
     'A use of a function, a variable, a class member or a namespace demands the header that declares it (or the public one it is mapped to), and is a violation exactly when the file does not include that header. '
     'It demands nothing when a declaration of the symbol is visible before the use in its own file (unless the use is the definition of the symbol itself), when the declaring file includes the using file, when the symbol is local to a function, or when its class is in the same header (after mapping). '
     'The same holds when the symbol is built into the language (a built-in function without a mapping, a built-in template, replaceable operator new or delete) or is a namespace of which the file also uses a member, and for headers not yet reachable when only transitive includes may be suggested.',
     'inputs', 'every bounded include graph with every place of the declarations, of the class and of the use',
     'Tests run a few fixed programs, and need the whole compiler.', 'iwyu_output.cc',
     [('ReportFullSymbolUse, ProcessFullUse, DeclIsVisibleToUseInSameFile, CalculateMinimalIncludes, CalculateIwyuForFullUse', 'iwyu_output.cc')])

# ---------------------------------------------------------------- fix_includes.py
prop('P01', 'Reading the tool\'s report loses nothing and invents nothing',
     'Every file section of the report yields one record naming that file, with exactly the lines of its remove list (with their line ranges), its add list and its full include list, each add line keyed by the bare include or declaration. '
     'Sections with no changes produce no edit, unrelated text around sections is skipped, the records come in report order, and a malformed section is reported as an error while a truncated one yields no record, so that none is half applied.',
     'inputs', 'every report built from symbolic line kinds and symbolic line contents within the bound',
     'The tests parse whole well-formed reports.', 'fix_includes.py', [('IWYUOutputParser, IWYUOutputRecord', 'fix_includes.py')])
prop('P02', 'Reports for the same file are merged without losing edits',
     'When several reports concern one file, a line is deleted only if every report that covers the file deletes it, and an include or declaration is added, once, if any report asks for it. '
     'The result does not depend on the order of the reports, except for the relative order of lines that rank equally.',
     'inputs histories', 'every pair and triple of records within the bound with symbolic membership',
     'Tests merge two or three fixed reports.', 'fix_includes.py', [('IWYUOutputRecord.Merge, ProcessIWYUOutput', 'fix_includes.py')])
prop('P03', 'Rewriting deletes and adds what the report says and keeps every other line',
     'After rewriting, every line of the original file that is neither in the remove list nor a blank line or attached comment next to an edit is still present, unmodified and each exactly as often as before; code lines that are not includes or forward declarations keep their relative order. '
     'Every include or forward declaration in the remove list at its stated line is gone, every line to add is present exactly once, and a report that names an include at a line that holds none, or a line past the end, is refused. Repeated top-level includes collapse to one, and conditionals or namespaces left empty by a removal go together with their comments.',
     'inputs', 'every file of symbolic line kinds within the bound with every symbolic remove/add set',
     'The tests are fixed before/after pairs; which lines survive depends on combinations of comments, guards, conditionals and namespaces.', 'fix_includes.py',
     [('FixFileLines, ParseOneFile, _DeleteLinesAccordingToIwyu, _CalculateReorderSpans, _DecoratedMoveSpanLines', 'fix_includes.py')])
prop('P04', 'Options that restrict edits are honoured',
     'With the safe-headers option nothing is deleted from a header; with comments off no why-comment is added and with comments on existing ones are updated; only files selected by the restriction pattern and not by the ignore pattern are touched; the reorder option alone changes order and never the set of lines.',
     'inputs configurations', 'every option combination over the bounded file and report family',
     'Tests exercise one option at a time on one file.', 'fix_includes.py', [('ParseAndMergeIWYUOutput, ProcessIWYUOutput, FixFileLines', 'fix_includes.py')])
prop('P05', 'Includes are grouped and sorted as documented and never moved across a barrier',
     'Within a movable block the includes come out grouped (the file\'s own header, C system, C++ system, other) with groups separated, and sorted alphabetically within a group, in a way that depends only on the set of lines. '
     'No include or declaration moves across code, a preprocessor conditional, or a keep-region boundary, a comment moves together with the line it precedes, and a new include is placed after the header guard and with its own kind.',
     'inputs', 'every file of symbolic include lines, comments, blanks and barriers within the bound',
     'Order depends on the whole block; tests are fixed pairs.', 'fix_includes.py', [('_GetLineKind, _IsMainCUInclude, _GetToplevelReorderSpans, _FirstReorderSpanWith, SortIncludesInFiles', 'fix_includes.py')])
prop('P06', 'Fixing or sorting an already fixed file changes nothing',
     'Applying the reorder/sort step to its own output yields the same text, and processing a report that asks for no change leaves an already sorted file untouched and not rewritten. '
     'The tool reports a changed file exactly when its contents changed.',
     'inputs histories', 'every file of the bounded family, two applications in a row',
     'No test applies the tool twice.', 'fix_includes.py', [('FixFileLines, FixOneFile, FixManyFiles', 'fix_includes.py')])
prop('P07', 'Reading and writing a file preserves bytes, line numbers and line endings',
     'A file that is read and written back unchanged keeps its exact bytes, including its line-ending style and final newline state, for every supported encoding; added lines use the file\'s own line ending. '
     'Line numbers count only real line ends, so a line number in the report always names the same line of text the compiler meant.',
     'inputs', 'every byte string within the bound over the significant bytes',
     'Tests mock file access.', 'fix_includes.py', [('_ReadFile, _WriteFile, FileInfo', 'fix_includes.py')])
prop('P08', 'Only selected files are written, and one bad file does not spoil others',
     'A run changes exactly the files whose new contents differ, writes nothing in dry-run mode (while showing what would change), and returns how many files were fixed. '
     'A file that cannot be read or opened for writing, cannot be encoded, or does not fit its report is skipped with a message and left exactly as it was, while every other file is still processed.',
     'inputs fault_sequences configurations', 'every sequence of files with symbolic faults and modes within the bound',
     'Tests inject no faults.', 'fix_includes.py', [('FixManyFiles, ProcessIWYUOutput, ParseAndMergeIWYUOutput', 'fix_includes.py')])
prop('P09', 'Forward declarations are rewritten to the same declarations',
     'Rewriting nested or compact namespaces around forward declarations, grouping them and deleting emptied namespaces leaves exactly the declared names, each in its own namespace, that the file had plus the added minus the removed ones. '
     'Namespaces are opened and closed in balance, and code inside a namespace stays in that namespace.',
     'inputs', 'every bounded nesting of namespaces and declarations with symbolic names',
     'Tests contain a few fixed nestings.', 'fix_includes.py', [('_NormalizeNamespaceForwardDeclareLines, _DeleteEmptyNamespaces, _GetNamespaceLevelReorderSpans', 'fix_includes.py')])

# ---------------------------------------------------------------- iwyu_tool.py
prop('P10', 'Windows command lines are split the way Windows programs receive them',
     'Splitting a Windows command line gives exactly the arguments a program would receive: blanks separate outside quotes, each unescaped quote opens or closes a group, runs of backslashes are literal except before a quote where pairs halve and an odd one escapes the quote. '
     'No character is lost: trailing backslashes and empty quoted arguments are kept.',
     'inputs', 'every command line up to the bound over letter, blank, quote and backslash',
     'Tests try a few literals; the rule depends on parity and position.', 'iwyu_tool.py', [('win_split', 'iwyu_tool.py')])
prop('P11', 'Each compile command becomes one faithful tool invocation',
     'The invocation made from a compilation-database entry runs in the entry\'s directory, on that entry\'s arguments in order minus the compiler itself, with every extra tool argument passed on and driver-mode added exactly for a Microsoft-style compiler. '
     'An entry with neither arguments nor command is refused, and entries using the argument list or the command string with the same words give the same invocation.',
     'inputs', 'every entry with symbolic program name and arguments within the bound',
     'Tests check a few fixed entries.', 'iwyu_tool.py', [('Invocation.from_compile_command, is_msvc_driver', 'iwyu_tool.py')])
prop('P12', 'The selected entries are exactly those under the requested paths',
     'With no requested source every entry is used; otherwise an entry is used exactly when its file equals, or lies below, a requested and not excluded path, where being below is by whole path components. '
     'A requested path with no entry is reported, and relative files are resolved against their entry\'s directory.',
     'inputs', 'every bounded database and selection over symbolic path components',
     'Tests use fixed paths.', 'iwyu_tool.py', [('slice_compilation_db, fixup_compilation_db, is_subpath_of', 'iwyu_tool.py')])
prop('P13', 'Every job runs once, prints whole output, and the worst exit code wins',
     'Whatever the number of parallel jobs, the load limit and the order in which processes finish, each invocation is started exactly once, no more than the allowed number run at a time, each one\'s output is printed once and uninterrupted through the chosen formatter, and the result is the worst exit code seen. '
     'A formatter or process failure is never turned into success.',
     'schedules configurations', 'every schedule of process completions within the bound, every job count and exit code',
     'Tests run with one fake process order.', 'iwyu_tool.py', [('execute, Process, worst_exit_code', 'iwyu_tool.py')])
prop('P14', 'The compiler-style output says the same as the report',
     'In the compiler-style format every add and every remove of the report appears once as a diagnostic naming the right file, the right line for removes, and the right text; correct files produce no diagnostic, and other compiler messages pass through. '
     'No well-formed report makes formatting fail.',
     'inputs', 'every report of the bounded line kinds with symbolic contents',
     'Tests format one fixed report.', 'iwyu_tool.py', [('clang_formatter', 'iwyu_tool.py')])
prop('P15', 'The command line is split between this program and the tool without loss',
     'Arguments before the first lone -- belong to this program and everything after it is passed on unchanged and in order to every invocation; without -- nothing is passed on. '
     'This program\'s own options reach the run with their values, and the exit code of the run is the one returned.',
     'inputs', 'every argument list within the bound', 'Tests use a few literal lists.', 'iwyu_tool.py', [('_bootstrap, main, worst_exit_code', 'iwyu_tool.py')])

# ---------------------------------------------------------------- out of reach
prop('U01', 'Every use in the program text is attributed to the right declaration and file',
     'For every program, each use of a symbol, type, template or macro is attributed to the declaration the program really uses, as a full or forward-declarable use according to the language rules.',
     'programs', 'all C and C++ programs', 'Tests are a few hundred sample programs.', 'iwyu.cc iwyu_ast_util.cc iwyu_location_util.cc', [('IwyuAstConsumer and visitors', 'iwyu.cc')])
prop('U02', 'The tool compiles a program exactly as the compiler would',
     'For every compile command the tool sees the same preprocessed program as the compiler would with that command.',
     'programs configurations', 'all compile commands', 'Tests use a few commands.', 'iwyu_driver.cc', [('CreateCompilerInstance, ExecuteAction', 'iwyu_driver.cc')])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
