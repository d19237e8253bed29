#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand; the jsonl is the deliverable)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Arena allocations are disjoint, in bounds and stay put",
  "Every block handed out by the arena allocator is non-null, fully inside memory owned by the arena, as large as requested (including requests larger than the block size), and overlaps no earlier block. Contents written to earlier blocks are unchanged by any later allocation for as long as the arena lives.",
  ["inputs","histories"],"every block size, every sequence of request sizes",
  "The only test allocates a few ints through a container with one block size; block-boundary and oversize sequences are unbounded.",
  ["bant/util/arena.h"],[("block switch on exhaustion / oversize request","bant/util/arena.h Arena::Alloc, NewBlock")],["Arena::Alloc","Arena::New"])
p("C02","Arena sequence container behaves as an append-only sequence",
  "After any number of appends, iterating visits exactly the appended values in order, random access at i yields the i-th value, the size is the number of appends, and references returned earlier still denote the same element. This holds for every minimum/maximum block size with which the container is instantiated.",
  ["inputs","histories","configurations"],"every append count and element values, every block-size configuration",
  "One test appends a fixed number with the default configuration; block doubling boundaries for other configurations are never exercised.",
  ["bant/util/arena-container.h","bant/util/arena.h"],[("block doubling with bounded size, end() position","bant/util/arena-container.h ArenaDeque")],["ArenaDeque::Append/operator[]/begin/end/size"])
p("C03","Sub-range lookup returns the owner of the range or nothing",
  "In a map from pairwise disjoint ranges to values, looking up a range that lies inside a stored range returns exactly the value stored for it, and looking up a range that is not contained in any one stored range returns nothing. Re-inserting an existing range does not change the stored value and is reported.",
  ["inputs","histories"],"every set of disjoint ranges, insertion order and query range",
  "Tests use a handful of fixed strings; boundary cases (adjacent, straddling, empty ranges) are open-ended.",
  ["bant/util/disjoint-range-map.h"],[("lower_bound on range end plus begin comparison","bant/util/disjoint-range-map.h FindBySubrange")],["DisjointRangeMap::Insert","DisjointRangeMap::FindBySubrange"])
p("C04","Every position of a text maps to its true line and column",
  "For any text and any sub-range of it, the reported zero-based line equals the number of newlines before the position and the reported column equals the distance to the last preceding newline (or start), for both the inclusive start and exclusive end of the range. The number of lines is one more than the number of newlines; this also holds while and after the text is scanned.",
  ["inputs"],"every text and every sub-range of it",
  "Tests check a few fixed texts; newline placement and end-of-text positions are unbounded.",
  ["bant/frontend/linecolumn-map.cc","bant/frontend/linecolumn-map.h","bant/frontend/scanner.cc"],[("upper_bound over line starts","bant/frontend/linecolumn-map.cc GetPos")],["LineColumnMap::GetRange"])
p("C05","Printed source locations are one-based and follow the documented form",
  "A location prints as file name, colon, one-based line, colon, one-based start column, then, if the range stays on one line, a dash and one-based end column when the range is longer than one column, or otherwise colon, end line, colon, end column; it ends with a colon, and formatting to a string and to a stream agree. For every non-empty range the text shown parses back to exactly the position given.",
  ["inputs"],"every line/column pair and file name",
  "Only a few literal positions are compared in tests; the functions compile here but have no test of their own.",
  ["bant/frontend/source-locator.cc","bant/frontend/source-locator.h"],[("stream operators and Loc()","bant/frontend/source-locator.cc")],["SourceLocator::Loc","operator<<(LineColumnRange)"])
p("C06","Surrounding-line expansion is the maximal newline-free context",
  "For any text and any sub-range of it that a source reports on, the surrounding line contains the sub-range, extends to the nearest newline or text boundary on both sides, and contains no newline other than those inside the sub-range itself. Nothing outside the source text is read or returned.",
  ["inputs"],"every content and every sub-range, including empty ones and ones at either end",
  "The tests have one content with a few substrings; boundary positions decide correctness.",
  ["bant/frontend/named-content.cc","bant/frontend/named-content.h"],[("backward/forward expansion","bant/frontend/named-content.cc GetSurroundingLine")],["NamedLineIndexedContent::GetSurroundingLine"])
p("C07","Tokenization is total, progressive and loses nothing",
  "For any byte content the tokenizer ends with end-of-file after finitely many tokens, every token is a sub-range of the content strictly after the previous one, and everything skipped between tokens is white space, comments or line-continuation backslashes. Each token has the type its text has in the language (whole words for keywords, one or two character operators, properly delimited strings incl. prefixes, escapes and triple quotes, numbers, otherwise error), peeking never changes what comes next, and after the scan the line index knows every line start.",
  ["inputs"],"every byte string given as BUILD-file content",
  "Tests tokenize fixed snippets; ambiguity between prefixes, operators, comments, quotes and unterminated input is combinatorial.",
  ["bant/frontend/scanner.cc","bant/frontend/scanner.h"],[("Scanner::Next and its Handle* functions","bant/frontend/scanner.cc")],["Scanner::Next","Scanner::Peek","LineColumnMap::lines"])
p("C08","Parsing any content terminates safely and reports errors honestly",
  "Parsing any byte content terminates without crashing or touching memory outside the content and the tree, returns a statement list, and all text in the tree refers to the original content. The error flag is set if and only if a human-readable message with the location inside the named file was emitted, and it is set whenever the content is not in the language.",
  ["inputs"],"every byte/token string given as BUILD-file content",
  "Tests parse fixed well-formed snippets and very few broken ones; the space of malformed inputs is what users actually feed in while editing.",
  ["bant/frontend/parser.cc","bant/frontend/parser.h","bant/frontend/ast.h"],[("recursive descent with partial-tree error recovery","bant/frontend/parser.cc")],["Parser::parse","Parser::parse_error"])
p("C09","Printing a parsed tree and parsing it again gives the same tree",
  "For any accepted content, pretty-printing the parsed tree yields text that parses without error into a structurally identical tree: same statements, calls, argument order, nesting of operators, identifiers, numbers and string values. Printing that second tree gives the same text again.",
  ["inputs","programs"],"every accepted BUILD-file content",
  "A few sample expressions are round-tripped in tests; operator nesting and quote combinations are not.",
  ["bant/frontend/print-visitor.cc","bant/frontend/ast.h","bant/frontend/ast.cc","bant/frontend/parser.cc"],[("PrintVisitor","bant/frontend/print-visitor.cc"),("scalar printing","bant/frontend/ast.cc")],["operator<<(Node*)"])
p("C10","The syntax tree has the structure the language prescribes",
  "Binary operators group to the right in the order written (the parser's documented simplification: no precedence levels), a subscript or call suffix binds tighter than any operator, a unary operator takes everything to its right, comma lists keep element order and optional trailing commas, keyword arguments become name/value pairs, parenthesised single expressions are not tuples, and conditional expressions and comprehensions consist of the parts written in their places. Literals carry the value denoted by their spelling: integers in any supported base as that number, strings as the text between their delimiters with raw and triple-quoted forms distinguished.",
  ["inputs","programs"],"every accepted expression and literal",
  "Unit tests compare a handful of expressions with hand-built trees.",
  ["bant/frontend/parser.cc","bant/frontend/ast.h","bant/frontend/ast.cc"],[("precedence levels of the expression grammar","bant/frontend/parser.cc"),("literal decoding","bant/frontend/ast.cc")],["Parser::parse","StringScalar","IntScalar"])
p("C11","Elaboration evaluates constant expressions and nothing else",
  "Elaboration replaces concatenations of constant strings or of lists by their concatenation, variables by the value of their most recent constant assignment, formatting and select constructs it supports by their documented result, and otherwise leaves the tree unchanged in meaning. Every string newly created that way still answers location queries with the location of the expression it came from, and source text positions of unchanged strings are preserved.",
  ["inputs","programs"],"every build file built from constants, variables, concatenation, calls and select",
  "Tests elaborate a few fixed snippets; chains, shadowing, partial constants and nesting multiply.",
  ["bant/frontend/elaboration.cc","bant/frontend/elaboration.h","bant/frontend/parsed-project.cc"],[("SimpleElaborator visitor","bant/frontend/elaboration.cc"),("location registration","bant/frontend/parsed-project.cc RegisterLocationRange")],["Elaborate"])
p("C12","Package names parse and print consistently",
  "A package text of the forms //path, @project//path or @project parses to that project and path (without leading or trailing slashes) and anything without package part is refused; printing a parsed package and parsing that text yields the same package. File names qualified with a package are the package path, one slash and the file name, or just the file name for the top-level package.",
  ["inputs"],"every text",
  "Tests enumerate some spellings; separators, @@ prefixes and empty parts combine freely.",
  ["bant/types-bazel.cc","bant/types-bazel.h"],[("BazelPackage::ParseFrom/ToString/QualifiedFile","bant/types-bazel.cc")],["BazelPackage::ParseFrom","BazelPackage::ToString","BazelPackage::QualifiedFile"])
p("C13","Target labels resolve uniquely and print to an equivalent label",
  "A label resolves to the package and target name Bazel assigns to it in the given package context, including short forms (:x, x, //p, @r, @r//p, //p:x); printing a resolved target, absolutely or relative to any package, and resolving the printed text in that same package gives the same target (relative printing within one project). A text resolves to a target with an empty name only if it is empty or ends in a colon or slash.",
  ["inputs"],"every label text and every context package",
  "Tests list selected labels and contexts; the inverse relation over all of them is untested.",
  ["bant/types-bazel.cc","bant/types-bazel.h"],[("BazelTarget::ParseFrom/ToString/ToStringRelativeTo","bant/types-bazel.cc")],["BazelTarget::ParseFrom","BazelTarget::ToStringRelativeTo"])
p("C14","A target pattern matches exactly the targets it denotes",
  "An exact label pattern matches only that target, :all (and :*) exactly the targets of that package, /... exactly the targets of that package and of packages below it at path-component boundaries, a pattern with * globs over the target name only, and no pattern matches targets of a different project (forms like ...:all, which combine the two, are not defined here). A package is matched exactly if some target in it could be.",
  ["inputs"],"every pattern text and every target",
  "Tests try selected pattern/target pairs; prefix look-alikes (foo vs foobar) and regex meta characters in names are unbounded.",
  ["bant/types-bazel.cc","bant/types-bazel.h"],[("BazelPattern::ParseFrom/Match, GlobbingToRE2","bant/types-bazel.cc")],["BazelPattern::Match"])
p("C15","Visibility rules admit exactly the targets they name",
  "A visibility entry of public admits every target, private only targets of the same package, package and subpackages entries exactly the named package or also those below it at path-component boundaries, relative entries are taken in the package that declares them. Labels that would refer to a package group are not understood by bant yet and admit every target.",
  ["inputs"],"every visibility text, declaring package and looking target",
  "Tests list selected entries; combinations of context, project and path prefix are not covered.",
  ["bant/types-bazel.cc","bant/tool/dwyu.cc"],[("BazelPattern::ParseVisibility","bant/types-bazel.cc"),("CanSee","bant/tool/dwyu.cc")],["BazelPattern::ParseVisibility","BazelPattern::Match"])
p("C16","Target extraction reports exactly the rules written in the file",
  "Walking a parsed file reports every rule call of the requested kinds with a name, that is not an argument of another call or assigned to a variable, exactly once, in file order, with each attribute equal to what is written for that rule and to nothing inherited from another rule. Package-wide default visibility applies exactly to later rules without their own visibility, and never overrides an explicit one.",
  ["inputs","programs"],"every build file and every set of requested rules",
  "Tests use a few snippets with one or two rules; leakage between consecutive rules and defaults needs sequences.",
  ["bant/explore/query-utils.cc","bant/explore/query-utils.h"],[("TargetFinder visitor with a re-used result record","bant/explore/query-utils.cc")],["query::FindTargets","query::FindTargetsAllowEmptyName"])
p("C17","Suffix lookup finds the exact or the longest acceptable match",
  "Looking up a file name in the suffix index returns the targets of the exactly matching entry if there is one, otherwise an entry that shares as trailing part at least the required number of whole path components with the query, with the reported score being that number and no entry sharing more; otherwise nothing.",
  ["inputs"],"every index content, query and minimum component count",
  "Tests have one index with several queries; neighbours in the reversed order decide correctness.",
  ["bant/explore/header-providers.cc","bant/explore/header-providers.h"],[("FindBySuffix on reversed keys","bant/explore/header-providers.cc")],["FindBySuffix"])
p("C18","Each header is attributed to the libraries that export it, at its include path",
  "For every C++ library, each exported header is listed at the path(s) clients can include it by, honouring package path, include prefix (which alone dictates the path if given), strip prefix of the path from the workspace root, and include directories, with that library and all its direct or indirect aliases as provider. Headers generated for a protobuf library are attributed to its C++ wrapper of that kind (at most one per kind) and aliases thereof. No header is attributed to a target that does not export it.",
  ["inputs","programs","configurations"],"every build file of libraries, aliases and protobuf rules",
  "Tests check a few configurations of the prefix attributes; their combination with package paths is open-ended.",
  ["bant/explore/header-providers.cc","bant/explore/query-utils.cc"],[("IterateCCLibraryHeaders, alias and proto handling","bant/explore/header-providers.cc")],["ExtractHeaderToLibMapping","ExtractGeneratedFromGenrule"])
p("C19","Glob predicates select exactly the files the patterns denote",
  "A file is selected if and only if it matches some include pattern and no exclude pattern, where * matches within one path component, ** as a whole component matches any number of whole components, and every other character matches only itself, for all non-empty paths. Every directory on the way to a selected file is accepted for traversal.",
  ["inputs"],"every set of include/exclude patterns and every path",
  "Tests try selected patterns; meta characters and ** placements combine freely.",
  ["bant/util/glob-match-builder.cc","bant/util/glob-match-builder.h"],[("pattern to regular expression conversion, recursive-directory prefixes","bant/util/glob-match-builder.cc")],["GlobMatchBuilder::BuildFileMatchPredicate","GlobMatchBuilder::BuildDirectoryMatchPredicate"])
p("C20","Path joining and file-name extraction agree",
  "Joining a directory and a file name yields a path with exactly one separator at the joint (none if the directory is empty; names do not begin with a slash) and otherwise the characters given. The file-name of any path is the part after its last slash, no matter how the path object was built or copied or how often it is asked.",
  ["inputs","histories"],"every directory and file-name text, every order of queries",
  "Tests join three fixed strings; memoised offsets make the answer depend on history.",
  ["bant/util/file-utils.cc","bant/util/file-utils.h"],[("FilesystemPath constructor and memoised filename()","bant/util/file-utils.cc")],["FilesystemPath::path","FilesystemPath::filename"])
p("C21","Reading a file yields its exact content or an error, never something else",
  "Whatever sizes the operating system chooses for individual reads and wherever it reports an error or early end, a file read returns either the complete content of the file byte for byte or nothing. File handles opened for it are closed in every case.",
  ["inputs","fault_sequences"],"every file content, every sequence of short reads, errors and size changes",
  "Tests read one small regular file without faults.",
  ["bant/util/file-utils.cc"],[("fstat + read loop","bant/util/file-utils.cc ReadFileToString")],["ReadFileToString"])
p("C22","Recursive file collection is complete, duplicate-free and terminates",
  "Walking a directory tree visits every directory admitted by the directory predicate and returns exactly the files admitted by the file predicate, never directories, each once (only what is in the start directory may be listed a second time by a link leading back to it). It terminates on every tree, including ones with symbolic-link cycles, unreadable directories and file systems that do not report entry types.",
  ["inputs","configurations","fault_sequences"],"every directory tree shape, entry types, link structure and failing directory",
  "The test walks one real directory; link cycles and unknown entry types depend on the file system.",
  ["bant/util/file-utils.cc"],[("breadth-first walk with inode set","bant/util/file-utils.cc CollectFilesRecursive")],["CollectFilesRecursive"])
p("C23","Structured table output is well formed and carries exactly the cells",
  "For any headers and cell texts, JSON, CSV, s-expression and property-list output is well formed in its format and decoding it gives back exactly the rows and cells in order, with repeated last columns rendered as lists or repeated rows. Cell texts with quotes, separators, control characters or non-ASCII bytes cannot corrupt the structure; bytes outside ASCII are passed through; the plain text format has a line for each row with the cells at aligned columns.",
  ["inputs","histories"],"every sequence of rows and every cell text",
  "Tests print short plain words; escaping depends on every byte value.",
  ["bant/util/table-printer.cc","bant/util/table-printer.h"],[("per-format printers and their escaping","bant/util/table-printer.cc")],["TablePrinter::AddRow","TablePrinter::AddRowWithRepeatedLastColumn"])
p("C24","The dependency graph and its inverse agree and respect the depth limit",
  "The recorded dependents are exactly the inverse of the recorded dependencies, every target matched by the pattern and every target reachable from one within the allowed number of steps has an entry with exactly the dependencies written for it, and nothing beyond the limit is followed. Construction terminates on cyclic graphs.",
  ["inputs","programs","configurations"],"every dependency structure incl. cycles and self-references, every depth",
  "There is no test of the graph builder; shapes and depths are unbounded.",
  ["bant/explore/dependency-graph.cc","bant/explore/dependency-graph.h"],[("level-wise worklist","bant/explore/dependency-graph.cc BuildDependencyGraph")],["BuildDependencyGraph"])
p("C25","Alias listing is exactly the inverse of the alias rules",
  "A target is listed as aliased by exactly those alias rules whose actual attribute resolves to it in the package of the alias, each of them listed once per rule.",
  ["inputs","programs"],"every set of alias rules",
  "There is no test for it.",
  ["bant/explore/aliased-by.cc"],[("ExtractAliasedBy","bant/explore/aliased-by.cc")],["ExtractAliasedBy"])
p("C26","External project lookup finds a project by name with or without @",
  "An external project directory name splits into project and version at the documented separators, and a lookup by name, with or without leading @, succeeds exactly if a project of that very name is known and then gives the location registered for it, never that of a project whose name is merely a prefix or neighbour.",
  ["inputs","histories"],"every set of known projects and every query",
  "There is no test; ordered-map neighbours and empty versions decide correctness.",
  ["bant/workspace.cc","bant/workspace.h"],[("VersionedProject::ParseFromDir, FindEntryByProject","bant/workspace.cc")],["BazelWorkspace::FindPathByProject","VersionedProject::ParseFromDir"])
p("C27","Command names resolve by exact name or unambiguous prefix",
  "A command word selects a command if and only if it is its full name or a prefix of exactly one command name; an ambiguous, unknown or missing command never runs anything and is reported with the clarification exit status. Patterns that cannot be understood yield a failure status and no command output.",
  ["inputs"],"every command word and argument list",
  "There is no test of command dispatch.",
  ["bant/cli-commands.cc","bant/cli-commands.h"],[("prefix search in the ordered command table","bant/cli-commands.cc RunCliCommand")],["RunCliCommand"])
p("C28","Compile flags list every include location once and as valid text",
  "compile-flags prints the C++ options of .bazelrc (each once, in order of appearance) and then one include option per distinct directory needed: the project, bazel-bin, every qualified includes directory and virtual include directory of a C++ or proto target, and source and generated directory of every external project depended on (protobuf gets some more), always in the same order. The compilation database is valid JSON naming each source and header of the matching C++ targets exactly once with those flags. No combination of attributes crashes it.",
  ["inputs","programs","configurations"],"every project and attribute combination",
  "There is no test for it.",
  ["bant/tool/compilation-db.cc","bant/tool/compilation-db.h"],[("ExtractOptionsFromBazelrc, CollectIncDirs","bant/tool/compilation-db.cc")],["WriteCompilationFlags","ExtractOptionsFromBazelrc"])
p("C29","Emitted edit commands change exactly the requested dependency",
  "Each add, remove or rename request is emitted as exactly one buildozer line naming that operation on deps with the given label(s) and the target it applies to, in the order requested.",
  ["inputs","histories"],"every request kind, target and label text",
  "There is no test of the emitted text.",
  ["bant/tool/edit-callback.cc","bant/tool/edit-callback.h"],[("CreateBuildozerDepsEditCallback","bant/tool/edit-callback.cc")],["CreateBuildozerDepsEditCallback"])
p("C30","No dependency is removed unless all includes are accounted for",
  "A removal of a dependency is suggested only if every quoted include of every source and header of the target was resolved to a provider and none of them needs that dependency, the dependency is known, not always-linked, and not marked to keep in the build file. An unreadable source, a list of sources or headers that cannot be evaluated, or an unresolved include suppresses all removals for that target. A dependency is needed if without it some include would lose its last provider without one being added. Conversely, when everything resolves, a known dependency that is neither needed, always-linked nor marked is suggested for removal.",
  ["inputs","programs","fault_sequences"],"every combination of sources, includes, providers, attributes and unreadable files",
  "Tests cover selected scenarios one at a time; the guard conditions combine.",
  ["bant/tool/dwyu.cc","bant/tool/dwyu-internal.h"],[("all_headers_accounted_for and removal guards","bant/tool/dwyu.cc CreateEditsForTarget")],["CreateDependencyEdits"])
p("C31","Suggested additions are needed, visible and complete",
  "A dependency is suggested for addition only if it provides a header included by the target's own sources, that header is not provided by the target itself nor by a dependency that remains, it is visible to it and not testonly for a non-test target; each is suggested once. Conversely every include whose sole visible provider is missing from the dependencies yields that suggestion.",
  ["inputs","programs"],"every combination of includes, alternative providers, visibility and existing dependencies",
  "Tests cover selected scenarios one at a time.",
  ["bant/tool/dwyu.cc","bant/tool/dwyu-internal.h"],[("DependenciesNeededBySources, CanSee, IsTestonlyCompatible","bant/tool/dwyu.cc")],["CreateDependencyEdits"])
p("C32","Quoted include extraction finds the includes a C++ source has",
  "For any lexically valid C++ source without raw string literals the extracted headers are exactly the quoted names of include directives at line starts (optionally indented), in order, each a sub-range of the text located at its true line; commented-out directives, angle-bracket includes and text inside string literals on the same line are not reported.",
  ["inputs"],"every source text",
  "Tests use one sample source; white space, comment and quote placement combine.",
  ["bant/tool/dwyu.cc","bant/tool/dwyu.h"],[("ExtractCCIncludes regular expression","bant/tool/dwyu.cc")],["ExtractCCIncludes"])
p("C33","Canonicalisation suggestions never change what a label refers to",
  "Each suggested rename of a dependency label resolves, in the package it is written in, to the same target as the original label, is the label as printed relative to that package, and applying all suggestions leaves nothing further to suggest. Labels already canonical get no suggestion; labels with an empty target name are not considered.",
  ["inputs","programs"],"every dependency label text in every package",
  "Tests rename selected labels in one package.",
  ["bant/tool/canon-targets.cc","bant/types-bazel.cc"],[("CreateCanonicalizeEdits","bant/tool/canon-targets.cc")],["CreateCanonicalizeEdits"])
p("C34","Partial trees of malformed files never crash later stages",
  "Whatever content a build file has, well formed or not, every stage that works on its parsed tree (printing, elaborating, extracting targets, headers, aliases, dependencies and cleanup edits) completes without crashing, dereferencing absent nodes or reading outside its data.",
  ["inputs","programs"],"every content of a build file",
  "Tests run the later stages on well-formed files only.",
  ["bant/frontend/parser.cc","bant/frontend/elaboration.cc","bant/explore/query-utils.cc","bant/frontend/print-visitor.cc","bant/tool/dwyu.cc","bant/explore/header-providers.cc"],[("null checks on optional nodes in visitors","bant/frontend/ast.h, bant/explore/query-utils.cc")],["Elaborate","query::FindTargets","operator<<(Node*)"])
p("C35","The access cache remembers each accessed path once and replays all of them",
  "With caching enabled, each file or directory reported as accessed is recorded exactly once per run with its kind, and a later run over the same project and comparable arguments (those differing only in verbosity, keep-going, directory, output and format flags) touches exactly the recorded paths, whatever the schedule of its workers, which all end when the process does. With caching disabled nothing is written. Paths contain no line ends.",
  ["inputs","histories","schedules"],"every sequence of reported accesses, every previous record, every schedule of prewarm workers",
  "There is no test for it.",
  ["bant/util/filesystem-prewarm-cache.cc"],[("dedupe set, cache file name hash, worker pool","bant/util/filesystem-prewarm-cache.cc")],["FilesystemPrewarmCacheInit","FilesystemPrewarmCacheRememberFileWasAccessed"])
p("C36","Package attribution of build files follows their path",
  "A build file found at a path is attributed to the package named by its directory relative to the project root (the empty path for the root), within the project it was collected for, and parsing two files of the same package keeps the first and reports the conflict. Location queries for any text of any parsed file (up to its first syntax error) name that file and its true position.",
  ["inputs","histories"],"every project, path and content",
  "Tests parse files with fixed names through a test utility.",
  ["bant/frontend/parsed-project.cc","bant/frontend/parsed-project.h"],[("AddBuildFile/AddBuildFileContent, location map","bant/frontend/parsed-project.cc")],["ParsedProject::AddBuildFile","ParsedProject::GetLocation"])
p("C37","Only nodes matching the grep expression are printed, highlighted faithfully",
  "When printing with a grep expression, a selected rule is printed if and only if one of its identifiers or strings contains a match, the highlighted parts are the non-empty matches from left to right, and removing the highlight and color sequences from the output gives exactly the text printed without highlighting.",
  ["inputs","programs"],"every tree and expression",
  "There is no test for highlighting.",
  ["bant/frontend/print-visitor.cc","bant/frontend/parsed-project.cc"],[("PrintMaybeHighlight, PrintProject","bant/frontend/print-visitor.cc")],["PrintVisitor","PrintProject"])
p("C38","Cached analysis results are reused only for unchanged inputs",
  "The parallel clang-tidy driver reports for a file a stored result only if the content of the file, the contents of the project headers (.h, .hpp, .hxx, .inl) whose name it includes directly with quotes, the tool version, its arguments and the configuration file are what they were when that result was made; otherwise the file is analysed again, and an unchanged project is not. Exactly those files whose result has findings are analysed again when the build file or the compilation database became newer. Two files share a result only if name, content and included headers are the same. Every file is listed in the report with what the tool says about it now, for every schedule of the parallel workers and also after an interrupted run.",
  ["inputs","histories","schedules","crash_points"],"every set of files, contents and include relations, every schedule of the workers, every interrupted command",
  "There is no test for the script.",
  ["scripts/run-clang-tidy-cached.cc"],[("content hashing incl. header contents, NeedsRefresh, worker loop","scripts/run-clang-tidy-cached.cc BuildWorkList, NeedsRefresh, RunClangTidyOn")],["BuildWorkList","RunClangTidyOn"])
p("C39","Extraction commands print exactly the facts selected",
  "The package, target, header, generated-file, dependency, dependent and alias listings contain, in CSV and JSON, one entry for each fact that holds in the project about what the pattern selects (and, if asked to recurse, about what is reachable within the depth given), at its true location, and no others; a header is listed with each of its providing libraries and their aliases selected.",
  ["inputs","programs","configurations"],"every project, pattern, depth and output format",
  "Tests call the extraction functions one by one on small parsed projects; nothing runs the commands.",
  ["bant/cli-commands.cc","bant/explore/header-providers.cc","bant/explore/aliased-by.cc","bant/explore/dependency-graph.cc","bant/util/table-printer.cc"],[("RunCommand, PrintOneToN, PrintProvidedSources","bant/cli-commands.cc, bant/explore/header-providers.cc")],["RunCliCommand"])
p("C40","Every documented command line option has its documented effect",
  "Options may be given in any order, before or after the command, with attached or separate arguments. Each one documented has exactly the effect documented on what the command is told, where its output and messages go, from which directory it runs; unusable options, formats, files and directories are reported and no command is run, and the exit status is that of the command.",
  ["inputs","configurations"],"every command line",
  "There is no test for main().",
  ["bant/bant.cc","bant/session.h"],[("main: getopt loop","bant/bant.cc")],["main"])
p("C41","Lint findings all reach the report, counted by check, with relative names",
  "After the clang-tidy driver ran, the detailed report holds for each source with output the source's name and exactly what the tool wrote, except that the project's directory (and bazel's view of it) is removed from the start of lines, whatever characters the directory's name has; each line tagged with a check name (letters, digits, and . , + # = -) is counted once under that name in the summary, most frequent check first and equally frequent ones by name, and the exit status is a failure if there is any such line.",
  ["inputs"],"every tool output, check name and project directory",
  "There is no test for the script.",
  ["scripts/run-clang-tidy-cached.cc"],[("CreateReport, RepairFilenameOccurences","scripts/run-clang-tidy-cached.cc")],["CreateReport"])
p("C42","Once the suggested dependency edits are applied, dwyu suggests nothing more",
  "Removing and adding exactly the dependencies `bant dwyu` suggested for a target, with everything else unchanged, gives a project for which it suggests no edit of that target: suggestions never undo or repeat each other.",
  ["histories"],"every project, then a second run",
  "The unit tests look at one run each, never at the project the edits lead to.",
  ["bant/tool/dwyu.cc"],[("CreateEditsForTarget","bant/tool/dwyu.cc"),("ResolveIncludes","bant/tool/dwyu.cc")],["CreateDependencyEdits"])
p("C43","The workspace command lists exactly the external projects in use",
  "`bant workspace` without pattern lists each external project found with its version and directory; with a pattern it lists exactly those that a dependency or alias of a matching target, or a load() of a matching package, names (by name or repository name, with or without version), each once, never the project itself or one that is not there.",
  ["inputs"],"every workspace, project and pattern",
  "The unit tests compare one example project.",
  ["bant/tool/workspace.cc","bant/workspace.cc"],[("CreateFilteredWorkspace","bant/tool/workspace.cc"),("LoadWorkspace","bant/workspace.cc")],["PrintMatchingWorkspaceExternalRepos"])
p("C44","Results do not depend on the order in which directories are listed",
  "What a command prints, reports and returns is the same whatever order the system lists the entries of directories in; if a directory has both BUILD.bazel and BUILD, BUILD.bazel is the one used, as bazel does, and glob() results are in sorted order.",
  ["inputs","configurations"],"every order of the entries of every directory, project, command and pattern",
  "Tests run on one file system with one order.",
  ["bant/frontend/parsed-project.cc","bant/frontend/elaboration.cc","bant/util/file-utils.cc","bant/explore/dependency-graph.cc"],[("CollectBuildFiles","bant/frontend/parsed-project.cc"),("CollectFilesRecursive","bant/util/file-utils.cc"),("PathForPackage","bant/explore/dependency-graph.cc")],["MultiGlob"])
p("C45","parse and print tell exactly what is in the selected files",
  "parse reports each selected (with -r: reached) build file that has an error at the position of the error, and nothing else at all; print shows exactly the rules selected by pattern, expression and -E, once each, below a comment with file, position and target, with the attributes as written (with -e: as evaluated), also from files that have an error further down.",
  ["inputs","configurations"],"every project, pattern and combination of the options of parse and print",
  "Tests print single expressions; none runs a command on a project.",
  ["bant/cli-commands.cc","bant/frontend/parsed-project.cc","bant/frontend/parser.cc","bant/frontend/print-visitor.cc"],[("RunCommand","bant/cli-commands.cc"),("PrintProject","bant/frontend/parsed-project.cc")],["AddBuildFileContent"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
