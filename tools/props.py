# The single source of properties.jsonl and MANIFEST.json (run tools/gen.py).
PROPS = []
def P(**k): PROPS.append(k)

P(id="P01", title="The files selected are exactly those the configuration selects",
  statement="Given a directory (or nothing), the set of .proto files every command works on is exactly the .proto files under that directory that no applicable excludes entry covers, where an entry covers a file or a whole directory by path segment, relative to the directory of its configuration file, and the nearest configuration file at or above the directory governs. Files governed by more than one configuration file, and excludes that cover their own configuration directory or something outside of it, are refused with an error. With --config-data the given configuration acts as one in the current directory and files on disk are ignored.",
  over=["inputs", "configurations"], text="every directory tree, placement of configuration files, excludes list, working directory and argument",
  why="The tests list one fixture tree with one excludes list; sibling directories sharing a name prefix, several configuration files and --config-data are not combined.",
  files=["internal/file/proto_set_provider.go", "internal/settings/config_provider.go", "internal/settings/settings.go"],
  mech=[("walkAndGetAllProtoFiles / excludes", "internal/file/proto_set_provider.go"), ("IsExcluded", "internal/settings/config_provider.go"), ("IsWithinDir", "internal/settings/settings.go")],
  observe=["prototool files", "exit code"],
  technique="explicit enumeration of all trees x configurations x arguments against a reference model, on the real command",
  level="exploration",
  note="Exhaustive within the alphabet of directories, files and excludes; trusts the reference model of the documented rules and the Go file system calls on tmpfs.")

P(id="P02", title="A command acts only on the directory or file it was given",
  statement="A command given a directory reads, compiles, formats, lints, generates or reports the .proto files under exactly that directory, and never those of a sibling directory, even one whose name shares a prefix. Given one file, only that file is rewritten or printed and only failures of that file are printed. Every other file in the tree stays byte-identical. A directory or file is the same whether or not it, the working directory or anything on the way to it is a symbolic link.",
  over=["inputs", "programs"], text="every placement of files over a directory, its subdirectories and prefix-sharing siblings, every working directory, argument and command, and every set of them that are symbolic links",
  why="The tests run each command on one self-contained fixture directory, so nothing exists outside of the argument that could be touched.",
  files=["internal/file/proto_set_provider.go", "internal/file/file.go", "internal/exec/runner.go", "internal/protoc/compiler.go"],
  mech=[("DirPathToFiles restriction", "internal/file/proto_set_provider.go"), ("filtering by dir", "internal/exec/runner.go")],
  observe=["file contents", "stdout"],
  technique="explicit enumeration of file placements x arguments x commands on the real code with the real protoc",
  level="exploration",
  note="82,000 cases. The oracle is derived from the argument only; for symbolic links it is the same tree without them. Symbolic links to directories below the argument are left open.")

FMT=["internal/format/transformer.go","internal/format/base_visitor.go","internal/format/first_pass_visitor.go","internal/format/main_visitor.go"]
P(id="P03", title="A configuration means the same in every form, and nothing unknown is ignored",
  statement="Whatever settings are combined, prototool.yaml, prototool.json and --config-data with the same content have the same effect on every command, however they are laid out, and unset, null and empty settings have none; every documented setting has an effect. With --config-data no configuration file in or below the working directory is read. A key that is not documented at its place, a value of the wrong type, a value documented as invalid, text that is not one well-formed value, or two configuration files in a directory make every command that reads the configuration fail with a message, before it changes anything.",
  over=["configurations", "inputs"], text="every combination of settings, form, and place and kind of fault",
  why="The tests compare a few configurations as structures in YAML and JSON, and no unknown key or wrong type at any level but one.",
  files=["internal/settings/config_provider.go", "internal/settings/settings.go", "internal/file/proto_set_provider.go", "internal/exec/runner.go"],
  mech=[("ExternalConfig", "internal/settings/settings.go"), ("getExternalConfig, jsonUnmarshalStrict, GetForData, externalConfigToConfig", "internal/settings/config_provider.go"), ("getConfig", "internal/file/proto_set_provider.go")],
  observe=["output, exit code and file changes of files, lint, compile, generate --dry-run, format --fix -d, create, break check", "the same and all, descriptor-set, inspect, cache update for faults"],
  technique="exhaustive enumeration of settings and their pairs (thorough: triples) x seven written forms, observed by nine commands on a tree sensitive to every setting; and of single faults at every place of a full configuration x forms x eighteen commands",
  level="exploration",
  note="4,772 cases. Equality of forms is decided by observation; what each setting does is decided by P01, P02, P07, P08, P11, P13, P15, P17. Case variations of JSON keys and several YAML documents in one file are left open.")
P(id="P04", title="Formatting is stable: formatted files are accepted and never change again",
  statement="What format -w writes is what every further format prints: formatting a formatted file changes no byte of it, and format -l and -d accept it with exit code 0, for every valid file whatever its options, statements, layout, statement order and comments between statements.",
  over=["inputs"], text="every valid .proto file that can be built of the constructs of the language",
  why="The tests format a few golden files once; no test formats the result again, and most option literals, layouts and comment positions do not occur in them.",
  files=FMT, mech=[("Transform", "internal/format/transformer.go"), ("POption / PComment", "internal/format/base_visitor.go"), ("firstPassVisitor", "internal/format/first_pass_visitor.go"), ("mainVisitor", "internal/format/main_visitor.go")],
  observe=["prototool format", "file contents"],
  technique="exhaustive enumeration of all sources over a grammar of constructs up to two per file, each formatted twice by the real command",
  level="exploration",
  note="72,000 sources: every option kind with every literal, every statement in every layout, all pairs at every nesting, header orders, comments at all places. Thorough: all pairs in all layouts.")
P(id="P05", title="Formatting does not change what a file means",
  statement="For every valid .proto file, the formatted file is valid and has the same descriptor: names, numbers, types, labels, defaults, reserved and extension ranges, options with all their values in the same order, dependencies and services. A file that the formatter cannot understand is refused with an error and left byte-identical.",
  over=["inputs"], text="every valid .proto file that can be built of the constructs of the language",
  why="The tests compare text with golden files (which contain some losses); no test compiles formatted files or compares their descriptors.",
  files=FMT+["internal/format/format.go"], mech=[("POption / PComment", "internal/format/base_visitor.go"), ("firstPassVisitor", "internal/format/first_pass_visitor.go"), ("mainVisitor", "internal/format/main_visitor.go")],
  observe=["prototool format", "protoc descriptors"],
  technique="exhaustive enumeration of all sources over a grammar of constructs up to two per file, descriptor of protoc before and after compared",
  level="exploration",
  note="The same 72,000 sources as P04. Listed known findings: constructs that the vendored parser misreads or refuses (single-quoted strings, angle brackets, extension keys, octal numbers, negative reserved enum numbers) and empty messages inside aggregates (golden file). Comments inside a statement are out of scope.")
P(id="P06", title="All modes of format agree, and only -w writes",
  statement="For every combination of -d, -l, -w and --fix on a tree, directory or file: exactly the files whose content differs from its formatted form are listed, diffed or rewritten, in one order; applying the printed diff gives exactly what -w writes; printing to stdout gives the same content; the exit code is non-zero if and only if a difference was found (without -w) or something failed; and without -w nothing on disk changes. If the formatter refuses any file or compilation fails, nothing that was refused changes.",
  over=["inputs", "configurations"], text="every combination of file states, modes and arguments",
  why="The tests check -d and -w on single fixture directories; combinations of modes, mixed trees and refused files are not run.",
  files=["internal/exec/runner.go", "internal/format/transformer.go", "internal/diff/diff.go"],
  mech=[("formatFile", "internal/exec/runner.go"), ("Do", "internal/diff/diff.go")],
  observe=["stdout", "exit code", "file contents"],
  technique="exhaustive enumeration of file states x modes x arguments on the real command, printed diffs applied with patch(1)",
  level="exploration",
  note="Seven file states over three places, all combinations of the flags. The content itself is decided by P04 and P05.")
P(id="P07", title="format --fix makes headers and options what the style guide says",
  statement="After format --fix -w, every file has the configured file header exactly once at the top, replacing one that was there, and exactly the values of the file options that the style guide of the lint group in force derives from package, file name and java_package_prefix; every other option, statement and comment is kept, the lint rules about headers and options hold, and a second run changes nothing.",
  over=["inputs", "configurations"], text="every lint group, header setting, java_package_prefix, package shape, file name, comment arrangement above syntax and set of options already present",
  why="The tests fix three golden files with one configuration each; existing headers, other comments, conflicting options and unusual packages and file names do not occur.",
  files=["internal/format/transformer.go", "internal/format/first_pass_visitor.go", "internal/protostrs/protostrs.go", "internal/settings/config_provider.go"],
  mech=[("VisitSyntax / Do with fix", "internal/format/first_pass_visitor.go"), ("GoPackage, JavaOuterClassname, ...", "internal/protostrs/protostrs.go"), ("file header", "internal/settings/config_provider.go")],
  observe=["file contents", "protoc descriptors", "prototool lint"],
  technique="exhaustive enumeration of configurations x packages x file names x header arrangements x option subsets against values written down from the style guide",
  level="exploration",
  note="66,000 files in 870 configurations. The java_package prefix rule of uber1 with another java_package_prefix is excluded: that lint rule is documented as always com.")
P(id="P29", title="Formatting keeps every comment, once and with its statement",
  statement="Every comment that stands between statements, behind a statement or before an option in brackets is in the formatted file exactly once with its text unchanged, still above (or behind) the same statement or option, and on a line of its own if and only if it was; two comments never swap or merge and a comment never swallows code.",
  over=["inputs"], text="every place between statements, comment style, text, and combination of neighbouring comments",
  why="The golden files contain comments at a handful of places, and one of them even records a loss.",
  files=FMT, mech=[("PComment / PInlineComment", "internal/format/base_visitor.go"), ("Visit*", "internal/format/main_visitor.go")],
  observe=["prototool format"],
  technique="exhaustive enumeration of comment styles, texts and places, alone and with neighbours, by the real command",
  level="exploration",
  note="6,900 sources. One known finding: comments on their own line in the body of an rpc are removed (golden file). Comments within a statement are out of scope: the vendored parser drops or refuses them.")

BRK=["internal/breaking/runner.go","internal/breaking/helpers.go","internal/extract/extract.go","internal/reflect/reflect.go"]
P(id="P09", title="break check reports every documented breaking change, and only those",
  statement="For every pair of compilable states of the definitions, break check fails if and only if there is a documented breaking change: a deleted or renamed package, enum, enum value (including each of several values with one number), message, field, oneof, service or method, at any nesting depth, or a changed field type, tag, label or oneof membership, or a changed method request type, response type or streaming. Every broken element is reported once, by its fully-qualified name and number, with what it changed from and to.",
  over=["inputs", "histories"], text="every pair of states of a set of packages that differ by any edits of any elements",
  why="The unit test compares two fixed directories with each other; combinations of changes, map entries, nested scopes, aliases and type/name collisions across packages are not reached.",
  files=BRK + ["internal/breaking/breaking.go", "internal/breaking/check_message_fields_same_type.go"],
  mech=[("AllCheckers", "internal/breaking/breaking.go"), ("forEach*Pair", "internal/breaking/helpers.go"), ("newPackageSet", "internal/extract/extract.go"), ("NewPackageSet", "internal/reflect/reflect.go")],
  observe=["prototool break check"],
  technique="exhaustive enumeration of edit sequences up to a depth against a reference comparison, executed on the real command and protoc",
  level="exploration",
  note="All single edits in three configurations and all pairs of related edits (thorough: all pairs, more types) of a base schema that has every kind of element. Trusts the reference comparison and protoc.")
P(id="P10", title="break check accepts every compatible change",
  statement="Changes that are not documented as breaking never fail break check and print nothing: adding definitions, moving definitions between files and directories of the same package, renaming or merging files, reordering, changing options, comments, json names or reserved ranges, adding enum aliases, and making no change at all. What is merely imported from outside of the checked directory is not compared.",
  over=["inputs", "histories"], text="every sequence of compatible edits",
  why="The tests have one golden pair of directories in which compatible and breaking changes are mixed; a false alarm is only noticed if it changes that golden list.",
  files=BRK, mech=[("per-package maps", "internal/extract/extract.go"), ("populate*", "internal/reflect/reflect.go")],
  observe=["prototool break check"],
  technique="exhaustive enumeration of sequences of compatible edits up to a depth, executed on the real command and protoc",
  level="exploration",
  note="Depth 2 (thorough 3) over all compatible edits of a base schema. Three listed known findings about dropped imports.")
P(id="P11", title="Beta packages are exempted from break check exactly as documented",
  statement="Exactly the packages whose last of at least two components is vMAJORbetaBETA with both numbers greater than 0 are beta: they are not checked unless include_beta is set, and a stable package that directly depends on one after the change is reported unless include_beta or allow_beta_deps is set. All other packages are always checked, whatever their names resemble.",
  over=["inputs", "configurations"], text="every package name, dependency, change and setting of the two options",
  why="The tests run three fixed configurations on one pair of directories with two beta packages.",
  files=["internal/breaking/check_packages_no_beta_deps.go", "internal/breaking/runner.go", "internal/protostrs/protostrs.go", "internal/extract/extract.go"],
  mech=[("MajorBetaVersion", "internal/protostrs/protostrs.go"), ("WithoutBeta", "internal/extract/extract.go"), ("Run", "internal/breaking/runner.go")],
  observe=["prototool break check"],
  technique="exhaustive enumeration of package names x dependencies x changes x options against a reference model, on the real command",
  level="exploration", note="Exhaustive over an alphabet of 20 names for each of two packages, dependency before/after, changes and options.")
P(id="P12", title="break check answers the same from git and from saved state, leaving no trace",
  statement="The answer of break check is the comparison of the current files with the old state, wherever the old state comes from: the checked-out branch's last commit, a branch, a tag, or a file written by break descriptor-set or descriptor-set --include-imports; staged or unstaged changes never leak into the old state, and the current configuration decides. Whether it passes, reports or fails, the repository and the temporary directory are exactly as before, and a missing branch, repository, directory, state file or a state that does not compile is an error.",
  over=["inputs", "histories", "fault_sequences"], text="every repository layout, edit, source of the old state and state of the working tree",
  why="No test runs the git path at all; the saved-state path is not tested end to end.",
  files=["internal/exec/runner.go", "internal/git/git.go"],
  mech=[("BreakCheck", "internal/exec/runner.go"), ("TemporaryClone", "internal/git/git.go"), ("cloneForWorkDirPath", "internal/exec/runner.go")],
  observe=["prototool break check", "repository contents", "temporary directory"],
  technique="exhaustive enumeration of layouts x edits x old-state sources x working-tree states and of failures, on the real command with real git",
  level="exploration", note="Exhaustive within the alphabets; quick uses 15 edits, thorough all edits of the base schema.")

PROTOC=["internal/protoc/compiler.go"]
P(id="P15", title="A command succeeds only if every protoc invocation succeeds, in any order",
  statement="Compiling, and every command that compiles first, succeeds if and only if every one of the protoc invocations it makes exits with 0 and prints nothing on standard error (except unused imports when they are allowed), in whichever order they complete. Otherwise it exits non-zero, prints every message exactly once in sorted order, the same for all orders, and does none of its further work: no file is formatted, generated, linted or written. If SIGINT or SIGTERM arrives while any invocation runs, the running invocations are killed, the command fails and no further work is done. No temporary file is left behind in any case.",
  over=["schedules", "fault_sequences", "crash_points"], text="every assignment of outcomes to the concurrent protoc invocations, every completion order, and every point at which a signal arrives",
  why="The tests run protoc on fixtures that either compile or not; the concurrent invocations always complete in whatever order they happen to, and none is ever killed or interrupted.",
  files=PROTOC+["internal/exec/runner.go"],
  mech=[("Compile: one goroutine for each invocation", "internal/protoc/compiler.go"), ("runCmdMeta: signals and exit codes", "internal/protoc/compiler.go"), ("doCompile", "internal/exec/runner.go")],
  observe=["exit code", "stdout", "file contents", "temporary directory", "protoc processes"],
  technique="stateless exploration of all completion orders, outcomes and signal points of the real command under a controlled scheduler of stand-in protoc processes",
  level="model_checking",
  note="Exhaustive for up to 3 directories (4 invocations): 15 outcomes for one invocation, 10 for two, 3-4 for three (thorough 15, 7), all orders, both signals at every set of completed invocations, 10 commands. The interleaving of the goroutines between the completion of a process and its collection is left to the Go scheduler.")
P(id="P16", title="What protoc reports is attributed to the right file and position",
  statement="Every message protoc prints about a file is printed as FILE:LINE:COLUMN:MESSAGE, with the line and column that protoc gave (1:1 if it gave none), the unchanged message even if it contains colons, and FILE being the path, relative to the working directory, of the compiled file that the name protoc printed denotes in one of the include directories; the name of any other file is kept as protoc printed it, even if a compiled file has the same name. Unused and missing imports, recursive imports and failing plugins have their documented wording. Output that is not understood is never dropped.",
  over=["inputs", "configurations"], text="every message format of protoc, about every compiled or imported file, for every include path, working directory and argument",
  why="The tests compile ten fixtures in one directory with one protoc version.",
  files=PROTOC, mech=[("parseProtocLine", "internal/protoc/compiler.go"), ("getDisplayFilePath", "internal/protoc/compiler.go")],
  observe=["prototool compile"],
  technique="exhaustive enumeration of message formats x file names x layouts, and of pairs of messages, fed to the real command by a stand-in protoc, with a conformance part that runs the real protoc on real faults",
  level="model_checking",
  note="35 message formats of protoc 3.0 to 3.21 over 14 layouts; 26 kinds of faults with the real protoc 3.21.12.")
P(id="P17", title="generate makes exactly the configured protoc invocations",
  statement="generate runs protoc once for each plugin and directory under the argument, with all and only the files of that directory, the include directories of the configuration, the well-known types and the directory of the configuration, the plugin's flags, output directory (created first) or output file for file_suffix, plugin path, and descriptor set options. For go and gogo plugins an Mfile=package modifier is given for every file governed by the configuration in any other directory, for all well-known types and for all extra modifiers. compile runs it once for each directory with no output. --dry-run prints exactly these commands, runs nothing and changes nothing. Invalid plugin configurations and plugins that cannot be found are refused before anything runs.",
  over=["configurations", "inputs"], text="every generation configuration, tree, working directory and argument",
  why="The tests of generate check that a few configurations parse; no test looks at the flags protoc is called with for more than one fixture.",
  files=PROTOC+["internal/settings/config_provider.go", "internal/wkt/wkt.go"],
  mech=[("getCmdMetas", "internal/protoc/compiler.go"), ("getPluginFlagSetProtoFlags", "internal/protoc/compiler.go"), ("getRelOutputFilePath", "internal/protoc/compiler.go"), ("externalConfigToConfig", "internal/settings/config_provider.go")],
  observe=["arguments of protoc", "prototool generate --dry-run", "generated files"],
  technique="exhaustive enumeration of configurations x trees x arguments against a reference of the command line, on the real command with a stand-in protoc, and with the real protoc's built-in generators",
  level="model_checking",
  note="Exhaustive within the alphabets: every combination of plugin options for one plugin, six lists of up to three plugins with modifiers, includes and excludes.")

LINT=["internal/lint/lint.go", "internal/lint/runner.go", "internal/lint/base_visitor.go", "internal/lint/base_linter.go"]
P(id="P08", title="create and config init write what is documented and never overwrite",
  statement="create writes to each path the documented template for the lint group (uber2 or other), with the configured file header and java package prefix, and the package given by --package, else the name of the innermost create.packages directory the file is in plus the remaining path, else the path from the configuration file's directory, else the default package; --config-data counts as a configuration in the working directory. Such a file passes all lint rules of its group unless the names chosen break them. A target that exists and is not empty, a directory, or a missing parent refuses the whole command before anything is written; an empty file is filled. config init writes a valid configuration with the recommended options, and refuses to touch an existing prototool.yaml. Nothing else is changed.",
  over=["inputs", "configurations"], text="every configuration and its place, target, spelling, working directory and state of up to three targets",
  why="The tests create ten files from fixed configurations, never several at once, with data, a header, or a prefix.",
  files=["internal/create/handler.go", "internal/protostrs/protostrs.go", "internal/cfginit/cfginit.go", "internal/exec/runner.go"],
  mech=[("Create, getPkg, getConfig", "internal/create/handler.go"), ("GoPackageV2, CSharpNamespace, OBJCClassPrefix", "internal/protostrs/protostrs.go"), ("Generate", "internal/cfginit/cfginit.go"), ("Init", "internal/exec/runner.go")],
  observe=["files written by prototool create and prototool config init", "exit code", "prototool lint --json"],
  technique="exhaustive enumeration of configurations x places x targets, and of all sequences of states of the targets, against a reference of the content, on the real command, followed by lint",
  level="exploration",
  note="37,000 cases: all ordered pairs (thorough: triples) of ten base packages x 11 directories x 4 places of the configuration as YAML, JSON and data; 7 groups x 7 headers x 3 prefixes x 5 names x 10 packages; all sequences of up to 2 (thorough 3) of 13 states of targets; 252 config inits. Whether the file ends in a newline is left open (the golden tests demand none).")
P(id="P13", title="The rules that run and the files they skip are those the configuration selects",
  statement="lint applies exactly the rules of the group (or of the default group, or of no group with no_default), plus those of rules.add, minus those of rules.remove, in any spelling of case, and a rule is not applied to a file if and only if lint.ignores lists for that rule the file or a directory it is in, resolved against the directory of the configuration file, whatever the working directory and argument; rules on a whole directory see the other files only. Unknown rules and groups, and rules both added and removed, are refused. --list-linters, --list-all-linters, --list-lint-group and --diff-lint-groups list exactly these sets. The output of --generate-ignores lists exactly the rule and file pairs that fail, and with it as lint.ignores, lint passes.",
  over=["configurations", "inputs"], text="every combination of group, no_default, added, removed and ignored rules and paths, place of the configuration file, working directory and argument",
  why="The tests check the resolution of a few configurations as structures, and ignores on single fixtures from one working directory.",
  files=["internal/lint/lint.go", "internal/settings/config_provider.go", "internal/file/file.go", "internal/exec/runner.go"],
  mech=[("GetLinters, shouldIgnore, checkOne", "internal/lint/lint.go"), ("externalConfigToConfig", "internal/settings/config_provider.go"), ("IsExcluded", "internal/file/file.go"), ("generateIgnores, listLinters, diffLintGroups", "internal/exec/runner.go")],
  observe=["prototool lint --json", "prototool lint --list-linters, --list-all-linters, --list-lint-group, --diff-lint-groups, --generate-ignores", "exit code"],
  technique="exhaustive enumeration of lint configurations, ignored paths, and places of configuration, working directory and argument, against set algebra over the reference of all rules, on the real command",
  level="exploration",
  note="8,080 cases on a tree that breaks all 96 rules: 1,344 combinations of group, default, add and remove; every rule alone, added, removed, and ignored for each of 15 paths; pairs of 17 spellings of ignored paths; 4 places of the configuration x 4 working directories x 15 arguments. Trusts the reference of the rules (P28).")
P(id="P14", title="lint says the same of a file however it is reached",
  statement="The failures reported for a file are the same, once each and sorted by file, line, column, rule and message, whichever argument selects the file (the file itself, any directory above it, or none; relative, absolute or with superfluous elements), from whichever working directory, whatever other directories contain, as text or JSON, repeated, and by all --disable-format as by lint. The file is named by its path relative to the working directory. With a file as argument only its failures are printed, and the exit code is that of its directory.",
  over=["inputs", "configurations"], text="every tree, working directory, target and spelling of the target",
  why="The tests lint each fixture once, from the root of the repository, by one spelling.",
  files=["internal/exec/runner.go", "internal/lint/lint.go", "internal/lint/runner.go", "internal/file/proto_set_provider.go", "internal/text/text.go"],
  mech=[("printFailures", "internal/exec/runner.go"), ("GetDirPathToDescriptors, CheckMultiple", "internal/lint/lint.go"), ("SortFailures", "internal/text/text.go"), ("getMeta", "internal/exec/runner.go")],
  observe=["prototool lint", "prototool all --disable-format", "exit code"],
  technique="exhaustive enumeration of subsets of a tree x working directories x targets x spellings x commands, against the reference of all rules, on the real command",
  level="exploration",
  note="All 63 non-empty subsets of six files that together break all 96 rules; seven working directories, ten targets, up to ten spellings (all of them for the whole tree, thorough: for every subset). Trusts the reference of the rules (P28).")
P(id="P25", title="The same input gives the same output, every time",
  statement="Every command that reads the same files and configuration with the same arguments prints the same text, returns the same exit code and leaves the same files each time: whatever the order in which maps are iterated, in which files and directories were made and are read, and however often it is repeated. That covers files, compile, lint (all rules, ignores, listings), format, all, generate, descriptor-set, break check and break descriptor-set, x inspect, create and config init, in success and in failure, also for configurations with several faults, of which always the same one is named. (Times of files in the header of a diff and names of temporary files differ.)",
  over=["schedules", "configurations", "inputs"], text="every order of iteration over maps, every order of directory entries, every command",
  why="A test runs each command once, with one random order of each map; an order of iteration that matters shows in some of its runs, and golden files are not compared for most commands.",
  files=["internal/lint/lint.go", "internal/exec/runner.go", "internal/text/text.go", "internal/breaking/helpers.go", "internal/extract/extract.go", "internal/protoc/compiler.go", "internal/file/proto_set_provider.go", "internal/settings/config_provider.go"],
  mech=[("SortFailures", "internal/text/text.go"), ("GetLinters, CheckMultiple", "internal/lint/lint.go"), ("forEach over packages, messages, enums and services", "internal/breaking/helpers.go"), ("doGenerate, dirPaths", "internal/protoc/compiler.go")],
  observe=["standard output and standard error", "exit code", "all files"],
  technique="exhaustive enumeration of the iteration orders of each map iteration of the process, on the real command built with a Go runtime in which the start of an iteration is chosen by the checker, and of the orders in which the files are made",
  level="model_checking",
  note="The runtime, laid over the standard library at build time, takes the start of each map iteration from a table keyed by the place that iterates. Per case: all iterations from k (k < 8), three hash seeds, each place x each start for all its iterations, each of its first four iterations alone (thorough: the first 64, and all pairs of places). 534 cases of tree x command, 45,000 executions; maps of up to 8 entries are explored completely. Orders in which protoc processes complete are the subject of P15.")
P(id="P26", title="No file is lost and no failed write is a success, whatever fails or is killed",
  statement="At whatever moment format -w, all or any other command is killed, and whichever of its file operations fails (no space, input/output error, no permission; once or from then on) or transfers only a part, every file of the tree that is not a new output of that command has either its old or its complete new content and its mode; links stay links. A command exits with 0 only if everything was written: files, temporary files and standard output; otherwise it says so. A failed command leaves no temporary files, a killed one none that a later command reads, and the same command repeated undisturbed gives what it gives otherwise. Partial transfers and interrupted calls change nothing at all. (create and config init refuse to overwrite what a failed one left.)",
  over=["crash points", "faults"], text="every system call that changes a file or prints, of every command, and each way it can fail",
  why="No test makes a file operation fail or kills a command; the moments between truncating a file and writing it, or a full disk, never occur.",
  files=["internal/exec/runner.go", "internal/create/handler.go", "internal/diff/diff.go", "internal/protoc/compiler.go", "internal/git/git.go"],
  mech=[("formatFile, overwriteFile, descriptorSet, printFailuresForErrorFormat", "internal/exec/runner.go"), ("writeTempFile", "internal/diff/diff.go"), ("cmdMeta.Clean, getTempFilePath", "internal/protoc/compiler.go"), ("TemporaryClone", "internal/git/git.go")],
  observe=["all files, modes and links", "temporary files", "standard output", "exit code"],
  technique="exhaustive fault and crash injection at every mutating system call of the real command, stopped with ptrace, and comparison with the states before and of an undisturbed run",
  level="fault_enumeration",
  note="5 trees, 69 commands; 9 kinds of faults for commands that write (3 for others; thorough: all): killed before each call, killed after half of each write, ENOSPC, EIO, EACCES, ENOSPC or EIO from then on, half a write, EINTR; 5,066 disturbed runs, each followed by an undisturbed one. Also format in place of files of 7 kinds (modes, links, two names). The process is killed, not the machine; calls of protoc, git and diff do not fail.")
P(id="P22", title="A command changes nothing but what it is documented to change",
  statement="files, compile, lint, format without -w, generate --dry-run, descriptor-set, break check, x inspect, version and every help and listing change no file, leave no temporary file, and open no connection. format -w and all write only .proto files that they were given and whose content changes, generate and all only below the output directories of plugins, descriptor-set -o and break descriptor-set only their output file, --tmp only the temporary file whose name it prints, create and config init only the files named and directories above them, cache delete only the cache. That holds from every working directory, for every argument, and also if the command fails. An invocation that has an unknown flag or command, a bad value, a missing or superfluous argument, a path that does not exist, contradictory flags or a faulty configuration is refused with a message and a non-zero exit code before anything is written, even with flags that would make it write.",
  over=["inputs", "configurations"], text="every command, combination of flags, argument, working directory and tree, and every invalid invocation",
  why="The tests look at output and exit code; files that were written by mistake, written again without a change, or left behind are not noticed, and few invalid invocations are tried.",
  files=["internal/cmd/cmd.go", "internal/cmd/templates.go", "internal/cmd/flags.go", "internal/exec/runner.go", "internal/protoc/compiler.go", "internal/git/git.go", "internal/diff/diff.go"],
  mech=[("cmdTemplate.Build, getRunner", "internal/cmd/templates.go"), ("lint, Format, BreakCheck, GRPC: checks of flags", "internal/exec/runner.go"), ("makeGenDirs, cmdMeta.Clean", "internal/protoc/compiler.go"), ("TemporaryClone", "internal/git/git.go")],
  observe=["system calls that change files or open connections", "all files before and after, with .git, home, cache and temporary directory", "exit code and output"],
  technique="exhaustive enumeration of trees x working directories x commands x arguments, and of commands x invalid flags, on the real process, stopped with ptrace at every call that changes a file anywhere or opens a connection",
  level="exploration",
  note="6 trees x 5 working directories x 52 commands x up to 14 arguments, and 24 commands x 23 refused flags and arguments (also with others around them), 78 contradictions: 7,900 processes, 8,700 (with more flags and arguments) thorough. What the child processes write is seen in the tree, home, cache and temporary directory.")
P(id="P24", title="grpc sends what it is given, prints what it receives, and says how it ended",
  statement="For methods of all four kinds, every sequence of requests and everything the server does (headers, messages, trailers and status in any order and number, hanging, cutting the connection), grpc calls exactly the method it was given, once, with exactly the messages of the JSON input, in their order, and the headers as given, repeated ones too; it prints every response, once, in order, as the JSON of exactly the message sent, before it waits for anything further, and with --details also headers, status and trailers. It exits with 0 if and only if the call was made, the status is OK, and everything received was printed; otherwise it names the reason: the status, the timeout, the failed output. A request that is not a message of the type, flags that are missing, contradictory or malformed, an unknown method, and a server that does not have the security demanded (TLS, certificate of the CA given, server name, client certificate) are refused; with --tls nothing is sent to a server that is not verified, unless --insecure is given.",
  over=["inputs", "schedules", "faults"], text="every sequence of actions of the server up to the bound, with the requests at once and in lockstep with the server, every number of requests, status and kind; messages of every kind of field; headers; combinations of flags; TLS setups",
  why="The tests call four methods with a well-behaved server that returns no errors, once with details; order, early ends, failures, types other than a string, headers, and everything about TLS but the refusal of flags are not tested.",
  files=["internal/grpc/handler.go", "internal/grpc/invocation_event_handler.go", "internal/grpc/grpc.go", "internal/exec/runner.go", "internal/cmd/flags.go", "internal/desc/desc.go"],
  mech=[("Invoke, dial, decodeFunc, getServiceInfo", "internal/grpc/handler.go"), ("OnReceiveResponse, OnReceiveTrailers, printProtoMessage", "internal/grpc/invocation_event_handler.go"), ("GRPC, newGRPCHandler", "internal/exec/runner.go"), ("SortFileDescriptorSet", "internal/desc/desc.go")],
  observe=["calls, messages and headers at the server", "output and exit code", "the output at every step of the server"],
  technique="exhaustive enumeration of the behaviours of the server (all scripts up to a length) x requests x orders of input and responses, on the real command against a real server that follows the script, with protoc as the reference of the messages",
  level="model_checking",
  note="Scripts over headers, receive, receive to the end, send, trailers up to length 6 (thorough: 8) x 4 statuses x up to 3 requests x lockstep or at once x details; 48 messages; 18 malformed requests at three positions; all sequences of up to 2 (3) of 12 headers; 1,024 combinations of flags; 23 method names x 9 arguments; cut connections and timeouts; failing output; 3 servers x 120 TLS setups: 9,000 calls (thorough: 160,000). Whether an empty response is printed is left open, as is the order of writes within grpc-go.")
P(id="P27", title="A failed or slow look at the file system never yields a partial answer",
  statement="Whatever lookup, directory listing or read of a file or configuration fails (input/output error, no permission, gone in the meantime, too many links), and at whatever point of the walk over the directories --walk-timeout passes, every command either gives exactly the result it gives otherwise or fails and says so: it never continues with some of the files, with the defaults instead of the configuration that it could not look up, or without excludes, and never takes a file that it could not look up for one that does not exist and overwrites it. After a timeout it fails with the message that names the timeout, prints and changes nothing else, and ends without walking further; a walk that takes less than the timeout never times out, one that takes more always does, more time never turns success into a timeout, 0 means no timeout and 3s is the default. This holds for every command that walks.",
  over=["faults", "schedules"], text="every operation on the file system of every command and each way it can fail, every point of the walk at which the timer fires",
  why="No test lets a lookup fail or the timer fire; the moment in which the timer fires just as the walk ends needs a schedule that tests do not control.",
  files=["internal/file/proto_set_provider.go", "internal/settings/config_provider.go", "internal/exec/runner.go", "internal/create/handler.go", "internal/lint/lint.go", "internal/protoc/compiler.go", "internal/cmd/flags.go"],
  mech=[("walkAndGetAllProtoFiles", "internal/file/proto_set_provider.go"), ("getSingleFilePathForDir, get, getExternalConfig", "internal/settings/config_provider.go"), ("checkFilePath", "internal/create/handler.go"), ("Init, getMeta", "internal/exec/runner.go")],
  observe=["exit code and output", "all files", "operations after the timeout, in virtual time"],
  technique="exhaustive enumeration of the points at which the timer fires, on the real command in virtual time (testing/synctest; every operation on the file system takes one second), and exhaustive fault injection at every lookup, open, listing and read of the process",
  level="model_checking",
  note="All trees of up to 4 entries (thorough: 5) of 5 kinds up to depth 2 and two large ones for files, with and without --config-data, and the 19 commands that walk on a full tree: the timer at every half second of virtual time from the start of the walk to the end of the command. Faults: 26 commands, every operation on every path (9,000 executions). The operations are instrumented in package os, laid over the standard library at build time. Reads of protoc itself do not fail.")
P(id="P30", title="Concurrent parts of a command share nothing without synchronization",
  statement="A command runs protoc for several directories and plugins at once, waits for signals, walks under a timer and pipes data to other programs. Whatever the outcome of each protoc, the order in which they end (also all at once), the moment at which SIGINT or SIGTERM arrives or the walk times out, no two goroutines of the command access the same memory without an order between them unless both read, so that no result, message or verdict depends on how the scheduler runs them; and the printed result is the same for every order.",
  over=["schedules"], text="every order of the ends of the protoc processes, every set of them that ended before a signal, every point of the walk at which the timer fires",
  why="A missing lock corrupts or loses a result in one run of many thousands; the tests run one schedule, without the race detector, with protoc processes that succeed.",
  files=["internal/protoc/compiler.go", "internal/file/proto_set_provider.go", "internal/exec/runner.go"],
  mech=[("Compile, runCmdMeta", "internal/protoc/compiler.go"), ("walkAndGetAllProtoFiles", "internal/file/proto_set_provider.go"), ("cmdMeta.execCmd", "internal/protoc/compiler.go")],
  observe=["conflicting accesses without happens-before order", "output and exit code"],
  technique="exhaustive exploration of the schedules of the protoc processes, signals and the timer on the real command, each execution decided by a happens-before monitor (race detector) for all interleavings with the same synchronization",
  level="model_checking",
  note="8 commands x 2 or 3 directories x up to 5 outcomes for each invocation x all orders and all at once; signals for every set of ended invocations; more invocations than cores; the timer at 240 points of the walk; 13 commands with the real protoc over 1 to 6 directories. 3,200 executions. The stand-in protoc processes block until the schedule lets them end.")
P(id="P28", title="Every lint rule reports exactly the violations it documents",
  statement="For every valid file and each of the 96 documented rules, lint reports the rule at a line of a file if and only if what is defined at that line violates the rule as docs/lint.md and the style guides describe it, wherever the definition stands (top level, nested, in a oneof, an extend, behind or before a service, documented or not), whatever else the file or the other files of its directory contain. Rules about a whole file or directory are reported once for each file concerned. lint exits non-zero if and only if it reports something.",
  over=["inputs"], text="every file that can be built of the kinds of definitions, names, types, comments, options, imports and nesting",
  why="The tests have one or two golden files for each rule; the combination of rules, places and other definitions around a violation is not reached, nor are the rules shown to be silent where they should be.",
  files=LINT + ["docs/lint.md", "internal/lint/check_request_response_types_after_service.go", "internal/lint/check_enum_field_prefixes.go", "internal/lint/check_file_options_equal.go"],
  mech=[("AllLinters, the linters", "internal/lint/lint.go"), ("runVisitor", "internal/lint/base_visitor.go"), ("the visitors of each rule", "internal/lint/check_*.go")],
  observe=["prototool lint --json", "exit code"],
  technique="exhaustive enumeration of sources over products of names, kinds, places, comments, options and service structures, alone and in ordered pairs, against an independent reference of all rules, on the real command",
  level="exploration",
  note="22,000 directories of one to three files, each judged by all 96 rules at once; 1,200 ordered pairs of representative files in one directory. Three known findings (groups, comments at braces, package-qualified request types). Trusts the reference of the rules.")
P(id="P20", title="descriptor-set gives the descriptors of exactly the selected files",
  statement="The set that descriptor-set writes contains one descriptor for each selected file, with --include-imports also for everything these import, each equal to what one run of protoc over all the files gives, with source information if and only if --include-source-info. Standard output, -o, --tmp and --json carry the same set, nothing else is written or printed, and a file that existed is replaced entirely. break descriptor-set is the set with imports. If a file does not compile or the flags contradict each other, the exit code is non-zero and no file is created or changed.",
  over=["inputs", "configurations"], text="every import graph, content of files, selection of files, flags and output mode",
  why="The tests have one directory and one set of flags, and compare the list of names; no merge over packages that share imports, and no output that exists or cannot be produced.",
  files=["internal/exec/runner.go", "internal/desc/desc.go", "internal/protoc/compiler.go", "internal/cmd/templates.go"],
  mech=[("DescriptorSet, BreakDescriptorSet", "internal/exec/runner.go"), ("MergeFileDescriptorSets", "internal/desc/desc.go"), ("getCmdMetas, getFileDescriptorSet", "internal/protoc/compiler.go")],
  observe=["prototool descriptor-set", "prototool break descriptor-set", "files", "exit code"],
  technique="exhaustive enumeration of import graphs, contents, selections, flags and output modes against one run of protoc, on the real command",
  level="exploration",
  note="All 543 acyclic import graphs over four files in three directories (thorough: over five files) with plain and public imports, 17 trees with every kind of descriptor content x all flags x eight output modes, five working directories x five targets x six excludes, all triples of five file states for failures. The sets with imports are also read back by protoc. As JSON, values of custom options are left out (they are not representable without their definitions).")
P(id="P21", title="inspect prints exactly the graph of imports between packages",
  statement="inspect packages prints the packages of the selected files and of everything they import, each once, sorted. package-deps --name P prints exactly the other packages that a file of P imports directly, package-importers --name P exactly those that import P directly, each the inverse of the other, sorted, whatever files and directories the packages are spread over, publicly imported or not, including the well-known types. A missing or unknown name is an error, and so is a file that does not compile.",
  over=["inputs"], text="every import graph, partition of files into packages, layout and selection",
  why="The tests of reflect and extract load one fixture each; the inspect commands are not run on any graph with cycles of packages, packages spread over directories, or selections.",
  files=["internal/reflect/reflect.go", "internal/extract/extract.go", "internal/exec/runner.go", "internal/strs/strs.go"],
  mech=[("populateDependencies", "internal/reflect/reflect.go"), ("newPackageSet", "internal/extract/extract.go"), ("InspectPackages, InspectPackageDeps, InspectPackageImporters", "internal/exec/runner.go")],
  observe=["prototool x inspect packages", "prototool x inspect package-deps", "prototool x inspect package-importers", "exit code"],
  technique="exhaustive enumeration of acyclic import graphs x partitions into packages x layouts x kinds of imports x selections, all queries asked, on the real command",
  level="exploration",
  note="All 543 acyclic graphs over four files x partitions (quick: three partitions; the 64 ordered graphs with all 15) in three layouts, with public imports and well-known types, with targets, excludes and working directories; 8,500 trees and some 65,000 queries. Names are prefixes of each other. Files without a package (refused) are out of scope.")
P(id="P18", title="A protoc in the cache is complete or absent, after crash, fault or race",
  statement="Whenever the process that downloads protoc is killed, a file operation fails or writes only a part, the archive is cut or corrupt, or several prototools start at once, no command ever uses an incomplete protoc: a command succeeds only with the complete tree of its own version, and the next command that is not disturbed succeeds without manual repair, whatever earlier runs left behind. A version that is complete is never replaced or damaged, several processes do not disturb each other, other versions stay as they are, and a fault that makes an installation impossible is reported with a non-zero exit code.",
  over=["crash points", "faults", "schedules"], text="every crash point, fault of a file operation, and schedule of two processes that start from every state of the cache",
  why="The tests download once to an empty directory, or use what is installed; nothing is killed, no operation fails, and no two processes run.",
  files=["internal/protoc/downloader.go", "internal/exec/runner.go"],
  mech=[("Download, cache, download, checkDownloaded", "internal/protoc/downloader.go"), ("flock of the version", "internal/protoc/downloader.go")],
  observe=["tree of the cache after every explored run", "prototool cache update", "prototool compile", "exit code"],
  technique="stateless exploration of the real process under a ptrace scheduler: kill before every mutating system call, every fault at every call, every pair of preemption points of two processes",
  level="model_checking",
  note="3,296 executions: from six states of the cache, kill at every call, half writes, ENOSPC, EIO and EACCES at every call, pairs of crashes, all schedules of two processes with a preemption at every pair of calls and a kill while the other waits, archives cut or corrupted at every interesting place. Process crash, not power loss (no lost page cache). linux/amd64.")
P(id="P19", title="Which protoc is used, where it is installed, and what is deleted",
  statement="A command uses the protoc of the configured version (or the default), that of --protoc-url, or the one at the protoc path that is set (flags before environment), never that of another version or URL, and refuses contradictory or unusable settings. It is requested once from its documented URL, installed below the cache path in effect (flag, PROTOTOOL_CACHE_PATH, XDG_CACHE_HOME, HOME), exactly as in the archive, and nothing outside is written, whatever names the archive contains. An answer that is not a complete archive of the right version makes the command fail with a message that names what failed, and nothing is left that a later command would use. cache delete deletes the default cache and nothing else, even if a custom cache path is set.",
  over=["inputs", "configurations", "histories"], text="every archive, answer of the server, combination of flags and environment, and sequence of commands",
  why="The tests compute a few paths; no archive, status, deletion, or second version or URL is ever run, since there is no network.",
  files=["internal/protoc/downloader.go", "internal/exec/runner.go", "internal/cmd/templates.go", "docs/protoc.md"],
  mech=[("downloadInternal, unzip, getDownloadData, getProtocURL", "internal/protoc/downloader.go"), ("getBasePath, getDefaultBasePath", "internal/protoc/downloader.go"), ("Delete", "internal/protoc/downloader.go"), ("newDownloader", "internal/protoc/downloader.go")],
  observe=["requests", "trees of the caches and of everything beside them", "which protoc ran", "exit code"],
  technique="exhaustive enumeration of archives, answers, settings of flags and environment, and all command histories up to a depth, on the real command with a scripted HTTP transport",
  level="exploration",
  note="7,956 cases: archives with all pairs (thorough: triples) of 35 hostile and harmless names; 16 statuses x 7 bodies x 7 URLs x 9 commands; all combinations of cache path settings x versions; of bin and WKT paths as flags and environment; cache delete with all environments, as a user without rights; all histories of three (thorough: five) of ten commands with different versions, URLs and deletion.")
P(id="P31", title="Options and environment variables mean the same for every command",
  statement="The common settings (cache path, protoc and WKT path, protoc URL, config data, error format, JSON, walk timeout, debug) have the same documented effect with every command that takes them, alone and in every combination: a flag wins over its environment variable, which wins over the default; an empty flag is as none; config data replaces any configuration file; contradictory ones are refused before anything is requested, run or changed. It never matters how options are written: long or short or several short ones in a word, with a blank or an equals sign, before or behind the argument, in which order, repeated (the last counts), or a switch or value spelled out as what it is by default. --debug adds to standard error only. version prints the version and the defaults that are in effect.",
  over=["inputs", "configurations"], text="every command, combination of the sources of its settings, subset of its flags, and way to write them",
  why="Each of the 17 commands binds its flags on its own, about 140 times; the tests give a handful of these to one command each and set no environment variable, so that a flag that is missing, bound to another field, or loses against the environment for one command is not seen.",
  files=["internal/cmd/flags.go", "internal/cmd/templates.go", "internal/cmd/cmd.go", "internal/exec/exec.go", "internal/exec/runner.go"],
  mech=[("the bind methods", "internal/cmd/flags.go"), ("the command templates, getRunner, getLogger", "internal/cmd/templates.go"), ("runner.newDownloader, newGetter, newCompiler, newProtoSetProvider", "internal/exec/runner.go"), ("Version", "internal/exec/runner.go")],
  observe=["requests, which protoc ran, where it was installed", "standard output and error, exit code, tree"],
  technique="exhaustive enumeration of the sources of all common settings x commands x four ways to write them against a reference, and of all subsets of up to two (thorough: three) own flags of each command x all ways to write them against each other, on the real command",
  level="exploration",
  note="3,972 cases, 43,000 runs: 13 commands x 5 sources of the cache path x 5 of the protoc path x config data x URL x error format x JSON x others; 15 commands with 45 own flags in up to seven spellings, in a tree that compiles and one that does not; 8 commands with a protoc that works, also for the old state of break check. What single flags do is the subject of the properties of their commands; the flags of grpc alone are part of P24. Values that are refused are part of P22.")
P(id="P32", title="all is compile, format, generate and lint, each on what the last one left",
  statement="Whatever the files, configuration, switches, argument and working directory, all prints, writes and ends exactly as compile, format -w (with --fix if it is given, not at all with --disable-format), generate and lint (not at all with --disable-lint) do one after the other, up to the first of them that fails: what is generated is that of the formatted and fixed files, nothing is formatted if something does not compile, nothing is generated if something cannot be formatted or no longer compiles, and what was formatted and generated stays if lint fails. After it succeeded, each of its steps and all itself succeed silently and change nothing.",
  over=["inputs", "configurations", "histories"], text="every state of the files of two directories, set of plugins and rules, combination of switches, argument and working directory",
  why="The tests run all on files on which every step succeeds without a change, so neither the order of the steps, nor what the next step sees, nor where it stops is decided by them.",
  files=["internal/exec/runner.go", "internal/cmd/templates.go"],
  mech=[("All", "internal/exec/runner.go"), ("format, formatFile, lint, compile", "internal/exec/runner.go"), ("Compile", "internal/protoc/compiler.go")],
  observe=["standard output, exit code, complete tree", "the same of the single commands"],
  technique="exhaustive enumeration of the states of two directories x plugins x rules x switches x arguments, all compared with the sequence of the commands that it stands for, on the real command",
  level="exploration",
  note="9,300 cases (thorough: 57,600), 47,000 commands: 10 states of each of two directories (one may import the other), 4 configurations of plugins, 3 of lint, all switches, 5 arguments. Plugins whose output shows the layout of the source and the options that --fix changes, one that is missing and one that cannot write. What the single commands do is the subject of their own properties.")
P(id="P23", title="Failures are printed in the form asked for, by every command",
  statement="Whatever command meets them, from whatever directory and argument, failures are printed to standard output, one on each line, sorted, with exactly the fields of --error-format in its order (filename, line, column and message by default; only the message for break check), joined by colons; a file that is not known is <input>, a line or column that is not known 1, an empty id or message left out with its colon. With --json, each is one JSON object with these values, whatever the format, also for the old state of break check. Text of any kind survives. The exit code is not zero in any form. A format that names something else is refused instead of printing failures, --debug changes neither output nor exit code, and a file that cannot be parsed is named.",
  over=["inputs", "configurations"], text="every failure, text, format, command, argument and working directory",
  why="The tests call the printer with a few formats; no command is run with --error-format, JSON, or messages with colons, percent signs or control characters.",
  files=["internal/text/text.go", "internal/exec/runner.go", "internal/cmd/templates.go", "internal/format/transformer.go"],
  mech=[("Fprintln, ParseColonSeparatedFailureFields, SortFailures", "internal/text/text.go"), ("printFailuresForErrorFormat, cloneForWorkDirPath", "internal/exec/runner.go")],
  observe=["standard output and standard error", "exit code"],
  technique="exhaustive enumeration of all formats of up to three (thorough: four) fields x kinds of failures x commands x arguments x working directories, against an independent rendering, on the real command",
  level="exploration",
  note="1,672 cases, 42,000 different combinations of failures, command, argument, directory and format. Failures of protoc (real and stand-in), lint, format -l, break check against a file and against git; 20 commands. Whether a colon stands before an empty last field is left open. Which failures there are is the subject of P09, P14, P16 and P28.")
