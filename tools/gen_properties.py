#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

p("C01", "A controller runs each target at most once, whatever the schedule",
  "However many times, under whatever names, and from however many goroutines a target is requested from one Controller, the target's Run method is invoked at most once by that controller, and every request gets the outcome of that one invocation. "
  "Two different targets are never mistaken for one another during the life of the controller. "
  "Nothing in fab invokes a target's Run method except the controller's own Run.",
  ["schedules", "histories", "programs"], "all interleavings of Run calls, all target graphs, all controller lifetimes (including garbage collection between calls)",
  "runner tests sample a few fixed graphs on one schedule; none races two requests, mixes names with direct references, or lets a target be collected",
  ["runner.go", "controller.go", "yaml.go", "register.go"],
  [("look-up-or-insert of the outcome in one critical section", "runner.go Controller.Run"), ("name references resolved before the outcome is looked up", "runner.go Controller.Run"), ("outcome keeps its target alive", "runner.go outcome")],
  ["Target.Run invocation counts", "error returned by Controller.Run"],
  [{"name": "ran", "meaning": "targets that have run or are running, keyed by identity", "where": "controller.go"}])

p("C02", "Run waits for every requested target and reports every failure",
  "Controller.Run returns only after every target passed to it has finished. "
  "It starts every target it is given even if others fail, and its result is nil exactly when all of them succeeded; otherwise the result includes the error of every target that failed, including targets that cannot be resolved or identified.",
  ["schedules", "inputs", "fault_sequences"], "every number of targets, every subset of them failing, every interleaving",
  "tests run one or two targets with at most one failing",
  ["runner.go"], [("WaitGroup pairing", "runner.go Controller.Run"), ("one error slot per target joined at the end", "runner.go Controller.Run")],
  ["return of Controller.Run"])

p("C03", "A request for a running target blocks until it finishes, then proceeds",
  "A goroutine waiting for a target that another goroutine is running stays blocked until that run has finished and its outcome has been stored, and is then always released, however many goroutines wait and whenever they arrive. "
  "A wait that starts after the finish does not block.",
  ["schedules"], "every number of waiters and every interleaving of waiting and opening",
  "the gate test has a single waiter and one interleaving",
  ["gate.go", "runner.go"], [("condition variable protocol", "gate.go set/wait"), ("outcome stored before the gate opens, on every path", "runner.go Controller.Run")],
  ["Controller.Run blocking behaviour"])

p("C04", "Composite targets run their parts as documented",
  "Seq runs its parts one after another in the given order and stops at the first failure, returning it; All asks the controller for all its parts in one concurrent request; Deps runs all its dependencies, and only when they succeeded its main target. "
  "ArgTarget runs its target with exactly its arguments in the context, and a reference by name runs the target registered under that name or fails. "
  "An F target calls its function with the context and controller it was run with and returns its result. Each of them runs parts only through the controller and returns their failure.",
  ["inputs", "programs", "fault_sequences"], "all part lists and all failure patterns",
  "tests use two or three parts and one failure position",
  ["seq.go", "all.go", "deps.go", "argtarg.go", "yaml.go", "f.go"], [("Run methods of the composite targets", "seq.go, all.go, argtarg.go, yaml.go")],
  ["order of Target.Run invocations", "returned error"])

p("C05", "Files skips its subtarget only when it is known to be up to date",
  "A Files target returns success without running its subtarget only if the hash database in the context answered that it has the hash of the current rule and files, computed after its prerequisites ran, and neither force nor dry-run mode is on. "
  "In every other case it either runs the subtarget through the controller or returns an error. "
  "A failure to compute the hash, to query the database, of a prerequisite, or of the subtarget is returned.",
  ["inputs", "configurations", "fault_sequences", "histories"], "all combinations of modes, database answers, and failures at every step",
  "tests cover one database, no failing database or file system, and few mode combinations",
  ["files.go", "hash.go"], [("Files.Run control flow", "files.go")], ["whether the subtarget ran", "error"])

p("C06", "Files records a target as up to date only after a successful run",
  "An entry is added to the hash database only by a Files target whose subtarget has just run successfully outside dry-run mode, and that entry is the hash recomputed from the files as they are after that run. "
  "After a successful run with a database outside dry-run mode the entry is always added, also in force mode, and a failure to compute or add it is returned.",
  ["inputs", "configurations", "fault_sequences"], "all failures of subtargets and databases, all modes",
  "no test fails a subtarget with a database in place or fails the database",
  ["files.go"], [("Files.Run control flow", "files.go")], ["HashDB.Add calls"])

p("C07", "The Files hash covers the whole rule and all file contents",
  "The hash of a Files target depends on the type and every setting of its subtarget except the Go values (readers, writers, functions) in a Command or F target (for built-in targets, recursively through composite targets and references by name), and on the name and full content, or absence, of every input and output file, with directories walked recursively. "
  "Inputs and outputs are distinguished, and the order and repetition of names in the lists do not matter. "
  "A file that cannot be examined or read makes the computation fail.",
  ["inputs", "programs", "configurations"], "all rules, file lists, file contents and file-system errors",
  "hash tests compare a handful of rules and files",
  ["files.go", "command.go", "all.go", "seq.go", "argtarg.go", "yaml.go", "ts/tsdecls.go"],
  [("hashed structure", "files.go computeHash"), ("file walk", "files.go fileHashesItemHelper"), ("JSON-visible fields of targets", "command.go, all.go, seq.go, argtarg.go, yaml.go")],
  ["bytes passed to HashDB"])

p("C08", "Files targets run the producers of their inputs first",
  "Every output of every Files target is remembered as produced by that target, and when a Files target runs, each input that is such an output (or lies under one that is a directory other than the project's root) makes its producer run to success before anything else happens; a failing producer stops the target. "
  "A target that lists one of its own outputs as input does not wait for itself.",
  ["programs", "inputs"], "all sets of Files targets and path relationships",
  "one test chains two targets by identical names",
  ["files.go"], [("files registry", "files.go Files, findInFilesRegistry"), ("runPrereqs", "files.go")], ["order of target runs"])

p("C09", "Dry-run mode has no side effects from built-in targets",
  "In dry-run mode no target that fab supplies creates, truncates, writes or removes a file, starts a subprocess, or consults or updates the hash database when it runs. "
  "Composite and Files targets still visit their subtargets in dry-run mode, with the mode intact.",
  ["inputs", "programs", "configurations"], "all built-in targets, all their settings, all paths through their Run methods",
  "tests use dry-run for single settings of single targets",
  ["command.go", "clean.go", "files.go", "ts/tsdecls.go", "golang/go.go", "proto/proto.go"], [("GetDryRun guards", "Run methods")], ["file system, processes, HashDB"])

p("C10", "A driver is reused only if it matches the user's code and fab version",
  "An existing driver binary is used without recompiling only if force is off, the binary is present, the recorded fab build info matches the running fab, and the recorded hash matches every Go source file of the user's package. "
  "Recompiling is followed by recording the new hash and build info so that an unchanged project reuses the driver next time, and a hash is never left on record for a binary it does not describe, even if fab stops part-way. "
  "Failures to load, hash, compile or record are reported, not ignored.",
  ["inputs", "histories", "crash_points", "fault_sequences", "configurations"], "all histories of edits, upgrades, forced runs and interruptions",
  "tests compile one driver from a clean state with the version check off",
  ["main.go", "dirhash.go"], [("getDriver decision", "main.go"), ("order of invalidation, install and record", "main.go")], ["whether CompilePackage runs", "hash and version files"])

p("C11", "Compiling a driver installs a complete binary or nothing, and cleans up",
  "The destination of a driver is touched only by one final rename of the finished build result, after every step (load, copy, generate, go mod init/tidy, go build) has succeeded; any earlier failure is returned and leaves the destination alone. "
  "All intermediate files go into a fresh temporary directory that is removed on every way out.",
  ["crash_points", "fault_sequences", "inputs"], "failure at every step",
  "compile tests only exercise the success path",
  ["compile.go"], [("temp dir and final rename", "compile.go CompilePackage")], ["binfile, temp dir"])

p("C12", "Relative paths in YAML are resolved against the YAML file's directory",
  "Every path-valued field of every built-in YAML tag (input, output, include and deleted files, working directories, package directories, redirection files) is resolved by the controller against the directory of the YAML file that contains it, absolute paths staying as they are. "
  "This holds for every built-in tag and both mapping and sequence forms.",
  ["inputs", "configurations"], "all YAML documents in all directories, absolute and relative topdirs",
  "YAML tests check a few fields, mostly in the top directory",
  ["yaml.go", "command.go", "files.go", "clean.go", "golang/go.go", "proto/proto.go", "ts/tsdecls.go"], [("JoinPath(dir, field)", "decoders")], ["paths in the resulting targets"])

p("C13", "Malformed YAML is reported, never silently accepted",
  "A node of the wrong kind, an unknown tag, an unresolvable reference, an undecodable field, a slash in a target name, a missing or mismatching _dir declaration, or an error in any nested target or list makes reading the YAML fail. "
  "Only the absence of the top-level YAML file itself is tolerated by the fab command and by the driver; a problem inside it or in a file it refers to is not.",
  ["inputs", "fault_sequences"], "all YAML documents",
  "one test feeds a few malformed documents",
  ["yaml.go", "all.go", "seq.go", "deps.go", "argtarg.go", "clean.go", "files.go", "command.go", "golang/go.go", "proto/proto.go", "ts/tsdecls.go", "main.go", "driver.go.tmpl"], [("decoder checks", "every registered YAML function")], ["error from ReadYAML/ReadYAMLFile/Main.Run"])

p("C14", "Loading YAML files terminates and reads no file into itself",
  "Reading YAML terminates for every set of files, also when files refer to targets in each other's directories or in their own. "
  "A reference to a target of a file that is still being read is resolved by name when it is needed.",
  ["inputs", "programs"], "all graphs of references between YAML files",
  "the subdirectory test has an acyclic chain of files",
  ["yaml.go", "controller.go"], [("in-progress tracking", "yaml.go ReadYAMLFile")], ["termination of ReadYAMLFile"])

p("C15", "Command output and input go where they were asked to go",
  "A Command's standard output and error go to the writer, function or file its fields name, files being created and overwritten, or appended to with the >> prefix, and both streams sharing one open file when they name the same file; with no destination they are shown indented in verbose mode and otherwise captured. "
  "Standard input comes from the given reader or file. "
  "Every file or closer opened for this is closed on every way out, and failing to open or close a written file is reported.",
  ["inputs", "configurations", "fault_sequences"], "all combinations of the stream fields and modes, failures at each open/close",
  "command tests try a few destinations",
  ["command.go"], [("stream set-up", "command.go Command.Run")], ["streams of the subprocess"])

p("C16", "Command runs exactly the command described and reports its failure",
  "Command.Run starts one subprocess under the given context: Cmd with Args if Cmd is set and otherwise $SHELL (or /bin/sh) -c with the Shell string, in Dir, with fab's environment extended by Env. "
  "Success is returned only if the process ran and succeeded (or in dry-run mode); its failure is returned together with any captured output, still wrapping the underlying error.",
  ["inputs", "configurations", "fault_sequences"], "all settings of the fields",
  "command tests run a few fixed commands",
  ["command.go"], [("exec.CommandContext set-up", "command.go Command.Run")], ["subprocess argv, env, dir", "error"])

p("C17", "The settings of a YAML node all reach the resulting target",
  "Every field documented for a built-in YAML tag is decoded under its documented name and takes effect in the target or list produced: subtargets, files, arguments, flags, options, redirections (including the $stdout, $stderr, $indent, $verbose, $discard, $stdin and >> forms) and Autoclean. "
  "A list-valued Shell becomes a sequence of otherwise identical commands in order, the second and later appending to the output files.",
  ["inputs"], "all field combinations of all built-in tags",
  "tests decode single examples of some tags",
  ["command.go", "files.go", "clean.go", "deps.go", "all.go", "seq.go", "argtarg.go", "golang/go.go", "proto/proto.go", "ts/tsdecls.go"], [("decoders", "registered YAML functions")], ["resulting targets"])

p("C18", "Errors are never dropped",
  "Every error produced by an operation whose failure can affect the result (file system, subprocess, database, hashing, encoding, loading, YAML, registration, running targets) is returned to the caller, possibly wrapped, on the path where it occurs, or is handled by one of the documented tolerances (a file that is allowed not to exist, closing something only read, best-effort output). "
  "No function returns success on a path where such an operation failed.",
  ["fault_sequences", "inputs"], "failure of every fallible operation in the module",
  "tests inject almost no failures",
  ["*.go", "golang/go.go", "proto/proto.go", "sqlite/db.go", "ts/tsdecls.go", "cmd/fab/main.go", "driver.go.tmpl"], [("error propagation", "all functions")], ["returned errors"])

p("C19", "Shared state is accessed only under its lock, and locks are always released",
  "Every access to the controller's run table, registries and depth, to the process-wide registries, to the autoclean set, to a gate's state and to a named reference's resolution happens while holding the lock that protects it. "
  "Every lock is released on every way out, no lock is acquired while already held, locks are never nested in conflicting orders, and no target, user callback, subprocess or wait on another target runs while one is held.",
  ["schedules", "programs"], "all interleavings and call paths",
  "tests rarely run with the race detector and touch few interleavings",
  ["runner.go", "register.go", "registry.go", "controller.go", "clean.go", "files.go", "gate.go", "yaml.go"], [("mutex protocols", "listed files")], ["data races, deadlocks"])

p("C20", "Clean removes exactly the listed files",
  "Clean removes each file in its list, plus each registered autoclean file when (and only when) its Autoclean option is set, and nothing else; missing files are skipped and do not stop the rest, and the first other failure is returned. "
  "Outputs are put in the autoclean registry exactly for Files targets created with Autoclean(true). "
  "Running Clean never changes the target's own definition.",
  ["inputs", "histories", "fault_sequences"], "all lists, registries and failing removals",
  "the clean tests remove two files",
  ["clean.go", "files.go"], [("Clean.Run", "clean.go"), ("Autoclean", "files.go")], ["os.Remove calls"])

p("C21", "The SQLite hash database answers correctly and evicts only what is old",
  "After Add(h) succeeds, Has(h) reports true until the entry is evicted, and Has never reports true for a hash that was not added; Add of a present hash refreshes its access time, and Has does so unless that was turned off. "
  "Eviction happens only if a Keep duration was set and only removes entries whose last access is older than it. "
  "Database failures are reported as errors, never as an answer.",
  ["inputs", "histories", "fault_sequences"], "all histories of operations, clock readings and database failures",
  "the db test runs one history with a mock clock",
  ["sqlite/db.go", "sqlite/schema.sql"], [("SQL statements and their arguments", "sqlite/db.go")], ["Has/Add results"])

p("C22", "The generated driver always builds and registers the exported targets",
  "For every valid user package, the driver source that fab generates is a valid Go program that registers every exported variable whose type implements Target, and nothing else, under its own name with its doc comment, and then behaves as documented for its flags. "
  "Documentation text, or its absence, never makes the driver invalid.",
  ["inputs", "programs"], "all user packages: any exported identifiers, docs and file sets",
  "tests compile a single well-behaved package",
  ["compile.go", "driver.go.tmpl", "embeds.go"], [("selection of identifiers", "compile.go CompilePackage"), ("template", "driver.go.tmpl")], ["generated driver.go"])

p("C23", "Context options are independent and default to off",
  "GetDryRun, GetForce, GetVerbose, GetHashDB and GetArgs return exactly what the innermost matching With call stored, unaffected by the other With functions, and false or nil if there was none. ",
  ["inputs", "histories"], "all nestings of the With functions",
  "the context test sets each option once",
  ["context.go"], [("distinct private key types", "context.go")], ["Get results"])

p("C24", "Command-line options have the same effect with and without a driver",
  "The -fab, -v, -list, -f, -n options and the arguments given to fab reach target execution unchanged, whether fab runs driverless or through the driver subprocess, whose flags, top directory and hash database location correspond one to one to the settings of the Main structure. "
  "The driver runs in the top directory with fab's own standard streams, and its failure is fab's failure.",
  ["configurations", "inputs"], "all combinations of options, absolute and relative directories",
  "main tests run one driver without options",
  ["main.go", "cmd/fab/main.go", "driver.go.tmpl"], [("argument construction", "main.go Main.Run"), ("driverless context", "main.go"), ("flag definitions", "driver.go.tmpl")], ["context seen by targets"])

p("C25", "TopDir finds the nearest enclosing project directory or fails",
  "TopDir looks at the given directory and then at each parent in turn, and returns the first that has a _fab subdirectory or is designated by the _dir declaration of a YAML file there (the directory itself if there is no declaration). "
  "A _dir declaration that is absolute or does not match the directory's own path, an unreadable file, or reaching the root yields an error, and the search always ends.",
  ["inputs", "configurations"], "all directory trees and declarations",
  "the top test has three fixed layouts",
  ["top.go"], [("upward walk", "top.go")], ["TopDir result"])

p("C26", "Command-line arguments select the right targets",
  "A list of arguments is turned into the registered targets of those names in the same order, or, when the second argument starts with a hyphen, into the first named target with all remaining arguments. "
  "Every unknown name is reported in the error and then nothing is run; any strings, including empty ones, are accepted without crashing.",
  ["inputs"], "all argument lists and registries",
  "the parse test has a few lists of non-empty names",
  ["controller.go"], [("ParseArgs", "controller.go")], ["ParseArgs result"])

p("C27", "User input and environment conditions never crash fab",
  "For any project, YAML document, argument list, file-system state or command failure, fab's own code reports an error instead of panicking: no result is used on the path where the operation that produced it failed, no absent optional value is dereferenced, and no element is taken from a possibly shorter string or slice.",
  ["inputs", "fault_sequences"], "all inputs to all exported functions other than the documented Must functions",
  "tests use well-formed inputs",
  ["*.go", "golang/go.go", "proto/proto.go", "sqlite/db.go", "ts/tsdecls.go"], [("checks before use", "all functions")], ["panics"])

p("C28", "Go dependency lists include every file that affects the package",
  "golang.Deps returns, sorted and without duplicates, all Go, other and embedded source files of the packages selected by dir and the recursive and tests options and of everything they import, transitively, within the same module. "
  "Load failures and errors of the selected packages are returned; packages without a module are tolerated.",
  ["inputs", "programs"], "all package graphs",
  "one fixed package list",
  ["golang/go.go"], [("packages.Load mode and traversal", "golang/go.go")], ["Deps result"])

p("C29", "Protobuf dependency lists include every transitively imported file",
  "proto.Deps returns, sorted and without duplicates, the given file and every file it imports directly or indirectly (plain, public and weak imports, either quote style, any indentation) that exists in the first include directory that has it, and terminates on import cycles. "
  "An import found nowhere is skipped; any other failure is returned. "
  "",
  ["inputs", "programs"], "all import graphs and include lists",
  "one fixed import graph",
  ["proto/proto.go"], [("import scan", "proto/proto.go")], ["Deps result"])

p("C30", "Indented output is a faithful line-by-line copy",
  "Everything written to the writer returned by IndentingCopier appears in the underlying writer in order, each non-empty line preceded by the indentation for the nesting depth and the prefix (empty lines either all are or none is); CRLF and bare CR become LF, only a final CR is dropped, independently of how the data is split into writes. "
  "The number of bytes reported as written counts input bytes consumed, and write errors are returned. "
  "Data is passed on by the end of each Write call. The nesting depth of a controller is one more during each call of Run and the same as before after it.",
  ["inputs", "histories"], "all byte sequences and all splits into writes",
  "one test with a few strings",
  ["runner.go"], [("per-byte state machine", "runner.go indentingCopier")], ["bytes written"])

p("C31", "The target registry is consistent",
  "After RegisterTarget(name, doc, target) succeeds, the name yields that target and doc and describing the target yields the name, the latest registration winning; unregistered targets are described as unnamed with their own description. "
  "Names are listed sorted, each with its documentation, and a target without pointer identity is refused with an error and not registered.",
  ["inputs", "histories"], "all registration histories",
  "one registration test",
  ["register.go", "controller.go"], [("two maps written together", "register.go RegisterTarget")], ["RegistryTarget, RegistryNames, Describe, ListTargets"])

p("C32", "JoinPath is rooted at the top directory and honours absolute segments",
  "JoinPath returns the last absolute segment joined with everything after it, or, if all segments are relative, the top directory joined with all of them in order. "
  "RelPath is relative to the top directory.",
  ["inputs"], "all segment lists",
  "a few segment lists",
  ["controller.go"], [("JoinPath", "controller.go")], ["JoinPath result"])

p("C33", "The embedded sources are everything a driver build needs",
  "Every package of this module that a driver can import is embedded with all its non-test Go files and every file those embed, so that the copy of fab written next to a driver compiles with the same sources as the running fab. "
  "Copying writes every embedded non-test file, with its full content, to its place in the tree, or fails.",
  ["programs", "configurations"], "all packages and embedded files of the module",
  "one test compares the unpacked tree for today's files, and only one driver is compiled",
  ["embeds.go", "compile.go"], [("go:embed patterns", "embeds.go"), ("populateFabDir", "compile.go")], ["unpacked fab tree"])

p("C34", "Only real targets are recognised as targets",
  "A type is recognised as a target exactly when its method set has every method of the Target interface with the same arity, variadicity, parameter types and result types: a named type is the type of that name in that package, whatever the version of Go defines it as; unnamed types are compared by kind and all their parts. "
  "Any mismatch or unsupported construct is rejected. "
  "Recursive types do not make the comparison loop.",
  ["inputs", "programs"], "all Go types",
  "one positive and one negative type",
  ["types.go"], [("checkImplementsTarget", "types.go")], ["which identifiers the driver registers"])

p("C35", "Built-in compile rules declare what they read and write",
  "The Files target made by go.Binary, ts.Decls and proto.Proto declares as its outputs exactly the files its command is told to write, and as its inputs all dependencies of the sources its command is told to read. "
  "go.Binary's output is always registered for autocleaning and is in the place declared wherever dir leads; an omitted output file defaults to the last element of dir's path. proto.Proto passes every include directory, option and input to protoc. Caller-supplied options and flags are passed on, and the Must variants behave the same or panic.",
  ["inputs"], "all arguments of the constructors",
  "tests compile one example each",
  ["golang/go.go", "ts/tsdecls.go", "proto/proto.go"], [("constructors", "golang.Binary, ts.Decls, proto.Proto")], ["resulting Files target"])

p("C36", "Named targets resolve relative to the YAML file that names them",
  "A target defined in a YAML file is registered under its name qualified by the file's directory, with its comment as documentation, and a reference containing a slash denotes the target of that path relative to the referring file's directory, its file being read when the target is not yet registered. "
  "A reference without slash is resolved by name when it runs, and failing to find a target is an error.",
  ["inputs", "programs"], "all YAML file trees",
  "the subdirs test has one layout",
  ["yaml.go"], [("YAMLTarget and ReadYAML", "yaml.go")], ["registry contents"])

# --- properties outside the reach of static analysis (not_applicable in the manifest) ---
p("C90", "Skipping a build never changes its result",
  "If a Files target is skipped, running its subtarget instead would have produced byte-identical outputs, provided the listed inputs are complete and the command is deterministic.",
  ["inputs", "histories", "programs"], "all commands and file histories",
  "needs the behaviour of arbitrary commands",
  ["files.go"], [("hash comparison", "files.go")], ["output files"])
p("C91", "The hash database survives crashes and concurrent fab processes",
  "Entries added before a crash or by a concurrent fab process are neither lost nor corrupted, and concurrent access yields answers consistent with some order of the operations.",
  ["crash_points", "schedules", "histories"], "all crash points and interleavings of several processes",
  "single process, no crash",
  ["sqlite/db.go"], [("SQLite transactions", "github.com/mattn/go-sqlite3")], ["Has results"])
p("C92", "Cyclic dependencies among targets do not hang fab",
  "Running a target that depends on itself through other targets ends, with an error, instead of waiting forever.",
  ["programs", "schedules"], "all target graphs",
  "no test has a cycle",
  ["runner.go"], [("none", "runner.go")], ["termination of Controller.Run"])
p("C93", "Cancelling the context stops running work promptly",
  "When the context is cancelled, running subprocesses are killed and Run returns within a bounded time.",
  ["schedules", "fault_sequences"], "all cancellation times",
  "no test cancels a context",
  ["command.go", "runner.go"], [("exec.CommandContext", "command.go")], ["time to return"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
