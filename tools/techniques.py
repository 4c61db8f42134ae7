BASE = ('Sound for the abstract semantics of the analysis (SSA of every function reached, all paths, loops by widening, calls into other modules by model) '
        'up to the assumptions listed in the evidence; not a machine-checked proof.')
TECH['C18'] = ('path-sensitive error-flow (typestate) analysis over SSA', BASE)
TECH['C01'] = ('typestate analysis of the claim/run protocol over all SSA paths, with call-graph search for other invokers and writers', BASE)
TECH['C02'] = ('for-all loop obligations and error-flow analysis over SSA, captured-variable race lint', BASE)
TECH['C03'] = ('typestate analysis of the gate protocol over SSA', BASE)
TECH['C05'] = ('path-sensitive typestate/dataflow analysis of Files.Run over SSA', BASE)
TECH['C06'] = ('path-sensitive typestate/dataflow analysis of Files.Run plus call-graph search for other writers of the hash database', BASE)
TECH['C07'] = ('dataflow from every field and file content into the hash (field coverage over types, loop-composition analysis over SSA)', BASE)
TECH['C08'] = ('for-all loop obligations over SSA from registration to prerequisite run', BASE)
TECH['C04'] = ('typestate analysis of the composite Run methods over SSA, with constructor/registration dataflow', BASE)
TECH['C09'] = ('effect analysis: no effectful call is reachable on a path where dry-run mode is not known to be off; for-all obligations on visited parts', BASE)
TECH['C20'] = ('provenance dataflow of every removed path and for-all loop obligations over SSA', BASE)
TECH['C23'] = ('symbolic-term dataflow over SSA: composition of every With path with every Get path', BASE)
TECH['C26'] = ('path-sensitive dataflow over SSA with per-iteration outcome classification', BASE)
TECH['C31'] = ('typestate and dataflow over SSA for the registry functions, call-graph search for other writers of the maps', BASE)
TECH['C32'] = ('inductive loop-specification matching over SSA', BASE)
TECH['C19'] = ('static lockset analysis (guarded-location inference, lock order, held-lock effects) over all paths of the SSA', BASE)
TECH['C10'] = ('path-sensitive typestate over Main.getDriver: guards of every reuse path, order and provenance of every record written', BASE)
TECH['C11'] = ('path-sensitive typestate and path-provenance dataflow over CompilePackage', BASE)
TECH['C15'] = ('path-sensitive typestate and dataflow over Command.Run: destinations of the streams at the start of the process, open/close pairing on every exit', BASE)
TECH['C16'] = ('path-sensitive dataflow over Command.Run: provenance of the process and of the error returned', BASE)
TECH['C12'] = ('path-provenance dataflow over every registered YAML decoder (SSA): each path-valued field is traced to its setting and to the directory it is resolved against', BASE)
TECH['C13'] = ('path-sensitive typestate over ReadYAML, the node decoders and the list functions: a success exit is only reachable when every node was of the right kind; error-flow analysis', BASE)
TECH['C14'] = ('typestate over ReadYAMLFile and YAMLTarget (mark before reading, unmark on every exit, no read of a marked file) and a well-founded-recursion check of the call graph', BASE)
TECH['C17'] = ('settings-to-result dataflow over every registered YAML decoder (SSA): every decoded field reaches the right part of the target on every success path', BASE)
TECH['C36'] = ('dataflow from entries of the document to registrations and from references to look-ups (SSA)', BASE)
TECH['C21'] = ('path-sensitive dataflow over the database operations (SSA) with a parser for the SQL text: effect of every statement on every path, parameters matched with arguments', BASE)
TECH['C24'] = ('provenance dataflow over the SSA of Main, of Main.getDriver and of the rendered driver program: each option is traced to the flag that carries it and from the flag back to its effect', BASE)
TECH['C22'] = ('path-sensitive dataflow over CompilePackage (SSA) with for-all loop obligations; the driver template is rendered for sample targets, type-checked, and its main function analysed in the same way', BASE)
TECH['C25'] = ('path-sensitive dataflow over TopDir and its helpers (SSA): upward walk as an inductive loop specification, typestate of the look-ups in each directory, error-flow analysis', BASE)
TECH['C28'] = ('for-all loop obligations and provenance dataflow over golang.Deps and its recursive traversal (SSA); mode bits compared with the fields used', BASE)
TECH['C29'] = ('for-all loop obligations over proto.Deps and its recursive scan (SSA), typestate of each look-up; the regular expression extracted from the source is compared with a table of import statements', BASE)
TECH['C35'] = ('provenance dataflow over golang.Binary, ts.Decls, proto.Proto and the ts.Decls subtarget (SSA): declared inputs and outputs compared with the words of the command, for-all loop obligations', BASE)
TECH['C30'] = ('transition-table extraction from the SSA of the Write loop by path-sensitive dataflow, compared with a finite specification automaton over all byte values and reachable states; store-and-call discipline for the nesting depth', BASE)
TECH['C33'] = ('go:embed patterns evaluated on the source tree and compared with the file sets of the packages a driver can import; for-all loop obligations over the recursive copying function (SSA)', BASE)
TECH['C34'] = ('path-sensitive dataflow over SSA: per accepting path, the equations, recursive comparisons and for-all loop obligations established are matched with the requirements of each type constructor; rejecting paths must rest on the negation of one', BASE)

TECH['C27'] = ('path-sensitive dataflow over SSA from every entry point: index and slice bounds in a difference-bound domain with remainders and loop invariants, nilness and dynamic types by path facts, results and their errors or found-flags correlated', BASE)
