"""how each property is decided: the oracle, in one place for DESIGN.md"""
D = {
"C01": "The encoders run on symbolic arguments; the text they return is split by a symbolic POSIX shell word splitter (quotes, escapes, comments, expansions) and must give the original words.",
"C02": "The make generator's functions, and its writer on whole targets, run on symbolic names, definitions and arguments. A model of make (variables, `$$`, `\\#`, `$(call ...)`, rules) and then of the shell reads the output back.",
"C03": "The ninja writer and generator run on symbolic values; a model of ninja's lexer and variable scopes reads the file back, and the commands go through the shell or Windows argument model.",
"C04": "The encoders run on symbolic arguments and a symbolic CommandLineToArgvW splits the result. Macro expansion is compared with a replacement that reads left to right.",
"C05": "XmlToString on symbolic attribute values and text; a symbolic XML parser (entities, attribute-value normalisation, line-end normalisation) must give the same tree.",
"C06": "ExpandVariables on texts assembled from symbolic and literal pieces with variables of each type; an independent expander written from the documentation gives the expected value or error.",
"C07": "Conditions with symbolic operands and truth values; the oracle is the documented scoping table (outer value, own assignment, default, nested section, condition in either place).",
"C08": "MergeDicts on dictionaries with symbolic strings under every policy suffix; the oracle computes the documented result; aliasing is checked by changing the result and comparing the source.",
"C09": "ProcessListFilters on lists with symbolic items and actions; the oracle applies the filters item by item.",
"C10": "SetUpConfigurations on every inheritance graph with symbolic settings; the oracle merges in documented order.",
"C11": "The path functions on symbolic paths between directory pairs; both sides are resolved against their base and must be the same file.",
"C12": "Round trips of symbolic names and resolution of every accepted spelling of a dependency; wildcard and duplicate handling against set oracles.",
"C13": "Every graph (edges are symbolic booleans) and listing order; the order must be a topological one, and cycles, found by a separate reachability computation, must be errors.",
"C14": "Every graph, type assignment and export list; who must receive a setting is computed as a least fixed point from the documentation.",
"C15": "Every graph and type assignment; the link closure and the build-order closure are computed separately.",
"C16": "Literal trees with symbolic strings are printed in every quoting style and parsed; every other expression kind is put in every position and must be refused.",
"C17": "Each file operation (create, write, compare, chmod, replace, remove) may fail at a symbolically chosen step; the modelled file system must hold the old content or the new, and errors must be reported.",
"C18": "Every graph, set of changed files and request; affected targets come from reachability, what a build builds from the documented rules of each target type.",
"C19": "Pairs of distinct symbolic sources, targets, toolsets, actions and rules; outputs and command names must differ and stay in the build directory.",
"C20": "Every setting of every tool with symbolic values: converted values must be those the new table accepts; guid and sharding functions on symbolic names and counts.",
"C21": "Load runs in parallel mode with a process pool and a condition variable that are stand-ins: which outstanding file completes next, when its callback runs and in which worker are symbolic choices, and any file may fail in several ways. The same files loaded in sequence are the oracle; waiting with nothing outstanding, or on a worker that died, is a hang.",
"C22": "gyp_main runs (argparse interpreted as well) with every option in each of its forms, on the command line and in the environment, with symbolic values; loading is a stand-in that records its arguments. The recorded flags are run again in the depth directory under another environment and must give the same settings and name the same files.",
"C23": "Two or three versions with symbolic numbers and every combination of optional parts, and arbitrary short texts; the order and grammar of PEP 440 are computed separately; totality, transitivity, hash agreement, the normal form and the branch a condition takes are assertions.",
"C24": "Trees of include files over in-memory directories with symbolic settings; expected merges, reads and recorded files are computed from the include relation.",
"C25": "The project's XML tree is captured and interpreted per configuration as MSBuild does (top to bottom, conditions); what it compiles, sets, runs and refers to is compared with a plain reading of the target.",
"C26": "XcodeSettings and its companions run on targets whose settings, names, kinds and tools (stand-ins for xcodebuild, xcrun, security, sw_vers) are symbolic; the flags, paths, variables and commands are compared with tables of what each setting means and with plain readings of the documentation.",
"C27": "The writer is run on symbolic strings and trees and its text is read by a reader of property lists; the whole generator is run on targets with symbolic names, sources, definitions and commands, and the object graph is compared with what a plain reading of the targets says; commands go through the shell and make models.",
"C30": "The real install runs in a modelled world (network, tar, streams, file system) with symbolic contents and checksum lines; success must imply equality of every listed digest.",
"C31": "The same world with a failure at any operation (symbolic step index) and any earlier state; what is left and whether the marker is written is asserted.",
"C32": "Symbolic version strings through remove and install; every path given to the file system must be the directory of that version below the development directory.",
"C33": "Symbolic version numbers, prerelease tags, options and release data through processRelease; URLs are compared with the layout table.",
"C34": "configure runs with every platform, option combination, existing-file pattern and failing step; the spawned command is compared with the expected one.",
"C35": "createConfigGypi with symbolic option names and values; the written file is parsed back. parseConfigGypi on symbolic strings in both quote styles against a Python-literal reader.",
"C36": "build runs with every option combination and platform; command line and result are compared with the expected ones.",
"C37": "PythonFinder with every outcome of every probe and symbolic version parts; the expected choice is the first candidate that qualifies.",
"C38": "VisualStudioFinder with symbolic package sets, versions and user choices, through each way of listing them; the expected choice is computed from the requirements.",
"C39": "parseArgv on argument vectors assembled from known and symbolic words, with nopt interpreted as well; the expected queue and options are computed from the documentation.",
"C40": "bin/node-gyp.js runs with stand-in commands whose outcomes (success, failure, never, throw later) are symbolic; exit status and order are asserted.",
"C41": "The five modules run over recording stand-ins for the file system, the network and reg.exe; directory names, CA file contents, registry data and failures are symbolic, and the oracle states the layout, the certificates, the listed names or the first match directly.",
}
