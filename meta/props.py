"""Single source of properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""
G = "gyp/pylib/gyp/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, module=None, level_note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], module=module, level_note=level_note, na=na))


# ----------------------------------------------------------------- quoting / file formats
prop("C01", "Arguments written for a POSIX shell are read back as the same words",
     "Every argument or argument list that gyp encodes for a POSIX shell, in any generator, is split by the shell into "
     "exactly the original words in the original order. The one documented exception is that the general encoder leaves "
     "`$` for the shell to expand.",
     ["inputs"], "all strings over all of Unicode (bounded length) and all lists of up to two such strings",
     "Tests check a few literals at most; a quoting defect needs one particular character next to another.",
     [G + "common.py", G + "generator/make.py", G + "generator/ninja.py", G + "generator/cmake.py"],
     [("EncodePOSIXShellArgument/List", G + "common.py"), ("EscapeShellArgument", G + "generator/make.py"),
      ("NinjaWriter/QuoteShellArgument", G + "generator/ninja.py")],
     ["return values of the encoders"], module="c01")
prop("C02", "Definitions and rules written to Makefiles mean what the .gyp file says",
     "A preprocessor definition from a .gyp file that is written into a generated Makefile arrives at the command run by make, after make's own "
     "parsing and the shell's word splitting, as exactly the text given, and so do the arguments of actions. Lists keep every item in order, file names with spaces in rules stay "
     "one make word, and a generated rule names every output as a target and every input as a prerequisite.",
     ["inputs"], "all printable strings up to the bound, including #, $, quotes, backslashes and spaces, and small lists of them",
     "No test runs the make generator; the interaction of two escaping layers fails only on particular character sequences.",
     [G + "generator/make.py"],
     [("EscapeCppDefine, EscapeShellArgument, EscapeMakeVariableExpansion, QuoteIfNecessary, QuoteSpaces, StringToMakefileVariable",
       G + "generator/make.py"), ("MakefileWriter.WriteMakeRule/WriteList/WriteDoCmd", G + "generator/make.py")],
     ["text written to the Makefile"], module="c02")
prop("C03", "Values written to Ninja files survive ninja's parser exactly",
     "Every path, variable value, rule and build statement handed to the ninja writer is read back by ninja's lexer as the same "
     "text, whatever spaces, colons, dollars or long lines it contains. A preprocessor definition given in a .gyp file reaches the "
     "compiler as the same definition, every source is compiled and linked, and actions run with exactly their arguments.",
     ["inputs"], "all strings of the stated alphabet up to the bound, all wrap widths around the token boundaries",
     "ninja_test covers two helper functions; line wrapping and escaping only go wrong for particular placements of $ and space.",
     [G + "ninja_syntax.py", G + "generator/ninja.py"],
     [("escape, escape_path, Writer._line, Writer.build/rule/variable", G + "ninja_syntax.py"),
      ("Define, NinjaWriter.ExpandSpecial, GypPathToNinja", G + "generator/ninja.py")],
     ["text written to build.ninja"], module="c03")
prop("C04", "Windows arguments are split by CommandLineToArgvW into the same words",
     "Every argument list that gyp encodes for a Windows command line or response file is split, by the documented Windows argument "
     "rules, into exactly the original arguments. Macro expansion replaces known macros only, and environment blocks list every variable once.",
     ["inputs"], "all strings up to the bound over an alphabet with backslash, quote, percent, space, tab and others",
     "There are no tests of these encoders; runs of backslashes before quotes are the rare inputs.",
     [G + "msvs_emulation.py", G + "generator/msvs.py"],
     [("QuoteForRspFile, EncodeRspFileList, ExpandMacros", G + "msvs_emulation.py"), ("_FormatAsEnvironmentBlock", G + "msvs_emulation.py")],
     ["return values"], module="c04")
prop("C05", "Generated XML parses back to the tree it was made from",
     "The XML text produced for any element tree, pretty-printed or not, is well formed and parses to the same tags, attributes, nesting and "
     "text. Special characters in attributes and text, including line breaks in attributes, come back unchanged.",
     ["inputs"], "all attribute/text strings up to the bound, trees up to the stated size, both formatting modes",
     "easy_xml_test has fixed examples; escaping omissions only show for particular characters in particular positions.",
     [G + "easy_xml.py"], [("XmlToString, _ConstructContentList, _XmlEscape", G + "easy_xml.py")], ["XML text"], module="c05")

# ----------------------------------------------------------------- gyp language
prop("C06", "Variable references expand to exactly the variable's value",
     "A reference <(x), >(x), ^(x) or the list forms <@(x) in a string is replaced by the value of the variable and nothing else changes; list "
     "values join with spaces in string context and splice in list context; a reference to an undefined variable is an error unless the "
     "reference belongs to another phase, in which case it is left untouched. A command reference is replaced by the command's output, and a failing command is an error. "
     "Expansion never modifies the variables it reads.",
     ["inputs"], "all strings made of references and other text up to the bound, with symbolic variable values of string, list and integer type",
     "No test expands variables; nested references, digits turned into integers and phase mixing are unusual inputs.",
     [G + "input.py"], [("ExpandVariables, FindEnclosingBracketGroup, IsStrCanonicalInt", G + "input.py")], ["return value of expansion"],
     module="c06")
prop("C07", "Conditions apply the first matching branch, with scoped variables",
     "For each entry of a conditions list exactly the branch selected by its expressions (if / chained pairs / else) is merged, in order, and the "
     "conditions key disappears. Variables assigned in an inner scope are visible only there, and a `name%` default only takes effect if the name "
     "is not already set.",
     ["inputs", "configurations"], "all truth assignments of the conditions, all values of the tested variables up to the bound, all presence patterns of defaults",
     "No test evaluates a condition; the failing case is a particular mix of branches, nesting and defaults.",
     [G + "input.py"], [("ProcessConditionsInDict, EvalCondition, EvalSingleCondition, LoadVariablesFromVariablesDict, ProcessVariablesAndConditionsInDict",
                         G + "input.py")], ["processed dictionary"], module="c07")
prop("C08", "Merging dictionaries follows the documented policies and shares nothing",
     "Merging one settings dictionary into another yields, for every key, the value the documented rules give: scalars replaced, dictionaries merged "
     "recursively, lists appended, prepended (+), replaced (=), or set only if absent (?), with singleton items kept once; conflicting policies or types are errors. "
     "The source is not modified, and later changes to the result never show in the source.",
     ["inputs"], "all small dictionaries over the stated keys, policies, value types and symbolic string values",
     "No test merges dictionaries; policies interact with duplicates and types in ways a sample does not reach.",
     [G + "input.py"], [("MergeDicts, MergeLists", G + "input.py"), ("deepcopy", G + "simple_copy.py")], ["merged dictionary", "source dictionary after the merge"],
     module="c08")
prop("C09", "List filters remove exactly the excluded items and keep order",
     "After exclusion (`!`) and pattern (`/`) filters are applied, a list contains, in original order, exactly the items whose last matching filter is not "
     "an exclusion, the excluded items are reported under the `_excluded` key, and the filter keys are gone. Unknown filter actions and non-list operands are errors.",
     ["inputs"], "all lists and filters up to the bound with symbolic strings and actions",
     "No test covers filters; order of include and exclude matches matters only in combination.",
     [G + "input.py"], [("ProcessListFiltersInDict", G + "input.py")], ["filtered dictionary"], module="c09")
prop("C10", "Each configuration is target defaults plus its inherited configurations",
     "After processing, every concrete configuration of a target holds the target-level settings merged with the configurations it inherits from, parents before children in listed order, "
     "and abstract configurations are gone. Settings that belong to the target are not copied into configurations, and settings not allowed in a configuration are rejected.",
     ["inputs", "configurations"], "all inheritance graphs and symbolic setting values of up to three configurations",
     "No test covers configurations; the inheritance order only shows with diamonds and overlapping keys.",
     [G + "input.py"], [("SetUpConfigurations, MergeConfigWithInheritance, ProcessToolsetsInDict", G + "input.py")], ["target dictionary"], module="c10")
prop("C11", "Relative paths keep naming the same file when moved between files",
     "A relative path taken over from one build file into another, or converted between source, build and target directories, names the same file from its new base directory. "
     "Absolute paths, flags and variable references, quoted or not, are left as they are, and a trailing slash is kept.",
     ["inputs"], "all path strings over . / and letters up to the bound, for all directory pairs up to the bound",
     "Tests do not exercise path rebasing; errors appear only with particular .. and . segments or empty components.",
     [G + "input.py", G + "common.py", G + "generator/ninja.py", G + "generator/make.py"],
     [("MakePathRelative, AdjustPaths via MergeLists", G + "input.py"), ("RelativePath, InvertRelativePath, UnrelativePath, FixIfRelativePath", G + "common.py"),
      ("GypPathToNinja", G + "generator/ninja.py")], ["returned paths"], module="c11")
prop("C12", "Target names identify targets uniquely and resolve consistently",
     "Writing a target as file:name#toolset and parsing it back gives the same three parts, and a dependency written in any accepted form resolves to the target it names relative to the "
     "file that mentions it. Two targets with the same name and toolset in one file are rejected; a wildcard dependency expands to every matching target once, never to itself.",
     ["inputs"], "all file, target and toolset strings up to the bound, all small target sets",
     "No test parses target names; names with colons, drive letters and defaulted toolsets are the unusual inputs.",
     [G + "common.py", G + "input.py"], [("ParseQualifiedTarget, ResolveTarget, QualifiedTarget, BuildFile", G + "common.py"),
                                         ("QualifyDependencies, ExpandWildcardDependencies, BuildTargetsDict", G + "input.py")], ["resolved names", "errors"],
     module="c12")

# ----------------------------------------------------------------- graph
prop("C13", "Targets are processed after everything they depend on, and cycles are refused",
     "For every set of targets and dependencies without a cycle the processing order contains each target exactly once, after all of its direct and indirect dependencies. "
     "If the dependencies contain a cycle, of targets or of files, the run ends with an error and never with a partial order.",
     ["inputs", "configurations"], "all dependency graphs on up to four targets, listed in any order",
     "Tests cover a handful of fixed graphs; order defects need a particular shape and listing order.",
     [G + "input.py", G + "common.py"], [("BuildDependencyList, DependencyGraphNode.FlattenToList/FindCycles, VerifyNoGYPFileCircularDependencies", G + "input.py"),
                                        ("TopologicallySorted", G + "common.py")], ["flat list", "errors"], module="c13")
prop("C14", "Dependent settings reach exactly the targets they are declared for",
     "Settings a target declares for its direct dependents, for all dependents or for linking reach every target they are declared for, including through targets that re-export their "
     "dependencies, and no other target, whatever the order in which targets are listed.",
     ["inputs", "configurations"], "all dependency graphs, target types and export lists of up to four targets, symbolic setting values",
     "No test covers dependent settings; a missing or extra propagation needs a particular graph and type combination.",
     [G + "input.py"], [("DoDependentSettings, DependencyGraphNode.DirectAndImportedDependencies/DeepDependencies/DependenciesForLinkSettings", G + "input.py")],
     ["settings of each target after loading"], module="c14")
prop("C15", "Every linked target links every static library it needs, and nothing twice",
     "A linked target ends up linking every static library it depends on directly or through other static libraries, each exactly once (and before the libraries it uses, in generators that ask for sorted dependencies), while targets below a shared "
     "library or executable are linked there and not again above it. Static libraries keep a build-order dependency only on what they really need.",
     ["inputs", "configurations"], "all dependency graphs and type assignments of up to four targets",
     "No test covers link dependencies; wrong link lists need particular chains of types.",
     [G + "input.py"], [("AdjustStaticLibraryDependencies, DependencyGraphNode._LinkDependenciesInternal/DependenciesToLinkAgainst", G + "input.py")],
     ["dependencies of each target after loading"], module="c15")

# ----------------------------------------------------------------- loading
prop("C16", "Malformed build files are rejected, well-formed ones load verbatim",
     "Checked parsing of a build file accepts exactly literal dictionaries, lists and strings, and yields the value the text denotes. A repeated dictionary key at any depth, or any other "
     "kind of expression, is refused with an error naming its place; nothing in the file is executed.",
     ["inputs"], "all literal trees up to the bound with symbolic keys and values, and every other expression kind in every position",
     "No test parses a malformed file; the duplicate can hide at any depth.",
     [G + "input.py"], [("CheckedEval, CheckNode", G + "input.py"), ("ValidateTargetType, ValidateRulesInTarget, ValidateActionsInTarget, ValidateRunAsInTarget", G + "input.py")],
     ["parsed value", "errors"], module="c16")
prop("C17", "Generated files are replaced only when changed, and never left half written",
     "Writing a generated file leaves the old file untouched if the content is the same and otherwise leaves exactly the new content. Files written through the difference-checking writer are replaced "
     "as a whole: if any step of the replacement fails, the old content is still there, the error is reported, and no temporary file remains.",
     ["fault_sequences", "crash_points", "inputs"], "a failure of any subset of the file operations at any step, old file absent, same or different, symbolic contents",
     "Tests never inject file-system faults; the failing step decides the outcome.",
     [G + "common.py", G + "easy_xml.py"], [("WriteOnDiff", G + "common.py"), ("WriteXmlIfChanged", G + "easy_xml.py")],
     ["target file and directory after the call"], module="c17")
prop("C18", "The analyzer reports every target affected by changed files, and only those",
     "Given changed files, the analyzer reports found whenever a changed file is a source of a target the requested targets depend on, lists every requested test target that depends on a changed one, "
     "and compile targets cover every matching target. A target no changed file reaches is not listed, and unknown targets are reported as invalid.",
     ["inputs", "configurations"], "all dependency graphs of up to four targets, all sets of changed files and requested targets",
     "No test covers the analyzer; missing a target needs a particular graph and request.",
     [G + "generator/analyzer.py"], [("TargetCalculator, _DoesTargetDependOnMatchingTargets, _AddCompileTargets, _ExtractSources", G + "generator/analyzer.py")],
     ["result dictionary"], module="c18")
prop("C19", "Different build steps never share an output path or a command",
     "Within one generated build the object file of every source is distinct for distinct sources or targets, and mapping a source to its output never leaves the build directory. "
     "Every action and every rule of every target runs its own command, whatever the names of targets, actions and rules. "
     "Expanding output placeholders in rules substitutes the parts of the one input path only. Two targets of one directory never have the same name.",
     ["inputs"], "all pairs of source paths, target names, toolsets, action and rule names up to the bound",
     "No test compares two outputs; a collision needs two particular paths.",
     [G + "generator/ninja.py", G + "generator/make.py", G + "generator/msvs.py", G + "input.py"], [("NinjaWriter.GypPathToUniqueOutput, WriteNewNinjaRule", G + "generator/ninja.py"), ("Objectify, Target, WriteActions, WriteRules, ExpandInputRoot", G + "generator/make.py"), ("_AddSources2", G + "generator/msvs.py"), ("VerifyNoCollidingTargets", G + "input.py")],
     ["output paths", "commands"], module="c19")
prop("C20", "MSVS settings convert and validate consistently, projects are identified stably",
     "Every value a compiler or linker setting accepts in the old format converts to a value accepted in the new format, and invalid values and unknown names are reported and not passed on; settings that only "
     "the new format knows pass through unchanged. Project macros are converted wherever they stand and other text is kept. Identifiers for projects are a "
     "function of name and seed only and differ when either differs; splitting a large static library places every source in exactly one shard.",
     ["inputs", "configurations"], "all setting values up to the bound for every known setting, all names and seeds up to the bound",
     "MSVSSettings_test samples settings; a bad table entry or boundary shows only for one value.",
     [G + "MSVSSettings.py", G + "MSVSNew.py", G + "MSVSUtil.py"], [("ConvertToMSBuildSettings, ValidateMSVSSettings", G + "MSVSSettings.py"), ("MakeGuid", G + "MSVSNew.py"),
                                                                   ("ShardTargets", G + "MSVSUtil.py")], ["converted settings", "warnings"], module="c20")
prop("C21", "Loading build files in parallel gives what loading them in sequence gives",
     "Whatever order worker results arrive in, parallel loading parses every referenced file exactly once, ends with the same data as sequential loading, and ends at all. "
     "If any worker fails, the run reports failure and does not hang.",
     ["schedules", "fault_sequences"], "all completion orders and any failing subset for file graphs of up to four files",
     "Parallel loading is not tested; only a particular completion order or failure shows a lost or repeated file.",
     [G + "input.py"], [("ParallelState, LoadTargetBuildFilesParallel, LoadTargetBuildFileCallback", G + "input.py")], ["loaded data", "termination"], module="c21")
prop("C22", "Command-line and environment settings are parsed and re-emitted faithfully",
     "Definitions and generator flags given as NAME=VALUE, on the command line or in the environment, become exactly that variable and value; a value that reads as an integer becomes one, and the last one of a name wins. "
     "Flags recorded for regeneration, when parsed again in the depth directory and whatever the environment, reproduce the options they were recorded from, in order, every path naming the same file.",
     ["inputs"], "all names and values up to the bound, all option combinations up to the bound",
     "No test parses flags; = inside values, empty values and leading zeros are the unusual inputs.",
     [G + "__init__.py"], [("NameValueListToDict, RegenerateFlags, RegenerateAppendFlag, FormatOpt, ShlexEnv", G + "__init__.py")], ["parsed dictionary", "regenerated flags"],
     module="c22")
prop("C23", "Version comparisons form a total order that agrees with the standard",
     "Versions compared in conditions are ordered totally and consistently, equal versions hash equally, and the order is that of PEP 440: epoch, release with trailing zeros ignored, then dev, pre, final and post releases. "
     "Text that is not a version is refused.",
     ["inputs"], "all version parts with symbolic numbers and all combinations of optional parts",
     "No test compares versions here; order defects are in rare part combinations.",
     ["gyp/pylib/packaging/version.py", "gyp/pylib/packaging/_structures.py"], [("Version, _cmpkey", "gyp/pylib/packaging/version.py")], ["comparison results"], module="c23")
prop("C24", "Included files are merged where they are named, once, with their paths rebased",
     "An include, at any place in a build file and directly or through other includes, contributes its settings exactly there, with every relative path naming the same file as before. Every file is read once, "
     "each target gets its own copy, and the record of contributing files is complete. DEPTH always leads from a build file's own directory to the top directory. An include that is missing or malformed is an error.",
     ["inputs", "configurations"], "all include relations of up to three files in different directories, at every place, with symbolic settings",
     "No test loads a file with includes; sharing and rebasing errors need a particular arrangement of files.",
     [G + "input.py"], [("LoadOneBuildFile, LoadBuildFileIncludesIntoDict/List, GetIncludedBuildFiles, LoadTargetBuildFile", G + "input.py")],
     ["targets after loading", "included_files", "files opened"], module="c24")

prop("C25", "Visual Studio projects describe the build that the build files ask for",
     "In every configuration the generated project compiles exactly the sources of its target that are not excluded there, with the settings given for that configuration and for each file, and names the product, its directories and toolset as asked. "
     "Each action's and rule's command runs from the right directory, with all its inputs and outputs known, for every source that it applies to; copies go where they are asked to. "
     "A project refers to exactly the targets it depends on. Every relative path names the same file seen from the project as from the build file.",
     ["inputs", "configurations"], "all targets up to the bound with symbolic names, settings, exclusions, actions, rules and copies in up to three configurations, with the project beside the build file or elsewhere",
     "No test generates a project; errors need a difference between configurations, an excluded file or a project directory elsewhere.",
     [G + "generator/msvs.py", G + "MSVSNew.py"], [("_GenerateMSBuildProject and what it calls", G + "generator/msvs.py"), ("MSVSProject, MSVSFolder", G + "MSVSNew.py")],
     ["contents of the generated project"], module="c25")

prop("C26", "The settings given for Xcode become the build that Xcode would do",
     "Outside Xcode too, every xcode_settings entry that gyp knows has its documented effect on the compiler and linker flags, in its own configuration only; other entries have none. Products, bundles and their parts "
     "are named and placed as Xcode places them, resources and the Info.plist go into the bundle, and the variables of Xcode have the values they have there, referring to each other correctly. Libraries become the flags "
     "that link them, architectures and SDKs follow the installed version, and post-build steps strip, keep debug information and sign what was asked for, in that order. Looking at one target never changes another.",
     ["inputs", "configurations"], "every known setting with symbolic values, all target types, bundle kinds and installed versions up to the bound, in one or two configurations",
     "No test looks at xcode_settings; errors need a difference between configurations, an unusual kind of value or a second target.",
     [G + "xcode_emulation.py"], [("XcodeSettings, MacPrefixHeader", G + "xcode_emulation.py"), ("GetSortedXcodeEnv, ExpandEnvVars", G + "xcode_emulation.py"), ("GetMacBundleResources, GetMacInfoPlist", G + "xcode_emulation.py")],
     ["returned flags, paths, variables and commands"], module="c26")

prop("C27", "An Xcode project file describes the targets that were given",
     "Every string, list and object of a generated project file can be read back as what gyp put there, with comments that end where they should. Each source appears once in the tree, under the path it has, and each target "
     "compiles, links, copies and runs the files, libraries and commands it was given, headers and resources included, with its actions and what it depends on before what needs them. Definitions, search paths and settings of one "
     "configuration, and of one target, apply there only, and products carry the name and type that were asked for.",
     ["inputs", "configurations"], "all short strings over the special characters, file trees, target types and pairs of targets and configurations up to the bound",
     "One test compares a project generated from one fixed target; quoting, shared directories and dependencies between projects need unusual inputs.",
     [G + "xcodeproj_file.py", G + "generator/xcode.py"], [("XCObject, XCHierarchicalElement, PBXGroup", G + "xcodeproj_file.py"), ("PBXProject.AddOrGetFileInRootGroup", G + "xcodeproj_file.py"), ("XCTarget, XCBuildPhase", G + "xcodeproj_file.py"), ("GenerateOutput", G + "generator/xcode.py")],
     ["generated project.pbxproj and rule makefiles"], module="c27")

# ----------------------------------------------------------------- JavaScript
prop("C30", "A download that fails its checksum is never installed",
     "Installing headers succeeds only if every file that was downloaded and is listed in the published checksum file has the listed SHA-256, and a file whose checksum differs or that arrived incompletely makes the "
     "install fail. A tarball that contains no usable file is an error.",
     ["inputs", "fault_sequences"], "any checksum values and contents, any HTTP status per file, any order of completion, on each platform",
     "The JavaScript tests need network and are not run; tampering and partial failure are not sampled.",
     ["lib/install.js", "lib/download.js"], [("install, downloadShasums, downloadNodeLib, ShaSum", "lib/install.js"), ("download", "lib/download.js")],
     ["install result", "files left behind"], module="c30")
prop("C31", "A failed install leaves no half-installed version behind",
     "If any step of installing a version fails, the version directory is removed again and the command fails; the marker that makes later runs skip installation is written only after everything else succeeded. "
     "With `--ensure` an install of the current layout version is reused and an older or missing one is installed again.",
     ["fault_sequences", "crash_points", "histories"], "a failure at any step, any existing state of the version directory, permission fallback included",
     "The tests do not inject failures; the failing step decides what remains.",
     ["lib/install.js"], [("install/go/rollback, installVersion", "lib/install.js")], ["file-system operations performed", "command result"], module="c31")
prop("C32", "Installing and removing stay inside the development directory",
     "The directory removed, created or written for a version is always a direct child of the development directory named after that version. Text that does not name such a directory is refused and nothing is deleted; "
     "text that is not a version is never installed.",
     ["inputs"], "all version strings up to the bound",
     "Tests use proper versions; the harmful input is one that is not a version.",
     ["lib/remove.js", "lib/install.js", "lib/process-release.js"], [("remove", "lib/remove.js"), ("processRelease", "lib/process-release.js")], ["paths passed to the file system"], module="c32")
prop("C33", "Release URLs and names are built from the requested version and host",
     "For every runtime version the header tarball, checksum and import-library URLs lie under the chosen distribution base, name the requested version, and use the layout that version was published with. "
     "A user-supplied distribution URL takes precedence over every default and mirrors are honoured.",
     ["inputs", "configurations"], "all semver versions with symbolic numbers and prerelease tags, all combinations of given options and release data",
     "The JavaScript tests are not run here and sample a few versions; boundaries between layouts are single versions.",
     ["lib/process-release.js"], [("processRelease", "lib/process-release.js")], ["returned release description"], module="c33")
prop("C34", "configure passes gyp exactly the user's choices plus what node-gyp adds",
     "The gyp command line built by configure contains every extra argument of the user in order, the generator the platform needs unless the user chose one, every include file that exists, and the variables "
     "that point to the chosen node directory. Headers are installed exactly when no node directory was given or found at node's prefix. "
     "If Python, Visual Studio, the headers or a file that gyp needs is missing, or a step or gyp itself fails, configuring fails and gyp is not run on incomplete input.",
     ["inputs", "configurations"], "all platforms, option combinations and existing-file patterns",
     "Tests check one argument on one platform; the combination decides.",
     ["lib/configure.js", "lib/util.js"], [("configure, createBuildDir, runGyp", "lib/configure.js"), ("findAccessibleSync", "lib/util.js")], ["spawned command"], module="c34")
prop("C35", "The generated configuration reflects node's configuration and the user's flags",
     "The written configuration holds the values of node's own configuration except where the user's options or node-gyp's documented overrides replace them, in a form that reads back to the same values (truth values as words). "
     "User flags without a meaning to node-gyp become variables. The selected node's configuration is read as what it says, with comments, both quote styles and continued strings, and if it cannot be read the running node's is used.",
     ["inputs", "configurations"], "all option names and values up to the bound, all configuration shapes up to the bound",
     "Tests sample a few options; quoting and precedence fail for particular values.",
     ["lib/create-config-gypi.js"], [("getCurrentConfigGypi, createConfigGypi, parseConfigGypi", "lib/create-config-gypi.js")], ["written file"], module="c35")
prop("C36", "build runs the platform's build tool with the requested configuration",
     "The build command names the configured or overridden build type, architecture, jobs and solution, keeps every extra user argument in order, and runs the tool that the platform or the user selects. "
     "A non-zero exit or a signal of the tool is reported as failure; a missing configuration tells the user to configure first.",
     ["inputs", "configurations", "fault_sequences"], "all option combinations, platforms and exit results",
     "The build command is only tested end to end on one platform.",
     ["lib/build.js"], [("build, doBuild, doWhich", "lib/build.js")], ["spawned command", "result"], module="c36")
prop("C37", "The first suitable Python in the documented order is used",
     "The Python chosen is the first candidate, in the documented order, that runs and has a version in the supported range; one forced with NODE_GYP_FORCE_PYTHON is never replaced by another. "
     "Unsupported versions and programs that fail to run are refused.",
     ["inputs", "fault_sequences", "configurations"], "all outcomes of every probe, all version numbers, all option patterns, both platforms",
     "Tests fake a few probes; the order only shows in a combination of failures.",
     ["lib/find-python.js"], [("PythonFinder.findPython/checkCommand/checkExecPath", "lib/find-python.js")], ["chosen path", "probe order"], module="c37")
prop("C38", "The Visual Studio installation chosen satisfies every requirement",
     "The installation selected is complete (compiler, toolset, SDK), of a supported version, and matches the version or path the user asked for; among qualifying ones the newest is used. "
     "If none qualifies, none is used and the command fails.",
     ["inputs", "configurations"], "all sets of up to two installations with any packages and versions, all user choices",
     "Tests use recorded installations; a wrong choice needs a particular pair.",
     ["lib/find-visualstudio.js"], [("VisualStudioFinder.processData/getVersionInfo/getSDK/getToolset/checkConfigVersion", "lib/find-visualstudio.js")], ["chosen installation"], module="c38")
prop("C39", "Options and commands are parsed the same from arguments and environment",
     "Commands are queued in the order given, each with the words that follow it as arguments, and aliases stand for their commands; any other word is only ever an argument. Options on the command line, in every documented form, and npm_config_ environment "
     "variables set the same options; a variable takes precedence, and no other option is lost or invented.",
     ["inputs"], "all argument vectors up to the bound over the known commands, options and other words",
     "Tests parse a few command lines.",
     ["lib/node-gyp.js"], [("Gyp.parseArgv", "lib/node-gyp.js")], ["options and command queue"], module="c39")
prop("C40", "The exit status tells whether every command succeeded",
     "The commands asked for run one after another, in order, with rebuild standing for clean, configure and build. The first one that fails ends the run. The exit status is 0, and ok is reported, "
     "exactly if all of them have completed; a command that never completes or an exception nobody handled is a failure. Commands run in the directory and with the development directory that were asked for.",
     ["inputs", "fault_sequences"], "all sequences of commands up to the bound with every outcome of each, all directory options",
     "No test runs the program with a failing or unfinished command.",
     ["bin/node-gyp.js", "lib/rebuild.js", "lib/node-gyp.js"], [("run, exit and uncaughtException handlers", "bin/node-gyp.js"), ("rebuild", "lib/rebuild.js")], ["exit status", "commands run"], module="c40")
prop("C41", "The supporting commands and lookups use exactly what is there",
     "clean removes exactly the build directory. list names exactly the installed versions, nothing if there is no development directory. A request is sent once, to the address asked for, with the user's proxy settings, "
     "and with each certificate of the user's CA file once and in order; it is not sent if that file cannot be read. Node's own files are looked for by the layout of the directory node-gyp is installed in (deps or node_modules), "
     "otherwise by the layout around the node program (bin, Release or Debug), with each platform's depth, otherwise nowhere. A registry lookup gives the whole value of exactly the name asked for, from the first key that has it. "
     "Of several candidate files the first readable one is used, and no file stays open.",
     ["inputs", "fault_sequences"], "all directory names, file contents, registry data and settings up to the bounds, with every pattern of failures",
     "Tests sample a few directory layouts and one CA file; the others are not tested.",
     ["lib/clean.js", "lib/list.js", "lib/download.js", "lib/util.js", "lib/find-node-directory.js"],
     [("clean", "lib/clean.js"), ("list", "lib/list.js"), ("download, readCAFile", "lib/download.js"), ("findNodeDirectory", "lib/find-node-directory.js"),
      ("regGetValue, regSearchKeys, findAccessibleSync", "lib/util.js")], ["file operations, requests and return values"], module="c41")
