# The properties, their statements and what the checks note about them.
# tools/gen.py writes properties.jsonl and MANIFEST.json from this table.
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, state=state, na=na))


BRK = ["internal/breaking", "internal/extract/extract.go", "internal/reflect/reflect.go"]

p("B01", "Deleted packages, messages, enums and services are reported as breaking",
  "Comparing two versions of an API reports every package, and every message, enum or service of a package kept in both versions, that exists in the old version and not in the new one, by its full name, at any nesting depth; nothing else is reported as deleted. What a deleted package or message contained is covered by that one report.",
  ["inputs"], "every pair of API versions, every nesting and every distribution of definitions over files",
  "internal/breaking, extract and reflect have no tests at all; a handful of samples could not cover nesting, several files per package and prefix-related package names",
  BRK, [("pairwise walk of packages, messages, enums and services", "internal/breaking/helpers.go"), ("deletion checkers", "internal/breaking/check_messages_not_deleted.go"), ("package model", "internal/extract/extract.go")],
  ["failures printed by 'prototool break check'"])

p("B02", "Changed message fields are reported as breaking",
  "For every message kept in both versions, at any nesting depth, a field number that disappears, a field whose name, label or type (including the referenced message or enum) changes, and a field that moves into or out of a oneof are each reported with the field and message; fields that did not change are not reported.",
  ["inputs"], "every pair of versions of a message: all numbers, names, labels, types and oneof memberships",
  "no test covers the package; all 18 field types, 3 labels and oneof memberships on both sides multiply beyond what examples can cover",
  BRK, [("field checkers", "internal/breaking/check_message_fields_same_type.go"), ("oneof checkers", "internal/breaking/check_message_oneofs_fields_not_removed.go"), ("field and oneof links", "internal/extract/extract.go newMessage")],
  ["failures printed by 'prototool break check'"])

p("B03", "Changed service methods and enum values are reported as breaking",
  "For every service and enum kept in both versions, a removed method, a changed request or response type, a changed client or server streaming mode, an enum number that no longer has a value and an enum value that lost its name (also when several names share the number) are each reported; unchanged methods and values are not.",
  ["inputs"], "every pair of versions of a service or of an enum, with and without aliases",
  "no test covers the package; the property quantifies over all pairs of method signatures and of enum value sets",
  BRK, [("method checkers", "internal/breaking/check_service_methods_same_request_type.go"), ("enum value pairing", "internal/breaking/helpers.go forEachEnumValuePair")],
  ["failures printed by 'prototool break check'"])

p("B04", "Compatible API changes are never reported as breaking",
  "An API compared with itself, or with a version that only adds packages, messages, fields, oneofs, enums, enum values, services and methods, moves definitions between files of the same package, reorders files, fields or enum values, or changes details such as json names, default values and options, has no breaking change. This holds whatever order the descriptor set lists its files in.",
  ["inputs", "configurations"], "every compatible change to an API and every setting of the beta options",
  "absence of false alarms quantifies over all compatible edits and map iteration orders; no test covers it",
  BRK, [("comparison by package and name rather than by file", "internal/reflect/reflect.go"), ("checkers look from old to new only", "internal/breaking/helpers.go")],
  ["failures printed by 'prototool break check'"])

p("B05", "Beta packages are exempt from breaking checks exactly when configured",
  "A package whose last name component is vMAJORbetaBETA with both numbers positive is beta: unless beta packages are included, nothing in it is reported. Unless beta packages are included or beta dependencies are allowed, every stable package of the new version that depends on a beta package is reported, and no other.",
  ["inputs", "configurations"], "every package name form, dependency and setting of the two beta options",
  "no test covers the settings; names on the edge of the version grammar are many",
  BRK + ["internal/protostrs/protostrs.go"], [("beta filter", "internal/extract/extract.go WithoutBeta"), ("dependency check", "internal/breaking/check_packages_no_beta_deps.go"), ("settings", "internal/breaking/runner.go Run")],
  ["failures printed by 'prototool break check'"])

p("X01", "The API model mirrors the descriptor set",
  "The per-package model built from a descriptor set contains exactly the packages, dependencies, enums, messages, fields, oneofs, services and methods of its files with their names, numbers, types and labels, each list in one fixed order, whatever the order of files or map iteration; dependencies never include the package itself and have no duplicates. Descriptor sets that repeat a file with the same content are accepted, and different content under the same file name is an error.",
  ["inputs", "schedules"], "every descriptor set and every map iteration order",
  "internal/reflect has no test",
  ["internal/reflect/reflect.go"], [("per package population", "internal/reflect/reflect.go NewPackageSet"), ("canonical sorting", "internal/reflect/sort.go")],
  ["input of the breaking change detector"])

p("X02", "The package graph is linked consistently",
  "In the package graph built from an API model every package knows its dependencies and, inversely, its importers, every nested message, enum, oneof, field, value and method can be found by name or number under its parent with its full name, and removing beta packages keeps exactly the others with dependencies limited to kept packages' names. A model that refers to an unknown dependency, or whose oneof refers to an unknown field, is rejected.",
  ["inputs"], "every API model",
  "internal/extract has no test",
  ["internal/extract/extract.go"], [("graph construction", "internal/extract/extract.go NewPackageSet"), ("beta filter", "internal/extract/extract.go WithoutBeta")],
  ["input of the breaking change detector"])

p("L01", "Lint rule selection follows the configuration",
  "The rules that run are those of the configured group (uber1 when none is given, none if defaults are turned off), plus the added ones, minus the removed ones, each once, whatever the order of identifiers, with the groups as docs/lint.md lists them; an unknown group or an unknown added, removed or ignored rule is an error. Selecting rules for one configuration never changes what another configuration selects.",
  ["configurations", "histories"], "every group, subset of added and removed rules, and sequence of selections",
  "tests run a few fixed configurations, one per process",
  ["internal/lint/lint.go"], [("selection", "internal/lint/lint.go GetLinters")],
  ["rules listed by 'prototool lint --list-linters' and failures of 'prototool lint'"])

p("L02", "Lint results are complete, ordered and ignore exactly what is configured",
  "Running rules over a set of files yields every failure of every selected rule for every file, labelled with the rule's identifier, sorted by file, line, column, rule and message; a failure is dropped exactly when the configuration ignores that rule for that file or for a directory above it (below the configuration's own directory), and a configured ignore never hides another rule or another file.",
  ["inputs", "configurations"], "every set of files, rules and ignores",
  "tests use a few ignore configurations; completeness over all combinations is out of reach",
  ["internal/lint/lint.go", "internal/lint/runner.go", "internal/text/text.go"], [("ignores", "internal/lint/lint.go shouldIgnore"), ("collection and order", "internal/lint/runner.go")],
  ["failures of 'prototool lint'"])

p("L03", "Naming rules accept exactly the documented name forms",
  "Every naming lint rule reports an element exactly when its name violates the documented form, at any nesting depth of messages and oneofs: CamelCase and capitalized messages, enums, services and methods, lower_snake_case fields, oneofs, packages and file names, UPPER_SNAKE_CASE enum values, enum value prefixes (with and without the enclosing messages), service API suffixes and file names, and forbidden words in field and type names.",
  ["inputs"], "every name and nesting of the element",
  "tests check a few names per rule",
  ["internal/lint", "internal/strs/strs.go"], [("rules", "internal/lint/check_message_names_camel_case.go"), ("enum prefixes", "internal/lint/check_enum_field_prefixes.go"), ("name predicates", "internal/strs/strs.go")],
  ["failures of 'prototool lint'"])

p("L04", "File option rules accept exactly the required or derived option values",
  "A rule that requires a file option reports a file exactly when the option is missing, a rule that prescribes its value reports it exactly when it is present with another value than the one derived from package and file name, and a rule that forbids an option exactly when it is set; options of the same name inside messages, enums, fields or services do not count, and files do not influence each other.",
  ["inputs", "configurations"], "every package name, file name and option value",
  "tests use single values per option",
  ["internal/lint/check_file_options_equal.go", "internal/lint/check_file_options_required.go", "internal/lint/check_file_options_unset.go", "internal/protostrs/protostrs.go"], [("equality rule", "internal/lint/check_file_options_equal.go"), ("derived values", "internal/protostrs/protostrs.go")],
  ["failures of 'prototool lint'"])

p("L05", "Suppressing comments and comment rules act on the commented element only",
  "A suppressible rule is silent for an element exactly when suppression is allowed and one of the element's own leading comment lines contains the rule's documented suppressing annotation; rules that require comments report exactly the elements without a suitable leading comment.",
  ["inputs"], "every comment and element",
  "tests use a few fixed files",
  ["internal/lint/base_linter.go", "internal/lint/lint.go"], [("suppression", "internal/lint/base_linter.go"), ("comment rules", "internal/lint/check_messages_have_comments.go")],
  ["failures of 'prototool lint'"])

p("L06", "Same-in-directory rules report every disagreement within a directory",
  "For each directory, package and file options that must agree are reported once for every file of that directory exactly when two of its files disagree (files without package take no part, a missing option differs from any value), and files of different directories never influence each other.",
  ["inputs"], "every assignment of packages and option values to files and directories",
  "tests use one directory pair per rule",
  ["internal/lint/check_packages_same_in_dir.go", "internal/lint/check_file_options_same_in_dir.go"], [("per directory grouping", "internal/lint/check_packages_same_in_dir.go")],
  ["failures of 'prototool lint'"])

p("L07", "Request and response rules hold for every method of every service",
  "The rules on request and response types report exactly the methods whose request or response type is not named after the method, was already used in the file, or is not a top-level message of the same file, and, in files with methods, the messages that precede a method they serve (or responses that precede their request) and the top-level messages and enums that no method uses.",
  ["inputs"], "every assignment of request and response types to methods and messages",
  "tests use a few fixed files",
  ["internal/lint/check_request_response_names_match_rpc.go", "internal/lint/check_request_response_types_unique.go", "internal/lint/check_request_response_types_in_same_file.go", "internal/lint/check_request_response_types_after_service.go", "internal/lint/check_request_response_types_only_in_file.go"], [("rules", "internal/lint/check_request_response_types_unique.go")],
  ["failures of 'prototool lint'"])

p("L08", "Structural lint rules report exactly the documented violations",
  "Rules on imports, syntax, package declaration and versions, reserved words, floats, timestamps and durations, json names, streaming, enum zero values and aliases, inline and C-style comments report a file exactly when it has the documented defect, at any nesting depth.",
  ["inputs"], "every file within the bound",
  "tests use one or two files per rule",
  ["internal/lint"], [("rules", "internal/lint/check_enum_zero_values_invalid.go")],
  ["failures of 'prototool lint'"])

p("S01", "Name case conversions and predicates are exact",
  "The predicates for CamelCase, capitalized, lower_snake_case, UPPER_SNAKE_CASE, lowercase and uppercase names accept exactly those names, and the conversions to snake and camel case keep all letters and digits, produce a name the matching predicate accepts for CamelCase input, and leave names already in lower_snake_case unchanged; sorted unique lists contain each non-empty element once.",
  ["inputs"], "every string within the bound, including non-ASCII bytes",
  "tests use a table of examples",
  ["internal/strs/strs.go"], [("conversions", "internal/strs/strs.go toSnake"), ("predicates", "internal/strs/strs.go IsLowerSnakeCase")],
  ["rule decisions of 'prototool lint', names written by 'prototool create'"])

p("S02", "Derived file option values follow the documented construction",
  "For every package and file name the derived go_package, java_package, java_outer_classname, csharp_namespace, objc_class_prefix and php_namespace values are those of the documented construction, and no input makes the derivation fail.",
  ["inputs"], "every package and file name within the bound",
  "tests use a table of examples",
  ["internal/protostrs/protostrs.go"], [("derivations", "internal/protostrs/protostrs.go")],
  ["values written by 'prototool create' and 'prototool format --fix'"])

p("S03", "Package versions are recognised exactly",
  "A package name has a version exactly when it has at least two components and the last is v followed by a positive number, optionally followed by beta and a positive number; the numbers reported are those written.",
  ["inputs"], "every package name within the bound",
  "tests use a table of examples",
  ["internal/protostrs/protostrs.go"], [("version parsing", "internal/protostrs/protostrs.go MajorBetaVersion")],
  ["beta handling of 'prototool break check', package rules of 'prototool lint'"])

p("T01", "Failures are printed in one total order",
  "Sorting failures orders them by file name, line, column, rule and message, keeps every failure exactly once, and gives the same result for every initial order.",
  ["inputs"], "every list of failures within the bound, in any order",
  "tests sort one list",
  ["internal/text/text.go"], [("ordering", "internal/text/text.go SortFailures")],
  ["failure lines of all commands"])

p("T02", "Failure lines show exactly the requested fields",
  "A printed failure consists of the requested fields in the requested order separated by colons, with <input> for a missing file name and 1 for a missing line or column; field lists are parsed case-insensitively, unknown names are rejected, and an empty list means the default fields. An empty identifier or message is left out together with its separator.",
  ["inputs", "configurations"], "every failure and field list within the bound",
  "tests print a few combinations",
  ["internal/text/text.go"], [("printing", "internal/text/text.go Fprintln"), ("parsing", "internal/text/text.go ParseColonSeparatedFailureFields")],
  ["failure lines of all commands"])

p("F01", "Excluded paths and only those are left out",
  "A file is left out of the inputs exactly when the file itself or one of its parent directories up to the working root is excluded by the configuration; names that merely start with an excluded name are kept. Excluding the directory of the configuration itself or anything outside of it is an error.",
  ["inputs", "configurations"], "every path and exclude list within the bound",
  "tests use one directory tree",
  ["internal/file/file.go", "internal/settings/config_provider.go", "internal/settings/settings.go"], [("exclusion", "internal/file/file.go IsExcluded"), ("exclude prefixes", "internal/settings/config_provider.go getExcludePrefixes")],
  ["files used by every command"])

p("F02", "The nearest configuration file applies",
  "The configuration used for a directory is the one found in that directory or its closest ancestor, or the default if there is none; two recognised configuration files in one directory are an error.",
  ["inputs", "histories"], "every directory tree within the bound and every placement of configuration files",
  "tests use one directory tree",
  ["internal/settings/config_provider.go"], [("discovery", "internal/settings/config_provider.go GetFilePathForDir")],
  ["configuration used by every command"])

p("F03", "Configurations are translated faithfully or rejected",
  "Every setting of a configuration file or of configuration data appears in the configuration used: relative paths relative to the configuration's directory, rules in upper and the group in lower case, plugins sorted by name, the file header as comment lines; nothing is added. Errors are: a rule both added and removed; a plugin of unknown type, without output, with a suffix that starts with a dot, named with protoc-gen-, with descriptor set settings on another plugin, or a Go plugin without import path; a create package without directory or name or with an absolute directory; a header by both path and content, by absolute path, or empty; suppression outside of devel mode; text that is not a configuration; relative paths of configurations.",
  ["configurations"], "every combination of settings within the bound",
  "tests use a few example files",
  ["internal/settings/config_provider.go", "internal/settings/settings.go"], [("translation", "internal/settings/config_provider.go externalConfigToConfig")],
  ["configuration used by every command"])

p("F04", "Every non-excluded proto file is found once under its nearest configuration",
  "Collecting the files for a directory finds each .proto file below it or below the directory of the configuration that applies to it exactly once, in the group of its directory, except those that any configuration on the way excludes, and uses the configuration nearest to the files. Files under different configurations are an error, as are files without any configuration outside of the working directory.",
  ["inputs"], "every directory tree within the bound",
  "tests use one directory tree",
  ["internal/file/proto_set_provider.go"], [("walk and grouping", "internal/file/proto_set_provider.go")],
  ["files used by every command"])

p("P01", "Every line of protoc output becomes a failure or an error",
  "Each non-empty line of protoc output is turned into exactly one failure with the file, line, column and message it names, in any of the forms protoc prints, or ignored only if it is a warning of an unused import that the configuration allows or one of the notes protoc prints besides the failure it follows from, or reported as an error; no line is lost. The file of a failure is the name under which the user gave it when the name protoc prints is the end, at a path component, of exactly one of them.",
  ["inputs"], "every line of output within the bound",
  "tests feed a few lines",
  ["internal/protoc/compiler.go"], [("line parser", "internal/protoc/compiler.go parseProtocLine")],
  ["failures of 'prototool compile'"])

p("P02", "Protoc is invoked with exactly the configured flags and files",
  "Each selected directory is compiled by one protoc invocation per output plugin, or by one without plugins, that names exactly the files of the directory, the configured include paths in their order, the well known types when they are not excluded, the configuration directory when no other include path contains the files, and the plugin's program, flags, output directory and, for Go and Gogo plugins, a modifier for every other file, well known type and configured one; no file outside the selected directories is passed.",
  ["configurations", "inputs"], "every configuration and directory set within the bound",
  "tests compile a few directories and do not look at the command",
  ["internal/protoc/compiler.go"], [("command construction", "internal/protoc/compiler.go getCmdMetas"), ("plugin flags", "internal/protoc/compiler.go getPluginFlagSet")],
  ["commands printed by 'prototool compile --dry-run' and 'prototool generate --dry-run'"])

p("P03", "Generated files go below the configured output directories",
  "The output path of every plugin for every directory is the configured output path itself, or, for plugins with a file suffix, the file below it at the directory's path relative to the configuration, named after the directory (default at the top) with the suffix; the directories it needs, and no others, exist before protoc runs.",
  ["configurations", "inputs"], "every configuration and directory within the bound",
  "tests do not check output paths for nested directories",
  ["internal/protoc/compiler.go", "internal/settings/settings.go"], [("output path", "internal/protoc/compiler.go getOutputPath")],
  ["commands printed by 'prototool generate --dry-run'"])

p("P04", "Compiling several directories loses no failure",
  "Compiling runs one job per directory and plugin and reports the failures of all of them, sorted, each once; an error of any job is an error of the whole, in whatever order and however interleaved the jobs run. Without failures there is one descriptor set per directory when they are wanted, and temporary files are removed in every case.",
  ["schedules", "fault_sequences"], "every completion order and result of the jobs within the bound",
  "tests see one schedule",
  ["internal/protoc/compiler.go"], [("aggregation", "internal/protoc/compiler.go runCmdMetas")],
  ["failures and exit code of 'prototool compile'"])

p("M01", "Formatting is idempotent",
  "Formatting the output of the formatter yields the same text, for every well-formed proto file.",
  ["inputs"], "every proto file within the bound",
  "golden files sample a few inputs",
  ["internal/format"], [("two pass printing", "internal/format/main_visitor.go")],
  ["output of 'prototool format'"])

p("M02", "Formatting preserves the meaning of a file",
  "The formatted text declares the same syntax, package, imports, options, messages, fields, oneofs, maps, groups, reserved ranges, extensions, enums, services and methods with the same names, numbers, types, labels and option values, in the same nesting, as the input, and keeps its comments. (Options of one list and imports may be reordered, those of one name keep their order; proto2 fields without label become optional.)",
  ["inputs"], "every proto file within the bound",
  "golden files sample a few inputs",
  ["internal/format"], [("printing", "internal/format/main_visitor.go"), ("header printing", "internal/format/first_pass_visitor.go")],
  ["output of 'prototool format'"])

p("M03", "Format fixing sets the derived options and header and nothing else",
  "With fixing enabled the output of a file with a package has each option that the style derives exactly once, with the derived value; with a configured header it starts with that, and nothing else comes before the syntax; all other content, and all options of a file without package, are as without fixing. Fixing again changes nothing.",
  ["inputs", "configurations"], "every proto file and fix setting within the bound",
  "golden files sample a few inputs",
  ["internal/format/first_pass_visitor.go", "internal/format/transformer.go"], [("fixing", "internal/format/first_pass_visitor.go")],
  ["output of 'prototool format --fix'"])

p("M04", "Files with failures are never rewritten",
  "When compiling, parsing or formatting any file gives a failure or an error, no file is written and no formatted text or diff is printed; a file is written only by 'format --overwrite' and 'all', and then holds exactly its formatted text; files that are formatted already are neither written, printed as a diff, nor failures of 'format --lint'; several files are handled in one fixed order.",
  ["inputs", "fault_sequences"], "every input that fails to parse",
  "tests use one broken file",
  ["internal/format/transformer.go", "internal/exec/runner.go"], [("failure handling", "internal/format/transformer.go Transform")],
  ["files on disk after 'prototool format --overwrite'"])

p("D01", "Merged descriptor sets are complete, unique and ordered",
  "Merging descriptor sets gives every file exactly once, sorted by file name and so independent of the order of the inputs; files of the same name that differ and files without a name are errors. Moving a file of a set to its end keeps all files and the order of the others; a set that repeats the file or a name, lacks the file, or has an unnamed one is an error.",
  ["inputs", "schedules"], "every list of descriptor sets within the bound",
  "tests merge one set",
  ["internal/desc/desc.go"], [("merge", "internal/desc/desc.go")],
  ["output of 'prototool descriptor-set'"])

p("G01", "gRPC calls use exactly what is given",
  "prototool grpc calls the method of the service that is named package.Service/Method in the given files, at the given address (host:port, tcp://host:port or unix://path), with all given headers (name:value, repeated names in order), all JSON messages of --data or --stdin in order and the given time limits, and prints the answers in order, with headers, trailers and status when details are asked for; a status that is not OK is the failure of the command. With --tls the server's certificate is checked against --cacert and --server-name unless --insecure. Anything missing, given twice, contradictory or malformed is an error without any call.",
  ["inputs", "configurations"], "every combination of flags, names, addresses, headers and messages within the bound",
  "tests only reach the search for services",
  ["internal/grpc/handler.go", "internal/grpc/invocation_event_handler.go", "internal/exec/runner.go"], [("call", "internal/grpc/handler.go Invoke"), ("flags", "internal/exec/runner.go GRPC")],
  ["'prototool grpc'"])

p("C01", "Created files never overwrite and follow the package mapping",
  "Creating files never changes an existing file that has content, and creates nothing when any given path has content already or cannot be created. The package of a created file is the given one, or the configured package of the closest mapped directory that is or contains the file's followed by the remaining directories, or the directories below the configuration, or the default. The file has the configured header, the package and the file options derived from them, with those of the uber2 group exactly when it is configured. Configuration data given by flag acts as a configuration in the working directory.",
  ["inputs", "configurations"], "every directory, mapping and file within the bound",
  "tests create files in one directory tree",
  ["internal/create/handler.go"], [("package derivation", "internal/create/handler.go getPkg")],
  ["files written by 'prototool create'"])

p("E01", "Commands reject contradictory flags and print all failures",
  "Mutually exclusive flags are rejected before anything is done and flags that are not exclusive are accepted; every failure found is printed in the requested form on the standard output in order of file and line, and when one file is given only its own failures and those about no file; the exit status is non-zero when there are failures or errors, and zero when there are neither.",
  ["configurations", "inputs"], "every combination of flags within the bound",
  "tests use few combinations",
  ["internal/exec/runner.go"], [("flag checks", "internal/exec/runner.go"), ("printing", "internal/exec/runner.go printFailures")],
  ["output and exit status of all commands"])

p("W01", "The compiler that is used is the one given or a complete installation",
  "With --protoc-bin-path and --protoc-wkt-path, or the environment variables PROTOTOOL_PROTOC_BIN_PATH and PROTOTOOL_PROTOC_WKT_PATH that flags go before, exactly that program and those types are used wherever prototool runs; one of them alone, either together with a URL, or a path that is not there, is an error. Otherwise protoc is taken from an installation in the cache that is used only if all of the downloaded zip file was extracted and the program works; a failed download or extraction is reported, leaves nothing that a later run takes for complete, does not hinder a later one, and never writes outside the cache. The cache is the directory of --cache-path, PROTOTOOL_CACHE_PATH, XDG_CACHE_HOME or HOME, the first of them that is given; cache delete removes the one that XDG_CACHE_HOME or HOME give and never a custom one.",
  ["inputs", "fault_sequences", "histories"], "every combination of flags, variables and paths; every point at which an extraction can fail, and what runs after it do",
  "tests only check two errors of the paths and the texts of URLs; none installs anything",
  ["internal/protoc/downloader.go", "internal/cmd/flags.go"], [("paths", "internal/protoc/downloader.go newDownloader"), ("installation", "internal/protoc/downloader.go download, cache, checkDownloaded")],
  ["cache directory", "the protoc that 'prototool compile' and others run"])

p("V01", "Diffs name the file the user gave",
  "The diff of a changed file names the given file on both sides, shows every changed line, and is empty exactly when the contents are equal.",
  ["inputs"], "every pair of contents within the bound",
  "tests diff one pair",
  ["internal/diff/diff.go"], [("header rewriting", "internal/diff/diff.go")],
  ["output of 'prototool format --diff'"])
