"""The properties."""
R = "recipes of both schema versions in the supported block style (two-space indentation, indented lists, scalars, multi-line strings, comments)"
PR, RR = "parser/recipe_parser.py", "parser/recipe_reader.py"
PROPS = []
TECH = {}


def prop(i, title, statement, over, quant, why, files, mech, observe, tech, note):
    PROPS.append({"id": i, "title": title, "statement": statement, "over": over, "quant": quant, "why": why,
                  "files": files, "mech": mech, "observe": observe})
    TECH[i] = (tech, note)


TV = "TLA+ state machine of an editable recipe; TLC validates recorded histories of the real parser"
MB = "TLA+ model checked with TLC; every enumerated behaviour is replayed on the real parser; recorded histories are validated"
NOTE = ("Bounded: seeded random histories plus, where stated, all operation sequences of a small scope. The verdict of every step is "
        "computed by TLC from spec/Recipe.tla alone.")

prop("C01", "Parsing and rendering a recipe loses nothing and reaches a fixpoint",
     "Rendering a freshly parsed block-style recipe, V0 or V1, reproduces its keys, list members, scalars, multi-line strings, Jinja variable header, selectors and comments, in order and on the lines they belong to, with only blank lines and spacing normalised. The data of the rendered text equals the data of the source, as a plain YAML reader sees it. Parsing the rendered text and rendering it again gives the same text.",
     ["inputs"], f"all {R}; also the texts that any sequence of edits produces",
     "The tests compare a fixed set of sample files; the guarantee is about every tree of keys, lists, texts and comments.",
     [RR, "parser/_node.py", "parser/_utils.py", "parser/_traverse.py", PR],
     [("line-by-line tree construction", RR), ("recursive rendering", RR), ("value normalisation and quoting", "parser/_utils.py")],
     ["rendered text", "PyYAML reading of the rendered text"], TV, NOTE)
prop("C02", "Patch operations do what RFC 6902 says",
     "Adding, removing, replacing, moving, copying and testing a value by its path has the effect on the data of the recipe, and the result (success or failure), that JSON Patch prescribes: members are inserted before the given index or appended with `-`, existing keys are overwritten in place, new keys are appended, missing targets and out-of-range indexes fail. A value that was added or replaced is read back equal, a moved value leaves its source, and a copied value stays. A test succeeds exactly if the value is equal.",
     ["inputs", "histories"], f"all sequences of patches with scalars, lists, mappings and texts on {R}",
     "The tests apply a few hundred fixed patches to sample files, mostly one at a time; the guarantee covers any tree, path, value and sequence.",
     [PR, RR, "parser/_traverse.py"], [("patch dispatch and operations", PR), ("path traversal with list index remapping", "parser/_traverse.py")],
     ["return value", "rendered text", "object view", "value reads"], MB, NOTE)
prop("C03", "Operations that fail leave no trace",
     "A patch that is malformed, that addresses something that does not exist or that can not be applied, and an invalid selector, comment or missing path given to an edit, are reported (failure result, validation error, missing-key or value error, respectively). The text, data, selectors, comments, variables, diff and modification flag of the recipe are then the same as before. A test and every read change nothing either.",
     ["histories", "inputs"], f"all histories that mix valid and invalid operations on {R}",
     "The tests check the result of a failed call, rarely that the whole observable state is unchanged, and never after a history of edits.",
     [PR, RR], [("schema validation", PR), ("restore of a failed move", PR)], ["everything observable before and after the call"], TV, NOTE)
prop("C04", "An edit changes only what it addresses",
     "After any edit of a value, selector, comment or variable, every other line of the recipe, including comment lines, end-of-line comments, selectors and multi-line strings, is rendered byte for byte as before and in the same order. New members are put where the edit says, and removed members disappear with their line.",
     ["histories", "inputs"], f"all histories of edits on {R}",
     "Tests compare complete output for single edits of sample files; interference between edits and neighbouring comments depends on the tree and the history.",
     [PR, RR, "parser/_traverse.py"], [("in-place tree edits", PR), ("index remapping around comment lines", "parser/_traverse.py")], ["rendered text"], MB, NOTE)
prop("C05", "The selector index always agrees with the text",
     "At any time, the list of selectors holds each selector that is found on a line of the recipe exactly once and no other, and the paths of a selector are exactly the lines that carry it, in order. Asking whether a selector exists, whether a path has one and which one, agrees with that. This holds after any sequence of patches and selector or comment edits.",
     ["histories", "inputs"], f"all histories of edits on {R}",
     "The index is a cache that every edit must keep in step; tests check it after single edits.",
     [RR, PR, "parser/_selector_info.py"], [("selector table rebuild", RR), ("rebuild after edits", PR)], ["list_selectors", "get_selector_paths", "contains_selector", "selector at path"], TV, NOTE)
prop("C06", "Adding and removing selectors combines them as asked",
     "Adding a selector to a line without one keeps the comment of the line; on a line that has one, it replaces it, or joins the two with `and` or `or`, as asked, and removing a selector returns it and keeps the rest of the comment. The data of the recipe never changes. A path that does not exist or a malformed selector is rejected with an error.",
     ["inputs", "histories"], f"all sequences of selector edits, with every conflict mode, on {R}",
     "Tests cover a few lines and modes of one sample file.",
     [PR, "parser/enums.py"], [("add_selector / remove_selector", PR)], ["rendered text", "selector at path", "return value"], MB, NOTE)
prop("C07", "Modification flag, diff, equality and hash tell the truth",
     "A recipe is unmodified until an edit succeeds and modified from then on; reads never modify it and never change what a later read returns. The diff of an unmodified recipe is empty, and the diff of a modified one turns the original text into the current text. Two recipes are equal, and have the same SHA-256, exactly if they render the same text, and the hash is the SHA-256 of that text.",
     ["histories"], f"all histories of reads and edits on {R}",
     "Tests sample single edits; a read that mutates a cache shows only in particular histories.",
     [RR, PR, "parser/_is_modifiable.py"], [("modification flag", "parser/_is_modifiable.py"), ("diff / calc_sha256 / __eq__", RR)], ["is_modified", "diff", "==", "calc_sha256"], TV, NOTE)
prop("C08", "Variables of a recipe stay consistent",
     "The variables of a recipe are those of its Jinja `set` header (V0) or of its context section (V1), in order; setting, reading, listing and deleting them behaves like a table and is visible in the text, whichever interface makes the change. Reading or asking for a variable that does not exist raises an error or gives the default. The references of a variable are exactly the values that use that variable by its full name.",
     ["histories", "inputs"], f"all histories of variable edits and patches on {R}",
     "Tests touch each call once on sample files; consistency between the table, the text and patches depends on histories.",
     [RR, PR], [("variables table", RR), ("set_variable / del_variable", PR)], ["list_variables", "get_variable", "get_variable_references", "rendered text"], MB, NOTE)
prop("C09", "Comments are kept, listed and edited on their own lines",
     "The comment table lists exactly the end-of-line comments of the recipe, without selectors, with the path of their line. Adding a comment to a path sets the comment of that line and keeps its selector; empty comments and comments that are selectors are rejected. Full-line comments survive every edit of other lines.",
     ["histories", "inputs"], f"all histories of comment edits and patches on {R}",
     "Tests use one sample file and few paths.",
     [RR, PR], [("get_comments_table", RR), ("add_comment", PR)], ["get_comments_table", "rendered text"], MB, NOTE)
prop("C10", "Path queries agree with each other and with the recipe",
     "The listed value paths are exactly the paths of the leaf values, in order, and a path is contained if and only if reading it succeeds. Reading a path gives the value that the recipe has there, for leaves and for whole sections, and a missing path gives the default or a missing-key error. Lists are addressed by position, without counting comment lines, and a value is never addressed by its content. What is returned belongs to the caller.",
     ["inputs", "histories"], f"all existing and non-existing paths of all {R}, after any history",
     "Tests read some paths of some files; agreement must hold on every tree.",
     [RR, "parser/_traverse.py"], [("get_value / contains_value / list_value_paths", RR), ("traversal", "parser/_traverse.py")], ["list_value_paths", "contains_value", "get_value"], TV, NOTE)
prop("C11", "The object view equals the data of the rendered text",
     "At any time, the recipe rendered as an object equals, key for key and with the same types, what a YAML reader finds in the rendered text, with Jinja expressions kept as strings. Reading the value of any section gives the same data. What is returned belongs to the caller.",
     ["inputs", "histories"], f"all {R}, after any history of edits",
     "Tests compare a few files; the two renderers are separate code that must agree on every tree.",
     [RR, "parser/_node.py"], [("render_to_object", RR), ("get_value", RR)], ["render_to_object", "get_value", "PyYAML reading of render"], TV, NOTE)
prop("C12", "Finding and searching values is exact, and patching matches hits all",
     "Finding a value returns the paths of exactly the values equal to it, and searching an expression returns the paths of exactly the values (with their comments, if asked) that it matches, in order. Searching and patching applies the patch to every match, also if earlier ones shift positions, stops at the first failure, and leaves the patch that was passed in alone.",
     ["inputs", "histories"], f"all values, expressions and patches on {R}",
     "Tests search a handful of expressions in sample files.",
     [RR, PR], [("find_value / search", RR), ("search_and_patch", PR)], ["find_value", "search", "search_and_patch", "rendered text"], TV, NOTE)
prop("C13", "Variables are substituted where they are used and nowhere else",
     "Reading a value with substitution replaces each expression that names a variable of the recipe, with lower/upper filters, an index or a concatenation, by the value the variable has at that time, leaves every other expression in place in a uniform notation, and leaves the rest of the text alone. Reading a single value, a section or the whole object gives the same result. Reading without substitution gives the expression as it is written.",
     ["inputs", "histories"], "all values that mix text and expressions, over all tables of variables and any history of setting and deleting them, V0 and V1",
     "Tests use a handful of values and fixed tables; the guarantee covers all combinations of expressions and tables, and changes of the table.",
     [RR, "parser/_utils.py", "parser/_types.py"], [("_render_jinja_vars / _eval_jinja_token", RR), ("substitution expressions", "parser/_types.py")],
     ["get_value(sub_vars)", "render_to_object(replace_variables)", "get_recipe_name"],
     "TLA+ definition of substitution (segments of text and expressions over a table); TLC decides recorded reads of the real code",
     "Bounded: seeded random recipes, tables and histories. Verdicts from spec/Subst.tla.")
prop("C14", "A selector means what its logic expression says",
     "A selector selects exactly the platforms for which its expression, where `not` binds tighter than `and` and `and` tighter than `or`, is true when each operating system, architecture and platform name, in any case, stands for the platforms it covers and any other name for none. It applies to a queried platform exactly if it selects it, and to a query without a platform always. A selector is rendered as it was written, two selectors are equal exactly if their formats and expressions are, and looking at one never changes it.",
     ["inputs"], "all expressions of platform names, other names and logic operators in both formats, all platforms",
     "Tests list a few dozen expressions; the meaning is defined for every expression and platform.",
     ["parser/selector_parser.py", "parser/platform_types.py", "parser/selector_query.py"],
     [("shunting-yard parser", "parser/selector_parser.py"), ("evaluation over platforms", "parser/selector_parser.py")],
     ["get_selected_platforms", "does_selector_apply", "render"],
     "TLA+ semantics of selector expressions; TLC enumerates all small expressions, each replayed on the real code, and decides larger recorded ones",
     "Exhaustive up to a stated expression size, sampled beyond. Verdicts from spec/Selector.tla.")
prop("C15", "Platform look-ups are consistent and belong to the caller",
     "The platforms of an operating system or an architecture are exactly the known platforms with that system or architecture, names are looked up without regard to case and surrounding space, and unknown names give the empty set. The alias `unix` is every platform that is not Windows. A returned set may be changed by its receiver without changing what anybody reads later.",
     ["inputs", "histories"], "all names and their spellings, all histories of look-ups and changes of returned sets",
     "Tests read a few names once; aliasing shows only after a caller changes a result.",
     ["parser/platform_types.py"], [("look-up tables", "parser/platform_types.py")], ["get_platforms_by_os", "get_platforms_by_arch"],
     "TLA+ relation between platforms, systems and architectures; TLC decides recorded look-ups, including histories that change results",
     "Exhaustive over names, sampled over spellings and histories.")
prop("C16", "A build configuration gives the first value that applies",
     "Asking a build configuration for a variable gives the first of its entries that has no selector or whose selector applies to the queried platform, in the order in which the file has them. If there is no such variable or no entry applies, the default is given or a missing-key or value error is raised. The configuration lists exactly the variables of the file that have lists of values, without `zip_keys`.",
     ["inputs"], "all configuration files with lists of entries and selectors, all platforms",
     "Tests read two sample files; the rule covers any order, selector and platform.",
     ["parser/cbc_parser.py", "parser/selector_parser.py"], [("table of entries and selectors", "parser/cbc_parser.py")],
     ["list_cbc_variables", "get_cbc_variable_value", "contains"],
     "TLA+ definition of the first applicable entry over selector semantics; TLC decides recorded look-ups",
     "Bounded: seeded random files, all platforms and query combinations per file.")
prop("C17", "The dependency map holds every dependency of every package",
     "For every package of a recipe, the top level and each output, the dependency map lists each entry of its requirement sections exactly once with its position, section, name, text with variables substituted and selector, and outputs also have those of the top level, in their own name. Packages without a name or with a duplicate name are an error. The listed dependency paths are the entries of the build, host, run and run constraint sections, in that order.",
     ["inputs", "histories"], "all recipes of both schema versions with any outputs, sections, comment lines, empty sections and selectors, after any history of edits",
     "Tests compare the maps of a few sample files; positions and selectors depend on comment lines, outputs and edits in between.",
     ["parser/recipe_reader_deps.py", "parser/dependency.py", RR], [("get_all_dependencies", "parser/recipe_reader_deps.py"), ("get_dependency_paths", RR)],
     ["get_all_dependencies", "get_package_names_to_path", "get_package_paths", "get_dependency_paths", "get_recipe_name"],
     "TLA+ definition of packages and dependencies over the recipe tree; TLC validates recorded histories of the real code",
     "Bounded: seeded random recipes and histories. Verdicts from spec/RecipeDeps.tla.")
prop("C18", "Adding and removing dependencies follows the conflict modes",
     "Adding a dependency to a section replaces the first entry of the same name in place, ignores the new one, appends it, or overwrites the given position, as the conflict mode says, appends if there is no such entry, creates a missing section, and adds its selector, replacing or joining a selector that was there as asked. An invalid position or a missing requirements section is refused without any change. Removing a dependency removes exactly its line.",
     ["inputs", "histories"], "all sequences of dependency edits with all modes, mixed with other edits, on all recipes of both schema versions",
     "Tests try each mode a few times on two sample files; the result depends on duplicates, outputs, selectors and earlier edits.",
     ["parser/recipe_parser_deps.py", "parser/recipe_reader_deps.py", "parser/dependency.py"],
     [("add_dependency / remove_dependency", "parser/recipe_parser_deps.py")], ["return value", "rendered text", "get_all_dependencies"],
     "TLA+ state machine: dependency edits as compositions of the recipe operations; TLC validates recorded histories of the real code",
     "Bounded: seeded random recipes and histories. Verdicts from spec/RecipeDeps.tla.")
prop("C19", "Conversion to the V1 format keeps the meaning of a recipe",
     "Converting a V0 recipe gives a V1 recipe that holds its data under the V1 names and structure (context, conditional list members and booleans, renamed and moved source, build, requirements, about, test and output fields, in canonical order), nothing else, and keeps every line that the conversion does not rewrite, with its comment. Everything that is dropped or has no counterpart (deprecated fields, unsupported variables, unknown or missing licenses, selectors outside of lists, lost comments) is reported once, in the category it deserves, and nothing else is. The original recipe is left alone and the result depends on its text only.",
     ["inputs"], "all V0 recipes built from the documented fields, in any order, with one or many outputs, selectors, comments and variables on any line",
     "Tests compare about twenty sample recipes; the combinations of fields, selectors, comments and outputs are unbounded.",
     ["parser/recipe_parser_convert.py", PR, "parser/_types.py"],
     [("section upgrades", "parser/recipe_parser_convert.py"), ("selectors to conditionals", "parser/recipe_parser_convert.py"), ("canonical sort orders", "parser/_types.py")],
     ["rendered V1 text", "message table"], "TLA+ definition of the conversion on the recipe tree; TLC decides recorded conversions of the real code",
     "Bounded: seeded random recipes. The verdict of every conversion (data, order, messages, kept lines) is computed by TLC from spec/Convert.tla.")

CM = "commands"
prop("C20", "The convert command reports, writes and counts what happened",
     "Converting one recipe prints the converted text or writes it to the output file, prints each error and warning of the conversion with their totals to the error output, and exits with 0, or the code of a warning, an error or the failed stage (read, pre-process, parse, not convertible, render), in which case nothing is written. Converting a directory writes exactly the recipes that could be converted, one per file found, and its statistics (files, errors, warnings, rounded percentages, histograms, lists of files) agree with the outcome of each file. The bulk exit code depends on the success rate and the given minimum only.",
     ["inputs"], "all recipe files, readable or not, alone or in directories of any size, with all combinations of options",
     "There is no test of the bulk statistics; a test of one directory can not show that the counts agree with the outcomes in every mix.",
     ["commands/convert.py", "commands/utils/print.py", "types.py", "parser/recipe_parser_convert.py"],
     [("convert", "commands/convert.py"), ("MessageTable totals", "types.py")],
     ["exit code", "standard output and error", "files written", "JSON statistics"],
     "TLA+ definition of exit codes, written files and statistics over the outcomes of the files; TLC decides recorded runs of the command",
     "Bounded: seeded random files and directories. The outcome of each file is computed by the library (its correctness is C19). Verdicts from spec/Commands.tla.")
prop("C21", "The patch command applies patches in order up to the first that fails",
     "The patch command applies one patch or a list of patches to the recipe in the given order; the file afterwards holds the recipe with all patches, or with those before the first that fails, and the exit code tells success, a malformed patch or a failed patch. Files that can not be read, are not JSON or are not recipes are reported with their own exit codes and nothing is written. No other file is written, and without a failure nothing is lost from the recipe.",
     ["inputs", "histories"], "all recipes, all lists of well- and malformed patches, all kinds of unreadable files",
     "Tests apply two patch files to one recipe.",
     ["commands/patch.py", PR], [("patch", "commands/patch.py"), ("patch operations", PR)],
     ["exit code", "text of the recipe file", "files written"],
     "TLA+ state machine of the patch operations; TLC replays each recorded list of patches and compares file and exit code",
     "Bounded: seeded random recipes and lists of patches. Verdicts from spec/Commands.tla and spec/Recipe.tla.")
prop("C22", "bump-recipe sets build number, version and the hashes of all sources",
     "Without a target version the build number is incremented if asked for, else set to 0; with a target version it is set to 0, the version (its variable if there is one, else the package's) is set, and the hash of each downloaded source becomes that of what its URL, with variables substituted, serves then, in the one variable that holds the hash if the only source uses it, else in the source itself. A failed download is tried again up to five times in all, with growing pauses, and git sources are left alone. If a step fails the exit code tells which and the file is left unchanged; otherwise nothing else of the recipe changes.",
     ["inputs", "faults"], "all recipes of both schema versions with any sources and variables, all options, all patterns of failing downloads",
     "Tests replace the network by a mock that answers three URLs; failures, retries and several sources at once are outside of them.",
     ["commands/bump_recipe.py", "fetcher/http_artifact_fetcher.py", "fetcher/artifact_fetcher.py", PR],
     [("bump_recipe and retry loop", "commands/bump_recipe.py"), ("from_recipe", "fetcher/artifact_fetcher.py"), ("hash of the archive", "fetcher/http_artifact_fetcher.py")],
     ["exit code", "text of the recipe file", "requests the local server receives, and when"],
     "TLA+ state machine: the bump as a sequence of recipe operations over a table of served hashes and failure counts; TLC decides recorded runs against a local server",
     "Bounded: seeded random recipes, options and failures; the pause between tries is scaled down by the option the command has for it. Verdicts from spec/Bump.tla.")
prop("C29", "rattler-bulk-build builds every recipe once and reports the failures",
     "Every recipe.yaml under the directory is built exactly once by `rattler-build build -r <file>` with the given extra arguments, whatever its path. The statistics, error histogram, lists and the optional build log agree with the exit codes and messages of the builds; the log is sorted by number of recipes. The exit code depends on the success rate and the given minimum, and is an error of its own if there is nothing to build.",
     ["inputs"], "all directory trees, names, extra arguments and outcomes of the builds",
     "There is no test of this command; builds run in parallel processes and their reports are merged.",
     ["commands/rattler_bulk_build.py"], [("rattler_bulk_build", "commands/rattler_bulk_build.py")],
     ["calls of a stand-in for rattler-build", "JSON statistics", "build log", "exit code"],
     "TLA+ definition of statistics and log over the outcomes of the builds; TLC decides recorded runs of the command",
     "Bounded: seeded random trees and outcomes; rattler-build is a stand-in that records its arguments. Verdicts from spec/Commands.tla.")
FE = "fetcher"
prop("C23", "Archives are fetched whole, safely, or not at all",
     "After a fetch that succeeds, the source directory holds exactly the files, directories, links and executable bits of the served archive (tar, compressed or not, or ZIP, told apart by content), the hash is the SHA-256 of the served bytes and the type is that of the archive. Everything else (no connection, error status, truncated or damaged data, unknown format) is a FetchError, and before the first success every getter raises FetchRequiredError. Whatever the archive contains, nothing is written outside of the fetcher's private temporary directory, which disappears with the fetcher.",
     ["inputs", "histories", "faults"], "all archives, honest or hostile, all failures of server and connection, all histories of fetches and reads of several fetchers",
     "Tests fetch two small archives and one failure through a mock; contents, damage, hostile members and sequences of fetches are unbounded.",
     ["fetcher/http_artifact_fetcher.py", "fetcher/base_artifact_fetcher.py", "utils/cryptography/hashing.py"],
     [("download and extraction", "fetcher/http_artifact_fetcher.py"), ("fetch guard and temporary directory", "fetcher/base_artifact_fetcher.py")],
     ["fetch result", "source directory", "hash", "type", "everything outside of the directories of the fetchers"],
     "TLA+ state machine of fetchers over archives and server responses; TLC enumerates all short histories, which are replayed, and validates recorded random ones",
     "All histories of one fetcher up to depth 4 (thorough 5) and of two up to 2 (3) over two archives and a failure; seeded random archives, failures and histories beyond. Verdicts from spec/Fetch.tla.")
prop("C24", "Sources of a recipe are fetched from where the recipe says",
     "Each source of a recipe with a URL (preferred) or git repository gives one fetcher under the path of the source, with the name of the recipe (numbered if there are several sources) and variables substituted, and it fetches from that URL or repository; other sources are an error, or left out if that is asked for, and nothing is fetched before it is asked for. A git fetcher checks out the tag, else the revision, else the branch, else leaves the head as it is, for local and remote repositories alike; a target or repository that does not exist is a FetchError. The repository is not changed.",
     ["inputs"], "all recipes of both schema versions with any mix of sources, all git repositories and combinations of targets",
     "Tests check types of fetchers of a few recipes only; there is no test of the git fetcher.",
     ["fetcher/artifact_fetcher.py", "fetcher/git_artifact_fetcher.py", "fetcher/http_artifact_fetcher.py"],
     [("from_recipe", "fetcher/artifact_fetcher.py"), ("target resolution and checkout", "fetcher/git_artifact_fetcher.py")],
     ["fetchers returned", "fetched files", "requests", "repository"],
     "TLA+ definition of the wanted commit of a repository and of the fetchers of a recipe; TLC decides recorded fetches of the real code",
     "Bounded: seeded random repositories, targets and recipes. Verdicts from spec/Fetch.tla.")
prop("C26", "The Python scanner finds exactly the outside packages a project imports",
     "For every tree of Python files, the reported dependencies are the top level packages imported absolutely anywhere in any file with a .py name (nested code included, text and comments not), minus the standard library and the modules of the project itself, with well known import names corrected, plus Python itself for host and run. A package imported by tests only is a test dependency; any other is a run dependency and is not repeated for tests. A file that can not be parsed is reported by name as an exception and does not affect what is found elsewhere; files are read as Python reads them (encodings, byte order marks).",
     ["inputs"], "all directory trees of Python files and all forms of imports",
     "Tests scan two small fixed projects; the set of trees, import forms and encodings is unbounded.",
     ["scanner/dependency/py_dep_scanner.py", "scanner/dependency/base_dep_scanner.py"],
     [("scan of one file and merge", "scanner/dependency/py_dep_scanner.py"), ("new_project_dependency", "scanner/dependency/base_dep_scanner.py")],
     ["scan() results", "messages"],
     "TLA+ definition of the dependencies of a project over its files and imports; TLC decides recorded scans",
     "Bounded: seeded random trees and imports; rendered in all forms by the harness from the imports the specification sees. Verdicts from spec/Scan.tla.")
prop("C27", "Dependencies of pyproject files are all reported, or the reason why not",
     "For every pyproject file, the entries of the dependencies of the project are run dependencies and those of every group of optional dependencies are run constraints; each keeps its text, and nothing else is reported. A missing file or one that can not be parsed gives one exception message and a file without a project section one error message, naming the file, and no dependencies.",
     ["inputs"], "all pyproject files, well-formed or not",
     "Tests read a handful of fixed files.",
     ["scanner/dependency/pyproject_dep_scanner.py", "scanner/dependency/base_dep_scanner.py"],
     [("scan", "scanner/dependency/pyproject_dep_scanner.py")],
     ["scan() results", "messages"],
     "TLA+ definition of dependencies and messages of a file; TLC decides recorded scans",
     "Bounded: seeded random files; wrong types of well-formed entries are not covered. Verdicts from spec/Scan.tla.")
prop("C28", "License fields are matched to the closest SPDX ID, never made up",
     "An exact name or ID of the SPDX database gives its ID, well known mistakes are corrected whatever their case and surrounding blanks, and any other field gives the ID of the most similar name or ID if one is similar enough (0.6), else nothing. Fields that are expressions (the words AND, OR or WITH in any case, also next to parentheses) or lists with commas are never simplified to one license; words that only contain those words are no expressions. Results do not depend on earlier matches.",
     ["inputs"], "all license fields",
     "Tests look up a few strings; the interplay of operators, corrections and similarity over all fields is unbounded.",
     ["licenses/spdx_utils.py"], [("find_closest_license_match", "licenses/spdx_utils.py")],
     ["result of the match"],
     "TLA+ definition of the right matches of a field; TLC decides recorded matches of all names and IDs and of generated fields",
     "All names and IDs; seeded random fields. Similarity is taken from Python's difflib. Verdicts from spec/Spdx.tla.")
prop("C30", "Message tables keep every message, in order, by category",
     "After any history of added messages and clears, a category lists exactly the messages added to it since the last clear, in order, with repetitions, the counts agree with the lists, and the totals name the numbers of errors and warnings with the right plural (empty if there is nothing). Categories and tables do not affect each other, and reading changes nothing.",
     ["histories"], "all histories of operations on message tables",
     "Tests run one fixed history.",
     ["types.py"], [("MessageTable", "types.py")],
     ["get_messages", "get_message_count", "get_totals_message"],
     "TLA+ state machine of the table; TLC enumerates all histories up to a depth with what every read must give, all replayed on the code",
     "All histories up to depth 4 (thorough 5) with two texts, and random concatenations of those. Verdicts from spec/Messages.tla.")
prop("C25", "The recipe graph of a directory is complete, and its shell answers truthfully",
     "For every directory of recipes, whatever the order in which they are read, the graph knows exactly the packages of the recipes that can be read; the build graph links each to what it needs to build (build, host), the test graph to what it needs to run (run, test requirements). Packages of several recipes take the edges of one of them and are listed as duplicates, recipes that fail are listed, equal recipes count once, and the statistics add up. A plot of a package shows exactly what can be reached from it in the given direction; the shell carries out each line it understands, in any letter case, reports every other line and goes on until it is told to quit.",
     ["inputs", "histories", "schedules"], "all directories of recipes, all orders of reading, all sessions of the shell",
     "Tests build a few fixed graphs; nothing tests plots, the shell, or the order in which recipes are read.",
     ["grapher/recipe_graph.py", "grapher/recipe_graph_from_disk.py", "commands/graph.py"],
     [("construction and plots", "grapher/recipe_graph.py"), ("reading of a directory", "grapher/recipe_graph_from_disk.py"), ("shell", "commands/graph.py")],
     ["statistics", "lookups", "graphs that are drawn", "output and exit code of the shell"],
     "TLA+ state machine of the construction, checked over all small collections and orders, and definition of plots and shell responses over the trees of the recipes; TLC decides recorded directories and sessions",
     "All collections of 3 recipes with 2 (thorough 3) package names in the model; seeded random directories and sessions on the code. Verdicts from spec/Graph.tla and spec/RecipeDeps.tla.")
