"""Genuine defects. KNOWN: recorded, (id, property, what fails, input). FIXED: repaired, (property, subject of the commit)."""
KNOWN = [
 ("KF-quoted-number", "C01", 'a quoted string that resembles a number loses its quotes when it is rendered (version: "1.10" becomes 1.1)', 'package:\n  version: "1.10"'),
 ("KF-jinja-statement", "C01", "lines with Jinja statements other than `set` are dropped", "{% if x %}\nbuild:\n  number: 0\n{% endif %}"),
 ("KF-variable-selector", "C01", "the comment or selector of a line that sets a Jinja variable is dropped", '{% set version = "1.0" %}  # [win]'),
 ("KF-patch-quoted-number", "C02", 'the string "1.10", patched in, is read as the number 1.1', 'add /build/x "1.10"'),
 ("KF-test-bool-number", "C02", "`test` finds the number 1 equal to true", "test /build/skip 1 where skip: true"),
 ("KF-test-null", "C02", "`test` finds an empty key different from null", "test /build/n null where n:"),
 ("KF-add-empty-list", "C02", "nothing can be added to an empty list", "add /build/e/- x where e: []"),
 ("KF-add-index-null", "C02", "adding at index 0 of an empty key creates the key `0`", "add /build/n/0 x where n:"),
 ("KF-remove-last", "C02", "a list that loses its last member becomes null", "remove /build/l/0 where l: [a]"),
 ("KF-replace-comment", "C04", "replacing the value of a key drops the comment and the selector of its line", "replace /source/sha256 where sha256: abc  # [win] keep"),
 ("KF-selector-and-comment", "C06", "merging a selector drops the text of the comment", "add_selector AND [osx] on `# [win] a note`"),
 ("KF-selector-replace-comment", "C06", "replacing a selector drops the text of the comment", "add_selector REPLACE [osx] on `# [win] a note`"),
 ("KF-variable-expression", "C08", "a V0 variable that is set to an expression is written as a quoted string (the tests of the project expect it)", 'set_variable("x", "{{ name | lower }}")'),
 ("KF-concat-quotes", "C13", "a concatenation inside of a larger string adds quotes to it (the tests of the project expect it)", 'foo-{{ v + ".1" }}'),
 ("KF-nested-variables", "C13", "variables that are defined by other variables are not resolved", "context: {a: x, b: v${{ a }}}, value ${{ b }}"),
 ("KF-substituted-number", "C13", "a string that resembles a number becomes a number when it is substituted", '{% set v = "1.10" %} and value {{ v }}'),
 ("KF-get-empty-key", "C10", "the value of an empty key is read as the name of the key (the tests of the project expect it)", "get_value(/build/n) where n:"),
 ("KF-paths-of-nothing", "C10", "an empty recipe lists one value with an empty path", "list_value_paths() of an empty recipe"),
 ("KF-flow-address", "C10", "members of flow collections are not addressable", "/build/skip/0 where skip: [a, b]"),
 ("KF-only-comments", "C11", "a key with nothing but comment lines is left out of the object", "build:\n  a:\n    # x\n  b: 1"),
 ("KF-conditional-deps", "C17", "the dependency map fails on a V1 recipe with conditional dependencies", "requirements: {run: [{if: win, then: foo}, bar]}"),
 ("KF-run-exports-groups", "C17", "the names of groups of V1 run exports are listed as dependencies", "requirements: {run_exports: {weak: [foo]}}"),
 ("KF-output-requirements-list", "C17", "the dependency map fails on a V0 output whose requirements are a list", "outputs: [{name: b, requirements: [foo]}]"),
 ("KF-scalar-section", "C17", "a section with a text instead of a list is read letter by letter", "requirements: {run: foo}"),
 ("KF-number-dep", "C17", "the dependency map fails on a dependency that is a number", "requirements: {run: [42]}"),
 ("KF-convert-expression", "C19", "a variable that is set to an expression with quotes is converted to a broken or quoted expression (in part expected by the tests of the project)", '{% set v = name.replace("-", "_") %}'),
 ("KF-convert-silent", "C19", "the comment of a line whose value becomes a conditional, or whose section is rebuilt, is lost without a message if its path still exists", "run: [foo  # [win] why]"),
 ("KF-convert-env-number", "C19", "the value of an environment variable that resembles a number becomes a number", "script_env: [N=3]"),
 ("KF-bump-number", "C22", "a version that resembles a number becomes one if it is not set by a variable (version 1.10 becomes 1.1)", "bump-recipe -t 1.10 on package: {version: 1.0}"),
 ("KF-mirrors", "C24", "a source with a list of URLs (mirrors) is not understood, all of them are read as one URL", "source: {url: [a, b]}"),
 ("KF-git-again", "C24", "fetching a second time from a remote repository fails as the directory is not empty", "fetch(); fetch()"),
 ("KF-convert-only-field", "C19", "the only field of a source in a list is not converted (an error is reported)", "source: [{fn: a}]"),
]
FIXED = [
 ("C02", "fix: patching an out-of-bounds list index fails instead of raising IndexError"),
 ("C02", "fix: patch add at the index of a mapping inserts before it instead of overwriting it"),
 ("C10", "fix: get_value of a list member that is a mapping returns the mapping instead of raising or wrapping it"),
 ("C11", "fix: render_to_object supports lists of mappings under any key, top-level lists and top-level empty keys"),
 ("C10", "fix: get_value keeps the list around a single non-string list member"),
 ("C11", "fix: render_to_object keeps empty keys of mappings found in lists"),
 ("C02", "fix: reject patch additions that would mix keys, list members and values"),
 ("C10", "fix: paths can not address a value by its content"),
 ("C02", "fix: patch add accepts an index equal to the length of the list, as per RFC 6902"),
 ("C03", "fix: a failed patch move leaves the recipe unchanged"),
 ("C05", "fix: replacing a value does not leave a stale selector or comment on its key"),
 ("C06", "fix: editing the selector or comment of a key does not change its only list member"),
 ("C01", "fix: a multiline string may be the last value of a recipe"),
 ("C01", "fix: keep the indentation and the number of blank lines of multiline strings"),
 ("C01", "fix: support multiline strings in the first key of a mapping found in a list"),
 ("C08", "fix: escape quotes and backslashes when rendering V0 string variables"),
 ("C02", "fix: patching in a multiline string as part of a mapping does not corrupt it"),
 ("C02", "fix: patch supports empty lists and mappings as values"),
 ("C14", "fix: selector expressions follow Python's operator precedence"),
 ("C24", "fix: git fetcher checks out the requested tag or revision"),
 ("C24", "fix: git fetcher can fetch from a local repository"),
 ("C23", "fix: truncated, corrupt or unsupported archives raise a FetchError"),
 ("C22", "fix: bumping to a new version resets the build number even with --build-num"),
 ("C12", "fix: search_and_patch patches every match and leaves the caller's patch alone"),
 ("C08", "fix: get_variable_references only reports uses of the given variable"),
 ("C17", "fix: an empty requirements section contains no dependency paths"),
 ("C13", "fix: escape every unresolved variable and not only the first in a string"),
 ("C02", "fix: patching in a string that resembles a number does not re-format it"),
 ("C08", "fix: variables of V1 recipes are kept in step with the context section"),
 ("C20", "fix: bulk conversions count every unrecoverable failure as an exception"),
 ("C26", "fix: relative imports are not dependencies"),
 ("C29", "fix: rattler-bulk-build supports paths and arguments containing spaces"),
 ("C28", "fix: license names containing 'or', 'and' or 'with' are matched"),
 ("C01", "fix: support empty keys as the first key of a mapping found in a list"),
 ("C05", "fix: selectors and comments of mappings found in lists are the ones of their first line"),
 ("C05", "fix: reading the paths of a selector does not destroy them"),
 ("C11", "fix: render_to_object supports an empty key as the first key of a nested mapping"),
 ("C10", "fix: get_value of a collection with variables does not add quotes to its strings"),
 ("C01", "fix: a mapping with an empty key as its only member is not a key-value pair"),
 ("C10", "fix: get_value of a string that resembles a YAML alias does not raise"),
 ("C12", "fix: find_value and search do not match the name of an empty key"),
 ("C03", "fix: a value can not be moved into one of its own children"),
 ("C10", "fix: an empty path addresses the root of the recipe"),
 ("C17", "fix: empty dependency sections do not break the dependency map"),
 ("C01", "fix: Jinja lines with surrounding spaces or comments do not corrupt the recipe"),
 ("C08", "fix: get_variable_references finds uses in multiline strings"),
 ("C19", "fix: converting a false value with a selector does not turn it into true"),
 ("C19", "fix: selectors found on sections are reported when they can not be converted"),
 ("C01", "fix: strings that contain ': ' or ' #' are rendered and read with quotes"),
 ("C01", "fix: a '#' in a quoted string does not start a comment"),
 ("C22", "fix: bump-recipe reports recipe files that are not text"),
 ("C21", "fix: patch reports files that can not be read"),
 ("C24", "fix: a source that is not a collection of keys is unsupported"),
 ("C23", "fix: an HTTP error status is a failed download"),
 ("C23", "fix: fetching again does not mix the sources with those of an earlier attempt"),
 ("C24", "fix: git targets that share their name with a file can be checked out"),
 ("C26", "fix: Python files with a byte order mark or a declared encoding are scanned"),
 ("C27", "fix: a pyproject file that is not text is reported"),
 ("C25", "fix: packages without dependencies can be plotted"),
 ("C06", "fix: removing a selector keeps the rest of its comment as it is"),
 ("C01", "fix: empty strings are rendered with quotes and not read as null"),
 ("C19", "fix: the conversion of environ[] stops at the first closing quote"),
 ("C19", "fix: every Jinja method call of a line is converted"),
 ("C01", "fix: strings with control characters, surrounding spaces or YAML markers keep their quotes"),
 ("C01", "fix: strings that resemble booleans, null or dates keep their quotes"),
 ("C01", "fix: comments and quoted strings that contain ': |' do not start a multiline string"),
 ("C01", "fix: the indentation of lines and comments does not change what is read"),
 ("C01", "fix: multiline strings can be members of a list"),
 ("C01", "fix: multiline strings that start with spaces state their indentation"),
 ("C01", "fix: values that contain ': #' are not mistaken for empty keys"),
 ("C01", "fix: quoted strings keep characters beyond the BMP and unprintable ones"),
 ("C01", "fix: strings with special first characters stay quoted, also with Jinja expressions"),
 ("C22", "fix: a boolean build number is not an integer"),
 ("C18", "fix: the letters of an empty section's name are not its dependencies"),
 ("C02", "fix: the value / is not the root of the recipe"),
 ("C19", "fix: an empty key that is moved or copied stays empty"),
]
