#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and budget.json from the one table below.
Only properties whose test exists in harness/ are claimed."""
import glob, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXTERNAL = ["the oracle parses output with gopkg.in/yaml.v3 v3.0.1 and trusts it to read YAML",
            "yot runs single processes in a private root; only its command line, files and streams are observed"]

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, rule, quick=1000, thorough=12000, race=False,
         technique="property-based testing against a reference model", note="", assumptions=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, rule=rule, quick=quick, thorough=thorough, race=race, technique=technique,
                      note=note, assumptions=list(assumptions)))


prop("C01", "What no overlay touches passes through unchanged",
     "Data that no overlay selects comes out of yot as it went in: every document of every input file that is not deleted is written, in order, with the same structure, the same mapping order, the same scalar types and the same scalar texts. This holds for any valid YAML content, however it was quoted, indented or nested, and for every indentation level from 2 to 9. Output is always valid YAML that reads back to that data.",
     ["inputs", "configurations"], "all YAML documents (any depth, width, key text, scalar text and type, quoting form), one or more per file, and all instructions whose overlays select something else or nothing",
     "the tests compare a few fixed manifests; a text that only breaks when it is re-emitted unquoted, or in the 10th item of a list, is never sampled",
     ["internal/instructions/config.go", "internal/instructions/yamlfile.go", "internal/actions/style.go"],
     [("decode all documents", "internal/instructions/yamlfile.go readYamlFile"), ("encode with reset styles", "internal/instructions/config.go encodeNodes")],
     ["files below the output directory"],
     "files of 1-4 random documents (deep, wide, odd keys, text that other types or the emitter could swallow, every quoting form) with overlays that touch at most a marked spot; non-trivial when a document has more than three nodes")

prop("C02", "Merge deep-merges mappings, appends to lists, replaces scalars",
     "A merge overlay merges its mapping value key by key into every node its query selects, adding new keys after the existing ones, appends its list items to a selected list, and replaces a selected scalar; a value of another kind takes the node's place. Nothing else in any document changes. The result does not depend on how the documents or the value are written.",
     ["inputs", "histories"], "all documents, queries, values and sequences of overlays",
     "tests merge a handful of small trees; the rule is recursive and quantifies over all trees, all selected nodes and all earlier overlays",
     ["internal/actions/merge.go", "internal/overlays/overlay.go"],
     [("merge/mergeMap/mergeArray/mergeScalar", "internal/actions/merge.go")], ["files below the output directory"],
     "1-3 files with random documents, then sequences of overlays drawn against the evolving documents, mostly merge; non-trivial when a merge overlay selects at least one node")
prop("C03", "Replace substitutes exactly the selected nodes",
     "A replace overlay makes every node its query selects equal to its value, whatever kind of node and value these are, and changes nothing else. Every selected node gets its own copy, so later overlays on one place do not show at another.",
     ["inputs", "histories"], "all documents, queries, values and sequences of overlays",
     "tests replace single scalars; sharing between several selected nodes, or a leftover of the old node, shows only on other shapes and on later overlays",
     ["internal/actions/replace.go", "internal/overlays/overlay.go"], [("ReplaceNode", "internal/actions/replace.go")], ["files below the output directory"],
     "as C02 with mostly replace overlays; non-trivial when a replace overlay selects at least one node")
prop("C04", "Delete removes exactly the selected entries, items or documents",
     "A delete overlay removes every selected mapping entry (key and value), list item or whole document, and nothing else, including when one query selects several neighbours. A deleted document is not written, and a file whose documents are all deleted produces no output.",
     ["inputs", "histories"], "all documents, queries with any number of matches, and sequences of overlays",
     "tests delete one or two nodes; index arithmetic over neighbours, keys versus values and emptied documents needs all shapes",
     ["internal/actions/delete.go", "internal/instructions/config.go"], [("DeleteNode", "internal/actions/delete.go"), ("omit empty files", "internal/instructions/config.go doPostProcessing")],
     ["files below the output directory"], "as C02 with mostly delete overlays; non-trivial when a delete overlay selects at least one node")
prop("C05", "Combine concatenates strings, adds integers, conjoins booleans",
     "A combine overlay concatenates strings, adds integers of any size and notation by value, and takes the conjunction of booleans, at every selected scalar and nowhere else. Collections, floats, nulls, timestamps and operands that are not numbers are refused with an error, never turned into something else.",
     ["inputs", "histories"], "all pairs of original and overlay values of the combinable types, and sequences of overlays",
     "tests combine a few small values; overflow, other notations and other types are never sampled",
     ["internal/actions/combine.go"], [("CombineNode", "internal/actions/combine.go")], ["files below the output directory", "exit status"],
     "as C02 with mostly combine overlays; non-trivial when a combine overlay selects at least one node")
prop("C06", "A query selects exactly the nodes its JSONPath denotes",
     "The query (or list of queries) of an overlay selects exactly the nodes the JSONPath expression denotes in each document: children in dotted or bracketed spelling, unions, wildcards, recursive descent, positions from either end, slices, filters and key names. All selected nodes are changed and no others.",
     ["inputs"], "all documents and all expressions of the supported grammar",
     "tests use a dozen fixed expressions; wrong positions, missed or extra matches depend on the shape of the document",
     ["internal/overlays/query.go", "internal/overlays/overlay.go"], [("Queries.Find", "internal/overlays/query.go")], ["files below the output directory"],
     "random documents (often lists of records) and queries obtained by widening an exact path step by step; an overlay marks what it selects; non-trivial when at least one node is selected",
     technique="property-based testing against an independent JSONPath evaluator")
prop("C07", "Overlays apply in the documented order, to the documented documents",
     "Each document gets the common overlays in listed order, then the overlays of its file's entries in listed order, then those of its documents entries; entries naming the same file, directly, through a directory or spelled differently, accumulate in listed order, and an overlay from the command line comes after the other common ones. Overlays of one entry never reach another entry's files.",
     ["histories", "inputs", "configurations"], "all instructions: any number of common, file and document overlays, entries, repetitions, directories and path spellings",
     "the tests run two example instruction files; aliasing between entries and order across duplicates need other counts and shapes",
     ["internal/instructions/instructions.go", "internal/instructions/yamlfile.go", "internal/overlays/workstream.go"],
     [("addCommonOverlays", "internal/instructions/instructions.go"), ("mergeDuplicates", "internal/instructions/yamlfile.go"), ("queueOverlays", "internal/instructions/yamlfile.go")],
     ["files below the output directory"],
     "1-3 files x 1-4 documents in which every overlay leaves an order-revealing trace (append, concatenate, overwrite), entries repeated, rotated, through directories, ad hoc overlays; non-trivial when some file gets three or more overlays",
     technique="property-based testing of histories against a reference model")
prop("C08", "Qualifiers restrict an overlay to exactly the documents they name",
     "An overlay with documentIndex applies only to the listed positions of each file, and one with documentQuery only to documents for which at least one group has all its conditions met: every condition's query finds something and, where a value is given, everything found equals that value (structure, order, types and texts; not comments or quoting). Conditions are evaluated on the document as the earlier overlays left it.",
     ["inputs", "histories"], "all documents, groups of conditions, values and indices",
     "tests evaluate a few conditions on one document; equality of nested values, and/or structure and evaluation after earlier overlays are quantified over all of them",
     ["internal/overlays/documentquery.go", "internal/overlays/overlay.go"], [("checkQueries/checkQuery", "internal/overlays/documentquery.go"), ("CheckDocumentIndex", "internal/overlays/overlay.go")],
     ["files below the output directory"],
     "1-2 files x 1-4 documents, overlays with 1-3 groups of 1-3 conditions on scalars, mappings and lists (equal, restyled, or changed in one place) and index lists; non-trivial when some document qualifies and another does not",
     technique="property-based testing against a reference model")
prop("C09", "When a query finds nothing, onMissing decides what happens",
     "An overlay whose query finds nothing in a document leaves it untouched, unless inject is requested by the overlay or by the default action: then its value appears at the query path when that is a plain path, else at each injectPath, with missing parents created and everything else kept. Delete never injects, and an overlay whose query finds something never injects.",
     ["inputs", "configurations"], "all documents, plain and unbuildable queries, inject paths, values and ways of setting the default",
     "tests inject at two or three fixed paths",
     ["internal/overlays/onmissing.go", "internal/builder/path.go", "internal/builder/lexer.go"],
     [("onMissing/doInjectPath", "internal/overlays/onmissing.go"), ("BuildPaths", "internal/builder/path.go")], ["files below the output directory"],
     "documents and overlays with missing paths that share prefixes with existing ones, odd key names, null parents, unbuildable queries, 1-3 inject paths, default action by flag or environment; non-trivial when a query finds nothing in some document",
     technique="property-based testing against a reference model")

prop("C10", "Files are processed independently, whatever the schedule",
     "The output for a file is what processing that file alone gives, no matter how many other files there are, which share its overlays, in which order they are listed or how the work is scheduled. The run fails exactly when some file fails on its own, and no execution has a data race.",
     ["schedules", "inputs"], "all sets of files sharing common overlays, all orders of entries, numbers of processors and interleavings",
     "files are processed concurrently on shared overlay values; the tests run few files once",
     ["internal/instructions/execute.go", "internal/overlays/workstream.go", "internal/overlays/overlay.go"],
     [("one goroutine per file", "internal/instructions/execute.go Execute"), ("copy of overlay values", "internal/actions/merge.go addNode")],
     ["files below the output directory", "exit status", "race detector reports"],
     "2-30 files with common overlays of every kind (markers, comments, injections, qualifiers): run together, permuted, with other GOMAXPROCS, in part under the race detector, and each file alone, comparing bytes; non-trivial when a common overlay reaches at least two files",
     race=True, quick=110, thorough=3000, technique="metamorphic property-based testing over schedules, with the race detector as a monitor")
prop("C11", "Comments survive, and comments of overlay values are injected",
     "Every comment of an input file comes out at the node it was written at, unless that node was deleted or the overlay brought a comment of its own for it; comments in overlay values appear at the nodes the overlay makes or changes. This holds for all actions, except where yaml.v3 itself cannot render the comment in its place.",
     ["inputs", "histories"], "all placements of comments in documents and overlay values, and all sequences of overlays",
     "the tests check a handful of comments; every action handles comments on its own path",
     ["internal/actions/merge.go", "internal/actions/replace.go", "internal/actions/combine.go"],
     [("mergeComments", "internal/actions/merge.go"), ("ReplaceNode keeps comments", "internal/actions/replace.go")],
     ["files below the output directory"],
     "documents with unique head, line and foot comments and overlays whose values have line comments, or head, line and foot comments, against a model that tracks comments per node and is rendered by yot's version of yaml.v3; also untouched files with comments at random lines; cases the library cannot render faithfully are discarded; non-trivial when at least two comments are expected",
     assumptions=["yaml.v3 v3.0.0-20210107192922 renders comments of the expected tree (checked by reading them back)"])
prop("C12", "Removing comments removes all existing comments and nothing else",
     "With comment removal on, by flag, environment or configuration file, no comment of an input file is left in the output, wherever it stood, while the data and the comments brought by overlays are as without it.",
     ["inputs", "configurations"], "all placements of comments and all ways of setting the option",
     "the tests remove a few comments; documents have comments in places of their own (document head and foot, ends of collections)",
     ["internal/instructions/yamlfile.go", "internal/instructions/instructions.go"],
     [("removeCommentsFromNode", "internal/instructions/yamlfile.go")], ["files below the output directory"],
     "documents with comments at random lines and indentations or per node, overlays with comments, the option set in four ways; non-trivial when the sources have comments")
prop("C13", "Format markers stand for the original value, key and comments",
     "In the values, keys and comments of a merge overlay the markers %v, %k, %l, %h and %f stand for the value, key, line, head and foot comment of the node they are merged into, each edited by the sed command in braces behind it. They are replaced in one pass: text that comes from the original is not read as markers again, and everything else in the overlay stays literal. A marker key applies to every key of the mapping; where there is no original, markers vanish; a value forced to a type keeps that type. A command that sed rejects leaves its marker's text unedited and affects nothing else.",
     ["inputs"], "all originals, marker texts, sed commands, positions of markers and chains of overlays",
     "tests format a few labels; originals that look like markers, keys of other types and repeated or adjacent markers are never sampled",
     ["internal/actions/format.go", "internal/actions/markers.go", "internal/actions/merge.go"],
     [("format", "internal/actions/format.go"), ("mergeMap, mergeScalar, mergeComments", "internal/actions/merge.go")], ["files below the output directory"],
     "documents with and without comments and with marker-like text, merge overlays whose values, keys and comments have markers and sed commands; non-trivial when a value with markers meets a node",
     note="Not judged, because the documentation leaves them open: markers on collections, a marker key on an empty mapping, sed over several lines, %k outside mappings.")
prop("C14", "Every output is written where the instructions say, and nowhere else",
     "The documents of every input file end up in exactly one file: under the output directory at the file's path below the deepest directory all inputs share, or where its last outputPath says (a file name, a directory, an absolute path, a directory's structure being kept). Files with the same base name do not collide, old content is replaced entirely, stdout names every written file once, and no other file is created, changed or removed, the inputs included.",
     ["inputs", "configurations"], "all directory trees, spellings of paths, lists of yamlFiles entries, outputPath values and output directories",
     "the tests use one flat directory; which names collide or escape depends on the whole set of paths",
     ["internal/instructions/config.go", "internal/instructions/instructions.go", "internal/instructions/utils.go", "internal/instructions/yamlfile.go"],
     [("setOutputPath", "internal/instructions/instructions.go"), ("openOutputFile", "internal/instructions/config.go"), ("GetCommonPrefix", "internal/instructions/utils.go")],
     ["every file of the private root before and after", "stdout"],
     "trees of up to 5 YAML files in odd directories with junk files, entries for files and directories in many spellings with outputPath, output directories given in many ways, some holding old outputs or the inputs themselves; non-trivial when several files are written, one is moved or one is overwritten")
prop("C19", "Exactly the listed files are read, each once, with everything listed for it",
     "yot processes exactly the YAML files the instructions and the command line list: a listed file whatever its name, and all .yaml and .yml files at any depth below a listed directory. Relative paths are resolved against the directory of the instructions file. A file listed several times, in any spelling or through a directory, is processed once with the overlays of all its entries in order.",
     ["inputs", "configurations"], "all directory trees, lists of entries, spellings of paths and working directories",
     "the tests list single files from one working directory",
     ["internal/instructions/yamlfile.go", "internal/instructions/utils.go", "internal/instructions/config.go"],
     [("expandDirectories, mergeDuplicates", "internal/instructions/yamlfile.go"), ("getFileNames", "internal/instructions/utils.go"), ("ReadAdHocPaths", "internal/instructions/config.go")],
     ["every file of the private root before and after", "stdout"],
     "trees as for C14 with overlays that leave a trace of their order, instructions in other directories than the working directory, also -p with and without instructions; non-trivial when several files or junk files are involved")
prop("C15", "Styles and indentation change how the output looks, not what it says",
     "Every output is valid YAML with the processed documents' structure and text whatever styles and indentation are chosen, by flag, environment or configuration file and in any documented spelling. Every node has the selected form: plain block (normal), double- or single-quoted, literal or folded, flow, tagged; several styles combine. Types are kept by normal, flow and tagged. Each level of nested mappings is indented by the chosen width (2 to 9).",
     ["inputs", "configurations"], "all documents, overlays, style combinations, spellings and indentations",
     "tests render no document in another style; which texts survive a style depends on their content, and comments and nulls interact with it",
     ["internal/actions/style.go", "internal/instructions/config.go", "internal/commands/flags.go"],
     [("SetStyle", "internal/actions/style.go"), ("GetStyleFromConfig", "internal/actions/style.go"), ("encodeNodes, doPostProcessing", "internal/instructions/config.go")],
     ["output files"],
     "files with awkward scalars, long and multi-line texts, comments, nesting and overlays, rendered in one to three styles and an indentation; non-trivial when a document has more than three nodes")
prop("C16", "Flags override the environment, which overrides the configuration file",
     "Every setting takes its value from the flag, else from its YOT_ environment variable, else from the configuration file, else the documented default; the configuration file is the one named by --config, else by YOT_CONFIG_FILE, else yot.config of the working directory, of ~/.yot or of /etc/yot. A run behaves exactly as one in which the resulting settings are all given by flags, and yot env reports exactly these settings.",
     ["configurations"], "all assignments of settings to flags, environment variables and configuration files",
     "tests cover no interaction of the sources of settings",
     ["internal/commands/flags.go", "internal/commands/root.go", "internal/commands/env.go", "internal/instructions/config.go"],
     [("initConfig, SetupLogging", "internal/commands/root.go"), ("flags", "internal/commands/flags.go"), ("env command", "internal/commands/env.go")],
     ["output files", "stdout", "stderr", "yot env"],
     "each of seven settings given by none to three sources, several configuration files at once, YAML and JSON, flags in their spellings; non-trivial when a setting is given at all")
prop("C17", "Templated instructions mean what their rendering with the values means",
     "With values files, the instructions are the rendering of the given text as a Go template with Sprig functions over the values; the run then does exactly what it does with the rendered text. Values files are plain data: a later one overrides scalars and extends mappings of the earlier ones, and no text in them is changed on the way. Without a values file, instructions are taken literally; input files are never templates.",
     ["inputs", "configurations"], "all instructions, templates rendering to them, values and divisions of the values over files",
     "the tests merge four fixed values files and render no instructions",
     ["internal/instructions/template.go", "internal/instructions/values.go", "internal/instructions/instructions.go"],
     [("renderInstructionsTemplate", "internal/instructions/template.go"), ("getValues", "internal/instructions/values.go"), ("ReadInstructionFile", "internal/instructions/instructions.go")],
     ["output files"],
     "generated instructions in which arbitrary pieces of text are replaced by template actions known to render to them (fields, index, if, range, with, variables, nested templates, comments, trimming, a dozen Sprig functions), the values spread over one to three files with overridden decoys; braces in inputs and values; non-trivial when at least one value is used")
prop("C20", "Overlays and files of the command line act like those of instructions",
     "An overlay given by -q, -a and -x acts exactly as if it were the last common overlay of the instructions, several -q being a list of queries, the action defaulting to merge, and query and value being taken as written. A file given by -p acts like a yamlFiles entry, alone or besides instructions; -p - reads it from standard input and writes stdin.yaml; -i - reads the instructions from standard input.",
     ["inputs", "configurations"], "all documents, overlays, queries, values and combinations of the command line with instructions",
     "the tests do not run the command line",
     ["internal/instructions/config.go", "internal/overlays/query.go", "internal/commands/flags.go", "internal/overlays/overlay.go"],
     [("ReadAdHocOverlays, ReadAdHocPaths", "internal/instructions/config.go"), ("Queries.Set", "internal/overlays/query.go"), ("SetValue", "internal/overlays/overlay.go")],
     ["output files"],
     "overlays of every action with queries from the whole supported grammar and values in flow and block form, with and without instructions, through files and standard input, each compared with the reference model and with the equivalent instructions; non-trivial when there is an overlay on the command line")
prop("C21", "Stdout shows what files would hold; runs repeat; logging changes nothing",
     "With --stdout yot prints exactly the bytes it would have written to files, each file starting with ---, in whichever order, and writes nothing else anywhere. Running again over existing outputs gives the same bytes, no log level changes outputs or stdout, and results read again without overlays come out byte-identical.",
     ["inputs", "configurations"], "all documents, overlays, styles, indentations and log levels",
     "the tests compare no two runs",
     ["internal/instructions/config.go", "internal/instructions/execute.go", "internal/commands/root.go"],
     [("doPostProcessing, encodeNodes", "internal/instructions/config.go"), ("PostProcessHandler", "internal/instructions/execute.go"), ("SetupLogging", "internal/commands/root.go")],
     ["output files", "stdout", "every file of the private root before and after"],
     "generated files and overlays, some deleting documents, some with comments, styles and indentations; five or six runs each; non-trivial when anything is written", quick=350, thorough=5000)
prop("C22", "Anchors and aliases keep what they stand for",
     "Documents and overlay values may use anchors, aliases and merge keys. An alias in the output stands for what it stood for in the input, with the changes overlays made to the anchored node; changing, combining or replacing an alias changes it alone. This holds also when the anchored node or a parent of it is deleted, replaced or overwritten, and when anchor names are used twice. Document queries compare the data behind an alias. Aliases in overlay values are resolved within the instructions.",
     ["inputs", "configurations"], "all documents and overlay values with anchors and aliases, and all sequences of overlays that hit aliases, anchored nodes, their parts or their parents",
     "the tests contain no anchor",
     ["internal/actions/aliases.go", "internal/actions/merge.go", "internal/actions/replace.go", "internal/overlays/overlay.go", "internal/overlays/documentquery.go"],
     [("RestoreAliases", "internal/actions/aliases.go"), ("expandAlias, textOf", "internal/actions/merge.go"), ("resolveAliases", "internal/overlays/overlay.go"), ("equal", "internal/overlays/documentquery.go")],
     ["output files, read with aliases resolved"],
     "documents with up to four aliases per document, as values, items, keys and merge keys; up to five overlays aimed at aliases, anchored nodes, their parts and their parents; non-trivial when an overlay hits one of these",
     assumptions=["the query language does not look behind aliases (documented behaviour of the JSONPath library): queries end at them"])
prop("C23", "Comments stay at their entries, in every syntax and style",
     "Every comment of an input, written above, behind or below an entry of a block or flow collection, is in the output exactly once, still as a comment, and between the same neighbours: after everything that precedes its entry and before everything that follows it. This holds in every output style and indentation, with anchors and aliases, and after overlays changed other entries or the value of its own; no comment becomes data.",
     ["inputs", "configurations", "histories"], "all placements of comments around entries of block and flow collections, all output styles and all overlays that keep the entry",
     "the tests look at a few line comments in block style; where the encoder puts a comment depends on the kinds and styles of the nodes around it",
     ["internal/actions/style.go", "internal/actions/merge.go", "internal/actions/replace.go", "internal/instructions/yamlfile.go"],
     [("liftComments, SetStyle", "internal/actions/style.go"), ("mergeComments", "internal/actions/merge.go"), ("ReplaceNode", "internal/actions/replace.go")],
     ["files below the output directory"],
     "generated texts of up to three documents whose keys, scalars and comments are all unique, comments above, behind and below entries, between keys and values, inside flow collections of several lines and behind block scalar indicators; up to three overlays; any output style; non-trivial when at least three comments must stay",
     assumptions=["sources whose comments the YAML library already reads elsewhere are discarded"])
prop("C18", "What cannot be done is refused: message, failure status, no crash, no output",
     "Unreadable or missing inputs, instructions, values and configuration files, invalid queries, actions, overlays, templates and arguments make yot end with a non-zero status and a message (naming the input at fault), before anything is written. An overlay that cannot be applied fails the run and its file is not written; output that cannot be written fails the run. No instructions, input or values file crashes yot, whatever is in it, and what it writes for accepted instructions is valid YAML. Sources are never changed.",
     ["inputs", "configurations", "faults"], "all invalid inputs, instructions, templates, values and arguments; all I/O failures",
     "the tests contain six failing inputs and no I/O failure",
     ["internal/instructions/*.go", "internal/overlays/*.go", "internal/actions/*.go", "internal/commands/root.go"],
     [("ReadInstructionFile", "internal/instructions/instructions.go"), ("readYamlFile, expandDirectories", "internal/instructions/yamlfile.go"), ("Execute", "internal/instructions/execute.go"), ("doPostProcessing", "internal/instructions/config.go"), ("UnmarshalYAML", "internal/overlays/overlay.go")],
     ["exit status", "stderr", "stdout", "every file of the private root"],
     "three kinds: one fault from thirteen groups put into a valid scenario of up to six files; structural mutations of the instructions tree; byte-level damage to any source file. Every case is non-trivial",
     assumptions=["texts on which the pinned YAML parser itself panics are discarded"])
prop("C24", "Instructions that say the same do the same",
     "Instructions that say the same in another way give byte-identical outputs. The ways: common overlays or overlays listed first for every file; one entry or several for the same file; overlays with documentIndex or documents entries; a list of queries or an overlay for each (where one does not change what the next finds); defaults left out or written out; the names of actions in small or capital letters; keys, query groups and conditions in any order, or given twice; queries and values in block or flow notation; further overlays that have nothing to do. Overlays applied in one run give the data they give when they are divided over two runs, of which the second reads what the first wrote.",
     ["inputs", "histories", "configurations"], "all instructions and files, and all chains of such changes to the instructions; all divisions of a list of overlays",
     "the tests compare no two instructions with each other",
     ["internal/instructions/instructions.go", "internal/instructions/yamlfile.go", "internal/overlays/*.go", "internal/actions/*.go"],
     [("addCommonOverlays", "internal/instructions/instructions.go"), ("mergeDuplicates, processYamlFiles", "internal/instructions/yamlfile.go"), ("Process, checkDocumentIndex", "internal/overlays/overlay.go")],
     ["files below the output directory", "exit status"],
     "up to three files with comments, anchors or arbitrary syntax; overlays of all actions with markers, comments, conditions, positions and injection; one to four changes of seven kinds to the instructions, or a division into two runs; non-trivial when some overlay finds something",
     assumptions=["changed instructions are only compared when the reference semantics gives them the same meaning", "where the library reads comments of the instructions at other nodes, the case is discarded"])
#MORE

ready = {p for f in glob.glob(HERE + "/harness/p_*_test.go") for p in re.findall(r"^func Test(C\d+)\(", open(f).read(), re.M)}
with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPS:
        if p["id"] not in ready:
            continue
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
json.dump({p["id"]: {"quick": p["quick"], "thorough": p["thorough"], "race": p["race"], "rule": p["rule"],
                     "assumptions": EXTERNAL + p["assumptions"]} for p in PROPS if p["id"] in ready},
          open(HERE + "/budget.json", "w"), indent=1)
open(HERE + "/budget.json", "a").write("\n")
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "technique": p["technique"], "level": "exploration",
                 "level_note": p["note"] or "Searched over generated cases, seeded and shrunk to a replay file; no claim beyond the cases explored. Trusts the reference model and yaml.v3 as the reader of outputs."}
                for p in PROPS if p["id"] in ready],
     "not_applicable": [],
     "notes": "No hooks: yot is driven as a black box through its command line, built from /repo's working tree by every check. See DESIGN.md."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
print("claimed:", " ".join(sorted(ready)))
