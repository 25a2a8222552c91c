import json
head = r'''# How the properties of yot are decided

Every property in `properties.jsonl` is decided by **property-based testing of the program itself**: `check.py` builds
`yot` from /repo's working tree, a harness (Go, [rapid](https://pkg.go.dev/pgregory.net/rapid), `harness/`) generates
complete scenarios (input trees, instructions, values and configuration files, arguments, environment, standard input),
runs the binary on them and compares everything observable (every file of a private root before and after, stdout,
stderr, exit status, race reports) with an explicit oracle. Nothing inside yot is called, hooked or stubbed, so the
checks judge what the code does and not how it is written; there are no hooks in /repo.

## Machinery

| part | what it is |
|---|---|
| `check.py ID` | builds yot (statically; with `-race` for C10), replays `regress/ID-*.json`, then runs 8 shards of `TestID`, each with a seed derived from `VERIF_SEED`; writes `evidence/ID.json`; `--replay FILE` evaluates one saved case |
| `harness/model.go`, `emit.go` | YAML trees of the model; an emitter of its own (it is deliberately not the one yot uses) with many spellings; the canonical form outputs are compared in |
| `harness/apply.go`, `query.go`, `format.go` | the reference semantics, written from `docs/sections`: actions, qualifiers, onMissing, order; an evaluator for JSONPath; format markers and sed |
| `harness/comments.go` | where comments belong, rendered and read with yot's version of yaml.v3 |
| `harness/gen.go`, `scene.go` | generators: scalars, trees, queries, overlays drawn *against the evolving state of the documents* (so that histories keep hitting something) |
| `harness/exec.go` | a `Case` is self-contained data (files, links, runs, asserts): generation and evaluation are separate, so a replay file needs no generator |
| `harness/p_*_test.go` | one test per property |
| `tools/meta.py` | the one table `properties.jsonl`, `MANIFEST.json` and `budget.json` are written from |
| `tools/mutate` | mutation testing of the machinery (not a check) |

**Containment.** yot runs chrooted, in a user namespace of its own, in a scratch directory made for the shard: wherever a
changed yot writes, it writes there. The binary is static for that reason.

**Oracle's reader.** Outputs are read with `gopkg.in/yaml.v3` v3.0.1, not with the older snapshot yot uses. What both
versions get wrong would be invisible; the generator's own emitter keeps inputs independent of either.

**Scale.** Most draws are small, because small cases shrink and run fast; every size has a rare far range: sources of
hundreds of documents, items, keys or nesting levels or of long text (`bulk`, about 1 % of the sources of every property),
hundreds of overlays, entries or document indices (C07), up to 150 files (C10). That is where buffers, narrow integers
and super-linear algorithms show (a condition nested 20 levels deep took yot exponential time, see the fixes).

**Discarding.** A case the documentation leaves open is discarded by the generator (`discard`), never judged loosely.
`evidence/*.json` has the number of discarded draws, and how many generated cases were non-trivial by the property's rule.

**Shrinking.** rapid shrinks the draws; the shrunk `Case` is written to `replays/` and named in the VIOLATION line.

**Levels.** All claims are `exploration`: searched over what was generated, no more. Quick is 8 x 1000 cases (C10: 8 x 110
sets of runs, C21: 8 x 350) in 10 to 40 s; thorough is about 12 times as many.

## Properties
'''
out=[head]
import re
EXTRA={
'C01':"Oracle: the input as the generator built it (a model tree), so reading, passing through and writing is a round trip over the whole of YAML the emitter can spell: plain, quoted and block scalars, multi-line plain and folded text, flow and block collections, explicit and complex keys, explicit indentation indicators, directives, document ends, tags, byte order marks, CRLF. Indentations 2 to 9.",
'C02':"Oracle: `Apply` in apply.go, a recursive merge over model trees. Several selected nodes, nulls, kind changes, empty collections, list appends, earlier overlays (state-based histories of 1-6 overlays).",
'C03':"Oracle: `Apply`; copies are checked by later overlays on one of the places.",
'C04':"Oracle: `Apply`; documents deleted by `$`, all neighbours at once, whole files emptied (then no file may exist).",
'C05':"Oracle: `combine` in apply.go with big integers; refusals are judged as `fails` + file not written.",
'C06':"Oracle: an independent JSONPath evaluator (query.go), not the library yot uses. Queries are derived from an existing path by widening steps, so most select something; the overlay marks what was selected. Filters compare small integers and strings; a query that selects a node twice or a node inside another is only used where the order cannot matter.",
'C07':"Oracle: `Process` in apply.go. Every overlay leaves a trace in which order shows (append, concatenation, overwriting).",
'C08':"Oracle: `qualifies` in apply.go; values are equal, restyled, or perturbed in one place, or null (nulls are equal however they are written).",
'C09':"Oracle: `inject` in apply.go. Missing names hold marker texts, commas and other characters that need no quotes in a query.",
'C10':"Metamorphic: the bytes written for a file in a run with 2-30 files = the bytes when it is processed alone, for permutations of the entries and several GOMAXPROCS; part of the runs use the race-detector build, whose reports are violations. Schedules are sampled by the Go scheduler, not enumerated: that is the limit of this family here; the race detector makes one sampled schedule stand for those with the same happens-before order.",
'C11':"Oracle: a model that tracks comments per node, rendered with yot's own yaml.v3, because documented bugs of that library are excepted; a case it does not render so that it reads back as meant is discarded. Also a differential: untouched files come out as the library alone would write them. Comments behind collections, of sources and values, are followed by key.",
'C12':"Oracle: no comment of the sources (each has a unique token) is in the output; data and overlay comments as in the run without the option.",
'C13':"Oracle: one-pass expansion in format.go with a sed of its own for the commands the generator makes. Markers stand in values, keys and comments, those above a key included; one command in ten is none.",
'C14':"Oracle: path computation from the documentation (p_files_test.go) on random trees; the whole private root is compared before and after.",
'C15':"Oracle: outputs are read back and compared with the model; the form of every node (style, indentation) is read from the library's node positions and styles.",
'C16':"Metamorphic: the run with settings spread over flags, environment and files = the run with the resulting settings given by flags; `yot env` prints them; log levels by what is on stderr.",
'C17':"Metamorphic: templated instructions with values = the text they render to. Template and rendering are generated together, so no template engine is part of the oracle.",
'C18':"Oracle: exit status, a message on stderr (naming the input at fault), no panic trace, no output, sources unchanged. Faults: thirteen groups, plus structural mutation of instructions and byte-level damage (fuzzing) with the crash and valid-output oracles.",
'C19':"Oracle: which files should be read and with what, from the documentation.",
'C20':"Oracle: the reference model, and the equivalent instructions file.",
'C21':"Metamorphic: stdout = concatenation of the files in some order; second run = first; logging = no logging; output of output = output.",
'C23':"Oracle: an order invariant on the text. Keys, scalars and comments are unique words; for every comment that must stay, the last word before its entry and the first word behind it are known from the generated text, and the comment must lie between them in the output, after a `#`. Data is compared with the reference model as well. Sources whose comments the library reads elsewhere (checked on its node tree with the same invariant) are discarded, about a fifth.",
'C24':"Oracle: metamorphic, the real program against itself. A scenario with overlays of every kind is run; then the instructions are changed by one to four transformations that keep their meaning (common overlays spread over the entries, entries divided, documents entries turned into documentIndex overlays and back, lists of queries into single overlays, idle overlays added, defaults, orders and notations changed) and the run repeated: same exit status, same bytes. The reference semantics only guards the transformations (where it gives them different meanings, for instance because a query is affected by the one before it, the case is discarded), so comments, markers, styles and layout, which it does not follow, are compared as well. A third of the cases divides the overlays over two runs instead and compares the data.",
'C22':"Oracle: model graph (aliases are pointers); outputs are compared with aliases resolved.",
}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    out.append("### %s %s\n%s\n"%(d['id'],d['title'],EXTRA.get(d['id'],'')))
import subprocess
out.append(open('/tmp/design_tail.md').read().replace('CATCHES',subprocess.check_output(['python3','/verif/tools/catches.py'],text=True)))
open('/verif/DESIGN.md','w').write("\n".join(out))
