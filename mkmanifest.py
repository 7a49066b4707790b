import json
T="deterministic simulation with fault injection: seeded search over "
N={
"C01":("hash-seed schedules (iteration orders of every std map), outcomes compared across 6 schedules per run",
 "Sampled: about 300k grammar/script cases, each under 6 seeded hash-seed schedules, on the real library; equality of outcomes needs no model. Trusts that std's RandomState is the only hash-seed source (the seam is self-checked before every run)."),
"C02":("truncated, extended and corrupted scripts under hash-seed schedules, against a reference derivation",
 "Sampled: about 300k grammars, each script cut at many or all points, extended, corrupted; verdict and error position compared with an independent textbook LL(1) derivation. Trusts that model; sizes bounded (see DESIGN.md)."),
"C03":("scripts, stream faults and VM aborts with the tree checked at every VM call, against a reference derivation",
 "Sampled: about 400k runs; the subtree is compared at every VM call of whole, failing and aborted parses, the returned tree in full. Trusts the reference derivation."),
"C04":("VM abort points and script faults, VM call histories checked against a reference order",
 "Sampled: about 400k runs; for many scripts every VM call is tried as abort point. Trusts the reference derivation."),
"C05":("histories of successful, failed and aborted parses on one parser, against a fresh parser and the reference",
 "Sampled: about 240k histories of 2-12 parses. Differential against a fresh parser under the same seeds and against the reference derivation."),
"C06":("interleavings of VM tree edits with the parser's insertions, against a never-recycling model tree",
 "Sampled: about 400k edit histories; after every step the whole tree and every handle ever issued are checked. Trusts the model tree."),
"C07":("reading-call schedules, VM stops/failures/panics and stream ends and stalls, against a queue model",
 "Sampled: about 800k runs, half over grammars with brace sections, half over nested delimited readers on a faulty stream. Trusts the queue model and the reference reader."),
"C08":("rule orders and hash-seed processing schedules, verdicts against a reference LL(1) analysis",
 "Sampled: about 240k arbitrary grammars in several rule orders and schedules plus fixed large probes run in processes of their own. Trusts the reference analysis."),
"C09":("text faults (truncation, loss, duplication, misplaced blocks) and VM faults, results against a reference reader",
 "Sampled: about 600k texts with up to 60 damaged variants each; what is read must be exactly what an independent reader of the grammar language finds. A few spellings the documentation leaves open are counted as unspecified and not judged."),
"C10":("thread interleavings (switches at VM calls, heap allocations and frees, and single basic blocks and memory accesses of library code) and re-entrant parses, each client against itself alone in a fresh process",
 "Sampled: about 48k multi-client runs under a baton scheduler over real threads, which can switch at every basic block and memory access of library code (compiled with coverage callbacks), at heap operations and at VM calls; blocked locks and deadlocks are noticed. Precompiled std is not instrumented and an atomic read-modify-write is one step; memory is sequentially consistent."),
"C11":("open, size and read faults of the real binary under an LD_PRELOAD shim, exit status against the reference",
 "Sampled: about 150k executions of the real command-line binary with planned open/stat/read faults and hash seeds. Trusts the shim and the reference reader, analysis and derivation."),
"C12":("histories of scripts on one machine state with aborted scripts and faulty standard output, against a reference machine",
 "Sampled: about 400k histories; stack, registers, error indicator and printed lines compared after every script. Trusts the reference machine; results in range whose intermediate values are not are not judged."),
"C13":("hash-seed weaving schedules, rule orders and ignorable text inserted or lost anywhere, against the reference",
 "Sampled: about 300k grammars, of which about a third have ignorables woven into rules in use (reported as non-trivial). Trusts the reference weaving and derivation."),
"C14":("interleavings of builder calls, against the text-built parser and the reference",
 "Sampled: about 400k interleavings of builder calls. Differential (API against text) and against the reference derivation."),
"C19":("histories of loads and parses with damaged grammars, cut and corrupted scripts and VM panics, heap held after each round counted at the allocator seam",
 "Sampled: about 90k histories of 40 rounds. A leak shows if some kind of use leaves something behind each time it is repeated; what is kept once (or for the first dozen rounds) is not judged. No model needed."),
"C20":("scripts grown by repeating a nested stretch, whole, cut, corrupted or aborted by the VM, steps and heap bytes counted at instrumented basic blocks",
 "Sampled: about 40k families of three scripts (500, 1000, 2000 repeated characters and up) and layered grammars. Counts basic blocks of library code and of std code instantiated in it, and 16-byte units of block copies; work inside precompiled std is not counted. Thresholds: see DESIGN.md."),
"C21":("text faults (truncation, loss, duplication, misplaced blocks) and VM stops, failures and panics, error positions against a reference reader",
 "Sampled: about 500k histories of damaged texts read by the simulated VM, the stack VM and the counting VM. Trusts the reference reader."),
"C22":("truncated, extended and corrupted scripts and VM aborts under hash-seed schedules, the error's list of expected characters against the reference table",
 "Sampled: about 300k grammars with up to 40 damaged scripts each. Trusts the reference analysis and derivation."),
"C23":("histories of whole, damaged and aborted scripts on two spellings of a grammar under different hash seeds, step by step against one another",
 "Sampled: about 200k pairs of texts. Metamorphic: needs no model of parsing, only the rewriting."),
"C16":("call sequences of the readers on streams that end or stall between any two characters, in delimited sections with escapes",
 "Sampled: about 1M streams, each read by a random sequence of calls; value, error, place and what is left compared with the text after every call. Trusts a small reader model."),
"C17":("histories of calls on several graphs, with refused calls and path sources that end, stall or panic, under hash-seed schedules, against plain lists",
 "Sampled: about 300k histories of up to 40 calls. The containers have no I/O or threads of their own: the fault sources are the caller-supplied path sources, refused calls and the hash seeds of the name table. Trusts the list model. Ids so large that no higher one is left are not given."),
"C18":("literals in sections and texts that end anywhere or are damaged, and scripts cut and damaged, under hash-seed schedules, against the text and a reference derivation",
 "Sampled: about 400k runs of some ten texts or scripts each. Trusts a small model of the literal reader and the reference derivation."),
"C15":("propagation orders (hash-seed schedules and rule orders), sets against naive least fixpoints",
 "Sampled: about 300k grammars in several orders and schedules. Trusts the naive fixpoint in gram.rs."),
}
checks=[]
for k,(t,n) in sorted(N.items()):
    checks.append({"property":k,"quick_cmd":f"./run.sh check {k}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh check {k}","technique":T+t,"level":"exploration","level_note":n})
m={"version":1,"setup_cmd":"./run.sh build","checks":checks,
"not_applicable":[],
"notes":"No hooks in /repo: every seam is a trait or argument the library already has, or a symbol the harness binary supplies (getrandom, write, the global allocator, an LD_PRELOAD shim for the command-line tool). Known findings: known_findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),S)
E=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),E)
