# Writes MANIFEST.json.
import json
claimed={
"C01":"seeded simulation of writers, openers and an in-memory kernel with I/O fault injection; verdicts against the faults injected and reference renderings",
"C02":"seeded simulation with fault injection; every chunk handed to a destination is monitored against the reference source",
"C03":"seeded simulation with fault and panic injection; monitor over the sequence of open, write and close events",
"C04":"seeded simulation of crashes, power losses and I/O faults over an in-memory file system; recovery compared with clean reference runs",
"C06":"seeded simulation of repeated executions under differing hash seeds, map orders, random numbers, clocks, environments and process histories; all results compared",
"C07":"seeded simulation of rendering histories with nested, repeated and failing renderings; compared with first renderings of fresh copies and with what declarations handed out before",
"C08":"seeded simulation of concurrent renderings under a controlled scheduler, compared with renderings alone; data races found by the race detector under the same scheduler",
"C09":"seeded simulation of concurrent clients of import tables with operations that abort midway; every step checked against a reference model of the table",
"C10":"seeded simulation of concurrent builders and renderers; references in every generated file resolved and compared with the model",
"C11":"seeded simulation of building, qualifying and rendering with aborts, while an observer task compares all inputs with what they were",
"C05":"seeded simulation of the file system with faults and crashes; monitor over every system call and comparison of the trees",
}
na={}
na.update({
"C20":"pure function of the model: no schedule, clock, fault, I/O or shared state is involved, so there is nothing for a simulator to decide; only the part about references and completeness is decided, under C01 and C10",
"C21":"pure function of the type name; no schedule, clock, fault or interleaving is involved",
"C22":"pure function of the go/types value; no schedule, clock, fault or interleaving is involved (conversions appear as inputs under C10)",
"C23":"pure function of the reflect.Type; no schedule, clock, fault or interleaving is involved (conversions appear as inputs under C10)",
"C24":"pure function of a string; no schedule, clock, fault or interleaving is involved",
"C25":"pure function of the template data and the import table; the parts that depend on schedules or histories are decided under C06, C08, C10 and C11",
"C26":"argument checks of constructors: pure functions of their arguments",
"C27":"sequential, deterministic accessors of declarations; what depends on histories of renderings is decided under C07",
})
notes={
"C01":"Exploration by seeded sampling, no proof. Real gopoet code and real package os over a simulated kernel; trusts the kernel model, the program generator's knowledge of which files are valid and the instrumented build.",
}
base="Exploration by seeded sampling, no proof: a violation within the generated programs, schedules and faults is found with high probability, and each one replays exactly. Real gopoet code runs; trusted are the simulator (scheduler, simulated kernel, patched runtime seams), the program generator and the oracles described in DESIGN.md."
m={"version":1,"setup_cmd":"./run.sh setup","checks":[],"not_applicable":[{"property":p,"reason":na[p]} for p in sorted(na)],
"notes":"No hooks in /repo: the checks instrument a copy of /repo's working tree and patch the runtime and syscall packages through 'go build -overlay'. Replay: ./run.sh replay FILE."}
for p in sorted(claimed):
    m["checks"].append({"property":p,"quick_cmd":"./run.sh check "+p,"thorough_cmd":"env VERIF_TIER=thorough ./run.sh check "+p,"evidence_file":"evidence/%s.json"%p,"technique":"deterministic simulation with fault injection: "+claimed[p],"level":"exploration","level_note":notes.get(p,base)})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
