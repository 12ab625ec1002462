#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
hook="e494114"
T="deterministic simulation with fault injection"
tech={
"C01":T+": seeded runs of the whole pipeline under simulated environments, against a reference enumeration",
"C02":T+": damaged, stale and torn intermediate files and read faults before the joining stage, results judged by the definitions",
"C03":T+": seeded runs under simulated environments, listed results compared under an independent canonical form",
"C04":T+": pairs of runs that differ in configuration, flow and environment, compared with each other",
"C05":T+": seeded wts runs against the reference classes and qts runs",
"C06":T+": histories of failed, killed and completed runs over old files, cross-checked line by line",
"C07":T+": controlled scheduling of the worker threads of the conversion (random and preemption-bounded), against a reference equivalence",
"C08":T+": injected I/O faults at traced operations of every program stage",
"C09":T+": failing, killed or missing steps inside the scripts",
"C10":T+": crash and power-loss histories followed by recovery with -d",
"C11":T+": killed, failing and repeated stages",
"C12":T+": states left by crashed runs, then runs without -d; snapshots compared",
"C13":T+": concurrent jobs interleaved at every I/O operation, killed and repeated",
"C14":T+": cleanup over decoy trees with kills and removal errors; snapshots and requested removals compared",
"C15":T+": controlled scheduling of the worker threads of the brute-force search (memory-access preemption points)",
"C16":T+": two or three runs interleaved at every command and I/O operation, one of them killed",
"C17":T+": the pair-generation stage under families of simulated FFT plans, keys compared with exact integer arithmetic",
"C19":T+": killed attempts, old files and short transfers before and in one qhm-all, its list compared with the orbits of the listed sequences",
"C20":T+": lists spoiled in single conditions and read faults; the verdict compared with the definitions",
"C21":T+": malformed requests in drawn states and environments; exit status and snapshots compared",
"C22":T+": runs with drawn sets, orders and groupings of flags over earlier data in simulated environments; intermediate data compared with those of the program called directly",
"C18":T+": histories of runs with clock jumps and repeated stages, reported counts compared with the files",
}
note={
"C01":"Seeded sampling of configurations and environments; exhaustive reference for lengths up to 13 (ws 18). Trusts the reference tables (computed independently, cross-checked by brute force for small lengths) and the FFT stand-in's plan family.",
"C02":"Seeded sampling of mutations and faults; the oracle evaluates the definitions directly on every listed line.",
"C03":"Seeded sampling; canonical forms of the oracle are computed by orbit enumeration, independent of the repository's code.",
"C04":"Seeded sampling of pairs of configurations.",
"C05":"Seeded sampling; exhaustive reference classes for the lengths used.",
"C06":"Seeded sampling of histories; formats are parsed independently.",
"C07":"Seeded schedules (random and preemption points) over an instrumented build of the same source; canonical labelling library runs natively.",
"C08":"Seeded sampling of faults at traced operations of every stage, biased to rare operation classes.",
"C09":"Seeded sampling of failing steps; helper tools (sort, tee, rm, date, cargo) are simulated.",
"C10":"Seeded sampling of crash points and histories; power loss is modelled path by path.",
"C11":"Seeded sampling of kill points and repetitions.",
"C12":"Seeded sampling of prior states and flags.",
"C13":"Seeded schedules at I/O-operation granularity of up to four concurrent processes.",
"C14":"Seeded sampling of trees, arguments and faults; removals are confined to the scratch directory.",
"C15":"Seeded schedules at memory-access granularity over an instrumented build; lengths up to 8 or so.",
"C16":"Seeded schedules at command and I/O-operation granularity of two or three runs.",
"C17":"Seeded sampling of FFT plans and pairs; exact keys from integer arithmetic. The plan family models reorderings of the sums and a bounded rounding error, not the code of FFTW.",
"C19":"Seeded sampling of lists, hash seeds and kill points, lengths up to 7 (thorough 8); orbits by an independent enumeration.",
"C20":"Seeded sampling of lists of lengths up to 34 and read faults; near misses are found by a seeded search for sequences that violate few conditions.",
"C21":"Seeded sampling over a fixed list of kinds of mistakes, six states of the results tree and drawn environments.",
"C22":"Seeded sampling of flags, states and environments; the reference is the program itself, called without the scripts.",
"C18":"Seeded sampling of histories and clock jumps.",
}
na={
"N01":"pure functions of their arguments: no scheduling, time, I/O or fault can change what they return; a simulator would add nothing to plain input generation (their effect inside the pipeline is decided by C01, C03 and C04)",
"N02":"pure, total conversions without I/O or concurrency; nothing for a simulated environment or a fault to act on (files written with them are decided by C06)",
"N03":"pure function that no command of the program reaches; no environment, schedule or fault influences it",
"N04":"pure search over integers, unused by the commands of the program; no environment, schedule or fault influences it",
"N05":"pure matrix routines that no command reaches; no environment, schedule or fault influences them",
}
checks=[]; nas=[]
for p in props:
    i=p["id"]
    if i in tech:
        checks.append({"property":i,"quick_cmd":f"./run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i}","evidence_file":f"evidence/{i}.json","technique":tech[i],"level":"exploration","level_note":note[i]})
    else:
        nas.append({"property":i,"reason":na[i]})
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"cfg(vsim)","enable":"RUSTFLAGS-style `--cfg vsim` passed by /verif/build.sh (cargo rustc -- --cfg vsim) for the instrumented build only; cargo build in /repo never sets it","source_commits":[subprocess.check_output(["git","-C","/repo","rev-parse",hook],text=True).strip()]},
 "checks":checks,"not_applicable":nas,
 "notes":"One simulator (/verif/sim) decides all properties; a replay file is executed with `target/sim/release/vsim replay <file>`. See DESIGN.md."}
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'MANIFEST.json'),'a').write("\n")
