#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties: every C property is claimed, every P property is not."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
note={
"C01":"Seeded search over call histories; each result is compared with the same call made alone in a fresh process. Trusts that the fresh-process result is right: what it means is not judged.",
"C02":"Seeded search over interleavings of real threads parked and released one at a time at every basic-block edge, load, store, allocation and blocking call of the instrumented crate. Sequentially consistent: effects of weak memory are not simulated.",
"C03":"Seeded search over points at which threads are stalled for ever inside calls; remaining callers must finish within a step bound. Also bounds the steps of every call made alone.",
"C04":"Seeded fill patterns in fresh heap blocks and in the dead stack before each call; results must equal those of a fresh process. Memory inside std's precompiled code is not tracked.",
"C05":"Calls run in a world whose clock, environment, randomness, process id and files are drawn from the seed and change between reads; results must equal those of the plain world.",
"C06":"Simulated disk and streams with splits, interruptions, errors, fsync failures, torn and lost writes and crashes; everything read back is compared with what was written. Formats: JSON (text, pretty, value tree), bincode (fixed and variable integers), CBOR.",
"C07":"Seeded damage to stored encodings and seeded garbage through faulty sources; values that come out must be in range and stable. Debug assertions and overflow checks are on, as in the repository's tests.",
"C08":"Seeded failures of byte sinks and of a scripted serializer at every call; results are compared with the fault-free encoding.",
"C09":"A scripted deserializer delivers seeded scripts of parts and errors; results are compared with a small model of what a delivery means.",
"C10":"Seeded re-entry, panics and thread exits at callbacks the library makes; every call is compared with a fresh process.",
"C11":"Long seeded churns of distinct calls with an allocator that accounts for every block; growth between two halves of a life must vanish.",
"C12":"The store alternates between the real crate and a reference model of the stored form that stands for the earlier release, with crashes between; bytes and values must agree. Trusts the model, which was written from the documented formats.",
"C13":"Replicas keep and exchange values as text; every text written is compared with an executable model of the styles, every text read with the value sent, across message and disk faults. The faults reach the text only through order, repetition and reuse of calls; breadth over values comes from the seeded commands.",
"C14":"Real BTreeMap, HashMap, sort and binary search over the library's values on several nodes under seeded delivery, duplication, loss and rebuilds, compared with an index over exact integer measures.",
"C15":"A replicated register machine whose commands build, convert and take apart values; every reply of every replica is compared with an executable model of the calendar.",
"C16":"As C15, for arithmetic; the model works in 128-bit integers. Scaling by floats is compared within a stated tolerance; unreportable overflow of justification is not judged.",
"C17":"As C15, for extraction, truncation, precision and field restrictions. The epoch field of timestamps (unfinished in the library) is not judged.",
"C18":"As C15 with operands at the extremes, and only errors, ranges and panics judged. Debug assertions and overflow checks are on.",
"C19":"As C15, with commands that spell a value known beforehand in the documented ways; the oracle is the value the text was made from.",
"C20":"As C15, with commands that carry texts no value can be read from, among good ones; the oracle is that each is refused, and that the replicas go on agreeing.",
}
na=""
nar={"P02":"no oracle for undocumented texts is available offline (there is no PostgreSQL server here, and a model of its parser would be this parser over again), and schedules, clocks and faults have no part in it; C19 decides the documented spellings, C07 that whatever is accepted is a sound value",
"P10":"Rust's global allocator aborts the process when memory cannot be got and the crate uses no fallible allocation: the only outcome is std's abort, which is not this crate's behaviour to decide"}
m={"version":1,"setup_cmd":"./check.sh --build",
"checks":[{"property":p["id"],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough",
  "technique":"deterministic simulation with fault injection, seeded search","level":"exploration","level_note":note[p["id"]]} for p in props if p["id"][0]=="C"],
"not_applicable":[{"property":p["id"],"reason":nar.get(p["id"],na)} for p in props if p["id"][0]!="C"],
"notes":"No hooks in /repo: the code under test is instrumented by the compiler (SanitizerCoverage through RUSTC_WRAPPER) and its system calls and allocations are interposed in the simulator's binary. Replay a reported violation with: sim/target/debug/pgdst replay <file> -v"}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
