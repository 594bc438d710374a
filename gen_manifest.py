#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
IN="deterministic simulation with fault injection: "
T={
"C01":(IN+"whole program under a scripted libc, seeded read/stat/clock results",
  "Seeded search: the real executable runs with every result of open, statx, lseek, read and clock_gettime scripted; its exit status and report are compared with the verdict of the library on the complete content. Sampled, not exhaustive. Trusts that the program reaches the system through libc (LD_PRELOAD)."),
"C02":(IN+"whole program under a scripted libc, seeded I/O, allocation and encoding failures",
  "Seeded search over failure points and errors; a failure counts only if the log shows that it reached the program. Sampled, not exhaustive. Trusts the LD_PRELOAD log."),
"C03":(IN+"whole program under a scripted libc, seeded write failures",
  "Seeded search over short, interrupted, zero and failing writes on both standard streams; judged from the bytes the simulated streams took. Sampled, not exhaustive."),
"L01":(IN+"simulated clocks, stalled token source, overlapping parses",
  "Seeded search; the printed time is compared with the simulated monotonic time between the first request and the last delivery (tolerance: printing of a double). Sampled, not exhaustive."),
"L02":(IN+"seeded scheduler over threads and nested parses",
  "Seeded search over interleavings at token requests, the only points where parses can interact through the source; data races inside a request are not interleaved. Each history is compared with the same parse run alone."),
"L03":(IN+"source failures at every kind of request, crash and recovery histories",
  "Seeded search over histories; containment, payload identity and probes compared with a fresh process. Sampled, not exhaustive."),
"L04":(IN+"source crash: truncation at characters and tokens",
  "Seeded search; verdicts demanded only where the generator's annotations decide them (open bracket, dangling construct, complete statement). Sampled, not exhaustive."),
"L05":(IN+"trivia injected between tokens by the simulated source",
  "Seeded search, metamorphic: each program against itself with other trivia. Sampled, not exhaustive."),
"L06":(IN+"simulated token source that checks every request",
  "Seeded search over valid programs; goals at each slash and closing curly are known by construction. Sampled, not exhaustive."),
"L07":(IN+"token loss, duplication, reordering and replacement on the way from source to parser",
  "Seeded search; rejection is demanded only when a necessary condition of the grammar is violated, acceptance only of generated valid programs. Sampled, not exhaustive."),
"L08":(IN+"arbitrary and damaged token histories from the simulated source",
  "Seeded search; verdict within the request bound, no internal failure. A panic counts as internal by the kind of its message (unwrap on None, overflow, index, unreachable, assertion). Sampled, not exhaustive."),
"T01":(IN+"damaged and truncated texts under seeded goal schedules",
  "Seeded search against an independent position model of the text. Sampled, not exhaustive."),
"T02":(IN+"seeded interleaving of copied streams",
  "Seeded search; each copy is compared with a stream that was never copied. Sampled, not exhaustive."),
}
NA={
"N01":"conformance to the grammar is a pure function of the text: no schedule, clock, fault or second party (the part that depends on how a source answers is L05-L07)",
"N02":"rejecting wrong syntax is a pure function of the text; only the part a faulty source can cause (cut, lost, swapped tokens) is claimed, as L04 and L07",
"N03":"the value of a token is a pure function of its text: nothing to schedule or inject",
"N04":"src/ast is not compiled into the crate, and printing is a pure function of the tree",
"N05":"a pure function of nesting depth; the stack that runs out is neither scheduled nor injected",
"N06":"deterministic simulation decides nothing about performance",
}
m=dict(version=1,setup_cmd="./build.sh",
 hooks=dict(guard="jsparse_sim",enable='RUSTFLAGS="--cfg jsparse_sim" (the simulator crate in /verif/sim has a path dependency on /repo); the program for C01-C03 is built without it',source_commits=["ea362c2"]),
 checks=[dict(property=k,quick_cmd=f"./check.sh {k}",thorough_cmd=f"./check.sh {k} thorough",evidence_file=f"evidence/{k}.json",technique=t,level="exploration",level_note=n) for k,(t,n) in T.items()],
 not_applicable=[dict(property=k,reason=r) for k,r in NA.items()],
 notes="Replay a violation with: .build/sim/debug/jsim replay replays/<file>. Defects found and repaired are listed in known_findings.txt.")
json.dump(m,open("MANIFEST.json","w"),indent=1)
