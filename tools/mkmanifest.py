import json
T="deterministic simulation with fault injection: seeded search over simulated runs of the real binary, "
C={
"C01":("every failing input call must show up in the reports or be made good",
  "faults on open, read, stat, opendir, readdir of every input"),
"C02":("reports compared with an executable model of parser and tracer for all inputs no fault met",
  "up to three failing, missing, cut or undecodable inputs"),
"C03":("reports of differently delivered runs compared byte by byte",
  "short and interrupted reads and writes, directory order, clock, hash seed, log level"),
"C04":("after every output fault the exit status is compared with what arrived",
  "failing, short and zero writes, mkdir and create errors, on files and standard output"),
"C05":("each job's report compared with that of the same job in an undisturbed run",
  "job lists of any order with output faults in any job"),
"C06":("file tree and exit status compared with an executable model of the configuration rules",
  "configuration cut, corrupted, unreadable at any call, job lists with unknown names"),
"C07":("exit status recomputed from the JSON reports of the same run",
  "input and output faults, jobs with and without return code"),
"C08":("bounded steps and a documented exit status under arbitrary bytes and fault sequences",
  "corrupted inputs and configuration, up to eight faults on any call, failing standard streams"),
"C09":("after a history of kills, faults and edits the final run is compared with one on a fresh disk",
  "kill at any call, torn writes, stale and foreign outputs, time stamps"),
"C10":("complete file tree and all attempted changes compared with the requested reports",
  "kills and faults at any call"),
"C11":("reports of one run compared with the versions each input had while it ran",
  "an editor that replaces and deletes inputs between any two calls"),
"C12":("coverage recomputed by a reference model from what the run reports as read, over histories",
  "failing, missing and cut inputs, edits, kills"),
"C13":("tracing errors recomputed by a reference model from what the run reports as read, over histories",
  "failing, missing and cut inputs, edits, kills"),
"C14":("duplicates recomputed from the files, all reports compared",
  "shuffled directories, failing and cut inputs"),
"C15":("reports compared with an executable model of the four input formats",
  "files cut at any byte, delivered in any pieces, interrupted"),
"C16":("all six reports of one run read back and compared with each other",
  "failing, missing and cut inputs, short and interrupted calls"),
"C17":("chains of export and import compared requirement by requirement",
  "exports killed, failing or cut at any byte"),
"C22":("several real processes on one simulated disk, a seeded scheduler decides at each call whose turn it is; each run compared with the same run alone",
  "interleavings of up to four runs, one of them killed or with failing calls at any point"),
}
NA={
"C18":"pure function of its input (library API, not reachable from the program): no schedule, clock, fault, I/O or history in it",
"C19":"pure comparison function of the library, used by no run: no schedule, clock, fault, I/O or history in it",
"C20":"property of the text transformation of ids and titles to anchors, a pure function; faults and schedules cannot influence it",
"C21":"not implemented in this commit (documented only), and a pure function of two ids",
}
checks=[dict(property=k,quick_cmd=f"bash check.sh {k}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh {k}",evidence_file=f"evidence/{k}.json",
  technique=T+a,level="exploration",
  level_note=f"Sampled, not exhaustive. Disturbances: {b}. The unmodified release binary runs under a preloaded library that owns file, directory, stream, clock and randomness calls; trusted: that library, the kernel's tmpfs, the generator's reading of the documented formats and the reference model.") for k,(a,b) in C.items()]
m=dict(version=1,setup_cmd="bash build.sh",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="No hooks in /repo: the seam is the libc boundary (LD_PRELOAD). /repo has fix: commits only, see known_findings.txt.")
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
