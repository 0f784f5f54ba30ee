#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl: every property that has scenarios is claimed.
import json, os, re, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(os.path.join(H,"properties.jsonl"))]
have=set()
for p in json.load(open(os.path.join(H,"h","programs.json"))):
    for ps in re.findall(r'SCENARIO(?:_T)?\s*\(\s*[\w#]+\s*,\s*"([^"]*)"',open(os.path.join(H,"h",p+".cpp")).read()): have|=set(ps.split(","))
DEF="Stateless model checking of the real code: exhaustive enumeration of thread schedules, memory-model reads, timeouts and environment faults under a controlled scheduler, with state caching"
NOTE="Every execution within the scenario bounds (threads, operations, stale reads, faults, preemptions as listed in the evidence) of the real headers/sources of /repo was enumerated. Trusted: the model of the operating system services and of the C++ memory model in mc/rt.cpp, the scenario oracles in h/, g++'s instrumentation."
T={"C17":"Exhaustive enumeration of all operation sequences up to a depth on the real lock classes over a recording mutex, checked against an ownership automaton",
   "C18":"Exhaustive enumeration of all guard programs (constructors x exits x exceptions) on the real guard classes over recording lockables",
   "C13":"Exhaustive enumeration of boundary grids of time values through the real conversions, comparing what reaches the (modelled) operating system with exact integer arithmetic",
   "C19":"Exhaustive enumeration of failure points and error codes of every operating system call and allocation made by each operation of the real code"}
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
 "notes":"No hooks in /repo: the code is checked as it is, compiled with -fsanitize=thread and linked with our runtime instead of libtsan. fix: commits are listed in known_findings.txt."}
for i in ids:
    if i in have: m["checks"].append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,"technique":T.get(i,DEF),"level":"model_checking","level_note":NOTE})
    else: m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1); open(os.path.join(H,"MANIFEST.json"),"a").write("\n")
