#!/usr/bin/env python3
# Generates /verif/MANIFEST.json; every property listed in CLAIMED has a check.
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
PURE="Held on every generated case of the run, in-process, against an independent reference model written from the documentation; no claim beyond the cases run."
E2E="Every generated history ran against the real library in a PTY in a fresh process, compared with a reference model through a terminal emulator at every quiescent point; thread schedules are those the machine produced. Trusts the emulator, the model and unicode-width."
CLAIMED={
"C01":("model-based property testing: builder programs vs a per-character reference line",PURE),
"C02":("property testing of control-character expansion, pure and end-to-end over a PTY and a pipe",PURE+" End to end: "+E2E),
"C03":("property testing: ANSI text vs an independent SGR interpreter",PURE),
"C04":("property testing of wrapping: validity predicate over the output plus metamorphic relations",PURE),
"C05":("stateful model-based testing of History vs a list model",PURE),
"C06":("generated saves with every crash point and every I/O error enumerated by libc interposition","For every generated save, each file operation was made to fail, to be torn, or to be the last one before a crash, in turn, and the files read back. Contents are sampled; crashes are modelled as loss of all later operations (no reordering of writes by the kernel)."),
"C07":("stateful model-based testing of autosaving with failing handlers, and end-to-end sessions",PURE),
"C08":("stateful model-based PTY testing: emulated screen vs a reference layout",E2E),
"C09":("generated multi-threaded printing histories over PTYs and pipes, transcript checked per thread",E2E+" Interleavings are those the scheduler produced with generated pauses, not enumerated."),
"C10":("stateful model-based PTY testing of key histories vs a line editor model",E2E),
"C11":("fuzzing of input byte streams and chunkings vs a reference decoder, and a metamorphic chunking relation",E2E),
"C12":("stateful model-based PTY testing of recall, editing and history swaps",E2E),
"C13":("stateful model-based PTY testing with scripted completors",E2E),
"C14":("stateful PTY testing of notices with sound time bounds",E2E+" Early disappearance is judged exactly; late disappearance only beyond 4 s of slack."),
"C15":("stateful model-based PTY testing of prompts, status and typing",E2E),
"C16":("stateful model-based testing over pipes with generated input streams and chunkings",E2E),
"C17":("enumeration and generation of configurations, judged by terminal settings and bytes",E2E),
"C18":("stateful PTY testing of shutdown and hangup in generated states",E2E+" Promptness is judged with a bound of 4 s, reproduced."),
"C19":("stateful PTY testing of suspension and Control-Z in generated states",E2E),
"C20":("differential/model-based PTY testing against a VT52 emulator",E2E),
"C21":("generated mixtures of reading calls with concurrent senders and keys, history checked",E2E),
"C22":("stateful testing of create/use/drop cycles with resource accounting",E2E),
"C23":("generated stderr streams and chunkings with the capture-stderr feature on, transcript checked",E2E),
"C24":("round-trip property testing through serde_json and a self-describing value, then differential use",PURE),
"C25":("fault injection: panics in generated states and threads, terminal examined at message time",E2E),
"C26":("stateful PTY testing counting and locating bells",E2E),
"C27":("exhaustive enumeration of attribute pairs vs a reference rule","All pairs of (style, fg, bg) are enumerated (exhaustive)."),
"C28":("stateful model-based PTY and pipe testing of binaries built with four other feature combinations",E2E+" Four combinations of features, not all."),
"C29":("stateful model-based PTY testing with keys read by crossterm or by Liso itself",E2E+" crossterm's Unix input only (Windows can't run here)."),
}
import sys
built=set(l.strip() for l in open(os.path.join(root,"tools","built.txt")) if l.strip())
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
checks=[]
na=[]
for i in ids:
    if i in built:
        t,n=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd=f"./check {i} quick",thorough_cmd=f"./check {i} thorough",technique=t,level="fault_enumeration" if i in("C06","C07") else "exploration",level_note=n,evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i,reason="no check has been built for it yet"))
m=dict(version=1,setup_cmd="tools/build.sh all",checks=checks,not_applicable=na,
 notes="No hooks: the harness uses only liso's public API, PTYs, pipes and /proc. Repairs of genuine defects are the fix: commits listed in known-findings.txt.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
