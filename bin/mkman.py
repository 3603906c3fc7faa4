import json
S=json.load(open('/verif/sim/props.json'))
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C15":"pure function of one number: no schedule, clock, fault or history enters it, so there is nothing for a simulator to decide (the round trip through simulated pipes in C11 exercises it as a side effect, but sampling cannot decide rounding)",
"C16":"pure function of one contiguous buffer; the caret position has no schedule, fault or history in it (that producing the message never damages anything is part of C05)",
"C17":"a property of programs, fixed when the program is compiled; no execution schedule or fault can influence it"}
M=dict(version=1,setup_cmd="python3 bin/check.py --build-all",checks=[],not_applicable=[],
 notes="Deterministic simulation with fault injection; see DESIGN.md. No hooks in /repo are needed: the library's own seams (buffers handed in and out, need-more-data/release/request-buffer callbacks, global operator new, user type handlers and functions) are where the simulator sits. bin/check.py <ID> --replay FILE replays a recorded violation.")
NOTE=json.load(open('/verif/sim/notes.json')) if __import__('os').path.exists('/verif/sim/notes.json') else {}
for p in P:
    i=p['id']
    if i in S:
        M['checks'].append(dict(property=i,quick_cmd="python3 bin/check.py %s"%i,thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s"%i,
          evidence_file="evidence/%s.json"%i,technique="deterministic simulation with fault injection (seeded search over schedules and faults against an executable reference model)",
          level="exploration",level_note="Seeded search, not enumeration: a clean run is evidence for the sampled schedules, inputs and faults. Every run is a pure function of its seed (checked each time); trusts the reference model in sim/ and the sanitizers. "+S[i]['rule']))
    else:
        M['not_applicable'].append(dict(property=i,reason=NA.get(i,"check under construction")))
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
