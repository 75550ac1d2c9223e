#!/usr/bin/env python3-vt
"""dev/props.py: the property table; writes properties.jsonl and MANIFEST.json. Only properties with a rule (tool/rules_*.py) are claimed."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tool")
sys.setrecursionlimit(20000)

P = []
def prop(id, title, statement, over, text, why, files, mech, note="", technique=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=note, technique=technique))

NA = {}
def na(id, reason):
    NA[id] = reason

R = "puck/src/request/mod.rs"; RB = "puck/src/request/builder.rs"; S = "puck/src/response/mod.rs"; SB = "puck/src/response/builder.rs"
ENC = "puck/src/response/encoder.rs"; B = "puck/src/body/mod.rs"; MI = "puck/src/body/mime.rs"; C = "puck/src/core/mod.rs"
RT = "puck/src/core/router/mod.rs"; MU = "puck/src/core/router/match_url.rs"; L = "puck/src/lib.rs"
F = "puck/src/ws/frame.rs"; M = "puck/src/ws/message.rs"; W = "puck/src/ws/websocket.rs"; WS = "puck/src/ws/send.rs"; U = "puck/src/ws/upgrade.rs"
exec(open(V + "/dev/props_table.py").read())

def main():
    import check
    rules = check.rules()
    out = []
    checks = []
    nal = []
    for p in P:
        p = dict(p)
        note, tech = p.pop("note"), p.pop("technique")
        if p["id"] in rules:
            checks.append(dict(property=p["id"], quick_cmd="python3 tool/check.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 tool/check.py %s --tier thorough" % p["id"], level="other",
                               technique=tech or "trace-partitioning abstract interpretation of the compiler's MIR",
                               level_note=(note + " " if note else "") + "Decided on every path of the functions involved, re-exported from the compiler on each run. "
                               "Trusts the library models in tool/models.py. A path the analysis cannot read is reported as undecided in the evidence, never as a violation."))
        elif p["id"] in NA:
            nal.append(dict(property=p["id"], reason=NA[p["id"]]))
        else:
            print("no rule yet:", p["id"])
            continue
        out.append(p)
    with open(V + "/properties.jsonl", "w") as f:
        for p in out:
            f.write(json.dumps(p) + "\n")
    json.dump(dict(version=1, setup_cmd="python3 tool/extract.py", checks=checks, not_applicable=nal,
                   notes="No hooks: the analysis reads the unmodified sources. known_findings.txt lists repaired defects and open findings."), open(V + "/MANIFEST.json", "w"), indent=1)
    import jsonschema
    sch = json.load(open("/root/.vp/MANIFEST.schema.json"))
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), sch)
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
    print(len(checks), "claimed", len(nal), "not applicable")
main()
