#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so that they stay in step."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP = "packages/Spartan-secq/src/"; SQ = "packages/secq256k1/src/"; CI = "packages/circuits/"; EM = CI + "eff_ecdsa_membership/"; LB = "packages/lib/src/"; RD = "packages/circuit_reader/src/"; WA = "packages/spartan_wasm/src/"; PO = "packages/poseidon/src/"
P = []
def prop(id, title, statement, over, q, why, files, mech, harness=None, technique=None, note=None, observe=None, hook=None, na=None, cmd=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, harness=harness, technique=technique, note=note, observe=observe, hook=hook, na=na, cmd=cmd))
exec(open(os.path.join(ROOT, "tools", "table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["observe"]: o["anchors"]["observe_at"] = p["observe"]
        if p["hook"]: o["anchors"]["hook_needed"] = p["hook"]
        f.write(json.dumps(o) + "\n")
def hook_commits():
    try:
        out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
        return [l.split()[0] for l in out if l.split(" ", 1)[1].startswith("hook:")]
    except Exception: return []
checks, na = [], []
for p in P:
    if p["harness"]:
        base = p["cmd"] or f"bash check.sh {p['harness']} {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": base + " quick", "thorough_cmd": base + " thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
hc = hook_commits()
if hc or HOOKS: m["hooks"] = {"guard": "verif_hooks", "enable": "RUSTFLAGS cfg set in /verif/.cargo/config.toml ([build] rustflags = --cfg verif_hooks)", "source_commits": hc}
m["notes"] = "See DESIGN.md. Checks build from /repo's working tree; crates that are not available offline are replaced by the stand-ins in shims/ and vendor/."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(P), "properties,", len(checks), "checks")
except ImportError: print("no jsonschema")
