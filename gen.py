#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and checks.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))

# --- assumptions shared by the checks -----------------------------------------------------------------------------
A_ENGINE = "The symbolic executor (engine/) interprets go/ssa of /repo's current sources with Go's semantics, sequentially consistent memory and preemption at synchronisation, channel, network and atomic operations; the Go compiler and runtime are trusted."
A_CRYPTO = "Ed25519, X25519, AES-GCM and SHA-2 are ideal: exactly what was signed verifies (except under public keys of small order, for which signatures can be forged), exactly what was sealed opens, different inputs have different digests, random numbers do not repeat."
A_NET = "The network is an in-memory model of TCP (ordered reliable byte streams, arbitrary fragmentation where the harness asks for it, closes, resets, stalls, refused dials); virtual time passes only when nothing else can run."
A_SOLVER = "The SMT solver (z3) is trusted; an unknown answer is counted in the evidence and never taken for a proof."
PURE = [A_ENGINE, A_SOLVER]
NET = [A_ENGINE, A_CRYPTO, A_NET, A_SOLVER]

P = []
def prop(id, title, statement, over, qtext, why, files, mech, harnesses, bounds, outside, assume=NET, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, harnesses=harnesses, bounds=bounds, outside=outside, assume=assume, observe=observe))

def H(name, q=None, t=None, qs=None, ts=None, reach=None, **kw):
    h = {"Name": name}
    if q: h["Quick"] = q
    if t: h["Thorough"] = t
    if qs: h["QuickS"] = qs
    if ts: h["ThorS"] = ts
    if reach: h["Reach"] = reach.split(",")
    h.update(kw)
    return h

D2 = {"delays": 2}
D1 = {"delays": 1}

exec(open(os.path.join(V, "props.py")).read())

def check_anchors(p):
    """Every file and function an anchor names must exist in /repo (skipped where /repo is absent)."""
    import re
    if not os.path.isdir("/repo"):
        return
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
    for _, where in p["mech"]:
        for part in where.split(";"):
            f, _, names = part.strip().partition(": ")
            for f in f.split(", "):
                assert os.path.exists("/repo/" + f), (p["id"], f)
            for n in filter(None, (n.strip() for n in names.split(","))):
                n = re.sub(r"^(\(\*?\w+\)|\w+)\.", "", n)
                assert re.search(r"\b%s\b" % re.escape(n), open("/repo/" + f).read()), (p["id"], f, n)

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P + NA_PROPS:
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
            if p.get("observe"):
                o["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            check_anchors(p)
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
            f.write(json.dumps(o) + "\n")
    checks = [{"Property": p["id"], "Bounds": p["bounds"], "Outside": p["outside"], "Assumptions": p["assume"], "Harnesses": p["harnesses"]} for p in P]
    with open(os.path.join(V, "checks.json"), "w") as f:
        f.write("[\n" + ",\n".join(" " + json.dumps(c) for c in checks) + "\n]\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA_PROPS],
         "notes": "Every check symbolically executes /repo's current sources (go/ssa, loaded on each run) under the harnesses of /verif/harness and discharges path conditions and assertions with z3; counterexamples are replayed natively against the real code before they are reported. ./check.sh <id> quick|thorough [-v]; ./check.sh x quick -replay evidence/replays/F.json replays one."}
    for p in P:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": "bounded symbolic execution of the real Go code (go/ssa) with SMT (z3)" + (" over inputs and thread schedules" if "schedules" in p["over"] else ""),
            "level": "model_checking",
            "level_note": ("Every value of the symbolic inputs" + (" and every schedule with the stated number of delays" if "schedules" in p["over"] else "") + " within: " + p["bounds"] + " Outside: " + p["outside"] + " Assumes: " + " ".join(a.split(":")[0].split(";")[0].rstrip(".") + "." for a in p["assume"])),
            "evidence_file": "evidence/%s.json" % p["id"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

def docs():
    import glob, re
    d = {}
    for f in glob.glob(os.path.join(V, "harness/h/*.go")):
        for m in re.finditer(r"((?:^//[^\n]*\n)+)func ([A-Z]\w*)\(\)", open(f).read(), re.M):
            t = " ".join(l[2:].strip() for l in m.group(1).splitlines())
            d[m.group(2)] = t.split(": ", 1)[1] if t.startswith(m.group(2) + ": ") else t
    return d

def design():
    f = os.path.join(V, "DESIGN.md")
    s = open(f).read()
    a, b = s.index("<!-- BEGIN GENERATED -->"), s.index("<!-- END GENERATED -->")
    d = docs()
    out = ["<!-- BEGIN GENERATED -->", "## Property by property", ""]
    for p in P:
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*Decided by* (symbolic execution of the functions reached from the harness; the oracle is the harness's own assertion, named here):", ""]
        for h in p["harnesses"]:
            ps = ", ".join("%s %s%s" % (k, v, " (thorough %s)" % h["Thorough"][k] if k in h.get("Thorough", {}) and h["Thorough"][k] != v else "") for k, v in h.get("Quick", {}).items())
            out.append("* `%s`%s: %s" % (h["Name"], " [%s]" % ps if ps else "", d.get(h["Name"], "")))
        out += ["", "*Bounds:* " + p["bounds"] + " *Outside:* " + p["outside"], "", "*Beyond the tests:* " + p["why"], ""]
    out += ["### Not applicable", ""]
    for p in NA_PROPS:
        out.append("* **%s %s**: %s" % (p["id"], p["title"], p["reason"]))
    out.append("")
    open(f, "w").write(s[:a] + "\n".join(out) + s[b:])

main()
design()
