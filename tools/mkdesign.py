"""Writes DESIGN.md from tools/design.in.md: fills in the tables (obligations, findings, planted bugs)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "tools", "design.in.md")).read()
cache = os.path.join(V, "tools", "counts.json")
counts = json.load(open(cache)) if os.path.exists(cache) else {}
rows = []
for p in map(json.loads, open(os.path.join(V, "properties.jsonl"))):
    i = p["id"]
    mod = os.path.join(V, "props", i.lower() + ".py")
    ev = os.path.join(V, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick":
            counts[i] = [len(e["coverage"]["functions_under_contract"]), e["coverage"]["obligations"], int(e["wall_s"]),
                         ", ".join(f"{k} {v}" for k, v in e["coverage"]["backends"].items()), sum(b["cases"] for b in e["coverage"].get("bounded_standins", []))]
    if i in counts:
        n, o, w, b, c = counts[i]
        rows.append(f"| {i} {p['title']} | {n} | {o} | {b} | {c} | {w} |")
json.dump(counts, open(cache, "w"), indent=0)
kf = json.load(open(os.path.join(V, "known_findings.json")))
fixed, seen = [], {}
for k in kf:
    if k["kind"] == "fixed":
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", k["what"])
        fixed.append(f"* `{m[2]}` ({m[1]}) {m[3]}")
finds = [f"* **{k['property']}** {k['what']}" for k in kf if k["kind"] == "finding"]
res = json.load(open(os.path.join(V, "tools", "catches.json"))) if os.path.exists(os.path.join(V, "tools", "catches.json")) else {}
seeds = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "*seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| `{n}`: {m['what_it_breaks']} | {m['needs']} | {res.get(n, '(own property, see vcheck)')} |")
s = s.replace("| | sections | obligations | seconds |\n|---|---|---|---|", "| property | functions | obligations | back ends | bounded executions | s |\n|---|---|---|---|---|---|")
for a, b in (("@@TABLE@@", rows), ("@@FIXED@@", fixed), ("@@FINDINGS@@", finds), ("@@SEEDS@@", seeds)):
    s = s.replace(a, "\n".join(b))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
