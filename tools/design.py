"""Assemble DESIGN.md."""
import ast, glob, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(f):
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    return d


def main():
    rd = lambda p: open(os.path.join(HERE, "tools", p)).read()
    out = [rd("design_head.md")]
    notes = json.loads(rd("design_notes.json"))
    props = {d["id"]: d for d in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}
    mods = {}
    for f in sorted(glob.glob(os.path.join(HERE, "checks", "C*.py"))):
        mods[os.path.basename(f)[:3]] = (f, consts(f))
    for i, p in sorted(props.items()):
        f, c = mods[i]
        out.append(f"### {i} {p['title']}\n\n*Check:* `{os.path.relpath(f, HERE)}`. *Method:* {c['TECHNIQUE']}.\n\n*Reach and bounds:* {c['NOTE']} {notes.get(i, '')}\n\n*What counts as a distinct situation:* {c['RULE']}.\n")
        if c.get("ASSUMPTIONS"):
            out.append("*Assumptions:* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
    out.append("## 3. Defects found in torch-harmonics (all repaired, one `fix:` commit each)\n")
    for l in open(os.path.join(HERE, "known_findings.jsonl")):
        d = json.loads(l)
        out.append(f"* {d['id']}: {d['what']}")
    out.append("\n" + rd("design_tail.md"))
    out.append("## 5. Planted bugs and what catches them\n\nEvery change below was confirmed in a scratch copy: it builds, all 592 stable tests pass, its demonstration fails with it and passes without it. 'caught by' lists the checks (quick tier, seed 1) observed to report it; 'missed at first' means a check was strengthened because of it.\n")
    cat = json.loads(rd("catch.json")) if os.path.exists(os.path.join(HERE, "tools", "catch.json")) else {}
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        r = cat.get(i, {})
        out.append(f"* **{i}** ({d['property']}): {d['what_it_breaks']} *Needs:* {d['needs']} *Caught by:* {', '.join(r.get('caught', [])) or 'not recorded'}{'; not by ' + ', '.join(r['missed']) if r.get('missed') else ''}.{' ' + r['note'] if r.get('note') else ''}")
    if os.path.exists(os.path.join(HERE, "tools", "design_mut.md")):
        out.append("\n" + rd("design_mut.md"))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
