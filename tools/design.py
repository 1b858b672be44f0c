"""Writes DESIGN.md: design_head.md, one section per property (from properties.py and the scenarios' own
comments in harness/checks/src/props), design_tail.md. Run by gen.py."""
import glob, json, os, re


def scenarios(here):
    out = {}
    for f in sorted(glob.glob(os.path.join(here, "harness/checks/src/props/c*.rs"))):
        pid = os.path.basename(f)[:3].upper()
        if f.endswith("crowd.rs"):
            continue
        lines = open(f).read().split("\n")
        for i, l in enumerate(lines):
            m = re.search(r'\b(sc|seq)\(\s*("[^"]*"|name)(?:,\s*\((\d+), (\d+)\))?', l)
            if not m:
                continue
            j = i
            while j > 0 and not re.match(r"^(pub )?fn ", lines[j]):
                j -= 1
            d, k = [], j - 1
            while k >= 0 and (lines[k].startswith("///") or lines[k].startswith("#[")):
                d.insert(0, lines[k].lstrip("/ "))
                k -= 1
            name = m.group(2).strip('"')
            if name == "name":
                name = re.match(r"^(?:pub )?fn (\w+)", lines[j]).group(1).replace("_", "-")
            bound = "all choices" if m.group(1) == "seq" else f"{m.group(3)} / {m.group(4)}"
            extra = [t for t, p in (("timers", ".timers("), ("short reads", ".chunks()"), ("no preemption", ".no_preempt()")) if p in l]
            if extra:
                bound += ", " + ", ".join(extra)
            out.setdefault(pid, []).append((name, bound, " ".join(d)))
    crowd = open(os.path.join(here, "harness/checks/src/props/crowd.rs")).read().split("\n")
    for i, l in enumerate(crowd):
        m = re.match(r"^fn (c\d\d)\(", l)
        if m:
            d, k = [], i - 1
            while k >= 0 and crowd[k].startswith("///"):
                d.insert(0, crowd[k].lstrip("/ "))
                k -= 1
            out.setdefault(m.group(1).upper(), []).append(("crowd", "all choices", " ".join(d) or "The same with 2 to 300 (2000) of everything."))
    return out


def write(here, props):
    t = os.path.join(here, "tools")
    sc = scenarios(here)
    o = [open(os.path.join(t, "design_head.md")).read().rstrip(), "", "## How each property is decided", "",
         "All by the technique above. *Deviations* are those of the quick / thorough run; *all choices* means that the",
         "scenario has no scheduling freedom of interest (a driver acts, then the system settles) and every history or input",
         "of its alphabet is run. What a run really covered is in `evidence/<id>.json`.", ""]
    for p in props:
        o += [f"### {p['id']} {p['title']}", "", f"Explored: {p['text']}. {p['note']}".rstrip(), "",
              f"Out of the tests' reach: {p['why']}.", "", f"Observed at: {', '.join(p['observe'])}.", ""]
        if not p["built"]:
            o += [f"Not claimed: {p['reason']}", ""]
            continue
        o += ["| scenario | deviations | what it does |", "|---|---|---|"]
        o += [f"| {n} | {b} | {d} |" for n, b, d in sc.get(p["id"], [])]
        o.append("")
    o += ["## Planted bugs", "",
          "Each is in `seeded/` with a demonstration on the real libraries; all pass the repository's tests. Found by the property's quick check",
          "(`tools/caught.tsv`, written by `tools/seed.sh`; a bug without scenario is missed).", "",
          "| bug | property | what it needs | found by scenario |", "|---|---|---|---|"]
    caught = dict(l.rstrip("\n").split("\t") for l in open(os.path.join(t, "caught.tsv")))
    for d in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
        m, n = json.load(open(d)), os.path.basename(os.path.dirname(d))
        o.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '')} |")
    o.append("")
    o.append(open(os.path.join(t, "design_tail.md")).read().rstrip())
    open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o) + "\n")
