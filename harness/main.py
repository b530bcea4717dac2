"""Runs the parts of a property's check, writes evidence, prints verdicts."""
import json, os, sys, time, shutil, hashlib
import core, parts

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    """Listed findings: key -> description.  Lines: known: property=C01 key=<key> <what>"""
    out = {}
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("key="):
                out[w[2][4:]] = w[3]
    return out


def save_replay(pid, v):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(v, indent=1, default=str)
    f = os.path.join(d, "%s_%s.json" % (pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(f, "w") as fh:
        fh.write(text)
    return f


def run(pid, tier, seed):
    t0 = time.time()
    work = core.workdir(pid)
    deadline = t0 + (420 if tier == "quick" else 780)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    violations, notes = [], []
    try:
        for part in parts.PARTS[pid]:
            t1 = time.time()
            r = part(pid, tier, seed, os.path.join(work, "p%d" % len(notes)), deadline)
            cov["states"] += r.get("states", 0)
            cov["transitions"] += r.get("transitions", 0)
            cov["traces_validated_against_impl"] += r.get("validated", 0)
            cov["samples"] += r.get("samples", [])[:3]
            notes.append(dict(r.get("info", {}), part=getattr(part, "label", part.__name__),
                              wall_s=round(time.time() - t1, 1)))
            violations += r.get("violations", [])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = known_findings(pid)
    new, seen = [], set()
    for v in violations:
        if v.get("key") in known:
            seen.add(v["key"])
        else:
            new.append(v)
    cov["parts"] = notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": parts.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for n in notes:
        print("# " + json.dumps(n))
    for v in new[:5]:
        f = save_replay(pid, v)
        print("# " + str(v.get("what", ""))[:400])
        print("VIOLATION property=%s replay=%s" % (pid, f))
    sys.stdout.flush()
    return 1 if new else 0


def replay(path):
    v = json.load(open(path))
    work = core.workdir("replay")
    try:
        return parts.replay(v, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    try:
        return run(pid, tier, seed)
    except core.Machinery as e:
        print("ERROR %s: %s" % (pid, e))
        return 2
