"""Sharding over interpreter worker processes and TLC processes."""
import json, os, subprocess, sys, tempfile, time, re, shutil, random

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
HASHSEEDS = ["0", "1", "2", "3", "4", "5", "6", "7", "11", "13", "17", "42"]


class Machinery(Exception):
    """The machinery itself failed (no verdict)."""


def run_workers(jobs, work, nproc=None, timeout=600, seeds=None, script="worker.py"):
    """Runs the jobs on the real interpreter; result i belongs to job i."""
    nproc = nproc or NPROC
    n = max(1, min(nproc * 2, (len(jobs) + 7) // 8 if len(jobs) > 8 else len(jobs)))
    seeds = seeds or HASHSEEDS
    procs = []
    pending = list(range(n))
    results = [None] * len(jobs)
    start = time.time()

    def launch(k):
        mine = list(range(k, len(jobs), n))
        jf = os.path.join(work, "jobs%d.json" % k)
        of = os.path.join(work, "out%d.json" % k)
        with open(jf, "w") as f:
            json.dump([jobs[i] for i in mine], f)
        env = dict(os.environ, PYTHONHASHSEED=seeds[k % len(seeds)], PYTHONDONTWRITEBYTECODE="1")
        env["PYTHONPYCACHEPREFIX"] = os.path.join(work, "nopyc")
        wd = os.path.join(work, "cwd%d" % k)
        os.makedirs(wd, exist_ok=True)
        p = subprocess.Popen([PY, os.path.join(HERE, script), jf, of], cwd=wd, env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return (k, p, mine, of)

    running = []
    while pending or running:
        while pending and len(running) < nproc:
            running.append(launch(pending.pop(0)))
        time.sleep(0.02)
        for item in list(running):
            k, p, mine, of = item
            if p.poll() is None:
                if time.time() - start > timeout:
                    for it in running:
                        it[1].kill()
                    raise Machinery("worker timeout")
                continue
            running.remove(item)
            err = p.stderr.read().decode("utf-8", "replace")
            if p.returncode != 0 or not os.path.exists(of):
                # the interpreter could not even be loaded, or died
                for i in mine:
                    results[i] = {"k": "x", "what": "interpreter died: " + err[-300:],
                                  "ev": [["X", "interpreter died: " + err[-300:]]], "died": True}
                continue
            with open(of) as f:
                out = json.load(f)
            for i, r in zip(mine, out):
                results[i] = r
    return results


def tlc(module, cfg, env, work, tag, workers="1", timeout=800, heap="3g", extra=()):
    meta = os.path.join(work, "meta_" + tag)
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work, "-cp", JAR,
           "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env)
    out = open(os.path.join(work, tag + ".log"), "w+")
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return p, out


def parse_stats(text):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def run_tlc_shards(module, cfg, files, work, nproc=None, timeout=800, heap="3g", deadline=None, each=None):
    """One TLC run per file; returns list of (text, generated, distinct), None where the
    time was up (for all, or for each)."""
    nproc = nproc or NPROC
    pending = list(enumerate(files))
    running = []
    res = [None] * len(files)
    start = time.time()
    end = start + timeout
    if deadline is not None:
        end = min(end, deadline)
    while pending or running:
        while pending and len(running) < nproc and time.time() < end:
            i, f = pending.pop(0)
            p, out = tlc(module, cfg, {"TRACE": f}, work, "tlc%s_%d" % (os.path.basename(module)[:-4], i), heap=heap)
            running.append((i, p, out, time.time()))
        if time.time() >= end:
            for i, p, out, t0 in running:
                p.kill()
                p.wait()
                out.close()
            break
        time.sleep(0.03)
        for item in list(running):
            i, p, out, t0 = item
            if p.poll() is None:
                if each and time.time() - t0 > each:
                    p.kill()
                    p.wait()
                    out.close()
                    running.remove(item)
                continue
            running.remove(item)
            out.seek(0)
            text = out.read()
            out.close()
            g, d = parse_stats(text)
            res[i] = (text, g, d)
            shutil.rmtree(os.path.join(work, "meta_tlc%s_%d" % (os.path.basename(module)[:-4], i)), ignore_errors=True)
    return res


def parse_result(text):
    m = re.search(r'<<\s*"RESULT",\s*(<<.*?>>)\s*>>', text, re.S)
    if not m:
        return None
    body = m.group(1).replace("<<", "[").replace(">>", "]")
    return json.loads(body)


ACCEPT = 1000000
BROKEN = -1         # TLC could not evaluate the trace: values no execution should contain
SKIPPED = -2        # not checked, time was up


def write_traces(f, progs_list, traces, mine, means_list=None):
    progs, trs, means = [], [], {}
    for i in mine:
        for m in (means_list[i] if means_list else ()):
            means[m["x"], m["kind"]] = m
        off = len(progs)
        progs += progs_list[i]
        tr = []
        for e in traces[i]:
            if e[0] == "N":
                e = ["N", e[1], e[2] + off] + e[3:]
            elif e[0] == "NE":
                e = ["NE", e[1] + off] + e[2:]
            tr.append(e)
        trs.append(tr)
    with open(f, "w") as fh:
        json.dump({"progs": progs, "traces": trs, "means": list(means.values())}, fh)


def validate_traces(progs_list, traces, work, cfg="Trace.cfg", module="Trace.tla", chunk=None, timeout=800,
                    deadline=None, soft=90, means=None):
    """progs_list[i]: specification programs of trace i; traces[i]: its events.
    Returns (levels, states, transitions)."""
    n = len(traces)
    if n == 0:
        return [], 0, 0
    # long traces first, spread over the chunks
    order = sorted(range(n), key=lambda i: -len(traces[i]))
    per = chunk or 60
    shards = max(1, min(n, max(NPROC if n >= 2 * NPROC else 1, -(-n // per))))
    files, index = [], []
    for k in range(shards):
        mine = order[k::shards]
        f = os.path.join(work, "trace_%d.json" % k)
        write_traces(f, progs_list, traces, mine, means)
        files.append(f)
        index.append(mine)
    res = run_tlc_shards(module, cfg, files, work, timeout=min(timeout, soft), deadline=deadline)
    levels = [SKIPPED] * n
    gen = dist = 0
    again = []

    def note(mine, res):
        nonlocal gen, dist
        slow, broken = [], []
        for g, r in zip(mine, res):
            if r is None:
                slow.append(g)
                continue
            gen += r[1]
            dist += r[2]
            lv = parse_result(r[0])
            if lv is None:
                if fatal(r[0]):
                    raise Machinery(r[0][-3000:])
                broken.append((g, r[0]))
            else:
                for i, v in zip(g, lv):
                    levels[i] = v
        return slow, broken

    slow, broken = note(index, res)
    # shards holding a trace with very many behaviours: in smaller and smaller pieces;
    # shards TLC could not evaluate: one by one, to find out where
    for limit in (soft // 2, soft // 4, soft // 4):
        pieces = []
        for g in slow:
            m = max(1, -(-len(g) // 16))
            pieces += [g[k:k + m] for k in range(0, len(g), m)] if len(g) > 1 else []
        for g, text in broken:
            if len(g) > 1:
                m = max(1, -(-len(g) // 16))
                pieces += [g[k:k + m] for k in range(0, len(g), m)]
            else:
                levels[g[0]] = BROKEN
                with open(os.path.join(work, "broken.log"), "a") as fh:
                    fh.write(text[-3000:])
        if not pieces:
            broken = []
            break
        files = []
        for k, g in enumerate(pieces):
            f = os.path.join(work, "piece_%d.json" % k)
            write_traces(f, progs_list, traces, g, means)
            files.append(f)
        # the pieces share the processors: time for the slow ones of each
        res = run_tlc_shards(module, cfg, files, work, timeout=timeout, deadline=deadline, each=limit)
        slow, broken = note(pieces, res)
    for g, text in broken:
        for i in g:
            levels[i] = BROKEN
        with open(os.path.join(work, "broken.log"), "a") as fh:
            fh.write(text[-3000:])
    return levels, dist, gen


def fatal(text):
    """Did TLC fail for a reason that has nothing to do with the data?"""
    return any(x in text for x in ("OutOfMemory", "Semantic error", "Parsing or semantic analysis failed",
                                   "ConfigFileException", "Could not parse", "No space left"))


def workdir(tag):
    base = os.environ.get("VERIF_WORK") or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="verif_%s_" % tag, dir=base)
    return d


def validate_rows(rows, work, module, cfg=None, per=1500, timeout=800, deadline=None, heap="3g"):
    """Verdicts of the specification on rows (TableBase.tla); None where the time was up."""
    cfg = cfg or module.replace(".tla", ".cfg")
    n = len(rows)
    if not n:
        return [], 0, 0
    tag = module[:-4]
    out = [None] * n
    gen = dist = 0

    def go(groups, rnd):
        nonlocal gen, dist
        files = []
        for k, g in enumerate(groups):
            f = os.path.join(work, "rows_%s_%d_%d.json" % (tag, rnd, k))
            with open(f, "w") as fh:
                json.dump({"rows": [{k: v for k, v in rows[i].items() if v is not None} for i in g]}, fh)
            files.append(f)
        res = run_tlc_shards(module, cfg, files, work, timeout=timeout, deadline=deadline, heap=heap)
        failed = []
        for g, f, r in zip(groups, files, res):
            os.unlink(f)
            if r is None:
                continue
            text, a, b = r
            gen += a
            dist += b
            lv = parse_result(text)
            if lv is None:
                failed.append((g, text))
            else:
                for i, v in zip(g, lv):
                    out[i] = v
        return failed

    shards = max(1, min(n, max(NPROC if n >= 64 else 1, -(-n // per))))
    failed = go([list(range(k, n, shards)) for k in range(shards)], 0)
    rnd = 0
    while failed:
        rnd += 1
        nxt = []
        for g, text in failed:
            if fatal(text):
                raise Machinery(text[-3000:])
            if len(g) == 1:
                out[g[0]] = "the specification cannot evaluate the outcome"
                with open(os.path.join(work, "broken.log"), "a") as fh:
                    fh.write(text[-3000:])
            else:
                m = max(1, len(g) // 8)
                nxt += [g[j:j + m] for j in range(0, len(g), m)]
        failed = go(nxt, rnd) if nxt else []
    return out, dist, gen
