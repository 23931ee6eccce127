#!/usr/bin/env python3
"""Conformance of the implementation with the TLA+ contract.

  check.py PROPERTY            what MANIFEST.json registers
  check.py triage FAMILY [key=value..]   all findings of one family, by tag
  check.py replay FILE         reproduces a reported violation

A check builds the interpreter from /repo, lets it run generated environment
programs under controlled schedules, and has TLC walk every distinct recorded
history through spec/Contract.tla.
"""
import os, sys, json, re, subprocess, time, shutil, hashlib, collections
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, gen
SPEC = ROOT + "/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4
REJ = re.compile(r'<<"REJECT", (\d+), (\d+), \{(.*)\}>>', re.S)
TAG = re.compile(r'<<"(\w+)", "(\w+)">>')


def classpath():
    cp = [JAR]
    d = os.path.dirname(JAR)
    cp += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != "tla2tools.jar"]
    return ":".join(cp)


def tlc(module, cfg, env=None, args=(), xmx="2g", timeout=800, workers="1", meta=None):
    """runs TLC, returns (exit code, output)"""
    meta = meta or os.path.join(build.CACHE, "tlc-%d-%s" % (os.getpid(), hashlib.md5(repr((module, cfg, env, time.time())).encode()).hexdigest()[:8]))
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", classpath(),
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers, "-metadir", meta, "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def shorten(line, limit=120000):
    """of an endless history only the beginning, and how it ended"""
    if len(line) <= limit:
        return line
    d = json.loads(line)
    ev = d["ev"]
    d["ev"] = ev[:2500] + [e for e in ev[2500:][-1:] if e[0] == "fatal"]
    return json.dumps(d, separators=(",", ":")) + "\n"


def judge(traces, chunk=6 << 20):
    """walks the recorded histories in a file through the contract:
    (list of (trace, event, tags), states, ok)"""
    rej, states, good, out, first = [], 0, True, "", 0
    part = traces + ".part"

    def flush(lines):
        nonlocal states, good, out, first
        open(part, "w").writelines(lines)
        r, s, ok, o = judge1(part)
        rej.extend((t + first, i, tags) for t, i, tags in r)
        states += s
        good &= ok
        out = o if not ok else out
        first += len(lines)
    lines, size = [], 0
    with open(traces) as f:
        for l in f:
            l = shorten(l)
            lines.append(l)
            size += len(l)
            if size >= chunk:
                flush(lines)
                lines, size = [], 0
    if lines:
        flush(lines)
    os.remove(part)
    return rej, states, good, out


def judge1(traces):
    for k in range(3):
        rc, out = tlc("Trace.tla", "Trace.cfg", {"XD_TRACES": traces})
        if rc in (0, 10, 11, 12, 13, 14, 124) or "Error:" in out and "OutOfMemory" not in out:
            break
        time.sleep(3)    # ended by the system, e.g. short of memory
    rej = []
    flat = re.sub(r"\n\s*", " ", out)
    for m in re.finditer(r'<<"REJECT", (\d+), (\d+), \{(.*?)\}>>', flat):
        rej.append((int(m.group(1)), int(m.group(2)), TAG.findall(m.group(3))))
    m = re.search(r"(\d+) states generated, (\d+) distinct", flat)
    ok = rc == 0 and "No error has been found" in out and m
    if not ok and rc != 124:
        # an event the contract gives no meaning to
        at = re.findall(r"/\\ t = (\d+)", out), re.findall(r"/\\ l = (\d+)", out)
        if at[0] and at[1]:
            rej.append((int(at[0][-1]), int(at[1][-1]), [("fatal", "undefined")]))
    return rej, (int(m.group(1)) if m else 0), bool(ok), out


def shard(exe, progfile, outbase, i, n, budget, seconds, seed, weak, maxtr):
    tr = "%s.%d.ndjson" % (outbase, i)
    for k in range(3):
        r = subprocess.run([exe, progfile, tr, "budget=%d" % budget, "seconds=%g" % seconds, "seed=%d" % seed,
                            "weak=%d" % weak, "shard=%d/%d" % (i, n), "maxtraces=%d" % maxtr],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, QT_QPA_PLATFORM="minimal"))
        try:
            stats = json.loads(r.stdout.strip().splitlines()[-1])
            break
        except Exception:
            if k == 2 or r.returncode != -9:    # the system may end it when short of memory
                sys.stderr.write("interp failed (%s): %s\n" % (r.returncode, (r.stdout + r.stderr)[-800:]))
                raise SystemExit(2)
    if stats["distinct"] == 0:
        return tr, stats, [], 0, True, ""
    rej, st, ok, out = judge(tr)
    return tr, stats, rej, st, ok, out


def explore(fam, seed, nprog, seconds, budget=1 << 40, weak=0, maxtr=12000, tag=None, progs=None, qt=False):
    exe = build.build(qt)
    d = os.path.join(ROOT, "out", tag or fam)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    progs = progs if progs is not None else gen.programs(fam, seed, nprog)
    pf = d + "/programs"
    open(pf, "w").write("".join(progs))
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(shard, exe, pf, d + "/t", i, NCPU, budget, seconds, seed, weak, maxtr) for i in range(NCPU)]
        res = [f.result() for f in fs]
    return exe, pf, res


def line_of(path, n):
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i == n:
                return json.loads(l)


def program_of(pf, name):
    t = open(pf).read()
    i = t.index("program %s\n" % name)
    return t[i:t.index("endprogram\n", i) + len("endprogram\n")]


def rerun(exe, prog, cfg, d):
    os.makedirs(d, exist_ok=True)
    pf, tr = d + "/p", d + "/t.ndjson"
    open(pf, "w").write(prog)
    subprocess.run([exe, pf, tr, "cfg=" + cfg], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    rej, st, ok, out = judge(tr)
    tr1 = line_of(tr, 1)
    shutil.rmtree(d, ignore_errors=True)
    return rej, tr1, ok


def known(prop):
    """known findings: lines  property=<id> family=<glob> tags=<p/what,..> : text"""
    out = []
    p = ROOT + "/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\w+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def show(tr, upto=None, rejects=()):
    R = collections.defaultdict(list)
    for _, i, tags in rejects:
        R[i] += ["%s/%s" % t for t in tags]
    for i, e in enumerate(tr["ev"], 1):
        print("%4d t%-2d %6d  %s %s%s" % (i, e[1], e[2], e[0], " ".join(str(x) for x in e[3:]),
                                          "     <== " + " ".join(R[i]) if i in R else ""))
        if upto and i >= upto:
            break


def triage(fam, opts):
    exe, pf, res = explore(fam, int(opts.get("seed", 1)), int(opts.get("n", 40)), float(opts.get("seconds", 6)),
                           weak=int(opts.get("weak", 0)), qt=bool(int(opts.get("qt", 0))))
    by = {}
    tot = collections.Counter()
    for tr, stats, rej, st, ok, out in res:
        for k, v in stats.items():
            tot[k] += v
        tot["states"] += st
        if not ok:
            print("TLC failed on", tr); print(out[-1500:])
        first = set()
        for t, i, tags in rej:
            if t in first:
                continue
            first.add(t)
            by.setdefault(tuple(sorted(tags)), []).append((tr, t, i))
    print(fam, dict(tot))
    for k, v in sorted(by.items(), key=lambda x: -len(x[1])):
        ex = min(v, key=lambda x: x[2])
        print("  %5d  %s   e.g. show.py %s %d  (event %d)" % (len(v), " ".join("%s/%s" % t for t in k), ex[0], ex[1], ex[2]))


# The contract tags every broken guard with the properties that state it
# directly. In the programs of a property's own family, which are about that
# property, it is broken as well when one of these is: e.g. "handles dropped
# while operations are queued lose nothing" (C03) when an operation of such a
# program is lost (C01).
RELATED = {
    "C01": "C03 C05 C07 C16", "C02": "C01 C03 C04 C17", "C03": "C01 C02 C05 C06 C07 C16",
    "C04": "C01 C02 C03 C15 C16 C17", "C05": "C01 C02 C03 C15 C16 C17", "C06": "C01 C03 C07 C16",
    "C07": "C01 C02 C03 C06 C16 C17", "C08": "C02 C09 C17", "C09": "C08 C10", "C10": "C02 C09 C17",
    "C11": "C02 C06 C12 C13 C17", "C12": "C02 C11 C13 C17", "C13": "C11 C12", "C14": "C11 C12 C13",
    "C15": "C01 C02 C03 C04 C05 C17", "C16": "C01 C04 C06", "C17": "C02 C18", "C18": "C01 C16 C17",
    "C20": "C01 C02 C03 C06 C07 C08 C10 C17", "C21": "C01 C02 C03 C04 C05 C06 C07 C16 C17 C18",
    "C22": "C02 C11 C12 C13 C17", "C23": "C01 C02 C04 C06 C07 C16 C17"}
# a hang is a failure of whatever the program is about, and always one of C19
HANGS = ("stuck", "hang", "lost", "starved", "stalled", "missed", "retained")


def mine_of(prop, tags):
    ps = {prop, "fatal"} | set(RELATED.get(prop, "").split())
    return [x for x in tags if x[0] in ps or (x[1] in HANGS)]

# what the quick and thorough tiers explore
TIERS = {"quick": dict(nprog=64, seconds=18.0, maxtr=6000, model=120), "thorough": dict(nprog=400, seconds=300.0, maxtr=60000, model=600)}


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    T = TIERS[tier]
    # the models of the library's algorithms this property rests on, meanwhile
    import design
    pool = ThreadPoolExecutor(2)
    models = [pool.submit(design.judge, f, cfg, mut, T["model"])
              for f, cfg, muts in design.of(prop, tier == "quick")
              for mut in ["none"] + (muts if tier != "quick" else [])]
    exe, pf, res = explore(prop, seed, T["nprog"], T["seconds"], weak=1, maxtr=T["maxtr"], qt=prop in ("C21", "C22"))
    models = [m.result() for m in models]
    tot = collections.Counter()
    hits, bad = [], []
    for tr, stats, rej, st, ok, out in res:
        for k, v in stats.items():
            tot[k] += v
        tot["states"] += st
        if not ok:
            bad.append((tr, out))
        for t, i, tags in rej:
            mine = mine_of(prop, tags)
            if mine:
                hits.append((tr, t, i, mine))
    rc = 0
    viol = 0
    seen = set()
    rpath = None
    for tr, t, i, mine in sorted(hits, key=lambda h: h[2]):
        key = tuple(sorted(mine))
        if key in seen:
            continue
        d = line_of(tr, t)
        prog = program_of(pf, d["prog"])
        rej, tr2, ok = rerun(exe, prog, d["cfg"], os.path.join(ROOT, "out", prop, "rerun"))
        if not any(mine_of(prop, r[2]) for r in rej):
            print("note: not reproduced: %s %s %s" % (d["prog"], d["cfg"], mine))
            continue
        seen.add(key)
        viol += 1
        if rpath is None:
            os.makedirs(ROOT + "/out/replay", exist_ok=True)
            rpath = "%s/out/replay/%s-%s.json" % (ROOT, prop, hashlib.md5((prog + d["cfg"]).encode()).hexdigest()[:10])
            json.dump({"property": prop, "broken": mine, "event": i, "program": prog, "cfg": d["cfg"],
                       "history": d["ev"]}, open(rpath, "w"))
            print("VIOLATION property=%s replay=%s" % (prop, rpath))
            rc = 1
        print("  broken %s at event %d of %s cfg=%s" % (" ".join("%s/%s" % x for x in mine), i, d["prog"], d["cfg"]))
        if viol >= 5:
            break
    if not rc and bad:
        print("TLC failed:", bad[0][0]); print(bad[0][1][-2000:])
        rc = 2
    for name, mut, n, ok in models:
        if ok is False:
            print("design model %s (%s): the contract does not tell it from the contrary" % (name, mut))
            rc = rc or 2
    samples = []
    for tr, stats, *_ in res[:2]:
        d = line_of(tr, 1)
        if d:
            samples.append({"program": d["prog"], "schedule": d["cfg"], "history": d["ev"][:60]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["states"] - tot["distinct"],
                       "traces_validated_against_impl": tot["distinct"], "evaluations": tot["runs"],
                       "distinct_nontrivial": tot["distinct"],
                       "rule": "one evaluation = one controlled-schedule execution of a generated environment program "
                               "against the real library; distinct = recorded histories that differ as event sequences, "
                               "each walked by TLC through spec/Contract.tla",
                       "programs": len(open(pf).read().split("endprogram\n")) - 1,
                       "schedule_steps": tot["steps"], "undecided_runs": tot["broken"],
                       "design_models": [{"model": name, "deviation": mut, "distinct_states": n,
                                          "as_expected": ok} for name, mut, n, ok in models],
                       "samples": samples},
          "assumptions": ["schedules are sequentially consistent interleavings at synchronisation and (sampled) plain accesses",
                          "the system is observed through the events of harness/interp.cpp"],
          "wall_s": round(time.time() - t0, 1), "violations": viol}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (ROOT, prop), "w"), indent=1)
    print("%s %s: %d programs, %d executions, %d distinct histories, %d contract states, %.0f s, %d violation(s)"
          % (prop, tier, ev["coverage"]["programs"], tot["runs"], tot["distinct"], tot["states"], time.time() - t0, viol))
    return rc


def replay(path):
    d = json.load(open(path))
    exe = build.build(d["property"] in ("C21", "C22"))
    rej, tr, ok = rerun(exe, d["program"], d["cfg"], os.path.join(ROOT, "out", "rerun-%d" % os.getpid()))
    print(d["program"])
    show(tr, None, rej)
    return 1 if rej else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "triage":
        triage(a[1], dict(x.split("=") for x in a[2:]))
    elif a[0] == "replay":
        sys.exit(replay(a[1]))
    else:
        sys.exit(check(a[0]))
