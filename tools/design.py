#!/usr/bin/env python3
"""Model checks the design specifications in spec/design with TLC.

design.py trans         translates the PlusCal algorithms
design.py run [NAME..]  checks every configuration; the deviations (Mut) listed
                        in a configuration have to be noticed by the contract
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

D = os.path.join(check.ROOT, "spec", "design")


def trans():
    for f in sorted(os.listdir(D)):
        if f.endswith(".tla") and "--algorithm" in open(os.path.join(D, f)).read():
            r = subprocess.run(["java", "-cp", check.JAR, "pcal.trans", "-nocfg", f], cwd=D,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(f, r.stdout)
            for x in (f[:-4] + ".old",):
                if os.path.exists(os.path.join(D, x)):
                    os.remove(os.path.join(D, x))


def tlc(name, cfg, workers=2, timeout=600, xmx="4g"):
    os.makedirs(check.build.CACHE, exist_ok=True)
    d = tempfile.mkdtemp(prefix="design.", dir=check.build.CACHE)
    try:
        open(os.path.join(d, "m.cfg"), "w").write(cfg)
        cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-DTLA-Library=" + check.SPEC, "-cp", check.classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", d + "/meta", "-config", d + "/m.cfg", name + ".tla"]
        r = subprocess.run(cmd, cwd=D, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.stdout
    except subprocess.TimeoutExpired:
        return "TIMEOUT"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def configs(name):
    """NAME.cfg and NAME.*.cfg; line '\\* mutants: a b' lists deviations"""
    for f in sorted(os.listdir(D)):
        if f.endswith(".cfg") and f.split(".")[0] == name:
            yield f, open(os.path.join(D, f)).read()


def run(names, mutants=True, workers=2, out=print):
    """True if all hold"""
    good = True
    stats = []
    for n in names:
        for f, cfg in configs(n):
            muts = re.findall(r"^\\\* mutants: (.*)$", cfg, re.M)
            for mut in ["none"] + (muts[0].split() if muts and mutants else []):
                t = time.time()
                o = tlc(n, cfg.replace('Mut = "none"', 'Mut = "%s"' % mut), workers)
                m = re.search(r"(\d+) states generated, (\d+) distinct", o)
                held = "No error has been found" in o
                broken = re.findall(r"Invariant (\w+) is violated|(Deadlock)|Temporal properties were violated", o)
                ok = held if mut == "none" else bool(broken)
                good &= ok
                bad = re.findall(r"bad \|->\s*\{(.*?)\}", re.sub(r"\n\s*", " ", o))
                out("%-4s %s %s: %s distinct states, %.0f s%s" % (
                    "ok" if ok else "FAIL", f, mut, m.group(2) if m else "?", time.time() - t,
                    " (noticed: %s)" % (bad[-1][:60] if bad and bad[-1].strip() else broken[:1]) if broken else ""))
                if not ok:
                    i = o.find("rror")
                    out(o[i:i + 600] + "\n..." + o[-300:] if i >= 0 else o[-200:])
                    if "Parsing or semantic" in o or "evaluat" in o:
                        return False, stats
                stats.append((f, mut, int(m.group(2)) if m else 0, ok))
    return good, stats


def of(prop, quick):
    """the configurations which belong to a property: (file, text, deviations)"""
    for f in sorted(os.listdir(D)):
        if f.endswith(".cfg"):
            cfg = open(os.path.join(D, f)).read()
            m = re.search(r"^\\\* checks: (.*)$", cfg, re.M)
            if m and prop in m.group(1).split() and (not quick or re.search(r"^\\\* quick", cfg, re.M)):
                x = re.search(r"^\\\* mutants: (.*)$", cfg, re.M)
                yield f, cfg, x.group(1).split() if x else []


def judge(f, cfg, mut, timeout):
    """one configuration: (name, deviation, states, True / False / None: undecided)"""
    try:
        o = tlc(f.split(".")[0], cfg.replace('Mut = "none"', 'Mut = "%s"' % mut), 1, timeout, "2g")
    except OSError as x:
        o = str(x)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", o)
    held = "No error has been found" in o
    broken = re.search(r"Invariant \w+ is violated|Deadlock reached", o)
    return f[:-4], mut, int(m[-1][1]) if m else 0, None if not held and not broken else held == (mut == "none")


if __name__ == "__main__":
    if sys.argv[1] == "trans":
        trans()
    else:
        names = sys.argv[2:] or sorted({f.split(".")[0] for f in os.listdir(D) if f.endswith(".cfg")})
        sys.exit(0 if run(names)[0] else 1)
