#!/usr/bin/env python3
"""tools/mutants.py [NAME..] : one-edit changes of a scratch copy of /repo, each with the checks that should notice it.
Finds out what the checks miss; not used by any check.  'quiet' entries keep the behaviour: nothing may notice them."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, F = "simulation/worker.py", "simulation/factory.py"
S, Z, M = "simulation/serializer.py", "simulation/serialization.py", "simulation/metrics_processor.py"
D, C, I, IM = "algorithms/base/driver.py", "algorithms/HGS/classic/ClassicHGS.py", "algorithms/IMGA/IMGA.py", "algorithms/IMGA/message.py"
DH, HT, NT, AC = ("algorithms/HGS/distributed/" + x for x in ("DistributedHGS.py", "hgs_tasks.py", "node_tasks.py", "actors.py"))
RX, RP, MO, DT = "evotools/rxtools.py", "simulation/run_parallel.py", "simulation/model.py", "algorithms/base/drivertools.py"
MUTANTS = []


def m(name, props, file, old, new, *more):
    MUTANTS.append((name, props.split(), [(file, old, new)] + list(more)))


exec(open(os.path.join(HERE, "tools", "mutants.txt")).read())


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    every = "--all" in sys.argv
    missed = []
    for name, props, edits in MUTANTS:
        if names and not any(name == n or (n.endswith("*") and name.startswith(n[:-1])) or n in props for n in names):
            continue
        w = "/tmp/wt/mut%d" % os.getpid()
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        for f, a, b in edits:
            s = open(w + "/" + f).read()
            if s.count(a) != 1:
                print("%s: %s has the text %d times" % (name, f, s.count(a)))
                break
            open(w + "/" + f, "w").write(s.replace(a, b))
        else:
            quiet = props[0] == "quiet"
            if quiet:
                props = props[1:] or ["C%02d" % i for i in range(1, 25)] + ["C27"]
            res = []
            for p in props:
                r = subprocess.run([HERE + "/check", p, "--tier", "quick", "--no-min"], capture_output=True, text=True,
                                   env=dict(os.environ, EVOGIL_SIM_REPO=w, EVOSIM_EVIDENCE="/tmp/ev"))
                line = next((x for x in (r.stdout + r.stderr).splitlines() if x.startswith("violated in")), "")
                res.append((p, r.returncode, line))
                if (r.returncode == 1) != quiet and not every and not quiet:
                    break
            ok = all(x[1] == 0 for x in res) if quiet else any(x[1] == 1 for x in res)
            if not ok:
                missed.append(name)
            print("%-6s %s %s" % ("ok" if ok else "MISSED" if not quiet else "ALARM", name, " ".join("%s=%d %s" % (p, rc, line[:170]) for p, rc, line in res)), flush=True)
        shutil.rmtree(w, ignore_errors=True)
    print("missed:", missed)


main()
