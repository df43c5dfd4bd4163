#!/usr/bin/env python3
"""Plants the bugs of tools/bugs.py in scratch copies, confirms each (tests pass, demonstration
separates) and writes /verif/seeded/<id>/.  usage: plant.py [ID...] [--checks]"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS.append((bid, prop, edits, demo, needs, breaks))


exec(open(os.path.join(HERE, "tools", "bugs.py"), encoding="utf-8").read())
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")


def tests(tree):
    e = dict(ENV, PYTHONPATH=tree)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x", "--ignore=tests/test_charNames.py",
                        "--ignore=tests/test_layoutProps.py", "--ignore=tests/test_normalizer2.py", "--ignore=tests/test_exhaustive.py"],
                       cwd=tree, env=e, capture_output=True, text=True)
    return r.returncode == 0 and "397 passed" in r.stdout, r.stdout[-300:]


def main():
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    bad = 0
    for bid, prop, edits, demo, needs, breaks in BUGS:
        if want and bid not in want:
            continue
        tree = "/tmp/plant_%s" % bid
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        for f, old, new in edits:
            p = os.path.join(tree, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(bid, "ANCHOR", f, s.count(old), repr(old))
                bad += 1
                break
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        else:
            d = os.path.join(HERE, "seeded", bid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True).stdout
            open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONPATH="$PWD"\nexec python3 "$(dirname "$0")/demo.py"\n')
            open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(demo.lstrip("\n"))
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            ok, tail = tests(tree)
            good = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=ENV, capture_output=True, text=True)
            broke = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, env=ENV, capture_output=True, text=True)
            c = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop, "--root", tree], capture_output=True, text=True)
            v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            state = "ok" if ok and good.returncode == 0 and broke.returncode != 0 else "BAD tests=%s good=%d broke=%d" % (ok, good.returncode, broke.returncode)
            print(bid, prop, state, "| caught" if c.returncode == 1 and v else "| MISSED rc=%d" % c.returncode)
            if state != "ok":
                bad += 1
                print("   ", tail[-200:] if not ok else "", good.stderr[-200:], broke.stderr[-200:])
                shutil.rmtree(d)
        shutil.rmtree(tree, ignore_errors=True)
    sys.exit(1 if bad else 0)


main()
