"""Builds seeded/<id>/ from a spec: python3 tools/mkseed.py spec.py [id...]
A spec is a python file with SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=python source)].
Verifies in scratch copies: patch applies, tests pass, demo passes unpatched and fails patched, removed lines are original."""
import json, os, re, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2a414fd"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def sh(cmd, cwd, check=False, t=600):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=t)
    if check and r.returncode:
        raise SystemExit("%s\n%s" % (cmd, r.stdout[-3000:]))
    return r


def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for s in specs:
        if only and s["id"] not in only:
            continue
        out = os.path.join(ROOT, "seeded", s["id"])
        scr = "/tmp/mkseed-scratch"
        shutil.rmtree(scr, ignore_errors=True)
        shutil.copytree("/repo", scr, symlinks=True)
        demo = "/tmp/mkseed-demo"
        shutil.rmtree(demo, ignore_errors=True)
        os.makedirs(demo)
        open(demo + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter('ignore')\n" + s["demo"])
        open(demo + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        r = sh(["bash", demo + "/demo.sh"], scr)
        if r.returncode:
            print(s["id"], "BAD: demo fails on the unchanged tree\n", r.stdout[-1500:])
            continue
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(scr, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "BAD: %d matches of %r in %s" % (t.count(old), old, f))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        d = sh("git diff", scr).stdout
        # the changed lines are original ones
        orig = True
        for f in set(e[0] for e in s["edits"]):
            bl = sh(["git", "blame", "-s", "HEAD", "--", f], scr).stdout.splitlines()
            hunks = re.findall(r"^@@ -(\d+)(?:,(\d+))? \+", sh(["git", "diff", "-U0", "--", f], scr).stdout, re.M)
            for a, n in hunks:
                n = int(n or 1)
                for k in range(int(a), int(a) + n):
                    if not re.match(r"\^?" + BASE, bl[k - 1]):
                        orig = False
                        print(s["id"], "not original:", bl[k - 1])
        r = sh(["bash", demo + "/demo.sh"], scr)
        if r.returncode == 0:
            print(s["id"], "BAD: demo passes with the patch")
            continue
        msg = r.stdout.strip().splitlines()[-1:]
        r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], scr)
        if r.returncode:
            print(s["id"], "BAD: tests fail\n", "\n".join(r.stdout.splitlines()[-6:]))
            continue
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        for x in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(demo, x), out)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(out + "/meta.json", "w"), indent=1)
        print(s["id"], "ok" if orig else "ok BUT NOT ORIGINAL", msg)
    shutil.rmtree("/tmp/mkseed-scratch", ignore_errors=True)
    shutil.rmtree("/tmp/mkseed-demo", ignore_errors=True)


main()
