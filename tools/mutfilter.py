"""mutfilter.py muts.json out.json [sample] [seed] [workers]: keeps the changes the repository's own tests do not notice"""
import json, multiprocessing, os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def apply(text, pos, new):
    l1, c1, l2, c2 = pos
    ls = text.split("\n")
    enc = lambda l, c: len(l.encode()[:c].decode())
    a = sum(len(x) + 1 for x in ls[:l1 - 1]) + enc(ls[l1 - 1], c1)
    b = sum(len(x) + 1 for x in ls[:l2 - 1]) + enc(ls[l2 - 1], c2)
    return text[:a] + new + text[b:]


def w(task):
    k, m = task
    d = "/tmp/mf/%d" % os.getpid()
    if not os.path.isdir(d):
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(d, m["file"])
    text = open(os.path.join("/repo", m["file"])).read()
    open(p, "w").write(apply(text, m["pos"], m["new"]))
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90).returncode
    except subprocess.TimeoutExpired:
        r = 9
    open(p, "w").write(text)
    return k, r


if __name__ == "__main__":
    muts = json.load(open(sys.argv[1]))
    n = int(sys.argv[3]) if len(sys.argv) > 3 else len(muts)
    rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    nw = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    idx = list(range(len(muts)))
    rnd.shuffle(idx)
    idx = idx[:n]
    os.makedirs("/tmp/mf", exist_ok=True)
    keep = []
    with multiprocessing.Pool(nw) as pool:
        for j, (k, r) in enumerate(pool.imap_unordered(w, [(k, muts[k]) for k in idx])):
            if r == 0:
                keep.append(muts[k])
            if j % 50 == 0:
                print(j, len(keep), flush=True)
                json.dump(keep, open(sys.argv[2], "w"), indent=0)
    json.dump(keep, open(sys.argv[2], "w"), indent=0)
    shutil.rmtree("/tmp/mf")
