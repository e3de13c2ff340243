#!/usr/bin/env python3
"""planted.py [IDS...] -- run each planted bug's check against a patched copy of /repo.

Prints one line per bug: caught, or what happened instead.  A development
tool; no check reads /verif/seeded.  OTHER="C02 C03" adds further checks.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def one(id):
    d = os.path.join(VERIF, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = []
    w = tempfile.mkdtemp(prefix="planted-")
    try:
        repo, verif = os.path.join(w, "repo"), os.path.join(w, "verif")
        os.makedirs(repo)
        os.makedirs(verif)
        tar = subprocess.run(["git", "-C", REPO, "archive", "HEAD"], stdout=subprocess.PIPE, check=True).stdout
        subprocess.run(["tar", "-x", "-C", repo], input=tar, check=True)
        if subprocess.run(["patch", "-s", "-p1", "-i", os.path.join(d, "patch.diff")], cwd=repo).returncode:
            return id, prop, ["patch does not apply"]
        for x in ("harness", "spec", "tools"):
            shutil.copytree(os.path.join(VERIF, x), os.path.join(verif, x))
        shutil.copy(os.path.join(VERIF, "known-findings.txt"), verif)
        mod = os.path.join(verif, "harness/go.mod")
        s = open(mod).read().replace("=> /repo", "=> " + repo)
        open(mod, "w").write(s)
        for p in [prop] + os.environ.get("OTHER", "").split():
            r = subprocess.run(["python3", os.path.join(verif, "tools/check.py"), p], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            out.append(f"{p} caught" if hit else f"{p} MISSED (exit {r.returncode})")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return id, prop, out


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        for id, _, out in pool.map(one, ids):
            print(id, "; ".join(out), flush=True)


main()
