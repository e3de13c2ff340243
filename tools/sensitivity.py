#!/usr/bin/env python3
"""sensitivity.py PROPERTY [COUNT [SEED]] -- how much the specification says.

Records traces of the library, changes one recorded observation in a copy of
one script (an entry of a result by a thousandth, a count by one, an outcome),
and asks TLC whether the changed script is still a behaviour.  It should not
be: what is accepted is listed by request, as a place where the specification
leaves the library free (or is too weak).  A development tool, not a check.
"""
import collections, concurrent.futures, copy, json, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

def slots(e):
    """Places of an event that hold an observation."""
    out = []
    if e["t"] in ("get", "solve"):
        for i, r in enumerate(e["v"]):
            for j, _ in enumerate(r):
                out.append(("v", i, j))
        if e["t"] == "get":
            for i, _ in enumerate(e["n"]):
                out.append(("n", i))
        out.append(("err",))
    elif e["t"] == "build":
        out.append(("err",))
    elif e["t"] in ("M", "V", "Q", "W", "VW", "N", "R"):
        for i, _ in enumerate(e["ret"]):
            out.append(("ret", i))
        for i, _ in enumerate(e["fx"]):
            out.append(("fx", i))
        for i, c in enumerate(e["chg"]):
            if c[1] and isinstance(c[1][0], list):
                for a, r in enumerate(c[1]):
                    for b, _ in enumerate(r):
                        out.append(("chg", i, a, b))
            else:
                for a, _ in enumerate(c[1]):
                    out.append(("chg", i, a))
        for i, v in enumerate(e["vis"]):
            for j, _ in enumerate(v[:-1]):
                out.append(("vis", i, j))
        for i, v in enumerate(e["start"]):
            out.append(("start", i))
        out.append(("err",))
    return out

def nudge(x, rng, sign=1):
    h, l = x
    return [h + rng.choice([1, -1]) * max(1, abs(h) // 500), l]

def corrupt(e, s, rng):
    if s[0] == "err":
        e["err"] = 0 if e["err"] else rng.choice([1, 2, 3, 4, 5])
        if e["err"] and "q" in e:
            e["v"] = []
            if e["t"] == "get":
                e["n"] = []
        elif e["err"]:
            e["ret"] = []
    elif s[0] == "v":
        e["v"][s[1]][s[2]] = nudge(e["v"][s[1]][s[2]], rng)
    elif s[0] == "fx":
        e["fx"][s[1]] = nudge(e["fx"][s[1]], rng)
    elif s[0] == "n":
        e["n"][s[1]] = 1 - e["n"][s[1]] if e["n"][s[1]] in (0, 1) else e["n"][s[1]] + 1
    elif s[0] in ("ret", "start"):
        e[s[0]][s[1]] += 1
    elif s[0] == "vis":
        e["vis"][s[1]][s[2]] += 1
    elif s[0] == "chg":
        if len(s) == 4:
            e["chg"][s[1]][1][s[2]][s[3]] += 1
        else:
            e["chg"][s[1]][1][s[2]] += 1

def main():
    prop = sys.argv[1]
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    conf = json.load(open(os.path.join(check.VERIF, "tools/checks.json")))[prop]
    work = tempfile.mkdtemp(prefix="verif-sens-")
    try:
        h, cls = check.build(work)
        scripts = []
        for k in range(2):
            check.run([h, "-prop", prop, "-out", work, "-seed", "1", "-tier", "quick", "-shard", str(k), "-shards", "8"], 300)
            for l in open(os.path.join(work, f"trace-{k}.ndjson")):
                if '"t":"reset"' in l:
                    scripts.append([])
                scripts[-1].append(l)
        scripts = [s for s in scripts if sum(map(len, s)) < 600000]
        # choose a kind of request first, so that rare ones are covered too
        byreq = collections.defaultdict(list)
        for a, s in enumerate(scripts):
            for b, l in enumerate(s):
                e = json.loads(l)
                key = tuple(map(str, (e["t"], e.get("k") if "q" in e else "", e.get("op") or e.get("q"))))
                if slots(e):
                    byreq[key].append((a, b))
        def one(n):
            r = random.Random(rng.random())
            key = r.choice(sorted(byreq))
            a, b = r.choice(byreq[key])
            s = list(scripts[a])
            e = json.loads(s[b])
            slot = r.choice(slots(e))
            old = copy.deepcopy(e)
            corrupt(e, slot, r)
            s[b] = json.dumps(e) + "\n"
            if e["t"] == "build":
                s = s[:b + 1]
            if slot[0] in ("v", "fx") and (old[slot[0]][slot[1]][slot[2]] if slot[0] == "v" else old["fx"][slot[1]])[0] >= 1 << 30:
                return key, slot, False, old, e     # off the grid
            about = [json.loads(x)["a"] for x in s if '"t":"build"' in x and json.loads(x)["d"] == e.get("d")]
            old["about"] = about[-1] if about else 0
            t = os.path.join(work, f"c-{n}.ndjson")
            open(t, "w").writelines(s)
            try:
                ok, line, _, _ = check.validate(work, cls, conf["trace"], t, 300, f"c{n}")
            except check.Error as x:
                ok, line = False, -1          # TLC could not even evaluate it
                print("NOVERDICT", key, slot, str(x)[-300:])
            os.unlink(t)
            return key, slot, ok, old, e
        stat = collections.defaultdict(lambda: [0, 0])
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            for key, slot, ok, old, e in pool.map(one, range(count)):
                stat[key + (slot[0],)][0] += 1
                if ok:
                    stat[key + (slot[0],)][1] += 1
                    print("ACCEPTED", key, slot, json.dumps({k: v for k, v in old.items() if v not in ([], "", 0)})[:300])
        print(f"{prop}: {sum(v[0] for v in stat.values())} changed scripts, {sum(v[1] for v in stat.values())} accepted")
        for k, v in sorted(stat.items()):
            if v[1]:
                print("  ", *k, f"{v[1]} of {v[0]}")
    finally:
        shutil.rmtree(work, ignore_errors=True)

main()
