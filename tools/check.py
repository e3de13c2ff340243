#!/usr/bin/env python3
"""check.py PROPERTY -- decide one property on /repo's working tree.

Builds the harness against /repo, has it record traces of the real library,
and has TLC decide whether each is a behaviour of the specification.  Exit 0
if all are, 1 with a VIOLATION line if one is not, 2 if no verdict was reached.
VERIF_SEED and VERIF_TIER are taken from the environment.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SHARDS = 8


class Error(Exception):
    pass


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise Error(f"timeout: {' '.join(cmd)[:200]}") from x
    return p.returncode, p.stdout


def build(work):
    """Harness and TLC operator overrides, from the current trees."""
    env = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off", "GOTOOLCHAIN": "local"}
    for k in ("HOME", "GOCACHE"):
        if not os.environ.get("HOME"):
            env["HOME"] = work
    src = os.path.join(work, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    rc, out = run(["go", "build", "-o", os.path.join(work, "h"), "."], 600, env, src)
    if rc != 0:
        raise Error("harness does not build:\n" + out[-3000:])
    cls = os.path.join(work, "classes")
    os.mkdir(cls)
    java = [os.path.join(VERIF, "spec/java", f) for f in sorted(os.listdir(os.path.join(VERIF, "spec/java")))]
    rc, out = run(["javac", "-cp", JARS, "-d", cls] + java, 300)
    if rc != 0:
        raise Error("overrides do not build:\n" + out[-3000:])
    return os.path.join(work, "h"), cls


def tlc(work, cls, module, cfg, env, timeout, tag, extra=(), heap="3g", workers="1", overrides=True):
    d = os.path.join(work, "tlc-" + tag)
    os.makedirs(d)
    cp = JARS + (":" + cls if overrides else "")
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xss128m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d,
           "-cp", cp, "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
           "-config", cfg, *extra, module]
    rc, out = run(cmd, timeout, env, os.path.join(VERIF, "spec"))
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated ", "generated, "))
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    return rc, out, gen, dist, int(m.group(1)) if m else 0


ACCEPT = "Model checking completed. No error has been found."


def validate(work, cls, module, trace, timeout, tag):
    """Validate one trace; returns (accepted, rejected line or 0, generated, distinct)."""
    rc, out, gen, dist, depth = tlc(work, cls, module + ".tla", module + ".cfg", {"TRACE": trace}, timeout, tag)
    if ACCEPT in out and rc == 0:
        return True, 0, gen, dist
    if "Postcondition Accepted" in out and "is false" in out and depth > 0:
        return False, depth, gen, dist
    raise Error(f"TLC gave no verdict on {trace} (exit {rc}):\n" + "\n".join(out.splitlines()[-40:]))


def script_of(trace, line):
    """Lines of the script that the rejected line (1-based) belongs to, up to it."""
    with open(trace) as f:
        lines = [next(f) for _ in range(line)]
    start = max(i for i, l in enumerate(lines) if '"t":"reset"' in l)
    return lines[start:]


def describe(lines):
    last = json.loads(lines[-1])
    keep = {k: v for k, v in last.items() if v not in ([], "", 0) and k not in ("chg", "vis")}
    s = json.dumps(keep)
    return s if len(s) < 400 else s[:400] + "..."


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        if l.startswith(f"known: property={prop} "):
            out.append(l[len(f"known: property={prop} "):].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    conf = json.load(open(os.path.join(VERIF, "tools/checks.json")))[prop]
    work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        return decide(prop, conf, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, conf, tier, seed, work, t0):
    limit = 820 if tier == "quick" else 36000
    h, cls = build(work)
    pool = concurrent.futures.ThreadPoolExecutor(SHARDS)

    def left():
        return max(10, limit - (time.time() - t0))

    # Behaviours generated from the specification, for the harness to execute.
    jobs = [pool.submit(generate, work, cls, g, i, tier, seed, left()) for i, g in enumerate(conf.get("generate", []))]
    generators = [r for r in (j.result() for j in jobs) if r]
    gens = [r.pop("file") for r in generators]

    # Record.
    nsh = SHARDS if tier == "quick" else conf.get("shards", 32)
    tdir = os.path.join(work, "traces")
    os.mkdir(tdir)

    def record(k):
        cmd = [h, "-prop", prop, "-out", tdir, "-seed", str(seed), "-tier", tier, "-shard", str(k), "-shards", str(nsh)]
        if gens:
            cmd += ["-scripts", ",".join(gens)]
        rc, out = run(cmd, left())
        t = os.path.join(tdir, f"trace-{k}.ndjson")
        if rc != 0:
            raise Error(f"driver failed (exit {rc}):\n{out[-2000:]}")
        s = os.path.join(tdir, f"stats-{k}.json")
        st = json.load(open(s)) if os.path.exists(s) else None
        return k, t, st, out

    # Check each recorded trace, and the specification itself.
    def one(k):
        k, t, st, out = record(k)
        ok, line, gen, dist = validate(work, cls, conf["trace"], t, left(), str(k))
        return k, t, st, ok, line, gen, dist, out

    futures = [pool.submit(one, k) for k in range(nsh)]
    models = [(m, pool.submit(model, work, cls, m, tier, left())) for m in conf.get("models", [])]
    bad, errors, calls = [], [], {}
    states = transitions = scripts = lines = aborted = followed = diverged = 0
    samples = []
    for f in futures:
        try:
            k, t, st, ok, line, gen, dist, out = f.result()
        except Error as x:
            errors.append(str(x))
            continue
        states += dist
        transitions += max(dist - 1, 0)
        if st:
            scripts += st["scripts"]
            lines += st["lines"]
            aborted += st["aborted"]
            followed += st["generated"]
            diverged += st["diverged"]
            for c, n in st["calls"].items():
                calls[c] = calls.get(c, 0) + n
        if not ok:
            bad.append(script_of(t, line))
        elif st is None:
            errors.append(f"shard {k}: the driver stopped early but its trace was accepted\n{out[-500:]}")
        elif st["aborted"]:
            errors.append(f"shard {k}: {st['aborted']} scripts were aborted but the trace was accepted\n{out[-500:]}")
        if ok and len(samples) < 3:
            with open(t) as fh:
                ls = [l for _, l in zip(range(60), fh)]
            ls = [l for l in ls if len(l) < 600]
            if ls:
                samples.append(json.loads(ls[len(ls) // 2]))
    mods = []
    for m, f in models:
        try:
            r = f.result()
        except Error as x:
            errors.append(str(x))
            continue
        mods.append(r)
        states += r["distinct"]
        transitions += r["generated"]
    # A generated behaviour that the library left (it may choose the kind of
    # some results) is cut short; that must stay the exception.
    if not bad and diverged * 10 > followed:
        errors.append(f"{diverged} of {followed} generated behaviours could not be carried out")
    for g in generators:
        states += g["distinct"]
        transitions += g["generated"]
    findings = known(prop)
    for x in findings:
        print(f"KNOWN-FINDING: property={prop} {x}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions,
                       "traces_validated_against_impl": scripts, "trace_lines": lines,
                       "generators": generators, "behaviours_executed": followed, "behaviours_cut_short": diverged,
                       "calls": dict(sorted(calls.items())), "models": mods,
                       "samples": samples},
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, b in enumerate(bad):
            path = os.path.join(d, f"{prop}-{i}.ndjson")
            with open(path, "w") as f:
                f.writelines(b)
            print(f"rejected: {describe(b)}")
            print(f"VIOLATION property={prop} replay={path}")
        for x in errors:
            print("also:", x[:2000])
        return 1
    if errors:
        for x in errors:
            print("ERROR:", x[:4000])
        return 2
    print(f"{prop}: {scripts} traces, {lines} calls accepted; {states} states in {time.time() - t0:.1f} s")
    return 0


def model(work, cls, m, tier, timeout):
    """Check a module of the specification on its own."""
    cfg = m.get("cfg_" + tier, m["cfg"])
    rc, out, gen, dist, depth = tlc(work, cls, m["module"] + ".tla", cfg, {}, timeout, "m-" + cfg,
                                    heap="6g", workers=m.get("workers", "2"), overrides=m.get("overrides", True),
                                    extra=m.get("args", []))
    if rc != 0 or ACCEPT not in out:
        raise Error(f"specification check {cfg} failed (exit {rc}):\n" + "\n".join(out.splitlines()[-60:]))
    return {"module": m["module"], "config": cfg, "generated": gen, "distinct": dist, "depth": depth}


def generate(work, cls, g, i, tier, seed, timeout):
    """Have TLC write behaviours of a generator module to a file."""
    g = dict(g, **g.get(tier, {}))
    if g.get("skip"):
        return None
    tag = f"{g['module']}-{i}"
    cfg, out_file = os.path.join(work, tag + ".cfg"), os.path.join(work, tag + ".txt")
    sim = g["mode"] == "simulate"
    with open(cfg, "w") as f:
        f.write("INIT Init\nNEXT Next\nCONSTANTS\n")
        for k, v in g["constants"].items():
            f.write(f"  {k} = {v}\n")
        f.write(f"  Random = {'TRUE' if sim else 'FALSE'}\n")
        f.write("INVARIANTS " + " ".join(g["invariants"]) + "\n")
        if not sim and g.get("properties"):
            f.write("PROPERTIES " + " ".join(g["properties"]) + "\n")
    open(out_file, "w").close()
    extra = ["-deadlock"]
    if sim:
        extra += ["-simulate", f"num={g['num']}", "-depth", "1000", "-seed", str(seed * 1009 + i)]
    rc, out, gen, dist, depth = tlc(work, cls, g["module"] + ".tla", cfg, {"GEN_OUT": out_file}, timeout, "g-" + tag, extra)
    with open(out_file) as f:
        n = sum(1 for _ in f)
    done = ACCEPT in out if not sim else "Finished in" in out
    if rc != 0 or not done or "Error:" in out or n == 0:
        raise Error(f"no behaviours of {tag} (exit {rc}):\n" + "\n".join(out.splitlines()[-40:]))
    m = re.search(r"number of states generated: (\d+)|(\d+) states generated", out.replace(",", ""))
    return {"file": out_file, "module": g["module"], "constants": g["constants"], "mode": g["mode"], "behaviours": n,
            "generated": gen or (int(m.group(1) or m.group(2)) if m else 0), "distinct": dist,
            "checked": g["invariants"] + ([] if sim else g.get("properties", []))}


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Error as x:
        print("ERROR:", x)
        sys.exit(2)
