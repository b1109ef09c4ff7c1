#!/usr/bin/env python3
"""Decides one property: bin/check.py PROP [--tier quick|thorough] [--replay FILE]

1. builds harness/ against /repo's working tree, with and without overflow checks;
2. drives the real code and records traces (one JSON event per line);
3. lets TLC check the recorded behaviour against the specification module of the property;
4. writes evidence/PROP.json; exit 0 = every recorded behaviour is one of the specification,
   exit 1 = "VIOLATION property=PROP replay=FILE", exit 2 = the check itself failed.
"""
import fcntl, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8

# property -> specification module the recorded traces are checked against
MODULE = {
    "C01": "TraceLang", "C02": "TraceLang", "C03": "TraceLang", "C04": "TraceDfa",
    "C05": "TraceLang", "C06": "TraceStrings", "C07": "TraceIntern", "C08": "TraceLiteral",
    "C09": "TraceNum", "C10": "TraceLang", "C11": "TraceSets", "C12": "TraceSets",
    "C13": "TraceBuilder", "C14": "TraceDfa", "C15": "TraceLoops", "C16": "TraceLang",
    "C17": "TraceStrings", "C18": "TraceLang", "C19": "TraceClosure", "C20": "TraceSets",
}
# specification self-checks (no implementation involved) run in addition by the thorough tier
SELF = {
    "C01": ["MCRegLan"], "C02": ["MCRegLan"], "C03": ["MCRegLan"], "C05": ["MCRegLan", "MCWitness"],
    "C16": ["MCRegLan", "MCInclusion"], "C18": ["MCRegLan"],
    "C04": ["MCHopcroft", "MCMinimizer"], "C06": ["MCStrings"], "C07": ["MCIntern"], "C08": ["MCLiterals"],
    "C09": ["MCStrings"], "C10": ["MCReplace"], "C11": ["MCCharSets"], "C12": ["MCCharSets"],
    "C13": ["MCBuilder"], "C14": ["MCTable"], "C15": ["MCLoops"], "C19": ["MCClosure"], "C20": ["MCCharSets"],
}
RECORD_TIMEOUT = {"quick": 240, "thorough": 3600}
TLC_TIMEOUT = {"quick": 600, "thorough": 4 * 3600}
CHUNK = {"quick": 100000, "thorough": 4000}


class CheckError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e["HOME"] = home
    e["PATH"] = home + "/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    for x in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(x, None)
    return e


def build(work):
    """Build the two profiles of the driver; private copies of them go to the work directory."""
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_locked()
        for p, d in PROFILES.items():
            shutil.copy2(os.path.join(TARGET, d, "vharness"), os.path.join(work, "vharness_" + p))


def build_locked():
    # cargo goes by mtimes: forget what it knows about the crate under test and the harness
    for d in ("debug", "release"):
        fp = os.path.join(TARGET, d, ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("aws-smt-strings-", "vharness-")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)

    def one(extra):
        return subprocess.run(
            ["cargo", "build", "--offline", "--quiet"] + extra,
            cwd=os.path.join(VERIF, "harness"), env=cargo_env(),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    with ThreadPoolExecutor(2) as ex:
        rs = list(ex.map(one, [[], ["--release"]]))
    for r in rs:
        if r.returncode != 0:
            raise CheckError("build of the harness failed:\n" + r.stdout[-6000:])


PROFILES = {"checked": "debug", "release": "release"}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def record(prop, tier, seed, profile, shard, nshards, work):
    """Run one driver process; returns (path of the trace, stats)."""
    out = os.path.join(work, f"{profile}{shard}.ndjson")
    exe = os.path.join(work, "vharness_" + profile)
    cmd = [exe, prop, tier, str(seed), str(shard), str(nshards), out]

    def run(progress):
        env = dict(os.environ)
        if progress:
            env["VH_PROGRESS"] = "1"
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=env, preexec_fn=limits, timeout=RECORD_TIMEOUT[tier])
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return "timeout", "", ""

    rc, so, se = run(False)
    extra = None
    stats = {"calls": 0}
    if rc == 0:
        stats["calls"] = json.loads(so.strip().splitlines()[-1])["calls"]
    elif rc == "timeout":
        stats["truncated"] = True
    elif rc == 3:
        what = open(out + ".hang", errors="replace").read()
        extra = {"op": "hang", "in": what[:1500]}
    elif rc in (2, 4):
        raise CheckError(f"driver {prop}/{profile}/{shard} failed (exit {rc}): {se[-2000:]}")
    else:
        # killed by a signal: crash of the code under test (stack overflow, out of memory, ...)
        run(True)
        what = ""
        if os.path.exists(out + ".cur"):
            what = open(out + ".cur", errors="replace").read()
        if not what:
            raise CheckError(f"driver {prop}/{profile}/{shard} died outside of a call (exit {rc}): {se[-500:]}")
        extra = {"op": "crash", "in": what[:1500], "exit": rc}
    data = open(out, "rb").read() if os.path.exists(out) else b""
    if rc != 0 and data and not data.endswith(b"\n"):
        data = data[: data.rfind(b"\n") + 1]
    if extra is not None:
        data += json.dumps(extra).encode() + b"\n"
    with open(out, "wb") as f:
        f.write(data)
    return out, stats


def tlc(module, trace, work, name, tier, cfg=None, workers=1, heap="2500m"):
    md = os.path.join(work, "md_" + name)
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    env["TRACE"] = trace or ""
    env["TIER"] = tier
    tmp = os.path.join(work, "tmp_" + name)
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC", f"-Djava.io.tmpdir={tmp}", "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                           cwd=tmp, timeout=TLC_TIMEOUT[tier])
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        rc = "timeout"
    shutil.rmtree(md, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    r = {"rc": rc, "out": out, "states": 0, "generated": 0, "initial": 0, "name": name}
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    if m:
        r["generated"], r["states"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"Finished computing initial states: (?:(\d+) states generated, with )?(\d+)", out)
    if m:
        r["initial"] = int(m.group(1) or m.group(2))
    r["ok"] = rc == 0 and "Model checking completed. No error has been found." in out
    r["violation"] = None
    m = re.search(r"Invariant (\w+) is violated", out)
    if m:
        st = out[m.start():]
        ks = re.findall(r"^/\\ k = (\d+)", st, re.M)
        end = re.search(r"^\d+ states generated", st, re.M)
        r["violation"] = {"invariant": m.group(1), "k": int(ks[-1]) if ks else None,
                          "states": st[: end.start() if end else None][:20000]}
    return r


def chunks(path, size):
    lines = open(path, "rb").read().splitlines(keepends=True)
    if len(lines) <= size:
        return [(path, lines)] if lines else []
    res = []
    for i in range(0, len(lines), size):
        p = f"{path}.{i // size}"
        with open(p, "wb") as f:
            f.writelines(lines[i:i + size])
        res.append((p, lines[i:i + size]))
    return res


def known_findings(prop):
    """lines 'finding: property=<id> event=<json of the identifying fields> ...'"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) event=(\{.*?\}) what=(.*)", l)
            if m and m.group(1) == prop:
                res.append((json.loads(m.group(2)), m.group(3).strip()))
    return res


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    module = MODULE[prop]
    work = os.path.join(BUILD, "work_" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)

    if "--replay" in args:
        rp = json.load(open(args[args.index("--replay") + 1]))
        t = os.path.join(work, "replay.ndjson")
        open(t, "w").write(json.dumps(rp["event"]) + "\n")
        r = tlc(module, t, work, "replay", "quick")
        print(r["out"][-4000:])
        return 0 if r["ok"] else 1

    t0 = time.time()
    build(work)
    t_build = time.time() - t0
    nshards = NPROC // len(PROFILES)
    jobs = [(p, s) for p in PROFILES for s in range(nshards)]
    with ThreadPoolExecutor(NPROC) as ex:
        rec = list(ex.map(lambda j: record(prop, tier, seed, j[0], j[1], nshards, work), jobs))
    t_rec = time.time() - t0 - t_build
    calls = sum(r[1]["calls"] for r in rec)
    truncated = [f"{p}{s}" for (p, s), r in zip(jobs, rec) if r[1].get("truncated")]

    findings = known_findings(prop)
    reported = set()
    tasks = []
    ops, total, samples, perprof = {}, 0, {}, {}
    for (profile, shard), (path, _) in zip(jobs, rec):
        if findings:
            keep = []
            for l in open(path, "rb").read().splitlines(keepends=True):
                e = json.loads(l)
                hit = [w for key, w in findings if all(e.get(a) == b for a, b in key.items())]
                if hit:
                    reported.update(hit)
                else:
                    keep.append(l)
            open(path, "wb").writelines(keep)
        for cpath, lines in chunks(path, CHUNK[tier]):
            tasks.append((f"{profile}{shard}_{len(tasks)}", profile, cpath, lines))
            total += len(lines)
            perprof[profile] = perprof.get(profile, 0) + len(lines)
            for l in lines:
                m = re.match(rb'\{"op":\s*"(\w+)"', l)
                op = m.group(1).decode() if m else "?"
                ops[op] = ops.get(op, 0) + 1
                if 60 < len(l) < 900 and (op not in samples or len(samples[op]) < 2) and ops[op] % 37 in (0, 5):
                    samples.setdefault(op, []).append(l.decode())
    if total == 0:
        raise CheckError("no event recorded")

    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda t: tlc(module, t[2], work, t[0], tier), tasks))
        selfres = []
        if tier == "thorough":
            selfres = [(m, tlc(m, None, work, "self_" + m, tier, workers=NPROC, heap="12g"))
                       for m in SELF.get(prop, [])]
    t_tlc = time.time() - t0 - t_build - t_rec
    violations, errors = [], []
    for (name, profile, path, lines), r in zip(tasks, res):
        if r["violation"] is not None:
            v = r["violation"]
            ev = None
            if v["k"] is not None and 1 <= v["k"] <= len(lines):
                ev = json.loads(lines[v["k"] - 1])
            violations.append({"property": prop, "module": module, "profile": profile, "shard": name,
                               "seed": seed, "tier": tier, "invariant": v["invariant"],
                               "index": v["k"], "event": ev, "tlc": v["states"],
                               "how": f"bin/check.py {prop} --replay <this file>"})
        elif not r["ok"]:
            errors.append((name, r["rc"], r["out"][-3000:]))
    for m, r in selfres:
        if not r["ok"]:
            errors.append((m, r["rc"], r["out"][-3000:]))

    cov = {
        "states": sum(r["states"] for r in res),
        "transitions": sum(max(0, r["generated"] - r["initial"]) for r in res),
        "traces_validated_against_impl": total,
        "samples": [x[:900] for o in sorted(samples) for x in samples[o][:2]][:8],
        "calls_into_the_code": calls,
        "events_by_kind": ops,
        "events_by_profile": perprof,
        "spec_module": module,
        "tlc_runs": len(tasks),
        "seconds": {"build": round(t_build, 1), "record": round(t_rec, 1), "tlc": round(t_tlc, 1)},
    }
    if not cov["samples"]:
        cov["samples"] = [tasks[0][3][0].decode()[:900]]
    if truncated:
        cov["recording_stopped_by_time_limit"] = truncated
    if selfres:
        cov["spec_self_checks"] = {m: {"states": r["states"], "ok": r["ok"]} for m, r in selfres}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "TLC and the JSON reader evaluate the specification correctly",
            "the harness logs the arguments and results it really used (it never judges them)",
            "bounded: only the recorded terms, automata, strings and call sequences are covered",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(reported):
        print(f"KNOWN-FINDING: property={prop} {w}")
    rc = 0
    if violations:
        for i, v in enumerate(violations[:4]):
            rp = os.path.join(VERIF, "replay", f"{prop}-{i}.json")
            json.dump(v, open(rp, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print("  " + (json.dumps(v["event"])[:1500] if v["event"] else v["invariant"]))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print(f"ERROR of the check ({e[0]}, {e[1]}):\n{e[2]}", file=sys.stderr)
        rc = 2
    print(f"{prop} {tier}: {total} events, {calls} calls, {cov['states']} states, "
          f"{cov['transitions']} transitions, {ev['wall_s']} s, "
          f"{'VIOLATED' if rc == 1 else 'ok' if rc == 0 else 'ERROR'}")
    if rc == 0:
        shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print(f"ERROR of the check: {e}", file=sys.stderr)
        sys.exit(2)
