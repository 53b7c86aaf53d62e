#!/usr/bin/env python3
"""Decide one property of /repo by static analysis:  run.py <property id>

Builds the analyser (driver/) if it is not there, type-checks the specification crate (harness/)
against /repo's current working tree, runs the analyser over the entries of the property and
reports.  Nothing of /repo or of the specifications is executed.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

PID = sys.argv[1]
P = PROPS[PID]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
EVID = os.path.join(HERE, "evidence")
os.makedirs(EVID, exist_ok=True)
REPLAY = os.path.join(EVID, f"{PID}.replay.txt")
DRIVER = os.path.join(HERE, "driver", "target", "release", "dmistat")
BUDGET = 780 if TIER == "quick" else 3000


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()


def build_driver():
    newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(HERE, "driver", "src")) for f in fs)
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= newest:
        return
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(HERE, "driver"), capture_output=True, text=True)
    if r.returncode:
        print(r.stdout, r.stderr, file=sys.stderr)
        sys.exit(2)


def analyse(args):
    """One analyser process over the entries with the given prefixes; returns (lines, error)."""
    prefixes, root, features = args
    tgt = tempfile.mkdtemp(prefix="dmistat.")
    out = os.path.join(tgt, "out.jsonl")
    env = dict(os.environ)
    env.update(
        CARGO_TARGET_DIR=os.path.join(tgt, "t"),
        LD_LIBRARY_PATH=root + "/lib",
        RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on --cap-lints=allow",
        RUSTC_WORKSPACE_WRAPPER=DRIVER,
        DMI_ENTRY=",".join(prefixes),
        DMI_OUT=out,
        DMI_DEADLINE=str(P.get("deadline", 150) * (1 if TIER == "quick" else 5)),
        DMI_TOTAL=str(int(max(60, BUDGET * 0.6 - (time.time() - T0)))),
        DMI_SEED=str(SEED),
    )
    env.pop("RUSTC_WRAPPER", None)
    try:
        left = max(30, BUDGET - (time.time() - T0))
        cmd = ["cargo", "+nightly", "check", "--offline", "-j", "2"] + features
        lost = []
        for again in range(6):
            with subprocess.Popen(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True) as r:
                try:
                    said, _ = r.communicate(timeout=left)
                    err = None if r.returncode == 0 else said
                except subprocess.TimeoutExpired:
                    os.killpg(r.pid, signal.SIGKILL)
                    err = None
            lines = []
            if os.path.exists(out):
                for l in open(out, errors="replace"):
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
            left = BUDGET - (time.time() - T0)
            if not (err and "(signal:" in err and os.path.exists(out + ".at")) or left < 60:
                break
            # the analyser died in one entry: go on with the others
            lost.append({"entry": open(out + ".at").read(), "crashed": "analyser process ended"})
            env["DMI_SKIP"] = ",".join(d["entry"] for d in lines + lost)
            os.remove(out + ".at")
        return lines + lost, err
    finally:
        shutil.rmtree(tgt, ignore_errors=True)


def known():
    """Keys of recorded findings of this property that are not repaired."""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == PID:
            out[m.group(2)] = m.group(3)
    return out


def key_of(e, f):
    return re.sub(r"\s+", "_", f"{e}/{f['kind']}/{f['name']}/{f['func']}")


def main():
    build_driver()
    root = sysroot()
    kinds = set(P["kinds"])
    name_re = re.compile(P.get("names", r"."))
    jobs = [(g, root, P.get("features", [])) for g in P["groups"]]
    lines, errors = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for ls, err in ex.map(analyse, jobs):
            lines += ls
            if err:
                errors.append(err)
    violations, undecided, notes = [], [], []
    n_checks = n_proven = 0
    disch, names, funcs, loops = {}, set(), set(), 0
    per_entry = []
    crashed = []
    seen, code = set(), {}
    for d in lines:
        e = d["entry"]
        if e in seen:
            continue
        seen.add(e)
        if "crashed" in d:
            crashed.append(f"{e}: {d['crashed']}")
            # what was found before giving up stands
            d = dict({"checks": {}, "proven": {}, "discharged": {}, "loops": 0, "unmodelled": {}, "functions": [], "findings": [], "blocks": 0, "calls": 0, "seconds": 0}, **d)
        ck = {k: v for k, v in d["checks"].items() if name_re.search(k)} if "check" in kinds else {}
        pv = {k: v for k, v in d["proven"].items() if k in ck}
        n_checks += sum(ck.values())
        n_proven += sum(pv.values())
        names |= {f"{e}:{k}" for k in ck}
        for k, v in d["discharged"].items():
            if k in kinds:
                disch[k] = disch.get(k, 0) + v
        funcs |= set(d["functions"])
        code[e] = sorted(d["functions"])
        loops += d["loops"]
        if "crashed" not in d:
            per_entry.append({"entry": e, "checks": sum(ck.values()), "proven": sum(pv.values()), "blocks": d["blocks"], "calls": d["calls"], "loops": d["loops"], "seconds": d["seconds"]})
        if d["unmodelled"]:
            notes.append(f"{e}: not modelled: {sorted(d['unmodelled'])}")
        for f in d["findings"]:
            if f["kind"] == "term" and "verif_harness::rf::" in f["func"]:
                continue  # a loop of the reference, not of the code
            if f["kind"] not in kinds or (f["kind"] == "check" and not name_re.search(f["name"])):
                continue
            (violations if f["verdict"] == "refuted" else undecided).append((e, f))
    extra = []
    for fn in P.get("extra", []):
        import extra as ex_mod

        r = getattr(ex_mod, fn)(HERE, root)
        extra.append(r)
        if r.get("different"):
            # another build, other code: the rules of the other properties are applied to that build too
            with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
                for ls, err in ex.map(analyse, [(g, root, ["--no-default-features"]) for g in P["rerun"]]):
                    for d in ls:
                        for f in d.get("findings", []):
                            if f["verdict"] == "refuted" and not (f["kind"] == "term" and "verif_harness::rf::" in f["func"]):
                                violations.append((d["entry"] + "(without std)", f))
    kf = known()
    new, seen_known = [], []
    for e, f in violations:
        k = key_of(e, f)
        (seen_known if k in kf else new).append((k, e, f))
    report = []
    for k, e, f in new:
        where = f"{f['file']}:{f['line']}: in {f['func']}" if f["line"] else f"{f['func']}"
        path = ", ".join(code.get(e, [])[:25])
        report.append(f"{where}: rule {f['kind']} '{f['name']}' fails for entry {e}\n    key: {k}\n    witness: {f['detail']}\n    code on the way: {path}")
    for r in extra:
        for v in r["violations"]:
            report.append(v)
        undecided += [(r["rule"], {"kind": "extra", "name": u, "func": "", "detail": u}) for u in r.get("undecided", [])]
    for err in errors:
        errs = [l for l in err.splitlines() if l.startswith("error") or l.strip().startswith("-->")]
        if "driver err" in err or "(signal:" in err or "process didn't exit successfully" in err and not any("error[E" in l for l in errs):
            crashed.append("analyser process ended early: " + " | ".join(errs)[:300])
        else:
            report.append("the specifications no longer type-check against /repo (a public item they rely on is gone or changed):\n    " + "\n    ".join(errs[:12]))
    done = {d["entry"] for d in lines}
    missing = [e for e in P.get("require", []) if not any(x.startswith(e) for x in done)]
    if missing and not errors and not crashed:
        notes.append(f"entries without a result: {missing}")
    if not report and not errors and not crashed and (n_checks + sum(disch.values()) + sum(r["sites"] for r in extra)) < P.get("floor", 1) // 3:
        report.append(f"only {n_checks + sum(disch.values())} obligations found, about {P.get('floor', 1)} expected: the anchors of this property are gone")
    cov = {
        "explanation": P["rule"],
        "entries_analysed": len(per_entry),
        "obligations_stated": n_checks,
        "obligations_proven": n_proven,
        "implicit_obligations_discharged": disch,
        "distinct_checks": len(names),
        "functions_of_the_crate_analysed": len(funcs),
        "blocks": sum(x["blocks"] for x in per_entry),
        "calls": sum(x["calls"] for x in per_entry),
        "loops_summarised": loops,
        "undecided": [f"{e}: {f['kind']} {f['name']} {f['func']}"[:200] for e, f in undecided],
        "crashed": crashed,
        "notes": notes[:40],
        "entries": per_entry,
        "functions": sorted(funcs)[:1500],
    }
    for r in extra:
        cov["extra_" + r["rule"]] = {k: v for k, v in r.items() if k not in ("violations",)}
    ev = {
        "property": PID,
        "tier": TIER,
        "seed": SEED,
        "level": P["level"],
        "coverage": cov,
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(report),
    }
    with open(os.path.join(EVID, f"{PID}.json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    for k, e, f in seen_known:
        print(f"KNOWN-FINDING: property={PID} {kf[k]}")
    print(f"{PID}: {len(per_entry)} entries, {n_checks} stated obligations ({n_proven} proven), implicit {disch}, {len(undecided)} undecided, {len(funcs)} functions, {ev['wall_s']} s" + "".join(f"; {r['rule']}: {r['sites']} sites" for r in extra))
    for e, f in undecided[:30]:
        print(f"  undecided: {e}: {f['kind']} {f['name']} in {f['func']}")
    for c in crashed[:10]:
        print(f"  no answer: {c}")
    if report:
        with open(REPLAY, "w") as fo:
            fo.write("\n".join(report) + "\n")
        for r in report[:20]:
            print(r)
        print(f"VIOLATION property={PID} replay={REPLAY}")
        sys.exit(1)
    sys.exit(0)


main()
