"""Analyses besides the abstract interpretation: effects of every function, and type-level witnesses."""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile

BORROW = {"E0597", "E0505", "E0506", "E0502", "E0515", "E0716", "E0521", "E0621", "E0499", "E0503"}


def check(here, root, crate, tgt, features, env=()):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=tgt, RUSTFLAGS="--cap-lints=allow")
    e.update(env)
    e.pop("RUSTC_WRAPPER", None)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"] + features, cwd=os.path.join(here, crate), env=e, capture_output=True, text=True)
    arts, errs = {}, []
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact":
            for f in d["filenames"]:
                if f.endswith(".rmeta"):
                    arts[d["target"]["name"]] = f
        m = d.get("message")
        if d.get("reason") == "compiler-message" and m.get("level") == "error":
            errs.append(where(m))
    return r.returncode, arts, errs, r.stderr


def where(m):
    s = next((s for s in m.get("spans", []) if s.get("is_primary")), None)
    c = (m.get("code") or {}).get("code") or ""
    return (f"{s['file_name']}:{s['line_start']}" if s else "?"), c, m.get("message", "")


# --- effects -------------------------------------------------------------------------------------------------
PURE = {"core", "dmidecode", "bitflags", "uuid"}
IMPURE = re.compile(r"sync::atomic::|::read_volatile|::write_volatile|::arch::|::cast_mut$|intrinsics::volatile")
UNSURE = re.compile(r"::addr$|expose_provenance|align_offset|::align_to|MaybeUninit.*::assume_init|mem::uninitialized")


def scan(here, root, features, tgt):
    out = os.path.join(tgt, "scan.jsonl")
    env = dict(LD_LIBRARY_PATH=root + "/lib", RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on --cap-lints=allow",
               RUSTC_WORKSPACE_WRAPPER=os.path.join(here, "driver", "target", "release", "dmistat"), DMI_SCAN=out)
    rc, _, errs, err = check(here, root, "scan", os.path.join(tgt, "t"), features, env)
    if rc or not os.path.exists(out):
        return None, errs or [("?", "", err[-300:])]
    return [json.loads(l) for l in open(out)], []


def effects(here, root):
    """No call leaves core and the two data crates, no writable or thread-local state, no shared memory made writable;
    the crate builds with and without std, and does the same either way."""
    v, und, sites, nf = [], [], 0, 0
    bodies = {}
    tgt = tempfile.mkdtemp(prefix="dmiscan.")
    try:
        for name, feats in (("with std", ["--features", "std"]), ("without std", [])):
            sub = os.path.join(tgt, name.replace(" ", ""))
            os.makedirs(sub)
            fs, errs = scan(here, root, feats, sub)
            if fs is None:
                v += [f"{w}: {c} {m}\n    rule: the crate builds {name}" for w, c, m in errs[:8]]
                continue
            b = bodies.setdefault(name, {})
            for d in fs:
                if "static" in d:
                    sites += 1
                    if d["cell"]:
                        v.append(f"{d['file']}:{d['line']}: static {d['static']} can change\n    rule: no state is kept between calls ({name})")
                    continue
                nf += 1
                b.setdefault(d["fn"], []).append(d["body"])
                for k, n, l in d.get("calls", []):
                    sites += 1
                    at = f"{d['file']}:{l}: in {d['fn']}: "
                    if k not in PURE:
                        v.append(at + f"call of {n} (crate {k})\n    rule: decoding calls nothing outside core: no allocation, no input or output, no clock, no threads ({name})")
                    elif k == "core" and IMPURE.search(n):
                        v.append(at + f"call of {n}\n    rule: no shared state, no writes to what the caller lent ({name})")
                    elif k == "core" and UNSURE.search(n):
                        und.append(at + n)
                for k, n, l in d.get("marks", []):
                    sites += 1
                    at = f"{d['file']}:{l}: in {d['fn']}: "
                    if k in ("static-mut", "static-cell", "thread-local"):
                        v.append(at + f"uses the changeable static {n}\n    rule: no state is kept between calls ({name})")
                    elif k == "const-to-mut":
                        v.append(at + f"makes shared memory writable\n    rule: the caller's buffer is never written ({name})")
                    elif k == "asm":
                        v.append(at + "inline assembly\n    rule: decoding is a function of its arguments")
                    elif k == "address":
                        und.append(at + "the address of the data is observed")
        same = diff = 0
        if len(bodies) == 2:
            a, b = bodies["with std"], bodies["without std"]
            for n in sorted(set(a) | set(b)):
                if sorted(map(str, a.get(n, []))) == sorted(map(str, b.get(n, []))):
                    same += 1
                elif n in b:
                    diff += 1
                    und.append(f"{n} is not the same code with and without std")
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    return dict(rule="effects", sites=sites, functions=nf, same_in_both_builds=same, different=diff, violations=sorted(set(v)), undecided=sorted(set(und)))


def hashes(here, root):
    """Hash implementations tell the hasher about contents, never about addresses."""
    v, n = [], 0
    tgt = tempfile.mkdtemp(prefix="dmiscan.")
    try:
        fs, errs = scan(here, root, ["--features", "std"], tgt)
        for d in fs or []:
            if re.search(r" as (core|std)::hash::Hash>::hash", d.get("fn", "")):
                n += 1
            for k, m, l in d.get("marks", []):
                if k == "pointer-hash" or k == "address" and "Hash>::hash" in d["fn"]:
                    v.append(f"{d['file']}:{l}: in {d['fn']}: hashes an address\n    rule: equal values hash alike, wherever they lie")
        v += [f"{w}: {c} {m}" for w, c, m in errs[:4]]
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    return dict(rule="hashes", sites=n, hash_implementations=n, violations=v, undecided=[])


# --- witnesses -----------------------------------------------------------------------------------------------
def borrow(here, root):
    """Programs that must compile and programs that must not (each next to one that differs in one line and must)."""
    v, und = [], []
    tgt = tempfile.mkdtemp(prefix="dmiwit.")
    n = 0
    try:
        rc, arts, errs, err = check(here, root, "scan", os.path.join(tgt, "t"), ["--features", "std"])
        if rc or "dmidecode" not in arts:
            return dict(rule="witnesses", sites=0, violations=[f"{w}: {c} {m}" for w, c, m in errs[:8]] or ["the crate does not build: " + err[-300:]], undecided=[])
        deps = [x for a in arts.values() for x in ("-L", "dependency=" + os.path.dirname(a))]

        def build(args):
            f, cfgs = args
            out = os.path.join(tgt, "_".join(cfgs) or "good")
            os.makedirs(out, exist_ok=True)
            cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", "--emit=metadata", "--cap-lints=allow", "--error-format=json", "--out-dir", out, "--extern", "dmidecode=" + arts["dmidecode"]] + deps
            for c in cfgs:
                cmd += ["--cfg", c]
            r = subprocess.run(cmd + [f], cwd=os.path.join(here, "witness"), capture_output=True, text=True)
            es = []
            for l in r.stderr.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("level") == "error" and m.get("spans"):
                    es.append(where(m))
            return r.returncode, es

        names = open(os.path.join(here, "witness", "bad.txt")).read().split()
        good = open(os.path.join(here, "witness", "good.rs")).read().splitlines()
        n = sum(1 for l in good if re.match(r"fn ", l)) + 2 * len(names)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            g = ex.submit(build, ("good.rs", []))
            ok = list(ex.map(build, [("bad.rs", [x]) for x in names]))
            no = list(ex.map(build, [("bad.rs", [x, "bad"]) for x in names]))
        rc, es = g.result()
        for w, c, m in es:
            i = int(w.split(":")[1]) - 1 if ":" in w else 0
            v.append(f"witness/{w}: {good[i].strip()[:160]}\n    does not compile: {c} {m}\n    rule: what is handed out borrows from the buffer alone and can be shared")
        if rc and not es:
            und.append("good.rs: no answer")
        for x, (rc1, e1), (rc2, e2) in zip(names, ok, no):
            if rc1:
                v.append(f"witness/bad.rs: fn {x}: the harmless twin does not compile: {e1[:2]}\n    rule: what is handed out borrows from the buffer alone")
            elif rc2 == 0:
                v.append(f"witness/bad.rs: fn {x}: compiles although what it keeps outlives the buffer or the buffer changes under it\n    rule: nothing handed out can outlive the buffer")
            elif not any(c in BORROW or "lifetime" in m or "borrow" in m for _, c, m in e2):
                und.append(f"{x}: rejected for another reason: {e2[:1]}")
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    return dict(rule="witnesses", sites=n, programs=n, violations=v, undecided=und)
