#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree.

exit 0  held on everything generated (KNOWN-FINDING lines for listed findings)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no answer (the tree does not build, the machinery failed)
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "drivers"))
BUILD = os.path.join(VERIF, "target")
TOOLCHAIN = "1.70.0"
WALL = 820
T0 = time.time()


def left(cap=10**9):
    tier = os.environ.get("VERIF_TIER", "quick")
    total = WALL if tier == "quick" else 6 * 3600
    return max(5, min(cap, total - (time.time() - T0)))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    # a warning of the compiler is no verdict on a property
    e["RUSTFLAGS"] = "--cap-lints=allow"
    e.update(kw)
    return e


def build(crate="harness", bins=None):
    cmd = ["cargo", "build", "--offline", "--locked", "-q"]
    for b in bins or []:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left(600))
    if p.returncode != 0:
        log(p.stdout[-6000:])
        log(f"check: {crate} does not build against the current tree")
        sys.exit(2)
    return os.path.join(BUILD, "debug")


# ------------------------------------------------------------------ constants of the code steer generation

def strip_tests(text):
    i = text.find("#[cfg(test)]")
    return text if i < 0 else text[:i]


def mine(dirs):
    ints, strs = set(), set()
    for d in dirs:
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = [x for x in ds if x not in ("tests", "target", "benches", "examples")]
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                try:
                    t = open(os.path.join(root, f), encoding="utf-8").read()
                except Exception:
                    continue
                t = re.sub(r"//[^\n]*", "", strip_tests(t))
                for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b", t):
                    try:
                        n = int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1))
                    except ValueError:
                        continue
                    if 0 <= n < 2**64:
                        ints.add(n)
                for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,40})"', t):
                    strs.add(m.group(1))
    path = os.path.join(scratch(), "dict.json")
    json.dump({"ints": sorted(ints)[:4000], "strs": sorted(strs)[:3000]}, open(path, "w"))
    return path


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, "target", "scratch")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
    return _scratch


# ------------------------------------------------------------------ findings, evidence, verdict

def known_findings():
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Report:
    def __init__(self, prop, assumptions=()):
        self.prop = prop
        self.facets = []
        self.viol = None
        self.known = {}
        self.assumptions = list(assumptions)
        self.extra = {}

    def add(self, facet, rule, evaluations, distinct, samples, labels=None, wall=0.0):
        self.facets.append(dict(facet=facet, rule=rule, evaluations=evaluations, distinct_nontrivial=distinct, samples=samples, labels=labels or {}, wall_s=round(wall, 2)))

    def violation(self, facet, message, replay):
        if self.viol is None:
            self.viol = (facet, message, replay)

    def finish(self):
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        listed = known_findings()
        for key, what in sorted(self.known.items()):
            if (self.prop, key) not in listed:
                self.violation("known", what, {"finding": key})
        samples = [f"{f['facet']}: {s}" for f in self.facets for s in f["samples"]][:12]
        cov = dict(
            evaluations=sum(f["evaluations"] for f in self.facets),
            distinct_nontrivial=sum(f["distinct_nontrivial"] for f in self.facets),
            rule=" | ".join(f"{f['facet']}: {f['rule']}" for f in self.facets),
            samples=samples,
            facets=[{k: v for k, v in f.items() if k not in ("rule", "samples")} for f in self.facets],
        )
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=1 if self.viol else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        cleanup()
        if self.viol:
            facet, msg, replay = self.viol
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            body = dict(property=self.prop, facet=facet, message=msg, **replay)
            name = f"{self.prop}-{facet}-{hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]}.json"
            path = os.path.join(d, name)
            json.dump(body, open(path, "w"), indent=1)
            print(f"{self.prop} [{facet}]: {msg[:3000]}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            sys.exit(1)
        for key, what in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {key}: {what}")
        print(f"{self.prop}: held on {cov['evaluations']} generated cases ({cov['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s", flush=True)
        sys.exit(0)


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch) and _scratch.startswith(os.path.join(VERIF, "target", "scratch", "run-")):
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# ------------------------------------------------------------------ the Rust harness

def facet_names(vh):
    return [l.split()[:2] for l in subprocess.run([vh, "list"], stdout=subprocess.PIPE, text=True, env=env()).stdout.splitlines()]


def capped(vh):
    """memory without bounds ends the process, not the machine"""
    import resource
    # node reserves more address space than it ever uses
    kind = resource.RLIMIT_DATA if os.path.basename(vh) == "wapp" else resource.RLIMIT_AS
    return lambda: resource.setrlimit(kind, (10 << 30, 10 << 30))


def run_one(vh, prop, facet, tape_hex, e, timeout=45):
    """-> None if held, else the message"""
    p = os.path.join(scratch(), "tape.hex")
    open(p, "w").write(tape_hex)
    try:
        r = subprocess.run([vh, "one", prop, facet, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=timeout, preexec_fn=capped(vh))
    except subprocess.TimeoutExpired:
        return f"did not finish within {timeout} s"
    if r.returncode == 0:
        return None
    if r.returncode == 1:
        m = re.search(r"violated: (.*)", r.stdout, re.S)
        return m.group(1).strip() if m else r.stdout[-500:]
    tail = (r.stderr or "").strip().splitlines()
    return f"the process died with status {r.returncode}: {' '.join(tail[-3:])[:400]}"


def shrink_outside(vh, prop, facet, tape, msg, e):
    """coarse shrinking of a case that kills or hangs the process"""
    end = time.time() + min(60, left() / 3)
    hang = "did not finish" in msg
    tape = bytes.fromhex(tape)

    def bad(t):
        if time.time() > end:
            return None
        return run_one(vh, prop, facet, t.hex(), e, timeout=20 if hang else 45)

    # the tail first: most of the tape is never read
    n = len(tape)
    while n > 1:
        m = bad(tape[: n // 2])
        if m is None:
            break
        n //= 2
        tape, msg = tape[:n], m
    size = max(1, len(tape) // 2)
    while time.time() < end:
        i = 0
        while i < len(tape) and time.time() < end:
            c = tape[:i] + tape[i + size:]
            m = bad(c)
            if m is not None:
                tape, msg = c, m
            else:
                i += size
        if size == 1:
            break
        size //= 2
    return tape.hex(), msg


def run_harness(prop, rep, vh, mine_dirs, extra_env=None):
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    e = env(VH_DICT=mine(mine_dirs), VH_SCRATCH=scratch(), **(extra_env or {}))
    prog = os.path.join(scratch(), "progress")
    threads = max(1, min(32, os.cpu_count() or 8))
    outp = os.path.join(scratch(), "out.json")
    with open(outp, "w") as o, open(os.path.join(scratch(), "err"), "w") as er:
        try:
            r = subprocess.run([vh, "worker", prop, seed, tier, str(threads), prog], stdout=o, stderr=er, env=e, timeout=left(), preexec_fn=capped(vh))
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = None
    if rc == 0:
        d = json.loads(open(outp).read().strip().splitlines()[-1])
        for f in d["facets"]:
            rep.add(f["facet"], f["rule"], f["evaluations"], f["distinct_nontrivial"], f["samples"], f["labels"], f["wall_s"])
            rep.known.update(f["known"])
            if f["failure"]:
                x = f["failure"]
                # confirm in a fresh process
                m = run_one(vh, prop, f["facet"], x["tape"], e)
                tape = x["tape"]
                if m is None:
                    tape = x["original_tape"]
                    m = run_one(vh, prop, f["facet"], tape, e)
                if m is None:
                    log(f"check: a failure did not reproduce: {x['message']}")
                    cleanup()
                    sys.exit(2)
                rep.violation(f["facet"], m, dict(tape=tape, seed=int(seed), index=x["index"], dictionary=json.load(open(e["VH_DICT"])), how="python3 check.py --replay <this file>"))
        return
    if rc is None:
        log("check: out of time")
        cleanup()
        sys.exit(2)
    # the process died: find the case
    b = open(prog, "rb").read()
    cell = lambda i: int.from_bytes(b[8 * i:8 * i + 8], "little")
    facet = facet_names(vh)[cell(64) - 1][1] if len(b) >= 8 * 65 and cell(64) else None
    log(f"check: worker ended with status {rc}; {open(os.path.join(scratch(), 'err')).read()[-600:]}")
    cands = sorted({cell(t) for t in range(threads)} - {0})
    for idx in cands:
        tape = subprocess.run([vh, "tape", prop, facet, seed, str(idx - 1)], stdout=subprocess.PIPE, text=True, env=e).stdout.strip()
        m = run_one(vh, prop, facet, tape, e)
        if m is not None:
            tape, m = shrink_outside(vh, prop, facet, tape, m, e)
            rep.add(facet, "search ended by the death of the process", idx, 0, [])
            rep.violation(facet, m, dict(tape=tape, seed=int(seed), index=idx - 1, dictionary=json.load(open(e["VH_DICT"])), how="python3 check.py --replay <this file>"))
            return
    log("check: no single case reproduces the death of the worker")
    cleanup()
    sys.exit(2)


BINPROT = ["protocol/bin-prot/src", "protocol/versioned/src"]
ASSUME = [
    "the reference encoder/decoder in harness/src/model.rs states the bin_prot format correctly (written from the bin_prot specification, not from the code under test)",
    "generated inputs only: no claim about inputs outside the stated generators",
]


def harness_prop(prop):
    vh = os.path.join(build("harness", ["vh"]), "vh")
    rep = Report(prop, ASSUME)
    run_harness(prop, rep, vh, BINPROT)
    rep.finish()


def cli_prop(prop):
    d = build("clis")
    vh = os.path.join(build("harness", ["vh"]), "vh")
    rep = Report(prop, ASSUME)
    run_harness(prop, rep, vh, BINPROT + ["apps/bin-prot-layout-reader/src", "protocol/bin_prot_checker/src"], cli_env())
    rep.finish()


def cli_env():
    d = os.path.join(BUILD, "debug")
    return dict(VH_LAYOUT_READER=os.path.join(d, "layout_reader"), VH_CHECKER=os.path.join(d, "bin_prot_checker"))


# ------------------------------------------------------------------ crates that need stand-in dependencies

# property -> (harness crate in wide/, source folders whose constants steer generation)
WIDE = {}
for _p in ("C21", "C22"):
    WIDE[_p] = ("wmerkle", ["merkle/src"])
for _p in ("C23", "C27", "C28"):
    WIDE[_p] = ("wchain", ["consensus/src", "base/src", "crypto/src", "proof-systems-shim/src"])
for _p in ("C24", "C25", "C26"):
    WIDE[_p] = ("wconv", ["base/src", "crypto/src", "protocol/serialization-types/src"])
for _p in ("C29", "C30", "C31", "C32"):
    WIDE[_p] = ("wnode", ["network/src/processor", "secrets/src", "ledger/src", "consensus/src"])
for _p in ("C33", "C34", "C35", "C36", "C37", "C38"):
    WIDE[_p] = ("wapp", ["network/src", "network/js", "apps/wasm", "apps/tools/blocks-crawler/src"])


def web_network():
    """The network crate as a browser gets it: its code for wasm32, compiled for this machine."""
    src, out, kept = "/repo/network/src", os.path.join(BUILD, "gen", "network", "src"), set()
    for root, _, fs in os.walk(src):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), src)
            b = open(os.path.join(root, f), "rb").read()
            if f.endswith(".rs"):
                b = re.sub(rb'target_arch\s*=\s*"wasm32"', b"all()", b)
            q = os.path.join(out, p)
            kept.add(q)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not os.path.exists(q) or open(q, "rb").read() != b:
                open(q, "wb").write(b)
    for root, _, fs in os.walk(out):
        for f in fs:
            if os.path.join(root, f) not in kept:
                os.remove(os.path.join(root, f))


def wide_build(crates):
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import vendor
    vendor.main(os.path.join(VERIF, "standins"), os.path.join(BUILD, "vendor"))
    # cargo does not look for changes in vendored packages
    stamp, h = os.path.join(BUILD, "wide", "standins.sha1"), hashlib.sha1()
    for root, ds, fs in os.walk(os.path.join(VERIF, "standins")):
        ds.sort()
        for f in sorted(fs):
            h.update(f.encode() + open(os.path.join(root, f), "rb").read())
    if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
        shutil.rmtree(os.path.join(BUILD, "wide"), ignore_errors=True)
        os.makedirs(os.path.join(BUILD, "wide"))
        open(stamp, "w").write(h.hexdigest())
    web_network()
    cmd = ["cargo", "build", "--offline", "-q"]
    for c in crates + ["blocks-crawler"] * ("wapp" in crates):
        cmd += ["-p", c]
    e = env(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(BUILD, "wide"), RUSTFLAGS="--cap-lints=allow")
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "wide"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left(600))
    if p.returncode != 0:
        log(p.stdout[-6000:])
        log(f"check: {crates} does not build against the current tree")
        sys.exit(2)
    return os.path.join(BUILD, "wide", "debug")


def wide_prop(prop):
    crate, dirs = WIDE[prop]
    vh = os.path.join(wide_build([crate]), crate)
    rep = Report(prop, [
        "the real crates are compiled with stand-ins for dependencies that are not in the sandbox (standins/): the Poseidon permutation is replaced by SHA-256, everything around it (field arithmetic, curves, random oracle input, sponge, encodings) is a reimplementation of the published dependency",
        "generated inputs only: no claim about inputs outside the stated generators",
    ])
    run_harness(prop, rep, vh, dirs)
    rep.finish()


def macro_host():
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--message-format=json"], cwd=os.path.join(VERIF, "macrohost"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left(600))
    ext = {}
    for l in p.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact" and d["target"]["name"].replace("-", "_") in ("mina_serialization_types_macros", "versioned"):
            ext[d["target"]["name"].replace("-", "_")] = [f for f in d["filenames"] if f.endswith((".so", ".rlib"))][0]
    if p.returncode != 0 or len(ext) != 2:
        log(p.stderr[-4000:])
        log("check: the macro crate does not build")
        sys.exit(2)
    return ext


def autofrom_prop(prop):
    import autofrom
    ext = macro_host()
    rep = Report(prop, ["rustc 1.70 compiles the generated programs correctly", "pairs outside the generated shapes (generics, unit structs, containers of containers with different elements) are not claimed"])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    b = autofrom.Builder(ext, os.path.join(BUILD, "debug", "deps"), scratch(), env())
    t = time.time()
    r = autofrom.search(b, seed, 320 if thorough else 24, 40, 300, os.cpu_count() or 8, 90, log)
    if r.get("broken"):
        log("check: the generated programs do not build for a reason outside any pair:", r["broken"])
        cleanup()
        sys.exit(2)
    rep.add("derive", "a random pair of types (structs with named or unnamed fields, enums; plain, Vec, Option, Box and nested fields; one to three targets, fields and variants in another order), compiled with the derive and converted both ways on 300 random values, bare and in one to four version wrappers; every pair is non-trivial, distinct by shape", r["evaluations"], r["distinct"], r["samples"], r["labels"], time.time() - t)
    rep.extra["values_converted"] = r["values"]
    if r["failure"]:
        rep.violation("derive", r["failure"]["message"], dict(program=r["failure"]["program"], outcome=r["failure"]["outcome"], seed=seed, how="python3 check.py --replay <this file>"))
    rep.finish()


PROPS = {p: harness_prop for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C20"]}
PROPS.update(C16=autofrom_prop, C17=cli_prop, C18=cli_prop)
PROPS.update({p: wide_prop for p in WIDE})


def replay(path):
    d = json.load(open(path))
    if "tape" in d:
        if d["property"] in WIDE:
            crate = WIDE[d["property"]][0]
            vh = os.path.join(wide_build([crate]), crate)
        else:
            vh = os.path.join(build("harness", ["vh"]), "vh")
        if d["property"] in ("C17", "C18"):
            build("clis")
        dp = os.path.join(scratch(), "dict.json")
        json.dump(d["dictionary"], open(dp, "w"))
        e = env(VH_DICT=dp, VH_SCRATCH=scratch(), **cli_env())
        m = run_one(vh, d["property"], d["facet"], d["tape"], e)
        cleanup()
        print("held" if m is None else f"violated: {m}")
        sys.exit(0 if m is None else 1)
    if "program" in d:
        import autofrom
        st, text = autofrom.Builder(macro_host(), os.path.join(BUILD, "debug", "deps"), scratch(), env()).run(d["program"], "replay")
        cleanup()
        print("held" if st == "ok" else f"violated: {st}: {text[:2000]}")
        sys.exit(0 if st == "ok" else 1)
    print("no tape in this replay file; see its message")
    sys.exit(2)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    if sys.argv[1:] == ["--setup"]:
        build("clis")
        build("harness", ["vh"])
        macro_host()
        wide_build(sorted({c for c, _ in WIDE.values()}))
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        log(__doc__, "properties:", *sorted(PROPS))
        sys.exit(2)
    try:
        PROPS[sys.argv[1]](sys.argv[1])
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        cleanup()
        sys.exit(2)


if __name__ == "__main__":
    main()
