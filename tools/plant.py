#!/usr/bin/env python3
"""plant.py SPECS.py [ID...]: build and confirm planted bugs in a scratch copy of /repo, keep them in /verif/seeded/<id>.

SPECS.py defines BUGS = {id: dict(property, needs, what, edits=[(file, old, new)], demo=<main.rs text> | sh=<script>, deps=[...])}.
Confirmed: applies, builds, stable tests pass, demo passes without and fails with the change."""
import json, os, re, shutil, subprocess, sys, tempfile
S = "/tmp/plant"
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this case; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo/." "$t/"
mv "$t/Cargo.toml.in" "$t/Cargo.toml"
sed -i "s|@REPO@|$repo|g" "$t/Cargo.toml"
cd "$t" || exit 3
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
export DEMO_DIR="$t/scratch"
mkdir -p "$DEMO_DIR"
cargo build -q --offline || exit 4
%s
'''
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
%s
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
bin-prot = { path = "@REPO@/protocol/bin-prot", features = ["loose_deserialization"] }
versioned = { path = "@REPO@/protocol/versioned" }
mina-serialization-types-macros = { path = "@REPO@/protocol/serialization-types-macros" }
serde = { version = "1", features = ["derive"] }
serde_json = { version = "1", features = ["unbounded_depth"] }
serde_stacker = "0.1"
anyhow = "1"
env_logger = "0.9.0"
hex = "0.4"
log = "0.4"
structopt = "0.3.21"
'''


# crates that need stand-in dependencies: the demo brings them along (kit.tgz) and builds like wide/
WIDE_SH = '''#!/bin/bash
# exit 0: the property holds on this case; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
tar xzf "$here/kit.tgz" -C "$t" && mkdir -p "$t/demo/.cargo" && sed "s|@REPO@|$repo|g" "$here/main.rs" > "$t/demo/main.rs" || exit 3
sed "s|@REPO@|$repo|g" "$t/Cargo.toml.in" > "$t/demo/Cargo.toml"
mv "$t/Cargo.lock" "$t/demo/"
sed 's|"[^"]*target/vendor"|"../vendor"|' "$t/config.toml" > "$t/demo/.cargo/config.toml"
python3 "$t/vendor.py" "$t/standins" "$t/vendor" || exit 3
cd "$t/demo" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=allow
cargo build -q --offline || exit 4
timeout 120 "$t/target/debug/demo"
'''
WIDE_CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[profile.dev]
debug = 0
incremental = false
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
proof-systems = { path = "@REPO@/proof-systems-shim" }
mina-serialization-types = { path = "@REPO@/protocol/serialization-types" }
mina-crypto = { path = "@REPO@/crypto" }
mina-rs-base = { path = "@REPO@/base" }
mina-consensus = { path = "@REPO@/consensus" }
mina-merkle = { path = "@REPO@/merkle" }
mina-secrets = { path = "@REPO@/secrets" }
mina-ledger = { path = "@REPO@/ledger" }
bin-prot = { path = "@REPO@/protocol/bin-prot" }
versioned = { path = "@REPO@/protocol/versioned" }
ark-ff = "0.3"
bs58 = { version = "0.4", features = ["check"] }
serde_json = "1"
serde = "1"
anyhow = "1"
async-trait = "0.1"
log = "0.4"
rocksdb = "0.19"
tokio = { version = "1", features = ["macros", "sync"] }
'''


def kit(out):
    """stand-ins, vendoring tool and build configuration of wide/"""
    with tempfile.TemporaryDirectory() as d:
        shutil.copytree("/verif/standins", d + "/standins", ignore=shutil.ignore_patterns("target"))
        for a in ("/verif/tools/vendor.py", "/verif/wide/Cargo.lock", "/verif/wide/.cargo/config.toml"):
            shutil.copy(a, d)
        open(d + "/Cargo.toml.in", "w").write(WIDE_CARGO)
        sh(["tar", "czf", out, "-C", d, "standins", "vendor.py", "Cargo.lock", "config.toml", "Cargo.toml.in"])


# the web node and the tools around it: the demo is one more crate of a copy of wide/
APP_SH = r'''#!/bin/bash
# exit 0: the property holds on this case; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
tar xzf "$here/kit.tgz" -C "$t" && sed "s|@REPO@|$repo|g" "$here/main.rs" > "$t/wide/demo/main.rs" || exit 3
find "$t/wide" \( -name Cargo.toml -o -name build.rs \) -exec sed -i "s|@REPO@|$repo|g" {} +
(cd "$repo/network/src" && find . -name '*.rs') | while read f; do
  mkdir -p "$t/target/gen/network/src/$(dirname "$f")"
  sed 's/target_arch *= *"wasm32"/all()/g' "$repo/network/src/$f" > "$t/target/gen/network/src/$f"
done
python3 "$t/vendor.py" "$t/standins" "$t/target/vendor" || exit 3
cd "$t/wide" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$t/target/wide" CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=allow CARGO_PROFILE_DEV_DEBUG=0
cargo build -q --offline -p demo -p blocks-crawler || exit 4
cd "$t/wide/demo" && timeout 120 "$t/target/wide/debug/demo"
'''
APP_CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
mina-network = { path = "../mina-network" }
mina-network-native = { path = "../mina-network-native" }
mina-berkeley = { path = "../mina-berkeley" }
mina-rs-wasm-mvp = { path = "../mina-mvp" }
js-sys = "0.3"
libp2p = "0.44"
reqwest = "0.11"
serde_json = "1"
tokio = { version = "1", features = ["macros", "sync"] }
wasm-bindgen = "0.2"
'''
APP_HEAD = '''#![allow(dead_code, unused_imports)]
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use wasm_bindgen::{JsValue, Kind};

struct W(std::sync::atomic::AtomicBool);
impl std::task::Wake for W {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst)
    }
}
/// runs until it is done, or waits for ever (None)
fn run<F: Future>(f: F) -> Option<F::Output> {
    let w = std::sync::Arc::new(W(std::sync::atomic::AtomicBool::new(true)));
    let waker = std::task::Waker::from(w.clone());
    let mut f = Box::pin(f);
    for _ in 0..100_000 {
        if !w.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
            return None;
        }
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut std::task::Context::from_waker(&waker)) {
            return Some(x);
        }
    }
    None
}
fn call(name: &str, args: Vec<JsValue>) -> Option<Result<JsValue, JsValue>> {
    let f = wasm_bindgen::export(name).expect("exported");
    run(f(args))
}
fn link() {
    let _ = (mina_berkeley::js_exports::init_logger as usize, mina_rs_wasm_mvp::js_exports::init_logger as usize);
}
'''


def app_kit(out):
    with tempfile.TemporaryDirectory() as d:
        shutil.copytree("/verif/standins", d + "/standins", ignore=shutil.ignore_patterns("target"))
        shutil.copy("/verif/tools/vendor.py", d)
        os.makedirs(d + "/wide/demo")
        open(d + "/wide/demo/Cargo.toml", "w").write(APP_CARGO)
        own = ["mina-network", "mina-network-native", "mina-berkeley", "mina-mvp", "blocks-crawler"]
        for c in own:
            shutil.copytree("/verif/wide/" + c, d + "/wide/" + c)
        for c in own:
            for root, _, fs in os.walk(d + "/wide/" + c):
                for f in fs:
                    t = open(os.path.join(root, f)).read()
                    open(os.path.join(root, f), "w").write(t.replace("/repo/", "@REPO@/"))
        t = open("/verif/wide/Cargo.toml").read()
        open(d + "/wide/Cargo.toml", "w").write(re.sub(r"members = .*", "members = " + json.dumps(own + ["demo"]), t))
        shutil.copy("/verif/wide/Cargo.lock", d + "/wide")
        shutil.copytree("/verif/wide/.cargo", d + "/wide/.cargo")
        sh(["tar", "czf", out, "-C", d, "standins", "vendor.py", "wide"])


# a script for node
JS_SH = '''#!/bin/bash
# exit 0: the property holds on this case; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
timeout 120 node "$here/demo.js" "$PWD"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy_repo():
    os.makedirs(S, exist_ok=True)
    r = S + "/repo"
    if not os.path.isdir(r):
        sh(["git", "clone", "-q", "/repo", r])
    sh(["git", "-C", r, "fetch", "-q"])
    sh(["git", "-C", r, "reset", "-q", "--hard", sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()])
    return r


def tests(repo):
    ws = S + "/ws"
    os.makedirs(ws + "/apps", exist_ok=True)
    for a, b in (("protocol", "protocol"), ("apps/bin-prot-layout-reader", "apps/bin-prot-layout-reader")):
        if not os.path.islink(f"{ws}/{a}"):
            os.symlink(f"{repo}/{b}", f"{ws}/{a}")
    shutil.copy(repo + "/apps/Cargo.lock", ws + "/Cargo.lock")
    t = open(repo + "/Cargo.toml").read()
    m = '"protocol/bin-prot", "protocol/bin_prot_checker", "protocol/serialization-types-macros", "protocol/versioned", "apps/bin-prot-layout-reader"'
    open(ws + "/Cargo.toml", "w").write(re.sub(r"^members\s*=\s*\[[^\]]*\]", f"members = [{m}]", t, count=1, flags=re.M))
    e = dict(os.environ, RUSTUP_TOOLCHAIN="1.70.0", CARGO_TARGET_DIR=S + "/target", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_PROFILE_DEV_DEBUG="1")
    p = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cwd=ws, env=e)
    ok = len(re.findall(r"^test .* \.\.\. ok$", p.stdout, re.M))
    bad = re.findall(r"^test (.*) \.\.\. FAILED$", p.stdout, re.M)
    if "error: could not compile" in p.stdout or "error[E" in p.stdout:
        return 0, [p.stdout[-1500:]]
    return ok, bad


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = ns["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    repo = copy_repo()
    ok0, bad0 = tests(repo)
    print("clean:", ok0, bad0)
    for i in ids:
        b = bugs[i]
        repo = copy_repo()
        err = None
        for f, old, new in b["edits"]:
            p = f"{repo}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                err = f"{f}: {t.count(old)} matches of {old[:60]!r}"
                break
            open(p, "w").write(t.replace(old, new))
        if err:
            print(i, "EDIT", err)
            continue
        diff = sh(["git", "-C", repo, "diff"]).stdout
        # do we touch lines that our own commits added?
        for f, old, _ in b["edits"]:
            bl = sh(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f]).stdout
            base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()[:7]
        removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        own = []
        for f, _, _ in b["edits"]:
            for l in sh(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f]).stdout.splitlines():
                h, rest = l.split(")", 1)
                if not h.lstrip("^").startswith(base) and rest.strip() in removed and rest.strip():
                    own.append(rest.strip())
        okn, badn = tests(repo)
        if badn or okn < ok0:
            print(i, "TESTS", okn, badn)
            continue
        d = os.environ.get("SEEDED", "/verif/seeded") + "/" + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
        if b.get("wide"):
            kit(d + "/kit.tgz")
            open(d + "/main.rs", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(WIDE_SH)
        elif b.get("app"):
            app_kit(d + "/kit.tgz")
            open(d + "/main.rs", "w").write(APP_HEAD + b["demo"])
            open(d + "/demo.sh", "w").write(APP_SH)
        elif b.get("js"):
            open(d + "/demo.js", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(JS_SH)
        else:
            os.makedirs(d + "/demo")
            open(d + "/demo/main.rs", "w").write(b["demo"])
            open(d + "/demo/Cargo.toml.in", "w").write(CARGO % b.get("bins", ""))
            shutil.copy("/opt/vp/ws/Cargo.lock" if os.path.exists("/opt/vp/ws/Cargo.lock") else "/repo/apps/Cargo.lock", d + "/demo/Cargo.lock")
            open(d + "/demo.sh", "w").write(DEMO_SH % 'timeout 120 "$CARGO_TARGET_DIR/debug/demo"')
        os.chmod(d + "/demo.sh", 0o755)
        x = sh(["bash", d + "/demo.sh"], cwd=repo)
        repo = copy_repo()
        y = sh(["bash", d + "/demo.sh"], cwd=repo)
        good = x.returncode != 0 and x.returncode not in (3, 4) and y.returncode == 0
        print(i, "CONFIRMED" if good else "DEMO?", "with:", x.returncode, "without:", y.returncode, ("own lines: %s" % own) if own else "")
        if not good:
            print(x.stdout[-1200:], "\n--clean--\n", y.stdout[-1200:])
            shutil.rmtree(d)


main()
