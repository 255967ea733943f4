"""C16: programs with random pairs of convertible types are generated, compiled with the derive macro and run.

A pair is a source type carrying the derive and one to three target types with the same fields. Each program holds many
pairs; each pair checks itself at run time on random values, both directions, bare and in one to four version wrappers,
against the conversion written out by hand by this generator (field by field, by name)."""
import concurrent.futures, copy, json, os, random, re, subprocess, time

PRELUDE = r'''#![allow(dead_code, unused_imports, unused_mut, unused_variables, non_camel_case_types, clippy::all)]
use mina_serialization_types_macros::AutoFrom;
use versioned::Versioned;
pub struct R(u64);
impl R {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn i64(&mut self) -> i64 { let k = self.below(64); (self.next() >> k) as i64 }
    pub fn u8(&mut self) -> u8 { self.next() as u8 }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn string(&mut self) -> String { let n = self.below(6); (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect() }
}
macro_rules! nt { ($($n:ident $t:ty),*) => { $(
    #[derive(Debug, Clone, PartialEq)] pub struct $n(pub $t);
    impl From<$t> for $n { fn from(x: $t) -> Self { $n(x) } }
    impl From<$n> for $t { fn from(x: $n) -> Self { x.0 } }
)* } }
nt!(I64 i64, Str String, VecLike i64, OptionLike i64, Boxed i64, Flag bool);
pub mod types {
    nt2!();
}
#[derive(Debug, Clone, PartialEq)] pub struct Wrap<T>(pub T);
#[derive(Debug, Clone, PartialEq)] pub struct Wrap2<T>(pub T);
impl<T> From<Wrap<T>> for Wrap2<T> { fn from(x: Wrap<T>) -> Self { Wrap2(x.0) } }
impl<T> From<Wrap2<T>> for Wrap<T> { fn from(x: Wrap2<T>) -> Self { Wrap(x.0) } }
'''.replace('pub mod types {\n    nt2!();\n}\n', '''pub mod types {
    #[derive(Debug, Clone, PartialEq)] pub struct Big(pub i64);
    impl From<i64> for Big { fn from(x: i64) -> Self { Big(x) } }
    impl From<Big> for i64 { fn from(x: Big) -> Self { x.0 } }
}
''')

# name: (source type, target type, generator, source expr, target expr) with x the generated value
BASES = {
    "id_i64": ("i64", "i64", "r.i64()", "x.clone()", "x.clone()"),
    "i64_nt": ("i64", "I64", "r.i64()", "x.clone()", "I64(x.clone())"),
    "nt_i64": ("I64", "i64", "r.i64()", "I64(x.clone())", "x.clone()"),
    "i64_path": ("i64", "types::Big", "r.i64()", "x.clone()", "types::Big(x.clone())"),
    "path_i64": ("types::Big", "i64", "r.i64()", "types::Big(x.clone())", "x.clone()"),
    "i64_veclike": ("i64", "VecLike", "r.i64()", "x.clone()", "VecLike(x.clone())"),
    "veclike_i64": ("VecLike", "i64", "r.i64()", "VecLike(x.clone())", "x.clone()"),
    "optlike_i64": ("OptionLike", "i64", "r.i64()", "OptionLike(x.clone())", "x.clone()"),
    "boxed_i64": ("Boxed", "i64", "r.i64()", "Boxed(x.clone())", "x.clone()"),
    "str_id": ("String", "String", "r.string()", "x.clone()", "x.clone()"),
    "str_nt": ("String", "Str", "r.string()", "x.clone()", "Str(x.clone())"),
    "u8_id": ("u8", "u8", "r.u8()", "x.clone()", "x.clone()"),
    "bool_id": ("bool", "bool", "r.bool()", "x.clone()", "x.clone()"),
    "flag": ("bool", "Flag", "r.bool()", "x.clone()", "Flag(x.clone())"),
    "arr_id": ("[i64; 3]", "[i64; 3]", "[r.i64(), r.i64(), r.i64()]", "x.clone()", "x.clone()"),
    "tup_id": ("(i64, u8)", "(i64, u8)", "(r.i64(), r.u8())", "x.clone()", "x.clone()"),
    "wrap_vec": ("Wrap<Vec<i64>>", "Wrap2<Vec<i64>>", "vec![r.i64(), r.i64()]", "Wrap(x.clone())", "Wrap2(x.clone())"),
    "wrap_opt": ("Wrap2<Option<i64>>", "Wrap<Option<i64>>", "if r.bool() { Some(r.i64()) } else { None }", "Wrap2(x.clone())", "Wrap(x.clone())"),
}
WRAPS = {  # spelling of the container
    "plain": ["{}"],
    "vec": ["Vec<{}>", "std::vec::Vec<{}>", "::std::vec::Vec<{}>"],
    "opt": ["Option<{}>", "std::option::Option<{}>"],
    "box": ["Box<{}>", "std::boxed::Box<{}>"],
}
NAMES = ["f1", "f2", "f3", "a", "b", "item", "t", "v0", "v1", "v2", "version", "r#type", "r#match", "state", "other", "value", "x_", "hash"]
VNAMES = ["V1", "V2", "V3", "A", "B", "C", "Other", "None_", "Vec_", "Item", "Unit", "Pair"]


def gen_field(rng, earlier):
    k = rng.random()
    if earlier and k < 0.2:
        j = rng.choice(earlier)
        base = dict(pair=j["id"], target=rng.randrange(len(j["targets"])), versions=[rng.randrange(1, 9) for _ in range(rng.choice([0, 0, 1, 2, 3]))])
    else:
        base = rng.choice(list(BASES))
    wrap = rng.choice(["plain", "plain", "vec", "opt", "box"])
    return dict(base=base, wrap=wrap, sp=rng.randrange(3), tp=rng.randrange(3))


def gen_fields(rng, earlier, lo=1):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 11, 12]) if lo else rng.choice([0, 1, 2, 3])
    return [gen_field(rng, earlier) for _ in range(n)]


def gen_pair(rng, i, earlier):
    kind = rng.choice(["named", "unnamed", "enum", "enum"])
    p = dict(id=i, kind=kind, targets=[dict(style=rng.choice(["plain", "plain", "inner", "crate"]), seed=rng.randrange(1 << 30), versions=[rng.choice([1, 1, 2, 3, 7, 255, 256, 65535, rng.randrange(65536)]) for _ in range(4)]) for _ in range(rng.choice([1, 1, 1, 2, 3]))], noise=rng.randrange(4))
    if kind == "named":
        fs = gen_fields(rng, earlier)
        p["fields"] = list(zip(rng.sample(NAMES, len(fs)), fs))
    elif kind == "unnamed":
        p["fields"] = [(str(n), f) for n, f in enumerate(gen_fields(rng, earlier))]
    else:
        vs = []
        for name in rng.sample(VNAMES, rng.choice([1, 2, 3, 3, 4, 6, 9])):
            vk = rng.choice(["unit", "tuple", "struct", "tuple", "struct"])
            if vk == "unit":
                vs.append((name, vk, []))
            elif vk == "tuple":
                vs.append((name, vk, [(str(n), f) for n, f in enumerate(gen_fields(rng, earlier))]))
            else:
                fs = gen_fields(rng, earlier)
                vs.append((name, vk, list(zip(rng.sample(NAMES, len(fs)), fs))))
        p["variants"] = vs
    return p


def ver(t, vs):
    for v in vs:
        t = f"::versioned::Versioned<{t}, {v}>"
    return t


def base_of(b, pairs):
    """-> (source type, target type, generator, source expr, target expr)"""
    if isinstance(b, str):
        return BASES[b]
    j = pairs[b["pair"]]
    tgt = f"super::p{j['id']}::{tpath(j, b['target'])}"
    e = f"x.1.{b['target']}.clone()"
    ty = tgt
    for v in b["versions"]:
        e = f"::versioned::Versioned::<{ty}, {v}> {{ version: {v}, t: {e} }}"
        ty = f"::versioned::Versioned<{ty}, {v}>"
    return (f"super::p{j['id']}::Foo", ty, f"super::p{j['id']}::gen(r)", "x.0.clone()", e)


def tpath(p, n):
    return {"plain": f"Bar{n}", "inner": f"inner{n}::Bar{n}", "crate": f"inner{n}::Bar{n}"}[p["targets"][n]["style"]]


def types(f, pairs, side):
    s, t, *_ = base_of(f["base"], pairs)
    w = WRAPS[f["wrap"]]
    return w[f["sp"] % len(w)].format(s) if side == "src" else w[f["tp"] % len(w)].format(t)


def bind(f, n, pairs):
    """statements producing (s<n>, t<n>) generators: a Vec of raw values"""
    _, _, g, se, te = base_of(f["base"], pairs)
    w = f["wrap"]
    if w == "plain":
        return f"let x = {g}; let xs{n} = x;", lambda e: "{ let x = &xs%d; %s }" % (n, e), se, te
    if w == "vec":
        return f"let k = if r.below(24) == 0 {{ r.below(90) }} else {{ r.below(4) }}; let xs{n}: Vec<_> = (0..k).map(|_| {g}).collect();", lambda e: "xs%d.iter().map(|x| %s).collect()" % (n, e), se, te
    if w == "opt":
        return f"let xs{n} = if r.below(3) > 0 {{ Some({g}) }} else {{ None }};", lambda e: "xs%d.as_ref().map(|x| %s)" % (n, e), se, te
    return f"let xs{n} = Box::new({g});", lambda e: "{ let x = &*xs%d; Box::new(%s) }" % (n, e), se, te


def body(kind, fields, pairs, side, order=None):
    order = order if order is not None else range(len(fields))
    out = []
    for i in order:
        name, f = fields[i]
        _, wrapf, se, te = bind(f, i, pairs)
        e = wrapf(se if side == "src" else te)
        out.append(e if kind == "tuple" else f"{name}: {e}")
    return out


def decl(kind, fields, pairs, side, vis="", order=None):
    order = order if order is not None else range(len(fields))
    if kind == "tuple":
        return "(" + ", ".join(vis + types(f, pairs, side) for _, f in fields) + ")"
    return " { " + ", ".join(f"{vis}{fields[i][0]}: {types(fields[i][1], pairs, side)}" for i in order) + " }"


def render_pair(p, pairs):
    o = [f"pub mod p{p['id']} {{", "use super::*;"]
    kind = p["kind"]
    shape = "tuple" if kind == "unnamed" else "struct"
    attrs = []
    for n, t in enumerate(p["targets"]):
        path = tpath(p, n)
        if t["style"] == "crate":
            path = f"crate::p{p['id']}::{path}"
        attrs.append(f"#[auto_from({path})]")
    noise = ["", "#[allow(missing_docs)]", "/// doc\n", "/** doc */ #[allow(dead_code)]"][p["noise"]]
    if noise:
        attrs.insert(p["noise"] % (len(attrs) + 1), noise)
    o.append("#[derive(Debug, Clone, PartialEq, AutoFrom)] " + " ".join(attrs))
    if kind == "enum":
        o.append("pub enum Foo { " + ", ".join(n + ("" if k == "unit" else decl(k, fs, pairs, "src")) for n, k, fs in p["variants"]) + " }")
    else:
        d = decl(shape, p["fields"], pairs, "src", "pub ")
        o.append("pub struct Foo" + d + (";" if shape == "tuple" else ""))
    for n, t in enumerate(p["targets"]):
        rng = random.Random(t["seed"])
        if kind == "enum":
            vs = list(p["variants"])
            rng.shuffle(vs)
            parts = []
            for vn, k, fs in vs:
                order = list(range(len(fs)))
                if k == "struct":
                    rng.shuffle(order)
                parts.append(vn + ("" if k == "unit" else decl(k, fs, pairs, "tgt", order=order)))
            d = f"#[derive(Debug, Clone, PartialEq)] pub enum Bar{n} {{ {', '.join(parts)} }}"
        else:
            order = list(range(len(p["fields"])))
            if shape == "struct":
                rng.shuffle(order)
            d = f"#[derive(Debug, Clone, PartialEq)] pub struct Bar{n}{decl(shape, p['fields'], pairs, 'tgt', 'pub ', order)}" + (";" if shape == "tuple" else "")
        if t["style"] != "plain":
            d = f"pub mod inner{n} {{ use super::super::*; {d.replace('super::p', 'crate::p')} }}"
        o.append(d)
    # the hand-written conversion: both sides built from the same raw values
    tup = ", ".join(tpath(p, n) for n in range(len(p["targets"])))
    o.append(f"pub fn gen(r: &mut R) -> (Foo, ({tup},)) {{")

    def build(head_s, head_t, k, fields):
        sep = ("(", ")") if k == "tuple" else (" { ", " }")
        st = " ".join(bind(f, i, pairs)[0] for i, (_, f) in enumerate(fields))
        s = head_s + ("" if k == "unit" else sep[0] + ", ".join(body(k, fields, pairs, "src")) + sep[1])
        ts = ", ".join(h + ("" if k == "unit" else sep[0] + ", ".join(body(k, fields, pairs, "tgt")) + sep[1]) for h in head_t)
        return f"{{ {st} ({s}, ({ts},)) }}"

    heads = [tpath(p, n) for n in range(len(p["targets"]))]
    if kind == "enum":
        arms = [f"{i} => {build('Foo::' + vn, [h + '::' + vn for h in heads], k, fs)}" for i, (vn, k, fs) in enumerate(p["variants"])]
        arms[-1] = "_" + arms[-1][arms[-1].index(" =>"):]
        o.append(f"match r.below({len(arms)}) {{ {', '.join(arms)} }}")
    else:
        o.append(build("Foo", heads, shape, p["fields"]))
    o.append("}")
    o.append("pub fn check(r: &mut R) -> Result<(), String> {\nlet (foo, bars) = gen(r);")
    o.append('macro_rules! same { ($a:expr, $b:expr, $w:expr) => { if $a != $b { return Err(format!("{}: got {:?}, expected {:?}", $w, $a, $b)) } } }')
    for n, t in enumerate(p["targets"]):
        ty = tpath(p, n)
        o.append(f"let bar: {ty} = foo.clone().into(); same!(bar, bars.{n}, \"to target {n}\");")
        o.append(f"let back: Foo = bars.{n}.clone().into(); same!(back, foo, \"from target {n}\");")
        expr, cur, dots = f"bars.{n}.clone()", ty, ""
        for lv, v in enumerate(t["versions"]):
            expr = f"Versioned::<{cur}, {v}> {{ version: {v}, t: {expr} }}"
            cur = f"Versioned<{cur}, {v}>"
            o.append(f"let w: {cur} = foo.clone().into(); let e: {cur} = {expr}; same!(w, e, \"to target {n} in {lv + 1} wrappers\");")
            o.append(f"let back: Foo = e.into(); same!(back, foo, \"from target {n} in {lv + 1} wrappers\");")
    o.append("Ok(())\n}\n}")
    return "\n".join(o)


def closure(ids, pairs):
    todo, seen = list(ids), set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        p = pairs[i]
        for fs in ([p["fields"]] if p["kind"] != "enum" else [v[2] for v in p["variants"]]):
            for _, f in fs:
                if isinstance(f["base"], dict):
                    todo.append(f["base"]["pair"])
    return sorted(seen)


def render(ids, pairs, seed, iters):
    src = PRELUDE
    lines = {}
    for i in closure(ids, pairs):
        a = src.count("\n") + 1
        src += render_pair(pairs[i], pairs) + "\n"
        for l in range(a, src.count("\n") + 1):
            lines[l] = i
    src += "fn main() {\n"
    for i in ids:
        src += f"    {{ let mut r = R({(seed * 1000003 + i) % 2**64}); for k in 0..{iters} {{ let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p{i}::check(&mut r))); match x {{ Ok(Ok(())) => {{}} Ok(Err(e)) => {{ println!(\"FAIL {i} {{e}}\"); break }} Err(_) => {{ println!(\"FAIL {i} panicked\"); break }} }} }} }}\n"
    src += '    println!("END");\n}\n'
    return src, lines


class Builder:
    def __init__(self, externs, deps, scratch, env):
        self.externs, self.deps, self.scratch, self.env = externs, deps, scratch, env
        self.n = 0

    def run(self, src, tag, timeout=300):
        """-> ("ok", text) | ("compile", json diagnostics) | ("run", text)"""
        f = os.path.join(self.scratch, f"{tag}.rs")
        exe = os.path.join(self.scratch, tag + ".exe")
        open(f, "w").write(src)
        cmd = ["rustc", "--edition", "2021", "-C", "debuginfo=0", "-C", "opt-level=0", "--error-format=json", "-A", "warnings", "-L", f"dependency={self.deps}"]
        for k, v in self.externs.items():
            cmd += ["--extern", f"{k}={v}"]
        p = subprocess.run(cmd + ["-o", exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=self.env, timeout=timeout, cwd=self.scratch)
        if p.returncode != 0:
            return "compile", p.stderr
        q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=self.env)
        os.unlink(exe)
        if q.returncode != 0 or not q.stdout.rstrip().endswith("END"):
            return "run", q.stdout + f"\nFAIL -1 the program ended with status {q.returncode}: {q.stderr[-300:]}"
        return ("run" if "FAIL" in q.stdout else "ok"), q.stdout


def diag(err):
    lines, msgs = [], []
    for l in err.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        msgs.append(d["message"])
        for s in d.get("spans", []):
            if s.get("is_primary"):
                lines.append(s["line_start"])
            e = s.get("expansion")
            while e:
                lines.append(e["span"]["line_start"])
                e = e["span"].get("expansion")
    return lines, msgs


def simpler(p):
    """smaller variants of a pair"""
    if len(p["targets"]) > 1:
        for i in range(len(p["targets"])):
            q = copy.deepcopy(p)
            del q["targets"][i]
            yield q
    if p["noise"]:
        q = copy.deepcopy(p)
        q["noise"] = 0
        yield q

    def each(fields, keep):
        for i in range(len(fields)):
            if len(fields) > keep:
                x = copy.deepcopy(fields)
                del x[i]
                yield x
        for i in range(len(fields)):
            f = fields[i][1]
            if f["base"] != "id_i64":
                x = copy.deepcopy(fields)
                x[i][1]["base"] = "id_i64"
                yield x
            if f["wrap"] != "plain":
                x = copy.deepcopy(fields)
                x[i][1]["wrap"] = "plain"
                yield x

    def renum(k, fs):
        return [(str(i), f) for i, (_, f) in enumerate(fs)] if k == "tuple" else fs

    if p["kind"] == "enum":
        if len(p["variants"]) > 1:
            for i in range(len(p["variants"])):
                q = copy.deepcopy(p)
                del q["variants"][i]
                yield q
        for i, (n, k, fs) in enumerate(p["variants"]):
            for x in each(fs, 1):
                q = copy.deepcopy(p)
                q["variants"][i] = (n, k, renum(k, x))
                yield q
    else:
        for x in each(p["fields"], 1):
            q = copy.deepcopy(p)
            q["fields"] = renum("tuple" if p["kind"] == "unnamed" else "struct", x)
            yield q
    for i, t in enumerate(p["targets"]):
        if t["style"] != "plain":
            q = copy.deepcopy(p)
            q["targets"][i]["style"] = "plain"
            yield q


def search(b, seed, batches, per_batch, iters, threads, budget, log):
    """-> dict(evaluations, distinct, samples, labels, failure)"""
    rng = random.Random(seed)
    jobs = []
    base = 0
    for _ in range(batches):
        pairs = {}
        for i in range(per_batch):
            # nothing nests into a pair which others of its target would have to follow too
            earlier = [pairs[j] for j in pairs if j >= base + i - 12 and depth(pairs[j], pairs) < 2]
            p = gen_pair(rng, base + i, earlier)
            pairs[p["id"]] = p
        jobs.append(pairs)
        base += per_batch
    labels, samples, shapes = {}, [], set()
    evals = 0
    fail = None
    for pairs in jobs:
        for p in pairs.values():
            k = p["kind"]
            labels[k] = labels.get(k, 0) + 1
            if len(p["targets"]) > 1:
                labels["several targets"] = labels.get("several targets", 0) + 1
            shapes.add(json.dumps([p["kind"], p.get("fields"), p.get("variants")], sort_keys=True))
    samples = [render_pair(jobs[0][i], jobs[0]).split("pub fn gen")[0][:900] for i in list(jobs[0])[:2]]
    with concurrent.futures.ThreadPoolExecutor(threads) as ex:
        futs = []
        for n, pairs in enumerate(jobs):
            src, lines = render(list(pairs), pairs, seed, iters)
            futs.append((n, pairs, lines, ex.submit(b.run, src, f"b{n}")))
        for n, pairs, lines, fu in futs:
            st, text = fu.result()
            evals += len(pairs)
            if st == "ok" or fail:
                continue
            fail = (n, pairs, lines, st, text)
    res = dict(evaluations=evals, values=evals * iters, distinct=len(shapes), samples=samples, labels=labels, failure=None)
    if not fail:
        return res
    n, pairs, lines, st, text = fail
    if st == "compile":
        ls, msgs = diag(text)
        cand = []
        for l in ls:
            if l in lines and lines[l] not in cand:
                cand.append(lines[l])
        if not cand:
            res["broken"] = msgs[:5]
            return res
    else:
        cand = [int(x) for x in re.findall(r"^FAIL (-?\d+)", text, re.M)]
        if cand == [-1]:
            cand = list(pairs)
    end = time.time() + budget
    for i in cand[:40]:
        if i < 0:
            continue
        src, _ = render([i], pairs, seed, iters)
        s2, t2 = b.run(src, "one")
        if s2 == "ok":
            continue
        # shrink
        cur = dict(pairs)
        again = True
        while again and time.time() < end:
            again = False
            for q in simpler(cur[i]):
                if time.time() > end:
                    break
                c = dict(cur)
                c[i] = q
                src3, _ = render([i], c, seed, iters)
                s3, t3 = b.run(src3, "one")
                if s3 == s2:
                    cur, t2, again = c, t3, True
                    break
        src, _ = render([i], cur, seed, iters)
        msg = ("the derived code does not compile: " + "; ".join(diag(t2)[1][:3])) if s2 == "compile" else re.sub(r"^FAIL -?\d+ ", "", t2.strip().splitlines()[0])
        res["failure"] = dict(message=msg + "\n" + "\n\n".join(render_pair(cur[j], cur).split("pub fn gen")[0] for j in closure([i], cur)), program=src, outcome=s2)
        return res
    res["broken"] = [text[-800:]]
    return res


def depth(p, pairs):
    d = 0
    for fs in ([p["fields"]] if p["kind"] != "enum" else [v[2] for v in p["variants"]]):
        for _, f in fs:
            if isinstance(f["base"], dict):
                d = max(d, 1 + depth(pairs[f["base"]["pair"]], pairs))
    return d
