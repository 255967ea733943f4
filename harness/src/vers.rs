//! C15: version wrappers.
use crate::core::*;
use crate::io::*;
use crate::model::*;
use crate::zoo::Key;
use crate::{ensure, fail};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use versioned::Versioned;

/// a payload type with a generator and the reference encoding
trait Payload: Serialize + DeserializeOwned + Clone + PartialEq + std::fmt::Debug + Default {
    fn gen(s: &mut Src) -> (Self, Vec<u8>);
}
impl Payload for i64 {
    fn gen(s: &mut Src) -> (Self, Vec<u8>) {
        let n = s.int(i64::MIN as i128, i64::MAX as i128) as i64;
        let mut o = vec![];
        enc_int(n, &mut o);
        (n, o)
    }
}
impl Payload for u16 {
    fn gen(s: &mut Src) -> (Self, Vec<u8>) {
        let n = s.int(0, 65535) as u16;
        let mut o = vec![];
        enc_int(n as i64, &mut o);
        (n, o)
    }
}
impl Payload for () {
    fn gen(_: &mut Src) -> (Self, Vec<u8>) {
        ((), vec![0])
    }
}
impl Payload for String {
    fn gen(s: &mut Src) -> (Self, Vec<u8>) {
        let mut b = 40;
        let x = gen_string(s, &mut b);
        let mut o = vec![];
        enc_nat0(x.len() as u64, &mut o);
        o.extend(x.as_bytes());
        (x, o)
    }
}
impl Payload for Vec<Option<u8>> {
    fn gen(s: &mut Src) -> (Self, Vec<u8>) {
        let n = s.below(6);
        let mut o = vec![];
        enc_nat0(n, &mut o);
        let v = (0..n)
            .map(|_| {
                if s.bool() {
                    let b = s.byte();
                    o.extend([1, b]);
                    Some(b)
                } else {
                    o.push(0);
                    None
                }
            })
            .collect();
        (v, o)
    }
}

macro_rules! check_all {
    ($s:expr, $c:expr, $t:ty, $($w:ty => [$($v:expr),*]);* $(;)?) => {{
        let s: &mut Src = $s;
        let (x, xb) = <$t as Payload>::gen(s);
        $( {
            type W = $w;
            let vs: Vec<u16> = vec![$($v),*];
            let mut want = vec![];
            for v in &vs { enc_int(*v as i64, &mut want) }
            want.extend(&xb);
            let w: W = guard(|| W::from(x.clone()))?;
            ensure!(w.version() == vs[0], "{} made from {x:?} says version {}", stringify!($w), w.version());
            let mut o = vec![];
            if let Err(e) = guard(|| bin_prot::to_writer(&mut o, &w))? { fail!("encoding {w:?}: {e}") }
            ensure!(o == want, "{} of {x:?} written as {}, should be {}", stringify!($w), hex(&o), hex(&want));
            match guard(|| bin_prot::from_reader_strict::<_, W>(ChunkReader::gen(s, want.clone())))? {
                Ok(y) => {
                    ensure!(y == w, "{} came back as {y:?} instead of {w:?}", stringify!($w));
                    ensure!(y.version() == vs[0], "decoded {y:?} says version {}", y.version());
                    let (z,): ($t,) = guard(|| y.into())?;
                    ensure!(z == x, "{x:?} wrapped, encoded, decoded and unwrapped as {z:?}");
                }
                Err(e) => fail!("decoding {} as {}: {e}", hex(&want), stringify!($w)),
            }
            let (z,): ($t,) = guard(|| w.clone().into())?;
            ensure!(z == x, "{x:?} wrapped and unwrapped as {z:?}");
            let d: W = guard(|| W::default())?;
            ensure!(d.version() == vs[0], "default of {} says version {}", stringify!($w), d.version());
            let mut o = vec![];
            if let Err(e) = guard(|| bin_prot::to_writer(&mut o, &d))? { fail!("encoding {d:?}: {e}") }
            let mut head = vec![];
            for v in &vs { enc_int(*v as i64, &mut head) }
            ensure!(o.starts_with(&head), "default of {} written as {}", stringify!($w), hex(&o));
            let (z,): ($t,) = guard(|| d.into())?;
            ensure!(z == <$t>::default(), "default of {} holds {z:?}", stringify!($w));
        } )*
        $c.case(hash_of(&(stringify!($t), &xb)), xb.len() > 1);
        $c.sample(|| format!("{x:?} of {} in every wrapper", stringify!($t)));
    }};
}
macro_rules! levels {
    ($s:expr, $c:expr, $t:ty) => {
        check_all!($s, $c, $t,
            Versioned<$t, 0> => [0];
            Versioned<$t, 1> => [1];
            Versioned<$t, 2> => [2];
            Versioned<$t, 127> => [127];
            Versioned<$t, 128> => [128];
            Versioned<$t, 255> => [255];
            Versioned<$t, 256> => [256];
            Versioned<$t, 32767> => [32767];
            Versioned<$t, 32768> => [32768];
            Versioned<$t, 65535> => [65535];
            Versioned<Versioned<$t, 1>, 2> => [2, 1];
            Versioned<Versioned<$t, 1>, 1> => [1, 1];
            Versioned<Versioned<$t, 40000>, 300> => [300, 40000];
            Versioned<Versioned<Versioned<$t, 1>, 2>, 3> => [3, 2, 1];
            Versioned<Versioned<Versioned<$t, 7>, 7>, 200> => [200, 7, 7];
            Versioned<Versioned<Versioned<Versioned<$t, 1>, 2>, 3>, 4> => [4, 3, 2, 1];
            Versioned<Versioned<Versioned<Versioned<$t, 128>, 0>, 65535>, 9> => [9, 65535, 0, 128];
        )
    };
}
fn c15_wrap(s: &mut Src, c: &mut Ctx) -> Res {
    match s.below(5) {
        0 => levels!(s, c, i64),
        1 => levels!(s, c, u16),
        2 => levels!(s, c, ()),
        3 => levels!(s, c, String),
        _ => levels!(s, c, Vec<Option<u8>>),
    }
    Ok(())
}
/// one level: new, inner, and what the wire says about the version
fn c15_wire(s: &mut Src, c: &mut Ctx) -> Res {
    type W = Versioned<String, 5>;
    let (x, xb) = String::gen(s);
    let n = s.int(i64::MIN as i128, i64::MAX as i128) as i64;
    let n = if s.bool() { n.rem_euclid(65536) } else { n };
    let mut b = vec![];
    enc_int(n, &mut b);
    b.extend(&xb);
    c.label(if (0..65536).contains(&n) { "a version number" } else { "not a version number" });
    c.case(hash_of(&b), n != 5);
    c.sample(|| format!("version {n} payload {x:?}"));
    ensure!(guard(|| W::new(x.clone()).inner())? == x, "inner of new changed {x:?}");
    ensure!(guard(|| W::new(x.clone()).version())? == 5, "new has another version");
    match guard(|| bin_prot::from_reader::<_, W>(&b[..]))? {
        Ok(w) => {
            ensure!((0..65536).contains(&n), "version {n} does not fit but {} was decoded", w.version());
            ensure!(w.version() as i64 == n, "the wire says version {n}, the value {}", w.version());
            ensure!(w.t == x, "payload {x:?} came back as {:?}", w.t);
            let mut o = vec![];
            if let Err(e) = guard(|| bin_prot::to_writer(&mut o, &w))? {
                fail!("{e}")
            }
            ensure!(o == b, "version {n} {x:?} re-encodes as {}", hex(&o));
        }
        Err(e) => ensure!(!(0..65536).contains(&n), "version {n} payload {x:?} was rejected: {e}"),
    }
    Ok(())
}

// the conversion macros, used as the serialization types use them
#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
struct Plain {
    a: i64,
    b: String,
}
versioned::impl_from_versioned!(Plain);

#[derive(Clone, Debug, PartialEq)]
struct New(i64);
type NewV1 = Versioned<Versioned<i64, 1>, 3>;
versioned::impl_from_for_newtype!(New, NewV1);

#[derive(Clone, Debug, PartialEq)]
struct Json {
    a: String,
    b: String,
}
#[derive(Clone, Debug, PartialEq)]
struct Native {
    a: i64,
    b: String,
}
type PlainV1 = Versioned<Plain, 9>;
impl From<Native> for PlainV1 {
    fn from(n: Native) -> Self {
        Versioned::new(Plain { a: n.a, b: n.b })
    }
}
impl From<PlainV1> for Native {
    fn from(n: PlainV1) -> Self {
        Native { a: n.t.a, b: n.t.b }
    }
}
impl From<PlainV1> for Json {
    fn from(n: PlainV1) -> Self {
        Json { a: n.t.a.to_string(), b: n.t.b }
    }
}
impl From<Json> for PlainV1 {
    fn from(n: Json) -> Self {
        Versioned::new(Plain { a: n.a.parse().unwrap(), b: n.b })
    }
}
versioned::impl_from_with_proxy!(Native, PlainV1, Json);

// original -> intermediate -> versioned
#[derive(Clone, Debug, PartialEq)]
struct Orig(Key, i64);
#[derive(Clone, Debug, PartialEq)]
struct Mid {
    k: Key,
    n: i64,
}
impl From<Orig> for Mid {
    fn from(o: Orig) -> Self {
        Mid { k: o.0, n: o.1 }
    }
}
impl From<Mid> for Orig {
    fn from(o: Mid) -> Self {
        Orig(o.k, o.n)
    }
}
type MidV1 = Versioned<Versioned<Mid, 2>, 6>;
versioned::impl_from_for_versioned_with_proxy!(Orig, Mid, MidV1);

#[derive(Clone, Debug, PartialEq)]
struct Boxed<T>(Vec<T>);
impl From<Mid> for Boxed<Mid> {
    fn from(m: Mid) -> Self {
        Boxed(vec![m])
    }
}
impl From<Boxed<Mid>> for (Mid,) {
    fn from(m: Boxed<Mid>) -> Self {
        (m.0[0].clone(),)
    }
}
versioned::impl_from_for_generic_with_proxy!(Orig, Mid, Boxed<Mid>);

fn c15_macros(s: &mut Src, c: &mut Ctx) -> Res {
    let (a, _) = i64::gen(s);
    let (b, _) = String::gen(s);
    c.case(hash_of(&(a, &b)), true);
    c.sample(|| format!("a {a} b {b:?} through the conversion macros"));
    let p = Plain { a, b: b.clone() };
    let v: Versioned<Plain, 4> = p.clone().into();
    ensure!(Plain::from(v) == p, "impl_from_versioned changed {p:?}");
    let v: Versioned<Versioned<Plain, 300>, 4> = p.clone().into();
    ensure!(v.version() == 4 && v.t.version() == 300, "versions of {v:?}");
    ensure!(Plain::from(v) == p, "impl_from_versioned (two levels) changed {p:?}");
    let v: NewV1 = New(a).into();
    ensure!(v.version() == 3 && v.t.version() == 1 && v.t.t == a, "impl_from_for_newtype made {v:?} of {a}");
    ensure!(New::from(v) == New(a), "impl_from_for_newtype changed {a}");
    let n = Native { a, b: b.clone() };
    let j: Json = n.clone().into();
    ensure!(j == Json { a: a.to_string(), b: b.clone() }, "impl_from_with_proxy made {j:?}");
    ensure!(Native::from(j) == n, "impl_from_with_proxy changed {n:?}");
    let o = Orig(Key([a as u8, (a >> 8) as u8, 3, 4], a % 2 == 0), a);
    let m: MidV1 = o.clone().into();
    ensure!(m.version() == 6 && m.t.version() == 2 && m.t.t == Mid { k: o.0.clone(), n: a }, "impl_from_for_versioned_with_proxy made {m:?}");
    ensure!(Orig::from(m) == o, "impl_from_for_versioned_with_proxy changed {o:?}");
    let g: Boxed<Mid> = o.clone().into();
    ensure!(g.0 == vec![Mid { k: o.0.clone(), n: a }], "impl_from_for_generic_with_proxy made {g:?}");
    ensure!(Orig::from(g) == o, "impl_from_for_generic_with_proxy changed {o:?}");
    Ok(())
}

/// versioned payloads inside other types
fn c15_inside(s: &mut Src, c: &mut Ctx) -> Res {
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    struct Rec {
        a: Versioned<Vec<Versioned<u16, 1>>, 7>,
        b: Option<Versioned<Plain, 130>>,
        e: Versioned<E, 2>,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    enum E {
        A(Versioned<i64, 1>),
        B { x: Versioned<(), 0> },
    }
    let mut o = vec![];
    enc_int(7, &mut o);
    let n = s.below(5);
    enc_nat0(n, &mut o);
    let a: Vec<Versioned<u16, 1>> = (0..n)
        .map(|_| {
            let (x, b) = u16::gen(s);
            enc_int(1, &mut o);
            o.extend(b);
            Versioned::new(x)
        })
        .collect();
    let b = if s.bool() {
        o.push(1);
        enc_int(130, &mut o);
        let (x, xb) = i64::gen(s);
        let (y, yb) = String::gen(s);
        o.extend(xb);
        o.extend(yb);
        Some(Versioned::new(Plain { a: x, b: y }))
    } else {
        o.push(0);
        None
    };
    enc_int(2, &mut o);
    let e = if s.bool() {
        let (x, xb) = i64::gen(s);
        o.push(0);
        enc_int(1, &mut o);
        o.extend(xb);
        E::A(Versioned::new(x))
    } else {
        o.extend([1, 0, 0]);
        E::B { x: Versioned::new(()) }
    };
    let r = Rec { a: Versioned::new(a), b, e: Versioned::new(e) };
    c.case(hash_of(&o), true);
    c.sample(|| format!("{r:?} -> {}", hex(&o)));
    let mut w = vec![];
    if let Err(e) = guard(|| bin_prot::to_writer(&mut w, &r))? {
        fail!("{r:?}: {e}")
    }
    ensure!(w == o, "{r:?} written as {}, should be {}", hex(&w), hex(&o));
    match guard(|| bin_prot::from_reader_strict::<_, Rec>(&o[..]))? {
        Ok(x) => ensure!(x == r, "{r:?} came back as {x:?}"),
        Err(e) => fail!("{r:?}: {e}"),
    }
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C15", name: "wrap", quick: 1000_000, thorough: 4_000_000, f: c15_wrap, rule: "random payload of one of five types in 17 wrappers of one to four levels; non-trivial: payload longer than a byte" },
        Facet { prop: "C15", name: "wire", quick: 1500_000, thorough: 4_000_000, f: c15_wire, rule: "any integer in the place of the version number; non-trivial: not the type's own version" },
        Facet { prop: "C15", name: "macros", quick: 1000_000, thorough: 2_000_000, f: c15_macros, rule: "random values through every conversion macro" },
        Facet { prop: "C15", name: "inside", quick: 1000_000, thorough: 2_000_000, f: c15_inside, rule: "records, options and enums holding versioned parts" },
    ]
}
