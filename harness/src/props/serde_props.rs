//! C07–C10, C19: serde.

use super::diff;
use crate::engine::*;
use crate::json::J;
use crate::refsem::{self, Data, Node};
use crate::{fail, gen, layout, must_parse};
use serde::de::{DeserializeOwned, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use yaml_subset::yaml::*;

pub static PROPS: &[&Prop] = &[&C07, &C08, &C09, &C10, &C19];

// ── a family of types ───────────────────────────────────────────────────────

/// Floats compare by their bits, with one NaN.
#[derive(Clone, Copy, Serialize, Deserialize, Debug)]
#[serde(transparent)]
struct F(f64);
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.0.to_bits() == o.0.to_bits() || self.0.is_nan() && o.0.is_nan()
    }
}
#[derive(Clone, Copy, Serialize, Deserialize, Debug)]
#[serde(transparent)]
struct F32(f32);
impl PartialEq for F32 {
    fn eq(&self, o: &F32) -> bool {
        self.0.to_bits() == o.0.to_bits() || self.0.is_nan() && o.0.is_nan()
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(v.to_vec()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
                let mut v = Vec::new();
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(Bytes(v))
            }
        }
        d.deserialize_bytes(V)
    }
}

/// The same, read as an owned buffer.
#[derive(Clone, PartialEq, Debug)]
struct Buf(Vec<u8>);
impl Serialize for Buf {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Buf {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Buf;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "a byte buffer")
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Buf, E> {
                Ok(Buf(v))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Buf, A::Error> {
                let mut v = Vec::new();
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(Buf(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Copy)]
enum Unit {
    Alpha,
    #[serde(rename = "true")]
    True_,
    #[serde(rename = "12")]
    Twelve,
    #[serde(rename = "null")]
    Null_,
    #[serde(rename = "with space")]
    Space,
    #[serde(rename = "- x: #y")]
    Odd,
}
const UNITS: [Unit; 6] = [Unit::Alpha, Unit::True_, Unit::Twelve, Unit::Null_, Unit::Space, Unit::Odd];

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Ints {
    i8: i8,
    i16: i16,
    i32: i32,
    i64: i64,
    i128: i128,
    u8: u8,
    u16: u16,
    u32: u32,
    u64: u64,
    u128: u128,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Scalars {
    b: bool,
    f: F,
    f32: F32,
    s: String,
    c: char,
    o: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    skipped: Option<i64>,
    #[serde(default)]
    d: u32,
    e: Unit,
    unit: (),
    #[serde(rename = "renamed field")]
    r: String,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Pair(String, i64);
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Wrap(Box<Nested>);
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Marker;

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Lists {
    v: Vec<String>,
    vv: Vec<Vec<String>>,
    vvv: Vec<Vec<Vec<i32>>>,
    t: (String, Vec<i64>, bool),
    vt: Vec<(String, Vec<String>, String)>,
    arr: [i16; 3],
    p: Vec<Pair>,
    ob: Vec<Option<bool>>,
    nested: Vec<Nested>,
    bytes: Bytes,
    buf: Buf,
    bufs: Vec<Buf>,
    marker: Marker,
    pairs_in_lists: Vec<Vec<(i8, String)>>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Nested {
    name: String,
    on: Option<Box<Nested>>,
    list: Vec<Nested>,
    m: BTreeMap<String, Vec<String>>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Maps {
    m: BTreeMap<String, String>,
    mi: BTreeMap<i32, Vec<bool>>,
    mu: BTreeMap<u64, ()>,
    mc: BTreeMap<char, Option<i8>>,
    mb: BTreeMap<bool, Pair>,
    mm: BTreeMap<String, BTreeMap<String, F>>,
    vm: Vec<BTreeMap<String, String>>,
    me: BTreeMap<Unit, i32>,
}

/// Any value; integers before floats, so floats here have a fraction.
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(untagged)]
enum Un {
    Null,
    B(bool),
    I(i64),
    U(u64),
    F(F),
    S(String),
    L(Vec<Un>),
    M(BTreeMap<String, Un>),
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(tag = "kind", rename_all = "snake_case")]
enum Tagged {
    Empty,
    OneField { x: i32 },
    Texts { s: String, l: Vec<String>, o: Option<String> },
    Inner(Nested),
    Deep { t: Vec<Tagged>, u: Un },
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Nothing,
    Text(String),
    Num(i64),
    Two(String, bool),
    Rec { a: String, b: Vec<i64> },
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Flat {
    first: String,
    #[serde(flatten)]
    ints: SmallInts,
    #[serde(flatten)]
    extra: BTreeMap<String, Un>,
}
// (a flattened tagged enum leaves its entries to a flattened map beside it, in serde itself)
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct FlatTag {
    first: String,
    #[serde(flatten)]
    ints: SmallInts,
    #[serde(flatten)]
    tagged: Tagged,
    last: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct SmallInts {
    si: i32,
    su: u64,
    sf: F,
    ss: Vec<String>,
    sc: Option<char>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Everything {
    ints: Ints,
    scalars: Scalars,
    lists: Lists,
    maps: Maps,
    un: Vec<Un>,
    tagged: Vec<Tagged>,
    adj: Vec<Adjacent>,
    flat: Flat,
    flat_tag: FlatTag,
    tuple: (Tagged, Un, (String, String)),
}

// ── generators ──────────────────────────────────────────────────────────────

const ODD: &[&str] = &[
    "", " ", "  ", "\n", "\n\n", " \n ", "\t", "\r", "\r\n", "a\rb", "a\r\nb", "~", "null", "Null", "NULL", "true", "false", "True", "yes", "No", "on", "1", "-1", "+1", "01", "0x1", "1.5", "1e5",
    ".5", "5.", "inf", "-inf", "nan", "NaN", "infinity", "-", "- a", "--", "---", "...", "-\ta", "-\u{a0}a", "a: b", "a:", ":", ": a", "a :b", "a:b", "#", "a #b", "a#b", "&x", "*x", "& x", "* x", "&", "*", "!t",
    "!", "%a", "@a", "`a", "?", "? a", "|", ">", "|-", "> a", "[", "]", "[a]", "{", "}", "{a: b}", "a, b", ",", "\"", "'", "''", "\"q\"", "'q'", "it's", "say \"x\"", "'\"", "\\", "\\n", "a\\", "\\\\", "a\nb",
    "a\n", "\na", "a\n\nb", "a\n b", " a\nb", "a\n", "a\n\n", "a \n b", "a\tb", "\ta", "a\t", "\u{0}", "\u{7}", "\u{1b}[0m", "\u{7f}", "\u{85}", "\u{a0}", "\u{a0}a", "a\u{a0}", "\u{2028}", "\u{2029}", "\u{3000}",
    "\u{feff}", "\u{feff}a", "é", "日本", "🎉", "e\u{301}", "\u{202e}abc", "key: 'value' # c", "a: \u{3000}", "x:\u{a0}y", "x:\ty", "a: |\n  b", "# only\n# comments", "end ", " start", "9223372036854775808", "18446744073709551616",
    "170141183460469231731687303715884105728", "v1.0", "a.b.c", "x=1", "2025-01-01", "12:30:45", "<<", "=", "_", "a_b", "$x^2$", "import math\ndef f(a):\n  return a\n", "line one\nline two\n", "\n  indented\nnot\n", "x\n\n  y\n\nz", "trailing \nspace",
];

fn string(s: &mut Src) -> String {
    match s.weighted(&[4, 6, 3, 2, 1]) {
        0 => s.pick(&["a", "word", "two words", "v", "x y z"]).to_string(),
        1 => s.pick(ODD).to_string(),
        2 => {
            let n = gen::count(s, 0, 12, 80);
            (0..n).map(|_| gen::any_char(s)).collect()
        }
        3 => {
            // long
            let n = gen::count(s, 2, 60, 900);
            let sep = *s.pick(&[" ", " ", ", ", "\n", "  "]);
            let w = *s.pick(&["word", "a longer word", "x", "it's", "[y]", "\"z\"", "k: v", "é"]);
            let mut t = vec![w; n].join(sep);
            if s.chance(1, 3) {
                // something else in the middle
                let mut at = s.below(t.len() + 1);
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                let other = *s.pick(&["it's", "\"z\"", "'", "\"", "\\", "\n", "\r", "\t", "# c", ": ", "\u{85}", "\u{7}"]);
                t.insert_str(at, other);
            }
            if s.chance(1, 3) {
                t.push_str(s.pick(&["\n", "\n\n", " ", "#"]));
            }
            t
        }
        _ => {
            let n = s.range(1, 6);
            let mut t = String::new();
            for _ in 0..n {
                match s.below(3) {
                    0 => t.push_str(s.pick(ODD)),
                    1 => t.push(*s.pick(&['\n', ' ', '\r', '\t', '\'', '"', '\\', '#', ':'])),
                    _ => t.push(char::from_u32(((s.below(0x11) as u32) << 16) | s.below(0x10000) as u32).unwrap_or('?')),
                }
            }
            t
        }
    }
}

/// A key that the text format can hold.
fn text_key(s: &mut Src) -> String {
    gen::key(s, &gen::Cfg::default())
}

#[derive(Clone, Copy)]
struct G {
    /// keys have to be in the text format's key grammar
    text: bool,
    depth: usize,
}

impl G {
    fn less(self) -> G {
        G { depth: self.depth.saturating_sub(1), ..self }
    }
    fn key(self, s: &mut Src) -> String {
        if self.text {
            text_key(s)
        } else {
            match s.weighted(&[2, 1]) {
                0 => text_key(s),
                _ => string(s),
            }
        }
    }
    /// A key of a map that is read generically, where a plain `9` is the number.
    fn word_key(self, s: &mut Src) -> String {
        let k = self.key(s);
        match refsem::resolve_plain(&k) {
            Data::Str(_) => k,
            _ => format!("k{}", if self.text { "" } else { &k }),
        }
    }
    fn vec<T>(self, s: &mut Src, f: impl Fn(G, &mut Src) -> T) -> Vec<T> {
        let mut v = Vec::new();
        let (max, num) = if s.chance(1, 30) { (gen::count(s, 5, 14, 80), 19) } else { (4, 12) };
        while v.len() < max && s.chance(num, 20) {
            v.push(f(self, s));
        }
        v
    }
    fn map<K: Ord, T>(self, s: &mut Src, k: impl Fn(&mut Src) -> K, f: impl Fn(G, &mut Src) -> T) -> BTreeMap<K, T> {
        let mut v = BTreeMap::new();
        let mut n = 0;
        let (max, num) = if s.chance(1, 30) { (s.range(5, 40), 19) } else { (4, 12) };
        while n < max && s.chance(num, 20) {
            n += 1;
            let key = k(s);
            let val = f(self, s);
            v.insert(key, val);
        }
        v
    }
    fn strings(self, s: &mut Src) -> Vec<String> {
        self.vec(s, |_, s| string(s))
    }
    fn float(self, s: &mut Src) -> F {
        F(match s.weighted(&[4, 2, 2]) {
            0 => *s.pick(&[0.0, 1.0, -1.0, 0.5, -2.25, 3.14, 100.0, 1e10, 1e21, 1e-7, 123456789.125]),
            1 => *s.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, 9007199254740993.0, 1.8446744073709552e19, 9.223372036854775807e18]),
            _ => f64::from_bits(s.u64()),
        })
    }
    /// A float that a generic reader cannot take for an integer.
    fn fraction(self, s: &mut Src) -> F {
        let f = self.float(s);
        if f.0.is_finite() && f.0.fract() != 0.0 {
            f
        } else {
            F(0.5)
        }
    }
    fn int(self, s: &mut Src) -> i64 {
        match s.weighted(&[4, 2, 1]) {
            0 => s.below(20) as i64,
            1 => *s.pick(&[-1, i64::MIN, i64::MAX, 255, 256, -128, 1 << 31, -(1 << 31), 1 << 32]),
            _ => s.u64() as i64,
        }
    }
    fn chr(self, s: &mut Src) -> char {
        match s.below(3) {
            0 => *s.pick(&['a', '1', '~', '-', '#', ':', '\'', '"', '\\', '\n', '\r', '\t', ' ', '&', '*', '[', ',', '\0', '\u{85}', '\u{a0}', '🎉', '\u{feff}']),
            1 => *s.pick(&gen::ANY_CHARS[..]),
            _ => char::from_u32(((s.below(0x11) as u32) << 16) | s.below(0x10000) as u32).unwrap_or('?'),
        }
    }
    fn ints(self, s: &mut Src) -> Ints {
        macro_rules! pick {
            ($t:ty) => {
                match s.below(5) {
                    0 => 0,
                    1 => <$t>::MAX,
                    2 => <$t>::MIN,
                    3 => s.below(100) as $t,
                    _ => (((s.u64() as u128) << 64) | s.u64() as u128) as $t,
                }
            };
        }
        Ints {
            i8: pick!(i8),
            i16: pick!(i16),
            i32: pick!(i32),
            i64: pick!(i64),
            i128: pick!(i128),
            u8: pick!(u8),
            u16: pick!(u16),
            u32: pick!(u32),
            u64: pick!(u64),
            u128: pick!(u128),
        }
    }
    fn scalars(self, s: &mut Src) -> Scalars {
        Scalars {
            b: s.bool(),
            f: self.float(s),
            f32: F32(match s.below(4) {
                0 => 0.5,
                1 => *s.pick(&[0.1f32, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::NAN, f32::INFINITY, -0.0, 16777217.0]),
                _ => f32::from_bits(s.u64() as u32),
            }),
            s: string(s),
            c: self.chr(s),
            o: if s.bool() { Some(string(s)) } else { None },
            skipped: if s.bool() { Some(self.int(s)) } else { None },
            d: s.below(5) as u32,
            e: *s.pick(&UNITS),
            unit: (),
            r: string(s),
        }
    }
    fn nested(self, s: &mut Src) -> Nested {
        let deep = self.depth > 0;
        Nested {
            name: string(s),
            on: if deep && s.chance(1, 3) { Some(Box::new(self.less().nested(s))) } else { None },
            list: if deep { self.less().vec(s, G::nested) } else { vec![] },
            m: self.map(s, |s| self.word_key(s), G::strings),
        }
    }
    fn pair(self, s: &mut Src) -> Pair {
        Pair(string(s), self.int(s))
    }
    fn lists(self, s: &mut Src) -> Lists {
        Lists {
            v: self.strings(s),
            vv: self.vec(s, G::strings),
            vvv: self.vec(s, |g, s| g.vec(s, |g, s| g.vec(s, |g, s| g.int(s) as i32))),
            t: (string(s), self.vec(s, G::int), s.bool()),
            vt: self.vec(s, |g, s| (string(s), g.strings(s), string(s))),
            arr: [s.below(9) as i16, self.int(s) as i16, -1],
            p: self.vec(s, G::pair),
            ob: self.vec(s, |_, s| match s.below(3) {
                0 => None,
                k => Some(k == 1),
            }),
            nested: self.vec(s, G::nested),
            bytes: Bytes(self.vec(s, |g, s| g.int(s) as u8)),
            buf: Buf(self.vec(s, |g, s| g.int(s) as u8)),
            bufs: self.vec(s, |g, s| Buf(g.vec(s, |g, s| g.int(s) as u8))),
            marker: Marker,
            pairs_in_lists: self.vec(s, |g, s| g.vec(s, |g, s| (g.int(s) as i8, string(s)))),
        }
    }
    fn maps(self, s: &mut Src) -> Maps {
        let g = self;
        // integer and char keys only when the text format can hold them
        let neg = !g.text;
        Maps {
            m: g.map(s, |s| g.key(s), |_, s| string(s)),
            mi: g.map(s, |s| { let i = g.int(s) as i32; if neg { i } else { (i & i32::MAX).max(0) } }, |g, s| g.vec(s, |_, s| s.bool())),
            mu: g.map(s, |s| g.int(s) as u64, |_, _| ()),
            mc: g.map(s, |s| if g.text { *s.pick(&['a', 'Z', '0', '_', 'é', '日']) } else { g.chr(s) }, |g, s| if s.bool() { Some(g.int(s) as i8) } else { None }),
            mb: g.map(s, |s| s.bool(), G::pair),
            mm: g.map(s, |s| g.key(s), |g, s| g.map(s, |s| g.key(s), G::float)),
            vm: g.vec(s, |g, s| g.map(s, |s| g.key(s), |_, s| string(s))),
            me: g.map(s, |s| if g.text { *s.pick(&UNITS[..5]) } else { *s.pick(&UNITS) }, |g, s| g.int(s) as i32),
        }
    }
    fn un(self, s: &mut Src) -> Un {
        let w = if self.depth > 0 { 2 } else { 0 };
        match s.weighted(&[4, 1, 1, 2, 1, 1, w, w]) {
            0 => Un::S(string(s)),
            1 => Un::Null,
            2 => Un::B(s.bool()),
            3 => Un::I(self.int(s)),
            4 => Un::U(s.u64() | 1 << 63),
            5 => Un::F(self.fraction(s)),
            6 => Un::L(self.less().vec(s, G::un)),
            _ => Un::M(self.less().map(s, |s| self.word_key(s), G::un)),
        }
    }
    fn tagged(self, s: &mut Src) -> Tagged {
        let w = if self.depth > 0 { 2 } else { 0 };
        match s.weighted(&[1, 2, 3, w, w]) {
            0 => Tagged::Empty,
            1 => Tagged::OneField { x: self.int(s) as i32 },
            2 => Tagged::Texts { s: string(s), l: self.strings(s), o: if s.bool() { Some(string(s)) } else { None } },
            3 => Tagged::Inner(self.less().nested(s)),
            _ => Tagged::Deep { t: self.less().vec(s, G::tagged), u: self.less().un(s) },
        }
    }
    fn adj(self, s: &mut Src) -> Adjacent {
        match s.below(5) {
            0 => Adjacent::Nothing,
            1 => Adjacent::Text(string(s)),
            2 => Adjacent::Num(self.int(s)),
            3 => Adjacent::Two(string(s), s.bool()),
            _ => Adjacent::Rec { a: string(s), b: self.vec(s, G::int) },
        }
    }
    fn small_ints(self, s: &mut Src) -> SmallInts {
        // integral floats are read as integers and converted; "-0" is the integer 0 to a generic reader
        let f = self.float(s).0;
        let plain = f.to_bits() != (-0.0f64).to_bits() && !(f.fract() == 0.0 && f.abs() > 9e15);
        SmallInts {
            si: self.int(s) as i32,
            su: s.u64(),
            sf: F(if plain { f } else { 1.0 }),
            ss: self.strings(s),
            sc: if s.bool() { Some(self.chr(s)) } else { None },
        }
    }
    fn flat(self, s: &mut Src) -> Flat {
        let mut extra = self.map(s, |s| self.word_key(s), G::un);
        // names that the other fields have
        for k in ["first", "si", "su", "sf", "ss", "sc"] {
            extra.remove(k);
        }
        Flat { first: string(s), ints: self.small_ints(s), extra }
    }
    fn flat_tag(self, s: &mut Src) -> FlatTag {
        let last = if s.bool() { Some(string(s)) } else { None };
        FlatTag { first: string(s), ints: self.small_ints(s), tagged: self.tagged(s), last }
    }
    fn everything(self, s: &mut Src) -> Everything {
        Everything {
            ints: self.ints(s),
            scalars: self.scalars(s),
            lists: self.lists(s),
            maps: self.maps(s),
            un: self.vec(s, G::un),
            tagged: self.vec(s, G::tagged),
            adj: self.vec(s, G::adj),
            flat: self.flat(s),
            flat_tag: self.flat_tag(s),
            tuple: (self.tagged(s), self.un(s), (string(s), string(s))),
        }
    }
}

macro_rules! family {
    ($s:expr, $c:expr, $g:expr, $f:ident, $scalars:expr) => {{
        let g: G = $g;
        let n = if $scalars { 16 } else { 13 };
        match $s.below(n) {
            0 => { $c.label("texts"); $f(g.strings($s), $c, $s) }
            1 => { $c.label("map of texts"); let v: BTreeMap<String, String> = g.map($s, |s| g.key(s), |_, s| string(s)); $f(v, $c, $s) }
            2 => { $c.label("integers"); $f(g.ints($s), $c, $s) }
            3 => { $c.label("scalars"); $f(g.scalars($s), $c, $s) }
            4 => { $c.label("lists"); $f(g.lists($s), $c, $s) }
            5 => { $c.label("maps"); $f(g.maps($s), $c, $s) }
            6 => { $c.label("nested structs"); $f(g.nested($s), $c, $s) }
            7 => { $c.label("untagged enums"); $f(g.vec($s, G::un), $c, $s) }
            8 => { $c.label("tagged enums"); $f(g.vec($s, G::tagged), $c, $s) }
            9 => { $c.label("adjacent enums"); $f(g.vec($s, G::adj), $c, $s) }
            10 => { $c.label("flatten"); if $s.bool() { $f(g.flat($s), $c, $s) } else { $f(g.flat_tag($s), $c, $s) } }
            11 => {
                $c.label("tuples");
                match $s.below(7) {
                    6 => {
                        // ends with nothing
                        let n = $s.below(4);
                        let o = if $s.chance(1, 3) { Some(string($s)) } else { None };
                        match n {
                            0 => { let v = (string($s), g.int($s), o); $f(v, $c, $s) }
                            1 => { let v = (string($s), o.clone(), o, ()); $f(v, $c, $s) }
                            2 => { let v = vec![((), (), ()), ((), (), ())]; $f(v, $c, $s) }
                            _ => { let v = [o.clone(), None, o]; $f(v, $c, $s) }
                        }
                    }
                    0 => { let v = (($s.bool(), g.int($s)),); $f(v, $c, $s) }
                    1 => { let v = (((g.strings($s),),),); $f(v, $c, $s) }
                    2 => { let v = g.vec($s, |g, s| ((string(s),), [g.pair(s)], [[g.int(s)]])); $f(v, $c, $s) }
                    _ => $f((string($s), g.strings($s), Wrap(Box::new(g.nested($s)))), $c, $s),
                }
            }
            12 => { $c.label("everything"); $f(g.everything($s), $c, $s) }
            13 => { $c.label("bare text"); $f(string($s), $c, $s) }
            14 => { $c.label("bare char or option"); $f((g.chr($s), if $s.bool() { Some(string($s)) } else { None }), $c, $s) }
            _ => { $c.label("bare number or enum"); if $s.bool() { $f(g.float($s), $c, $s) } else { $f(*$s.pick(&UNITS), $c, $s) } }
        }
    }};
}

// ── C07 ─────────────────────────────────────────────────────────────────────

static C07: Prop = Prop {
    id: "C07",
    title: "Rust values survive serialization to a YAML tree and back",
    rule: "a case is a random value of one of 16 type families (all integer widths, floats, chars, hostile strings, options, tuples, arrays, maps with many key types, nested structs, unit, untagged, internally and adjacently tagged enums, flatten); it must come back equal from the serialized tree and from that tree prettied. Non-trivial: the tree has at least 3 nodes",
    quick_cases: 2_500_000,
    thorough_cases: 40_000_000,
    assumptions: &[
        "externally tagged enums with data are written without their tag by design, so they are not in the families",
        "keys of maps inside untagged enums and of flattened maps are not null, a boolean or a number, because keys have no quotes and a generic reader takes `9` for the number",
        "Option<Option<T>>, Option<()> and -0.0 read generically have no separate form and are not generated",
    ],
    run: c07,
    pinned: no_pinned,
};

fn c07(s: &mut Src, c: &mut Ctx) -> Outcome {
    let d = if s.chance(1, 8) { 3 } else { 2 };
    family!(s, c, G { text: false, depth: d }, through_tree, true)
}

fn serialized<T: Serialize>(v: &T) -> Result<Yaml, String> {
    v.serialize(YamlSerializer::new()).map_err(|e| e.to_string())
}

fn through_tree<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: T, c: &mut Ctx, _s: &mut Src) -> Outcome {
    c.case = format!("{v:?}");
    let y = match serialized(&v) {
        Ok(y) => y,
        Err(e) => fail!("{v:?}\n--- does not serialize: {e}"),
    };
    c.nontrivial = refsem::nodes(&y) >= 3;
    for (name, y) in [("serialized", y.clone()), ("prettied", y.pretty())] {
        match from_yaml::<T>(y.clone()) {
            Ok(b) if b == v => {}
            Ok(b) => fail!("{name}: {}\n--- tree\n{y:?}", diff(&format!("{v:?}"), &format!("{b:?}"))),
            Err(e) => fail!("{name}: {v:?}\n--- does not come back: {e}\n--- tree\n{y:?}"),
        }
    }
    Outcome::Pass
}

// ── C08 ─────────────────────────────────────────────────────────────────────

static C08: Prop = Prop {
    id: "C08",
    title: "Rust values survive serialization to YAML text and back",
    rule: "a case is a random value of one of 13 collection-rooted type families; written as a document's text, prettied (and, where it has a text, as serialized) it must parse and come back equal, also after the text went through parse and format again, with a comment in front. Non-trivial: the text has at least 3 lines",
    quick_cases: 200_000,
    thorough_cases: 6_000_000,
    assumptions: &["as C07", "the root is a struct, map, list or tuple", "map keys are in the text format's key grammar (letters, digits, '_', '-', inner spaces); others are a listed finding"],
    run: c08,
    pinned: c08_pinned,
};

fn c08(s: &mut Src, c: &mut Ctx) -> Outcome {
    let d = if s.chance(1, 8) { 3 } else { 2 };
    family!(s, c, G { text: true, depth: d }, through_text, false)
}

/// Is there a block collection or scalar in a flow collection?
fn block_in_flow(y: &Yaml) -> bool {
    let mut found = false;
    refsem::each(y, false, &mut |y, flow| found |= flow && matches!(y, Yaml::Hash(_) | Yaml::Array(_) | Yaml::LiteralString(..) | Yaml::FoldedString(..)));
    found
}

fn through_text<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: T, c: &mut Ctx, s: &mut Src) -> Outcome {
    let y = match serialized(&v) {
        Ok(y) => y,
        Err(e) => fail!("{v:?}\n--- does not serialize: {e}"),
    };
    // as it is serialized; flow lists can hold block collections then, which the text format cannot
    if !block_in_flow(&y) {
        c.label("also without pretty");
        let text = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y.clone())] }.format().unwrap();
        match from_yaml_str::<T>(&text) {
            Ok(b) if b == v => {}
            Ok(b) => fail!("{}\n--- text, without pretty\n{text}", diff(&format!("{v:?}"), &format!("{b:?}"))),
            Err(e) if e.0.contains("call limit reached") => return Outcome::Inconclusive("parser call limit"),
            Err(e) => fail!("{v:?}\n--- does not come back: {e}\n--- text, without pretty\n{text}"),
        }
    }
    let doc = Document { leading_comments: if s.bool() { vec![" c".into()] } else { vec![] }, items: vec![DocumentData::Yaml(y.pretty())] };
    let text = doc.format().unwrap();
    c.case = text.clone();
    c.nontrivial = text.lines().count() >= 3;
    match from_yaml_str::<T>(&text) {
        Ok(b) if b == v => {}
        Ok(b) => fail!("{}\n--- text\n{text}", diff(&format!("{v:?}"), &format!("{b:?}"))),
        Err(e) => {
            if e.0.contains("call limit reached") {
                return Outcome::Inconclusive("parser call limit");
            }
            fail!("{v:?}\n--- does not come back: {e}\n--- text\n{text}")
        }
    }
    // once more through the parser and formatter
    let back = must_parse!(text, "serialized text");
    let text2 = back.pretty().format().unwrap();
    match from_yaml_str::<T>(&text2) {
        Ok(b) if b == v => Outcome::Pass,
        o => Outcome::Fail(format!("{v:?}\n--- after another parse, pretty and format: {o:?}\n--- text\n{text2}")),
    }
}

/// For C20: a value of these families as YAML for others.
pub fn written(s: &mut Src, c: &mut Ctx) -> Outcome {
    fn go<T: Serialize + Debug>(v: T, c: &mut Ctx, _: &mut Src) -> Outcome {
        match serialized(&v) {
            Ok(y) => {
                c.nontrivial = refsem::nodes(&y) >= 3;
                // the tree first: the text of a wrong tree can be right
                if let Ok(j) = serde_json::to_string(&v) {
                    let (d, j) = (refsem::node(&y), crate::json::read(&j));
                    if !says(&d, &j) {
                        fail!("{v:?}\n--- JSON {j:?}\n--- YAML {d:?}");
                    }
                }
                super::interop::written_is_yaml(y, c)
            }
            Err(e) => Outcome::Fail(format!("{v:?}\n--- does not serialize: {e}")),
        }
    }
    family!(s, c, G { text: true, depth: 2 }, go, false)
}

fn c08_pinned() -> Vec<(String, Result<(), String>)> {
    fn case<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: T) -> Result<(), String> {
        let doc = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(serialized(&v)?.pretty())] };
        let t = doc.format().map_err(|e| e.to_string())?;
        match from_yaml_str::<T>(&t) {
            Ok(b) if b == v => Ok(()),
            o => Err(format!("{v:?} is written as {t:?}, which reads as {o:?}")),
        }
    }
    let m = |k: &str| BTreeMap::from([(k.to_string(), "v".to_string())]);
    vec![
        ("map-key-with-dot".into(), case(m("a.b"))),
        ("map-key-empty".into(), case(m(""))),
        ("map-key-negative".into(), case(BTreeMap::from([(-1i32, 2i32)]))),
        ("map-key-with-colon".into(), case(m("a: b"))),
        // repaired
        ("string-with-only-newlines".into(), case(vec!["\n".to_string()])),
        ("string-reads-as-anchor".into(), case(vec!["&x".to_string(), "*x".to_string(), "- x".to_string(), "a:".to_string()])),
        ("i128".into(), case(vec![i128::MIN, i128::MAX])),
    ]
}

// ── C19 ─────────────────────────────────────────────────────────────────────

static C19: Prop = Prop {
    id: "C19",
    title: "Serialized YAML stands for the same data as the Rust value",
    rule: "a case is a random value of one of 16 type families; the serialized tree, resolved by the reference semantics, must say what the JSON text that serde_json writes for the same value says (order, keys, nulls, booleans, strings, numbers to the last digit, with up to 128 bits), and a generic reader must see the same in the prettied text (a quarter of the values may have map keys that text cannot hold: then only the tree is compared). Non-trivial: at least 3 nodes",
    quick_cases: 800_000,
    thorough_cases: 20_000_000,
    assumptions: &[
        "JSON has no NaN and no infinities: they are null there and may be any of these here",
        "a whole float may be written without a fraction and counts as that number; a 32 bit float stands for the number its shortest decimal form spells",
        "a generic reader may take whole numbers of more than 64 bits for the nearest float",
    ],
    run: c19,
    pinned: no_pinned,
};

fn c19(s: &mut Src, c: &mut Ctx) -> Outcome {
    let text = !s.chance(1, 4);
    family!(s, c, G { text, depth: 2 }, same_as_json, true)
}

/// All keys of all mappings can be written as text.
fn keys_ok(d: &Node) -> bool {
    match d {
        Node::Seq(v) => v.iter().all(keys_ok),
        Node::Map(v) => v.iter().all(|(k, d)| gen::key_ok(k) && keys_ok(d)),
        _ => true,
    }
}

/// The data that a generic reader saw.
fn same(d: &Data, j: &J) -> bool {
    match (d, j) {
        (Data::Null, J::Null) => true,
        (Data::Bool(a), J::Bool(b)) => a == b,
        (Data::Str(a), J::Str(b)) => a == b,
        (Data::Seq(a), J::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Data::Map(a), J::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)),
        (Data::I64(a), J::Num(n)) => n.parse() == Ok(*a) || !whole(n) && same_float(&a.to_string(), n),
        (Data::U64(a), J::Num(n)) => n.parse() == Ok(*a) || !whole(n) && same_float(&a.to_string(), n),
        // (a generic reader has no whole numbers of more than 64 bits)
        (Data::F64(a), J::Num(n)) => same_float(&f64::from_bits(*a).to_string(), n) && !(whole(n) && (n.parse::<i64>().is_ok() || n.parse::<u64>().is_ok())),
        // not in JSON
        (Data::F64(a), J::Null) => !f64::from_bits(*a).is_finite(),
        _ => false,
    }
}

/// The same number, or for a 32 bit float with two shortest decimal forms the other one.
fn same_float(a: &str, b: &str) -> bool {
    let digits = |t: &str| {
        let m = t.split(['e', 'E']).next().unwrap();
        let d: String = m.chars().filter(char::is_ascii_digit).collect();
        d.trim_matches('0').len()
    };
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) => x == y || x as f32 == y as f32 && digits(a) == digits(b) && digits(a) <= 9 && x.is_finite(),
        _ => false,
    }
}

fn whole(n: &str) -> bool {
    !n.contains(['.', 'e', 'E'])
}

/// What the tree says, to the last digit.
fn says(d: &Node, j: &J) -> bool {
    match (d, j) {
        (Node::Seq(a), J::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| says(a, b)),
        (Node::Map(a), J::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && says(&a.1, &b.1)),
        (Node::Plain(t), J::Num(n)) if whole(n) => match (n.parse::<i128>(), n.parse::<u128>()) {
            (Ok(n), _) => t.parse() == Ok(n),
            (_, Ok(n)) => t.parse() == Ok(n),
            _ => false,
        },
        // with the sign of zero
        (Node::Plain(t), J::Num(n)) => same_float(t, n) && t.starts_with('-') == n.starts_with('-'),
        _ => same(&refsem::resolve(d), j),
    }
}

fn same_as_json<T: Serialize + Debug>(v: T, c: &mut Ctx, _s: &mut Src) -> Outcome {
    c.case = format!("{v:?}");
    let j = match serde_json::to_string(&v) {
        Ok(j) => crate::json::read(&j),
        Err(_) => {
            c.excluded.push("not expressible in JSON");
            return Outcome::Pass;
        }
    };
    let y = match serialized(&v) {
        Ok(y) => y,
        Err(e) => fail!("{v:?}\n--- does not serialize: {e}"),
    };
    c.nontrivial = refsem::nodes(&y) >= 3;
    let d = refsem::node(&y);
    if !says(&d, &j) {
        fail!("{v:?}\n--- JSON {j:?}\n--- YAML {d:?}");
    }
    let p = y.pretty();
    let d = refsem::node(&p);
    if !says(&d, &j) {
        fail!("prettied: {v:?}\n--- JSON {j:?}\n--- YAML {d:?}");
    }
    if !keys_ok(&d) {
        c.label("keys that text cannot hold");
        return Outcome::Pass;
    }
    if matches!(p, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineArray(_) | Yaml::InlineHash(_)) {
        let text = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(p)] }.format().unwrap();
        match from_yaml_str::<Gen>(&text) {
            Ok(Gen(d)) if same(&d, &j) => {}
            Ok(Gen(d)) => fail!("as text: {v:?}\n--- JSON {j:?}\n--- YAML {d:?}\n--- text\n{text}"),
            Err(e) if e.0.contains("call limit reached") => return Outcome::Inconclusive("parser call limit"),
            Err(e) => fail!("as text: {v:?}\n--- is rejected: {e}\n--- text\n{text}"),
        }
    }
    Outcome::Pass
}

// ── C09: generic reading ────────────────────────────────────────────────────

/// Reads anything, by `deserialize_any`.
#[derive(Debug, Clone, PartialEq)]
pub struct Gen(pub Data);

struct GenVisitor;
impl<'de> Visitor<'de> for GenVisitor {
    type Value = Gen;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "anything")
    }
    fn visit_unit<E>(self) -> Result<Gen, E> {
        Ok(Gen(Data::Null))
    }
    fn visit_none<E>(self) -> Result<Gen, E> {
        Ok(Gen(Data::Null))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Gen, D::Error> {
        Gen::deserialize(d)
    }
    fn visit_bool<E>(self, v: bool) -> Result<Gen, E> {
        Ok(Gen(Data::Bool(v)))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Gen, E> {
        Ok(Gen(Data::I64(v)))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Gen, E> {
        // a number is a number, whichever width the reader chose
        Ok(Gen(if v <= i64::MAX as u64 { Data::I64(v as i64) } else { Data::U64(v) }))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Gen, E> {
        Ok(Gen(Data::F64(v.to_bits())))
    }
    fn visit_str<E>(self, v: &str) -> Result<Gen, E> {
        Ok(Gen(Data::Str(v.to_string())))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Gen, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element::<Gen>()? {
            v.push(x.0);
        }
        Ok(Gen(Data::Seq(v)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Gen, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key::<String>()? {
            v.push((k, a.next_value::<Gen>()?.0));
        }
        Ok(Gen(Data::Map(v)))
    }
}
impl<'de> Deserialize<'de> for Gen {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Gen, D::Error> {
        d.deserialize_any(GenVisitor)
    }
}

/// A mapping of which every second entry is ignored.
#[derive(Debug)]
struct Half(Vec<(String, Option<Data>)>);
impl<'de> Deserialize<'de> for Half {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Half, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Half;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Half, A::Error> {
                let mut v = Vec::new();
                while let Some(k) = a.next_key::<String>()? {
                    if v.len() % 2 == 0 {
                        a.next_value::<IgnoredAny>()?;
                        v.push((k, None));
                    } else {
                        v.push((k, Some(a.next_value::<Gen>()?.0)));
                    }
                }
                Ok(Half(v))
            }
        }
        d.deserialize_map(V)
    }
}

static C09: Prop = Prop {
    id: "C09",
    title: "Generic reading gives the document's data with references replaced",
    rule: "a case is a random document dense in definitions and references (redefined names, definitions inside definitions, references before their definition, to themselves and to nothing), read as a tree or as a laid-out text by a self-describing reader; the result must be the reference semantics' data with each reference replaced by the last value of that name completed before it, or an error when some reference has none; the same when every second entry of the root is ignored. Non-trivial: at least one reference or 5 nodes",
    quick_cases: 2_000_000,
    thorough_cases: 36_000_000,
    assumptions: &["documents whose references multiply to more than 3,000 nodes are counted as inconclusive"],
    run: c09,
    pinned: no_pinned,
};

const NAMES: [&str; 4] = ["x", "y", "anch", "x1"];

/// Gives the tree many definitions and references of few names.
fn densify(s: &mut Src, y: &mut Yaml) {
    fn leaf(s: &mut Src, y: &mut Yaml) -> bool {
        if !matches!(y, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineArray(_) | Yaml::InlineHash(_)) && s.chance(1, 4) {
            *y = Yaml::Anchor(s.pick(&NAMES).to_string());
            return true;
        }
        false
    }
    match y {
        Yaml::InlineArray(v) => v.iter_mut().for_each(|y| {
            if !leaf(s, y) {
                densify(s, y)
            }
        }),
        Yaml::InlineHash(v) => v.iter_mut().for_each(|(_, y)| {
            if !leaf(s, y) {
                densify(s, y)
            }
        }),
        Yaml::Hash(v) => {
            for d in v {
                if let HashData::Element(e) = d {
                    aliased(s, &mut e.value)
                }
            }
            return;
        }
        Yaml::Array(v) => {
            for d in v {
                if let ArrayData::Element(e) = d {
                    aliased(s, e)
                }
            }
            return;
        }
        _ => {}
    }
    fn aliased(s: &mut Src, a: &mut AliasedYaml) {
        if !block(&a.value) {
            leaf(s, &mut a.value);
        }
        a.alias = if s.chance(1, 3) { Some(s.pick(&NAMES).to_string()) } else { None };
        densify(s, &mut a.value);
    }
    // a comment on the line of a block scalar's end does not exist
    fn block(y: &Yaml) -> bool {
        matches!(y, Yaml::LiteralString(..) | Yaml::FoldedString(..))
    }
}

fn c09(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = gen::Cfg { depth: 3, ..gen::Cfg::default() };
    let mut doc = gen::document(s, &cfg);
    let dense = s.chance(3, 4);
    for i in doc.items.iter_mut() {
        if let DocumentData::Yaml(y) = i {
            if dense {
                densify(s, y);
            }
        }
    }
    let root = gen::root(&doc).clone();
    let node = refsem::node(&root);
    let Some(sub) = refsem::substitute(&node, 3000) else {
        return Outcome::Inconclusive("references multiply");
    };
    let mut refs = 0;
    refsem::each(&root, false, &mut |y, _| refs += matches!(y, Yaml::Anchor(_)) as usize);
    c.label_if(refs > 0, "references");
    c.label_if(refs > 3, "> 3 references");
    c.nontrivial = refs > 0 || refsem::nodes(&root) >= 5;
    let undefined = refsem::undefined(&sub).map(|x| x.to_string());
    c.label_if(undefined.is_some(), "undefined reference");
    c.label_if(refs > 0 && undefined.is_none(), "all references defined");
    let want = refsem::resolve(&sub);
    let text = s.bool();
    let (got, shown) = if text {
        c.label("from text");
        let t = layout::document_any_eol(s, &doc).0;
        (from_yaml_str::<Gen>(&t), t)
    } else {
        c.label("from tree");
        (from_yaml::<Gen>(root.clone()), format!("{}", doc.format().unwrap_or_default()))
    };
    c.case = shown.clone();
    match (&got, &undefined) {
        (Ok(Gen(d)), None) => {
            if norm(d) != norm(&strip(&want)) {
                fail!("reads as other data:\n{shown}\n--- {}", diff(&format!("{:?}", strip(&want)), &format!("{d:?}")));
            }
        }
        (Err(e), Some(_)) if e.0.starts_with("undefined anchor: ") => {}
        (Err(e), _) if e.0.contains("call limit reached") => return Outcome::Inconclusive("parser call limit"),
        (Err(e), Some(n)) => fail!("the reference *{n} is undefined, but the error is {e}:\n{shown}"),
        (Err(e), None) => fail!("is rejected: {e}\n{shown}"),
        (Ok(d), Some(n)) => fail!("the reference *{n} is undefined, but it reads as {d:?}:\n{shown}"),
    }
    // the same with ignored entries
    if let Node::Map(entries) = &sub {
        c.label("with ignored entries");
        let kept: Vec<(String, Option<Data>)> =
            entries.iter().enumerate().map(|(i, (k, v))| (k.clone(), if i % 2 == 0 { None } else { Some(norm(&strip(&refsem::resolve(v)))) })).collect();
        let bad = entries.iter().enumerate().any(|(i, (_, v))| i % 2 == 1 && refsem::undefined(v).is_some());
        match from_yaml::<Half>(root) {
            Ok(Half(h)) if !bad => {
                let h: Vec<(String, Option<Data>)> = h.into_iter().map(|(k, v)| (k, v.map(|v| norm(&v)))).collect();
                if h != kept {
                    fail!("reads as other data when every second entry is ignored:\n{shown}\n--- {}", diff(&format!("{kept:?}"), &format!("{h:?}")));
                }
            }
            Err(_) if bad => {}
            o => fail!("with every second entry ignored: {o:?}\n{shown}"),
        }
    }
    Outcome::Pass
}

fn norm(d: &Data) -> Data {
    match d {
        Data::F64(b) if f64::from_bits(*b).is_nan() => Data::F64(f64::NAN.to_bits()),
        Data::Seq(v) => Data::Seq(v.iter().map(norm).collect()),
        Data::Map(v) => Data::Map(v.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        d => d.clone(),
    }
}

fn strip(d: &Data) -> Data {
    match d {
        Data::Def(_, v) => strip(v),
        Data::Seq(v) => Data::Seq(v.iter().map(strip).collect()),
        Data::Map(v) => Data::Map(v.iter().map(|(k, v)| (k.clone(), strip(v))).collect()),
        x => x.clone(),
    }
}

// ── C10: typed reading ──────────────────────────────────────────────────────

/// What reading a value as a type should give.
enum Want<T> {
    Is(T),
    Error,
    /// the crate is free here
    Any,
}

impl<T> Want<T> {
    fn map<U>(self, f: impl FnOnce(T) -> U) -> Want<U> {
        match self {
            Want::Is(t) => Want::Is(f(t)),
            Want::Error => Want::Error,
            Want::Any => Want::Any,
        }
    }
}

/// All parts, an error if there is one for certain, else undecided if any part is.
fn all<T>(v: Vec<Want<T>>) -> Want<Vec<T>> {
    if v.iter().any(|w| matches!(w, Want::Error)) {
        return Want::Error;
    }
    let mut out = Vec::new();
    for w in v {
        match w {
            Want::Is(t) => out.push(t),
            _ => return Want::Any,
        }
    }
    Want::Is(out)
}

trait Model: Sized + PartialEq + Debug + DeserializeOwned {
    fn want(n: &Node) -> Want<Self>;
    /// A YAML value that mostly reads as this type.
    fn value(s: &mut Src) -> Yaml;
}

fn scalar_text(n: &Node) -> Option<&str> {
    match n {
        Node::Plain(t) | Node::Text(t) => Some(t),
        Node::Def(_, v) => scalar_text(v),
        _ => None,
    }
}
fn inner(n: &Node) -> &Node {
    match n {
        Node::Def(_, v) => inner(v),
        n => n,
    }
}

/// Writes a text in some style.
fn styled(s: &mut Src, t: &str) -> Yaml {
    use yaml_subset::yaml::string::{DoubleQuotedStringPart as DP, SingleQuotedStringPart as SP};
    let plain = gen::plain_inline_ok(t) && gen::plain_block_ok(t);
    let simple = !t.contains(|c| c == '\'' || c == '"' || c == '\\' || c == '\n' || c == '\r');
    match s.weighted(&[12, 1, 1]) {
        1 if simple => Yaml::SingleQuotedString(if t.is_empty() { vec![] } else { vec![SP::String(t.into())] }),
        2 if simple => Yaml::DoubleQuotedString(if t.is_empty() { vec![] } else { vec![DP::String(t.into())] }),
        _ if plain => Yaml::UnquotedString(t.into()),
        _ => Yaml::UnquotedString("v".into()),
    }
}

fn junk_value(s: &mut Src) -> Yaml {
    let cfg = gen::Cfg { depth: 1, max_len: 2, comments: false, alias: false, anchors: false, block_scalars: false, multiline_quotes: false, ..gen::Cfg::default() };
    match s.weighted(&[4, 4, 4, 4, 3, 3]) {
        0 => gen::inline_value(s, &cfg, 1),
        4 => {
            let t = s.pick(&["a", "1", "true", "two\nlines", "k: v", "- x", "~", "a, b"]).to_string();
            let (lines, chomping) = (t.split('\n').map(str::to_string).collect(), gen::chomp(s));
            if s.bool() {
                Yaml::LiteralString(lines, chomping)
            } else {
                Yaml::FoldedString(lines, chomping)
            }
        }
        5 => {
            // one to three texts in a list or a map
            let n = s.range(1, 3);
            let v = (0..n)
                .map(|_| {
                    let t = *s.pick(&["1", "a", "true", "x", "200", "~"]);
                    styled(s, t)
                })
                .collect();
            if s.bool() {
                list_of(s, v)
            } else {
                let v = v.into_iter().map(|v| (s.pick(gen::SMALL_KEYS).to_string(), v)).collect();
                map_of(s, v)
            }
        }
        1 => {
            let t = *s.pick(&["~", "null", "true", "no", "1", "-1", "1.5", "300", "x", "", "1e400", "99999999999999999999999999999999999999999", "Alpha", "０", "+7", "-0", "0x10", "1_0", " 1", "inf"]);
            styled(s, t)
        }
        2 => Yaml::InlineArray(vec![]),
        _ => Yaml::InlineHash(vec![]),
    }
}

macro_rules! model_int {
    ($($t:ty, $wide:ty);*) => {$(
        impl Model for $t {
            fn want(n: &Node) -> Want<Self> {
                match scalar_text(n) {
                    Some(t) => match t.parse::<$wide>().ok().and_then(|v| <$t>::try_from(v).ok()) {
                        Some(v) => Want::Is(v),
                        None => Want::Error,
                    },
                    None => Want::Error,
                }
            }
            fn value(s: &mut Src) -> Yaml {
                let m = <$t>::MAX as i128 as u128;
                let t = match s.weighted(&[4, 2, 2, 2, 1, 1]) {
                    0 => s.below(100).to_string(),
                    1 => <$t>::MAX.to_string(),
                    2 => <$t>::MIN.to_string(),
                    3 => format!("-{}", s.below(1000)),
                    4 => m.wrapping_add(1).to_string(),
                    _ if s.chance(1, 3) => {
                        let t = s.below(300).to_string();
                        gen::tweak(s, &t)
                    }
                    _ => s.pick(&["+5", "007", "1.0", "1i", "1u8", "1L", "1_000", "1,000", "1k", "5%", "1.", "--1", "+-1", "-0", "+", "00", "1e0", "0b1", "0o7", "1e2", "0x1", "", "-", "٣", "5 ", "128", "256", "-129", "32768", "65536", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "-9223372036854775809"]).to_string(),
                };
                styled(s, &t)
            }
        }
    )*};
}
model_int!(i8, i64; i16, i64; i32, i64; i64, i64; i128, i128; u8, u64; u16, u64; u32, u64; u64, u64; u128, u128);

impl Model for bool {
    fn want(n: &Node) -> Want<bool> {
        match inner(n) {
            Node::Plain(t) => match &t[..] {
                "true" | "True" | "TRUE" | "yes" | "Yes" | "YES" | "on" | "On" | "ON" => Want::Is(true),
                "false" | "False" | "FALSE" | "no" | "No" | "NO" | "off" | "Off" | "OFF" => Want::Is(false),
                _ => Want::Error,
            },
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let t = if s.chance(3, 4) {
            *s.pick(&[
                "true", "True", "TRUE", "yes", "Yes", "YES", "on", "On", "ON", "false", "False", "FALSE", "no", "No", "NO", "off", "Off", "OFF",
            ])
        } else {
            *s.pick(&["tRue", "y", "n", "Y", "1", "0", "oN", "oFF", "nO", "t", "~", "true ", "truefalse", ""])
        };
        styled(s, t)
    }
}

impl Model for F {
    fn want(n: &Node) -> Want<F> {
        match scalar_text(n).and_then(|t| t.parse::<f64>().ok()) {
            Some(f) => Want::Is(F(f)),
            None => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let t = *s.pick(&["0", "1", "-1.5", "1e3", "1E-3", ".5", "5.", "inf", "-inf", "NaN", "1e400", "0.1", "-0", "123456789012345678901234567890", "1,5", "x", "+2.5", "1_0", "infinity", "0x1p3", "1.5f", "2f", "1.5d", "1_0.5", "1.5 ", "5%", "1e", "e1", "1.5.2", "--1", "+", "-.5e-3", "nan", "INF", "-NaN", "+inf"]);
        if s.chance(1, 12) {
            let t = gen::tweak(s, t);
            return styled(s, &t);
        }
        styled(s, t)
    }
}
impl Model for F32 {
    fn want(n: &Node) -> Want<F32> {
        F::want(n).map(|f| F32(f.0 as f32))
    }
    fn value(s: &mut Src) -> Yaml {
        F::value(s)
    }
}
impl Model for String {
    fn want(n: &Node) -> Want<String> {
        match scalar_text(n) {
            Some(t) => Want::Is(t.to_string()),
            None => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let cfg = gen::Cfg { anchors: false, ..gen::Cfg::default() };
        gen::inline_value(s, &cfg, 0)
    }
}
impl Model for char {
    fn want(n: &Node) -> Want<char> {
        let Some(t) = scalar_text(n) else { return Want::Error };
        let mut cs = t.chars();
        match (cs.next(), cs.next()) {
            (Some(c), None) => Want::Is(c),
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let t = *s.pick(&["a", "1", "é", "🎉", "ab", "", "~", "e\u{301}", "日"]);
        styled(s, t)
    }
}
impl<T: Model> Model for Option<T> {
    fn want(n: &Node) -> Want<Option<T>> {
        match inner(n) {
            Node::Plain(t) if refsem::is_null(t) => Want::Is(None),
            n => T::want(n).map(Some),
        }
    }
    fn value(s: &mut Src) -> Yaml {
        if s.chance(1, 4) {
            let t = *s.pick(&["~", "null", "Null", "NULL", "nULL", "none", ""]);
            styled(s, t)
        } else {
            T::value(s)
        }
    }
}
fn list_of(s: &mut Src, items: Vec<Yaml>) -> Yaml {
    if s.bool() {
        Yaml::InlineArray(items)
    } else {
        let mut v = Vec::new();
        for value in items {
            if s.chance(1, 8) {
                v.push(ArrayData::Comment(" c".into()));
            }
            v.push(ArrayData::Element(AliasedYaml { alias: if s.chance(1, 8) { Some("x".into()) } else { None }, value }));
        }
        Yaml::Array(v)
    }
}
fn map_of(s: &mut Src, items: Vec<(String, Yaml)>) -> Yaml {
    if s.bool() {
        Yaml::InlineHash(items)
    } else {
        let mut v = Vec::new();
        for (key, value) in items {
            if s.chance(1, 8) {
                v.push(HashData::Comment(" c".into()));
            }
            v.push(HashData::Element(HashElement { key, value: AliasedYaml { alias: if s.chance(1, 8) { Some("x".into()) } else { None }, value } }));
        }
        Yaml::Hash(v)
    }
}
fn mostly<T: Model>(s: &mut Src) -> Yaml {
    if s.chance(1, 12) {
        junk_value(s)
    } else {
        T::value(s)
    }
}
impl<T: Model> Model for Vec<T> {
    fn want(n: &Node) -> Want<Vec<T>> {
        match inner(n) {
            Node::Seq(v) => all(v.iter().map(T::want).collect()),
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let n = s.below(4);
        let v = (0..n).map(|_| mostly::<T>(s)).collect();
        list_of(s, v)
    }
}
impl<A: Model, B: Model> Model for (A, B) {
    fn want(n: &Node) -> Want<(A, B)> {
        match inner(n) {
            Node::Seq(v) if v.len() < 2 => Want::Error,
            Node::Seq(v) => match (A::want(&v[0]), B::want(&v[1])) {
                (Want::Error, _) | (_, Want::Error) => Want::Error,
                // further items are ignored today; whether that is right is not claimed
                (Want::Is(a), Want::Is(b)) if v.len() == 2 => Want::Is((a, b)),
                _ => Want::Any,
            },
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let mut v = vec![mostly::<A>(s), mostly::<B>(s)];
        if s.chance(1, 10) {
            v.pop();
        }
        if s.chance(1, 12) {
            v.push(junk_value(s));
        }
        list_of(s, v)
    }
}
impl<A: Model> Model for (A,) {
    fn want(n: &Node) -> Want<(A,)> {
        match inner(n) {
            Node::Seq(v) => match v.first().map(A::want) {
                None | Some(Want::Error) => Want::Error,
                Some(Want::Is(a)) if v.len() == 1 => Want::Is((a,)),
                _ => Want::Any,
            },
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let mut v = vec![mostly::<A>(s)];
        if s.chance(1, 10) {
            v.push(junk_value(s));
        } else if s.chance(1, 10) {
            v.pop();
        } else if s.chance(1, 8) {
            return v.pop().unwrap();
        }
        list_of(s, v)
    }
}
impl<A: Model> Model for [A; 3] {
    fn want(n: &Node) -> Want<[A; 3]> {
        match inner(n) {
            Node::Seq(v) if v.len() < 3 => Want::Error,
            Node::Seq(v) => match all(v[..3].iter().map(A::want).collect()) {
                Want::Is(a) if v.len() == 3 => Want::Is(a.try_into().ok().unwrap()),
                Want::Error => Want::Error,
                _ => Want::Any,
            },
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let n = if s.chance(1, 6) { s.below(5) } else { 3 };
        let v = (0..n).map(|_| mostly::<A>(s)).collect();
        list_of(s, v)
    }
}

/// One value in a struct of its own: read like the value.
#[derive(Deserialize, PartialEq, Debug)]
struct New<T>(T);
impl<T: Model> Model for New<T> {
    fn want(n: &Node) -> Want<New<T>> {
        T::want(n).map(New)
    }
    fn value(s: &mut Src) -> Yaml {
        mostly::<T>(s)
    }
}
impl Model for Pair {
    fn want(n: &Node) -> Want<Pair> {
        <(String, i64)>::want(n).map(|(a, b)| Pair(a, b))
    }
    fn value(s: &mut Src) -> Yaml {
        <(String, i64)>::value(s)
    }
}
impl<T: Model> Model for BTreeMap<String, T> {
    fn want(n: &Node) -> Want<Self> {
        match inner(n) {
            Node::Map(v) => {
                // of duplicate keys the last counts, as serde's maps do
                all(v.iter().map(|(k, v)| T::want(v).map(|v| (k.clone(), v))).collect()).map(|v| v.into_iter().collect())
            }
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let n = s.below(4);
        let v = (0..n).map(|_| (s.pick(gen::SMALL_KEYS).to_string(), mostly::<T>(s))).collect();
        map_of(s, v)
    }
}
macro_rules! keyed {
    ($($k:ty, $keys:expr);*) => {$(
        impl<T: Model> Model for BTreeMap<$k, T> {
            fn want(n: &Node) -> Want<Self> {
                match inner(n) {
                    Node::Map(v) => {
                        let keys = all(v.iter().map(|(k, _)| <$k>::want(&Node::Plain(k.clone()))).collect());
                        let vals = all(v.iter().map(|(_, v)| T::want(v)).collect());
                        match (keys, vals) {
                            (Want::Error, _) | (_, Want::Error) => Want::Error,
                            (Want::Is(k), Want::Is(v)) => Want::Is(k.into_iter().zip(v).collect()),
                            _ => Want::Any,
                        }
                    }
                    _ => Want::Error,
                }
            }
            fn value(s: &mut Src) -> Yaml {
                let n = s.below(4);
                let v = (0..n).map(|_| (s.pick(&$keys).to_string(), mostly::<T>(s))).collect();
                map_of(s, v)
            }
        }
    )*};
}
keyed!(
    u16, ["0", "1", "65535", "65536", "007", "a", "12"];
    i8, ["0", "1", "127", "128", "99", "00", "true"];
    bool, ["true", "false", "yes", "No", "on", "OFF", "true", "1", "y"];
    char, ["a", "1", "b", "c", "ab", "x"];
    Unit, ["Alpha", "true", "12", "null", "with space", "Alpha", "alpha"]
);

impl Model for Unit {
    fn want(n: &Node) -> Want<Unit> {
        let name = match inner(n) {
            Node::Map(v) if v.len() == 1 => &v[0].0,
            Node::Map(_) | Node::Seq(_) => return Want::Error,
            n => scalar_text(n).unwrap(),
        };
        let at = ["Alpha", "true", "12", "null", "with space", "- x: #y"].iter().position(|x| *x == name);
        match (at, inner(n)) {
            (None, _) => Want::Error,
            // `Alpha: anything` for a variant without data is not claimed
            (Some(_), Node::Map(_)) => Want::Any,
            (Some(i), _) => Want::Is(UNITS[i]),
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let t = *s.pick(&["Alpha", "true", "12", "null", "with space", "alpha", "", "13"]);
        styled(s, t)
    }
}

/// Externally tagged, as a reader writes it by hand.
#[derive(Deserialize, PartialEq, Debug)]
enum Ext {
    Nothing,
    One(i32),
    Two(String, bool),
    Rec { a: u8, b: Option<String> },
}
impl Model for Ext {
    fn want(n: &Node) -> Want<Ext> {
        match inner(n) {
            Node::Map(v) if v.len() == 1 => match &v[0].0[..] {
                "Nothing" => Want::Any,
                "One" => i32::want(&v[0].1).map(Ext::One),
                "Two" => <(String, bool)>::want(&v[0].1).map(|(a, b)| Ext::Two(a, b)),
                "Rec" => match inner(&v[0].1) {
                    // a list in the place of a struct is not claimed
                    Node::Seq(_) => Want::Any,
                    n => Small::want(n).map(|s| Ext::Rec { a: s.a, b: s.b }),
                },
                _ => Want::Error,
            },
            Node::Map(_) | Node::Seq(_) => Want::Error,
            n => match scalar_text(n).unwrap() {
                "Nothing" => Want::Is(Ext::Nothing),
                // without data: an error or not
                "One" | "Two" | "Rec" => Want::Any,
                _ => Want::Error,
            },
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let (k, v) = match s.below(6) {
            0 => return styled(s, "Nothing"),
            1 => ("One", mostly::<i32>(s)),
            2 => ("Two", mostly::<(String, bool)>(s)),
            3 => ("Rec", mostly::<Small>(s)),
            4 => ("Other", junk_value(s)),
            _ => return junk_value(s),
        };
        let mut items = vec![(k.to_string(), v)];
        if s.chance(1, 10) {
            items.push(("One".into(), junk_value(s)));
        }
        map_of(s, items)
    }
}

#[derive(Deserialize, PartialEq, Debug)]
struct Small {
    a: u8,
    b: Option<String>,
}
impl Model for Small {
    fn want(n: &Node) -> Want<Small> {
        let Node::Map(v) = inner(n) else { return Want::Error };
        let get = |k: &str| v.iter().filter(|x| x.0 == k).map(|x| &x.1).collect::<Vec<_>>();
        let (a, b) = (get("a"), get("b"));
        if a.len() != 1 || b.len() > 1 {
            return Want::Error;
        }
        let a = u8::want(a[0]);
        let b = match b.first() {
            Some(b) => <Option<String>>::want(b),
            None => Want::Is(None),
        };
        match (a, b) {
            (Want::Error, _) | (_, Want::Error) => Want::Error,
            (Want::Is(a), Want::Is(b)) => Want::Is(Small { a, b }),
            _ => Want::Any,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let mut items = Vec::new();
        if !s.chance(1, 10) {
            items.push(("a".to_string(), mostly::<u8>(s)));
        }
        if s.chance(2, 3) {
            items.push(("b".to_string(), mostly::<Option<String>>(s)));
        }
        if s.chance(1, 5) {
            items.push(("c".to_string(), junk_value(s)));
        }
        if s.chance(1, 20) {
            items.push(("a".to_string(), mostly::<u8>(s)));
        }
        if s.bool() {
            items.reverse();
        }
        if s.chance(1, 24) {
            // the fields' values without their names
            let v = vec![u8::value(s), <Option<String>>::value(s)];
            return list_of(s, v);
        }
        map_of(s, items)
    }
}

impl<A: Model, B: Model, C: Model> Model for (A, B, C) {
    fn want(n: &Node) -> Want<(A, B, C)> {
        match inner(n) {
            Node::Seq(v) if v.len() < 3 => Want::Error,
            Node::Seq(v) => match (A::want(&v[0]), B::want(&v[1]), C::want(&v[2])) {
                (Want::Error, _, _) | (_, Want::Error, _) | (_, _, Want::Error) => Want::Error,
                (Want::Is(a), Want::Is(b), Want::Is(c)) if v.len() == 3 => Want::Is((a, b, c)),
                _ => Want::Any,
            },
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let mut v = vec![mostly::<A>(s), mostly::<B>(s), mostly::<C>(s)];
        if s.chance(1, 6) {
            v.truncate(s.below(3));
        }
        if s.chance(1, 16) {
            v.push(junk_value(s));
        }
        list_of(s, v)
    }
}
#[derive(Deserialize, PartialEq, Debug)]
struct Triple(i64, String, Option<bool>);
impl Model for Triple {
    fn want(n: &Node) -> Want<Triple> {
        <(i64, String, Option<bool>)>::want(n).map(|(a, b, c)| Triple(a, b, c))
    }
    fn value(s: &mut Src) -> Yaml {
        <(i64, String, Option<bool>)>::value(s)
    }
}

/// Nothing, which today is read from anything.
impl Model for () {
    fn want(n: &Node) -> Want<()> {
        match inner(n) {
            Node::Plain(t) if refsem::is_null(t) => Want::Is(()),
            _ => Want::Any,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let t = *s.pick(&["~", "null", "Null", "NULL"]);
        styled(s, t)
    }
}

/// Anything, read by what it looks like.
impl Model for Un {
    fn want(n: &Node) -> Want<Un> {
        Want::Is(match inner(n) {
            Node::Seq(v) => return all(v.iter().map(Un::want).collect()).map(Un::L),
            Node::Map(v) => {
                // serde keeps a number as a key from being a text
                if v.iter().any(|(k, _)| !matches!(refsem::resolve_plain(k), Data::Str(_))) {
                    return Want::Any;
                }
                return all(v.iter().map(|(k, v)| Un::want(v).map(|v| (k.clone(), v))).collect()).map(|v| Un::M(v.into_iter().collect()));
            }
            Node::Ref(_) | Node::Undef(_) | Node::Def(..) => return Want::Any,
            n => match refsem::resolve(n) {
                Data::Null => Un::Null,
                Data::Bool(b) => Un::B(b),
                Data::I64(i) => Un::I(i),
                Data::U64(u) => Un::U(u),
                Data::F64(f) => Un::F(F(f64::from_bits(f))),
                Data::Str(t) => Un::S(t),
                _ => return Want::Any,
            },
        })
    }
    fn value(s: &mut Src) -> Yaml {
        let cfg = gen::Cfg { depth: 2, max_len: 3, comments: false, anchors: false, block_scalars: false, ..gen::Cfg::default() };
        match s.weighted(&[3, 2, 1, 1]) {
            0 => gen::inline_value(s, &cfg, 2),
            1 => junk_value(s),
            2 => i64::value(s),
            _ => F::value(s),
        }
    }
}

/// Tagged inside: the fields are kept until the tag is known.
#[derive(Deserialize, PartialEq, Debug)]
#[serde(tag = "kind", rename_all = "snake_case")]
enum Inside {
    Empty,
    OneField { x: i16 },
    Texts { s: String, o: Option<String>, l: Vec<Un> },
}
impl Model for Inside {
    fn want(n: &Node) -> Want<Inside> {
        let Node::Map(v) = inner(n) else {
            return match inner(n) {
                Node::Seq(_) => Want::Any,
                _ => Want::Error,
            };
        };
        let get = |k: &str| v.iter().filter(|x| x.0 == k).map(|x| &x.1).collect::<Vec<_>>();
        let kind = get("kind");
        if kind.len() != 1 || v.iter().any(|(k, _)| get(k).len() > 1) {
            return if kind.is_empty() { Want::Error } else { Want::Any };
        }
        let Data::Str(kind) = refsem::resolve(inner(kind[0])) else { return Want::Any };
        fn text(n: &Node) -> Want<String> {
            match refsem::resolve(inner(n)) {
                Data::Str(t) => Want::Is(t),
                Data::Seq(_) | Data::Map(_) => Want::Error,
                _ => Want::Any,
            }
        }
        match &kind[..] {
            "empty" => Want::Is(Inside::Empty),
            "one_field" => match get("x").first().map(|n| refsem::resolve(inner(n))) {
                None | Some(Data::Null | Data::Bool(_) | Data::Seq(_) | Data::Map(_)) => Want::Error,
                Some(Data::I64(i)) => match i16::try_from(i) {
                    Ok(x) => Want::Is(Inside::OneField { x }),
                    Err(_) => Want::Error,
                },
                Some(Data::U64(_)) => Want::Error,
                _ => Want::Any,
            },
            "texts" => {
                let s = match get("s").first() {
                    None => return Want::Error,
                    Some(n) => text(n),
                };
                let o = match get("o").first() {
                    None => Want::Is(None),
                    Some(n) if refsem::resolve(inner(n)) == Data::Null => Want::Is(None),
                    Some(n) => text(n).map(Some),
                };
                let l = match get("l").first() {
                    None => return Want::Error,
                    Some(n) => <Vec<Un>>::want(n),
                };
                match (s, o, l) {
                    (Want::Error, _, _) | (_, Want::Error, _) | (_, _, Want::Error) => Want::Error,
                    (Want::Is(s), Want::Is(o), Want::Is(l)) => Want::Is(Inside::Texts { s, o, l }),
                    _ => Want::Any,
                }
            }
            _ => Want::Error,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let kind = *s.pick(&["empty", "one_field", "one_field", "texts", "texts", "texts", "Empty", "other"]);
        let kind = (!s.chance(1, 12)).then(|| ("kind".to_string(), styled(s, kind)));
        let mut items = Vec::new();
        if s.chance(3, 5) {
            items.push(("x".to_string(), mostly::<i16>(s)));
        }
        if s.chance(4, 5) {
            items.push(("s".to_string(), mostly::<String>(s)));
        }
        if s.bool() {
            items.push(("o".to_string(), mostly::<Option<String>>(s)));
        }
        if s.chance(4, 5) {
            items.push(("l".to_string(), mostly::<Vec<Un>>(s)));
        }
        if let Some(k) = kind {
            items.insert(s.below(items.len() + 1), k);
        }
        map_of(s, items)
    }
}

/// Known fields beside any others.
#[derive(Deserialize, PartialEq, Debug)]
struct Spread {
    a: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, Un>,
    b: Option<char>,
}
impl Model for Spread {
    fn want(n: &Node) -> Want<Spread> {
        let Node::Map(v) = inner(n) else { return Want::Error };
        let get = |k: &str| v.iter().filter(|x| x.0 == k).map(|x| &x.1).collect::<Vec<_>>();
        let (a, b) = (get("a"), get("b"));
        if a.len() != 1 || b.len() > 1 {
            return Want::Error;
        }
        let b = match b.first() {
            None => Want::Is(None),
            Some(b) => <Option<char>>::want(b),
        };
        // here the keys are texts, whatever they look like
        let rest = all(v.iter().filter(|x| x.0 != "a" && x.0 != "b").map(|(k, v)| Un::want(v).map(|v| (k.clone(), v))).collect());
        match (u8::want(a[0]), b, rest) {
            (Want::Error, _, _) | (_, Want::Error, _) => Want::Error,
            (Want::Is(a), Want::Is(b), Want::Is(rest)) => Want::Is(Spread { a, rest: rest.into_iter().collect(), b }),
            _ => Want::Any,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let mut items = Vec::new();
        if !s.chance(1, 12) {
            items.push(("a".to_string(), mostly::<u8>(s)));
        }
        if s.bool() {
            items.push(("b".to_string(), mostly::<Option<char>>(s)));
        }
        for _ in 0..s.below(4) {
            let k = s.pick(&["c", "k1", "x_y", "9", "true", "a b", "k2", "null"]).to_string();
            items.insert(s.below(items.len() + 1), (k, Un::value(s)));
        }
        map_of(s, items)
    }
}

/// No fields but these; one has two names, one its own default.
#[derive(Deserialize, PartialEq, Debug)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: i8,
    #[serde(default)]
    b: bool,
    #[serde(alias = "cc")]
    c: Option<String>,
}
impl Model for Strict {
    fn want(n: &Node) -> Want<Strict> {
        let Node::Map(v) = inner(n) else { return Want::Error };
        let get = |k: &[&str]| v.iter().filter(|x| k.contains(&&x.0[..])).map(|x| &x.1).collect::<Vec<_>>();
        let (a, b, c) = (get(&["a"]), get(&["b"]), get(&["c", "cc"]));
        if a.len() != 1 || b.len() > 1 || c.len() > 1 || a.len() + b.len() + c.len() != v.len() {
            return Want::Error;
        }
        let b = b.first().map_or(Want::Is(false), |n| bool::want(n));
        let c = c.first().map_or(Want::Is(None), |n| <Option<String>>::want(n));
        match (i8::want(a[0]), b, c) {
            (Want::Error, _, _) | (_, Want::Error, _) | (_, _, Want::Error) => Want::Error,
            (Want::Is(a), Want::Is(b), Want::Is(c)) => Want::Is(Strict { a, b, c }),
            _ => Want::Any,
        }
    }
    fn value(s: &mut Src) -> Yaml {
        let mut items = Vec::new();
        if !s.chance(1, 12) {
            items.push(("a".to_string(), mostly::<i8>(s)));
        }
        if s.bool() {
            items.push(("b".to_string(), mostly::<bool>(s)));
        }
        if s.bool() {
            items.push((s.pick(&["c", "cc"]).to_string(), mostly::<Option<String>>(s)));
        }
        if s.chance(1, 6) {
            let k = s.pick(&["c", "cc", "C", "a", "b", "d", "aa"]).to_string();
            items.insert(s.below(items.len() + 1), (k, junk_value(s)));
        }
        map_of(s, items)
    }
}

#[derive(Deserialize, PartialEq, Debug)]
struct Wide {
    small: Small,
    #[serde(default)]
    list: Vec<(char, i16)>,
    map: BTreeMap<String, Option<F>>,
    e: Ext,
}
impl Model for Wide {
    fn want(n: &Node) -> Want<Wide> {
        let Node::Map(v) = inner(n) else { return Want::Error };
        let mut any = false;
        macro_rules! part {
            ($k:expr, $t:ty, $missing:expr) => {{
                let found: Vec<&Node> = v.iter().filter(|x| x.0 == $k).map(|x| &x.1).collect();
                match found.len() {
                    0 => match $missing {
                        Some(d) => Some(d),
                        None => return Want::Error,
                    },
                    1 => match <$t>::want(found[0]) {
                        Want::Is(t) => Some(t),
                        Want::Error => return Want::Error,
                        Want::Any => {
                            any = true;
                            None
                        }
                    },
                    _ => return Want::Error,
                }
            }};
        }
        let small = part!("small", Small, None);
        let list = part!("list", Vec<(char, i16)>, Some(vec![]));
        let map = part!("map", BTreeMap<String, Option<F>>, None);
        let e = part!("e", Ext, None);
        if any {
            return Want::Any;
        }
        Want::Is(Wide { small: small.unwrap(), list: list.unwrap(), map: map.unwrap(), e: e.unwrap() })
    }
    fn value(s: &mut Src) -> Yaml {
        let mut items = vec![("small".to_string(), mostly::<Small>(s)), ("map".to_string(), mostly::<BTreeMap<String, Option<F>>>(s)), ("e".to_string(), mostly::<Ext>(s))];
        if s.bool() {
            items.insert(s.below(4), ("list".to_string(), mostly::<Vec<(char, i16)>>(s)));
        }
        if s.chance(1, 12) {
            items.remove(s.below(items.len()));
        }
        map_of(s, items)
    }
}

static C10: Prop = Prop {
    id: "C10",
    title: "Typed reading gives the value the text says, or an error, never a panic",
    rule: "a case is one of 48 types (every integer width, floats, bool, char, string, options, lists, tuples, arrays, structs of one to three unnamed fields, maps with text, number, boolean, letter and unit-variant keys, structs with defaults, second names, further or no further fields, enums without data, externally and internally tagged and untagged) and a YAML value that mostly fits it (edge numbers, wrong styles and shapes, missing, unknown and repeated fields, definitions, sometimes through a reference), read from the tree and as a list item of a text; the result must be the value, or an error, that the reference reader for the type says. Non-trivial: the result is a value, or the YAML value has the type's outer shape",
    quick_cases: 8_000_000,
    thorough_cases: 80_000_000,
    assumptions: &[
        "not claimed either way: items after a tuple's last, data given to a unit variant or missing for others, a list in the place of a struct variant's fields",
        "quoted numbers count as numbers for typed readers, as the crate does",
    ],
    run: c10,
    pinned: no_pinned,
};

/// Collections as they can be written: empty ones, and those inside flow collections, in flow style.
fn writable(y: Yaml, flow: bool) -> Yaml {
    match y {
        Yaml::Array(v) if flow || v.is_empty() => Yaml::InlineArray(
            v.into_iter()
                .filter_map(|d| match d {
                    ArrayData::Element(e) => Some(writable(e.value, true)),
                    _ => None,
                })
                .collect(),
        ),
        Yaml::Hash(v) if flow || v.is_empty() => Yaml::InlineHash(
            v.into_iter()
                .filter_map(|d| match d {
                    HashData::Element(e) => Some((e.key, writable(e.value.value, true))),
                    _ => None,
                })
                .collect(),
        ),
        Yaml::Array(v) => Yaml::Array(
            v.into_iter()
                .map(|d| match d {
                    ArrayData::Element(e) => ArrayData::Element(AliasedYaml { alias: e.alias, value: writable(e.value, false) }),
                    d => d,
                })
                .collect(),
        ),
        Yaml::Hash(v) => Yaml::Hash(
            v.into_iter()
                .map(|d| match d {
                    HashData::Element(e) => HashData::Element(HashElement {
                        key: e.key,
                        value: AliasedYaml { alias: e.value.alias, value: writable(e.value.value, false) },
                    }),
                    d => d,
                })
                .collect(),
        ),
        Yaml::InlineArray(v) => Yaml::InlineArray(v.into_iter().map(|v| writable(v, true)).collect()),
        Yaml::InlineHash(v) => Yaml::InlineHash(v.into_iter().map(|(k, v)| (k, writable(v, true))).collect()),
        // fine in a flow collection only, or in block style only
        Yaml::LiteralString(..) | Yaml::FoldedString(..) if flow => Yaml::UnquotedString("v".into()),
        Yaml::UnquotedString(t) if !(if flow { gen::plain_inline_ok(&t) } else { gen::plain_block_ok(&t) }) => Yaml::UnquotedString("v".into()),
        y => y,
    }
}

fn typed<T: Model>(s: &mut Src, c: &mut Ctx) -> Outcome {
    let y = writable(mostly::<T>(s), false);
    // put into a list, sometimes behind a reference
    let by_ref = s.chance(1, 4);
    let cfg = gen::Cfg { depth: 1, ..gen::Cfg::default() };
    let root = if by_ref {
        Yaml::Array(vec![
            ArrayData::Element(AliasedYaml { alias: Some("r".into()), value: y.clone() }),
            ArrayData::Element(AliasedYaml { alias: None, value: Yaml::Anchor("r".into()) }),
        ])
    } else {
        let _ = &cfg;
        Yaml::Array(vec![ArrayData::Element(AliasedYaml { alias: None, value: y.clone() })])
    };
    let node = refsem::node(&y);
    let want = T::want(&node);
    let ty = std::any::type_name::<T>();
    let doc = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(root)] };
    let text = if s.chance(1, 3) { layout::document(s, &doc, false) } else { doc.format().unwrap() };
    c.case = format!("{ty}\n{text}");
    let n = if by_ref { 2 } else { 1 };
    let from_text = from_yaml_str::<Vec<T>>(&text);
    if let Err(e) = &from_text {
        if e.0.contains("call limit reached") {
            return Outcome::Inconclusive("parser call limit");
        }
    }
    // the text is a valid document whatever the type
    let _ = must_doc!(text);
    let from_tree = from_yaml::<T>(y.clone());
    match want {
        Want::Any => {
            c.label("not claimed");
        }
        Want::Is(w) => {
            c.label("a value");
            c.nontrivial = true;
            match from_tree {
                Ok(g) if g == w => {}
                o => fail!("{y:?} as {ty} gives {o:?} instead of {w:?}"),
            }
            match from_text {
                Ok(g) if g.len() == n && g.iter().all(|g| *g == w) => {}
                o => fail!("{text}\n--- as Vec<{ty}> gives {o:?} instead of {n} times {w:?}"),
            }
        }
        Want::Error => {
            c.label("an error");
            c.nontrivial = refsem::nodes(&y) >= 2;
            if let Ok(g) = from_tree {
                fail!("{y:?} as {ty} gives {g:?} instead of an error");
            }
            if let Ok(g) = from_text {
                fail!("{text}\n--- as Vec<{ty}> gives {g:?} instead of an error");
            }
        }
    }
    Outcome::Pass
}

fn c10(s: &mut Src, c: &mut Ctx) -> Outcome {
    match s.below(48) {
        0 => typed::<i8>(s, c),
        1 => typed::<i16>(s, c),
        2 => typed::<i32>(s, c),
        3 => typed::<i64>(s, c),
        4 => typed::<i128>(s, c),
        5 => typed::<u8>(s, c),
        6 => typed::<u16>(s, c),
        7 => typed::<u32>(s, c),
        8 => typed::<u64>(s, c),
        9 => typed::<u128>(s, c),
        10 => typed::<bool>(s, c),
        11 => typed::<F>(s, c),
        12 => typed::<F32>(s, c),
        13 => typed::<String>(s, c),
        14 => typed::<char>(s, c),
        15 => typed::<Option<i32>>(s, c),
        16 => typed::<Option<String>>(s, c),
        17 => typed::<Option<bool>>(s, c),
        18 => typed::<Vec<u8>>(s, c),
        19 => typed::<Vec<Option<String>>>(s, c),
        20 => typed::<(i8, String)>(s, c),
        21 => typed::<Vec<(u16, bool)>>(s, c),
        22 => typed::<BTreeMap<String, i32>>(s, c),
        23 => typed::<BTreeMap<u16, Vec<F>>>(s, c),
        24 => typed::<Unit>(s, c),
        25 => typed::<Ext>(s, c),
        26 => typed::<Small>(s, c),
        27 => typed::<Wide>(s, c),
        28 => typed::<Option<Vec<Ext>>>(s, c),
        29 => typed::<BTreeMap<String, Option<Small>>>(s, c),
        30 => typed::<(i32,)>(s, c),
        31 => typed::<Vec<New<Option<(String,)>>>>(s, c),
        32 => typed::<[i16; 3]>(s, c),
        33 => typed::<BTreeMap<String, Pair>>(s, c),
        34 => typed::<New<Wide>>(s, c),
        35 => typed::<(u8, bool, Option<i64>)>(s, c),
        36 => typed::<Vec<Triple>>(s, c),
        37 => typed::<Vec<Vec<i32>>>(s, c),
        38 => typed::<BTreeMap<bool, ()>>(s, c),
        39 => typed::<BTreeMap<char, Option<i8>>>(s, c),
        40 => typed::<BTreeMap<Unit, String>>(s, c),
        41 => typed::<BTreeMap<i8, Vec<bool>>>(s, c),
        42 => typed::<Un>(s, c),
        43 => typed::<Inside>(s, c),
        44 => typed::<Spread>(s, c),
        45 => typed::<Strict>(s, c),
        46 => typed::<Vec<Inside>>(s, c),
        _ => typed::<(Vec<i32>, BTreeMap<String, Option<Vec<u8>>>)>(s, c),
    }
}
