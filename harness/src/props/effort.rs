//! C21: the work of parsing stays in proportion to the text.
//!
//! The meter is pest's own count of rule calls: `set_limits` sets the limit for the process, and
//! a text that reaches it is rejected with "call limit reached".  The texts are bounded so that
//! the limit is many times what a text of that size needs.

use super::{parse, Parsed};
use crate::engine::*;
use crate::{fail, gen, layout, model, mutate, refsem};
use serde::Serialize;
use yaml_subset::yaml::*;

pub static PROPS: &[&Prop] = &[&C21];

static C21: Prop = Prop {
    id: "C21",
    title: "Parsing, writing and reading take work in proportion to the text",
    rule: "a case is a text: a random unit of grammar tokens repeated, with or without growing indentation, between a random head and tail, up to 400 bytes (50%), a random document nested up to 14 levels with random edits, up to 700 bytes (15%), a random valid document written out repeatedly up to 24 kB (12%), a valid document nested up to 90 levels (11%), a document with one long scalar, key, comment, name or list up to 24 kB (12%). It is parsed with pest's call limit at 3,000,000; what parses is formatted, prettied, parsed again, looked up, edited and read. Bytes allocated and CPU time of every step are held against a limit in proportion to the text. In one case of six it is instead a random tree and the same eight times as wide or as deep: every step may allocate at most twice as much per unit of size (nodes and texts) on the large one, plus 20 bytes. Non-trivial: six repetitions or levels, or 300 bytes",
    quick_cases: 120_000,
    thorough_cases: 6_000_000,
    assumptions: &[
        "the work of the grammar is counted in calls of rules, by pest itself; other work in bytes allocated and CPU time of the thread",
        "the limits are 5 to 20 times the largest counts found by random search and hill climbing on texts of these sizes (see DESIGN.md): growth that stays below them at these sizes is not told from linear growth",
        "documents whose references multiply when they are replaced are not read (their data is that large)",
    ],
    run: c21,
    pinned: c21_pinned,
};

const UNITS: &[&str] = &[
    "- ", "- ", "a: ", "a:", "a:\n", "\n", "\n", " ", "  ", "# c", "# c\n", "&x ", "&x", "*x", "'", "''", "\"", "\\", "|", ">", "|\n", "x", "x\n", ", ", ": ", "[", "]", "{", "}",
    "{a: ", "a: x\n", "- x\n", "- a: x\n", "- a:\n", "a: &x\n", "- &x\n", "\r\n", "\r", "\n\n", " # c\n", "a: # c\n", "- # c\n", "- - ", "? ", "a: |\n", "\u{a0}", "\t",
];

fn soup(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.range(lo, hi);
    (0..n).map(|_| *s.pick(UNITS)).collect()
}

fn repeated(s: &mut Src) -> (String, usize) {
    let (head, unit, tail) = (soup(s, 0, 2), soup(s, 1, 5), soup(s, 0, 3));
    // more indentation (or less) with every repetition
    let grow = *s.pick(&[0usize, 0, 0, 1, 2, 4]);
    let fall = grow > 0 && s.chance(1, 4);
    let n = s.range(4, 60);
    let mut t = format!("---\n{head}");
    let mut done = 0;
    for i in 0..n {
        let ind = " ".repeat(grow * if fall { n - i } else { i });
        let u: String = if grow == 0 {
            unit.clone()
        } else {
            unit.split_inclusive('\n').map(|l| format!("{ind}{l}")).collect()
        };
        if t.len() + u.len() + tail.len() > 400 {
            break;
        }
        t.push_str(&u);
        done += 1;
    }
    t.push_str(&tail);
    (t, done)
}

/// A valid document with one long path down and entries before and after it.
fn nested(s: &mut Src, levels: usize) -> String {
    let mut t = String::from("---\n");
    // (column, entry of a list?)
    let mut open: Vec<(usize, bool)> = Vec::new();
    let mut col = 0;
    let noise = s.bool();
    for i in 0..levels {
        let list = s.bool();
        if noise && s.chance(1, 6) {
            t.push_str(&format!("{}# c\n", " ".repeat(s.below(8))));
        }
        if noise && s.chance(1, 6) {
            t.push_str(&format!("{}{}\n", " ".repeat(col), if list { "- v" } else { "b: v" }));
        }
        open.push((col, list));
        let last = i + 1 == levels;
        let def = if s.chance(1, 6) { " &d" } else { "" };
        t.push_str(&" ".repeat(col));
        t.push_str(if list { "-" } else { "a:" });
        t.push_str(def);
        if last {
            t.push_str(" v\n");
            break;
        }
        if list && def.is_empty() && s.chance(1, 3) {
            // a mapping or a list in the line of the dash
            if s.bool() {
                t.push_str(" c: v\n");
                open.push((col + 2, false));
                col += 2;
                t.push_str(&format!("{}a:", " ".repeat(col)));
            } else {
                t.push_str(" - v\n");
                open.push((col + 2, true));
                col += 2;
                t.push_str(&format!("{}-", " ".repeat(col)));
            }
        }
        t.push_str(if s.chance(1, 8) { " # c\n" } else if t.ends_with('-') { " \n" } else { "\n" });
        col += *s.pick(&[2usize, 2, 2, 4, 1]);
    }
    // entries behind the nested ones
    while let Some((c, list)) = open.pop() {
        if noise && s.chance(1, 3) {
            t.push_str(&format!("{}{}\n", " ".repeat(c), if list { "- w" } else { "z: w" }));
        }
    }
    t
}

/// A valid document with something long in it.
fn long(s: &mut Src) -> (String, usize) {
    let size = s.range(1, 24) * 1000;
    let piece: String = s.pick(&["a", "ab ", "word and words ", "- ", "# ", "é ", "a: b ", "x", "' ", "\" ", "\\", "   ", "日本", "a,"]).to_string();
    let n = size / piece.len();
    let lines = |s: &mut Src, piece: &str| -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        let width = *s.pick(&[1usize, 3, 20, 200]);
        let blank = s.chance(1, 3);
        let deeper = s.chance(1, 3);
        let mut left = n;
        while left > 0 {
            let k = width.min(left);
            left -= k;
            let l = piece.repeat(k).trim_end().to_string();
            v.push(if deeper && !v.is_empty() && !l.is_empty() && v.len() % 3 == 0 { format!("  {l}") } else { l });
            if blank && v.len() % 2 == 0 {
                v.push(String::new());
            }
        }
        v.iter_mut().for_each(|l| *l = l.trim_end().to_string());
        if let Some(l) = v.first_mut() {
            *l = format!("t{}", l.trim_start());
        }
        v
    };
    let many = |unit: &str| unit.repeat(size / unit.len());
    let t = match s.below(14) {
        0 => format!("---\na: {}\n", many("word ").trim_end()),
        1 => format!("---\na: '{}'\n", piece.repeat(n).replace('\'', "''")),
        2 => format!("---\na: \"{}\"\n", piece.repeat(n).replace('\\', "\\\\").replace('"', "\\\"")),
        3 => format!("---\na: |\n{}\n", lines(s, &piece).iter().map(|l| format!("  {l}\n")).collect::<String>()),
        4 => format!("---\na: >\n{}\n", lines(s, &piece).iter().map(|l| format!("  {l}\n")).collect::<String>()),
        5 => format!("---\n{}: v\n", many("key ").trim_end()),
        6 => format!("---\na: v # {}\n", many(" # comment")),
        7 => format!("---\n{}a: v\n", many("# comment\n")),
        8 => format!("---\na: &{} v\nb: *x\n", many("name")),
        9 => format!("---\na: [ {} ]\n", many("v, ").trim_end().trim_end_matches(',')),
        10 => format!("---\na: {{ {} }}\n", many("k: v, ").trim_end().trim_end_matches(',')),
        11 => format!("---\na: \"x{}y\"\n", if s.bool() { many("\n") } else { many("b\n") }),
        12 => format!("---\na: v\n{}b: v\n", many(s.pick(&["\n", "  \n", "\r\n", " \n\n"]))),
        _ => format!("---\n{}a:{}v\n", many("\n# c\n"), many(" ")),
    };
    (t, n)
}

const CALLS: usize = 3_000_000;

fn limit() {
    pest::set_call_limit(std::num::NonZeroUsize::new(CALLS));
}

/// Limits: bytes allocated per byte of text, and microseconds per byte.
struct Limit {
    bytes: u64,
    nanos: u64,
}

const PARSE: Limit = Limit { bytes: 4_000, nanos: 10_000 };
const OTHER: Limit = Limit { bytes: 600, nanos: 1_000 };

fn within<T>(what: &str, text: &str, size: usize, l: &Limit, f: impl FnOnce() -> T) -> Result<T, String> {
    let (r, b, t) = cost(f);
    // a constant share for small texts and for what the system does in between
    let (max_b, max_t) = (l.bytes * (size as u64 + 200), std::time::Duration::from_millis(300) + std::time::Duration::from_nanos(l.nanos * size as u64));
    if MEASURING.load(std::sync::atomic::Ordering::Relaxed) {
        let mut m = SHARES.lock().unwrap();
        let e = m.entry(what.split(['(', '"']).next().unwrap().to_string()).or_insert((0.0, 0, 0.0, 0));
        let (x, y) = (b as f64 / max_b as f64, t.as_secs_f64() / max_t.as_secs_f64());
        if x > e.0 {
            (e.0, e.1) = (x, size);
        }
        if y > e.2 {
            (e.2, e.3) = (y, size);
        }
    }
    if b > max_b {
        return Err(format!("{what} a text of {} bytes allocates {b} bytes (limit {max_b}):\n{text}", text.len()));
    }
    if t > max_t {
        return Err(format!("{what} a text of {} bytes takes {t:?} of CPU time (limit {max_t:?}):\n{text}", text.len()));
    }
    Ok(r)
}

macro_rules! ok {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => return Outcome::Fail(m),
        }
    };
}

fn c21(s: &mut Src, c: &mut Ctx) -> Outcome {
    limit();
    if s.chance(1, 6) {
        return scaled(s, c);
    }
    let (t, n, valid) = match s.weighted(&[50, 15, 12, 11, 12]) {
        0 => {
            c.label("repeated unit");
            let (t, n) = repeated(s);
            (t, n, false)
        }
        1 => {
            c.label("edited nested document");
            let n = s.range(2, 14);
            let t = nested(s, n);
            let t = mutate::mutate(s, &t);
            (t.chars().take(700).collect(), n, false)
        }
        2 => {
            c.label("repeated document");
            let d = gen::document(s, &gen::Cfg { depth: 4, max_len: 5, ..Default::default() });
            let (t, _) = layout::document_any_eol(s, &d);
            // the lines of the root, once more
            let at = t.find("---").map(|i| i + 3).unwrap_or(0);
            let (head, body) = t.split_at(at);
            let n = (s.range(1, 24) * 1000 / body.len().max(1)).clamp(1, 600);
            (format!("{head}{}", body.repeat(n)), n, n == 1)
        }
        3 => {
            c.label("deep document");
            let n = s.range(2, 90);
            (nested(s, n), n, true)
        }
        _ => {
            c.label("long part");
            let (t, n) = long(s);
            (t, n, true)
        }
    };
    c.nontrivial = n >= 6 || t.len() >= 300;
    c.case = t.clone();
    let d = match ok!(within("parsing", &t, t.len(), &PARSE, || parse(&t))) {
        Parsed::Limit => fail!("parsing a text of {} bytes takes more than {CALLS} calls of grammar rules:\n{t}", t.len()),
        Parsed::Rejected(e) if valid => fail!("a valid document is rejected:\n{t}\n--- error ---\n{e}"),
        Parsed::Rejected(_) => {
            c.label("rejected");
            return Outcome::Pass;
        }
        Parsed::Doc(d) => d,
    };
    c.label("parsed");
    // the indentation of deep nesting is part of the formatted text
    let f = ok!(within("formatting", &t, t.len() * 24, &OTHER, || d.format()));
    let f = match f {
        Ok(f) => f,
        Err(e) => fail!("format: {e}\n{t}"),
    };
    let size = t.len() + f.len();
    ok!(within("formatting", &t, size, &OTHER, || d.format().is_ok()));
    let p = ok!(within("prettying", &t, size, &OTHER, || d.clone().pretty()));
    let g = match ok!(within("formatting after prettying", &t, size * 4, &OTHER, || p.format())) {
        Ok(g) => g,
        Err(e) => fail!("format after pretty: {e}\n{t}"),
    };
    for (what, f) in [("parsing the formatted", &f), ("parsing the prettied", &g)] {
        // of the same size as the texts above, or it is not held against their limit
        if f.len() <= 24_000 {
            if let Parsed::Limit = ok!(within(what, f, f.len(), &PARSE, || parse(f))) {
                fail!("{what} text of {} bytes takes more than {CALLS} calls of grammar rules:\n{f}", f.len());
            }
        }
    }
    let mut root = gen::root(&d).clone();
    for _ in 0..2 {
        let p = model::path(s, &root, 5);
        // (every index of a path goes over the rest of the path)
        if p.show().len() > 300 {
            continue;
        }
        let real = p.real();
        let _ = ok!(within(&format!("looking up {:?} in", p.show()), &t, size, &OTHER, || root.find_values(&real).0.len()));
    }
    ok!(within("visiting and decoding", &t, size, &OTHER, || {
        let mut all = 0;
        root.visit_yaml(&mut |a: &AliasedYaml| all += a.value.as_string().map(|x| x.len()).unwrap_or(0));
        all
    }));
    let op = model::simple_op(s, &root, &gen::Cfg { depth: 1, small_keys: true, ..Default::default() });
    if op.show().len() <= 300 {
        let at = op.path().real();
        ok!(within(&format!("{} in", op.show()), &t, size, &OTHER, || op.real_at(&at, &mut root)));
    }
    // the texts of the document as Rust values
    let mut texts: Vec<String> = Vec::new();
    root.visit_yaml(&mut |a: &AliasedYaml| texts.extend(a.value.as_string()));
    let total = texts.iter().map(|x| x.len() + 8).sum::<usize>();
    let value: std::collections::BTreeMap<String, Vec<String>> = [("a".to_string(), texts)].into();
    match ok!(within("serializing the texts of", &t, total, &OTHER, || value.serialize(serializer::YamlSerializer::new()))) {
        Ok(y) => {
            let _ = ok!(within("reading the serialized texts of", &t, total, &OTHER, || {
                from_yaml::<std::collections::BTreeMap<String, Vec<String>>>(y).is_ok()
            }));
        }
        Err(e) => fail!("serializing texts: {e}\n{t}"),
    }
    if readable(gen::root(&d)) {
        c.label("read");
        let y = gen::root(&d).clone();
        let _ = ok!(within("reading", &t, size, &OTHER, || from_yaml::<super::serde_props::Gen>(y).is_ok()));
    }
    Outcome::Pass
}

/// A tree and the same eight times as large: as often as wide or as deep.
fn two_sizes(s: &mut Src, c: &mut Ctx) -> (Yaml, Yaml, model::Path, model::Path) {
    let bare = |value: Yaml| AliasedYaml { alias: None, value };
    if s.bool() {
        c.label("eight times as wide");
        let cfg = gen::Cfg { depth: 3, max_len: 4, small_keys: s.bool(), ..Default::default() };
        let root = gen::root(&gen::document(s, &cfg)).clone();
        // the copies next to each other, or in a list or under keys of their own
        let inside = s.below(3);
        let k = s.range(3, 24);
        let make = |k: usize| match (inside, &root) {
            (0, Yaml::Hash(d)) => Yaml::Hash((0..k).flat_map(|_| d.iter().cloned()).collect()),
            (0, Yaml::Array(d)) => Yaml::Array((0..k).flat_map(|_| d.iter().cloned()).collect()),
            (1, _) => Yaml::Hash((0..k).map(|i| HashData::Element(HashElement { key: format!("key{}", 1000 + i), value: bare(root.clone()) })).collect()),
            _ => Yaml::Array((0..k).map(|_| ArrayData::Element(bare(root.clone()))).collect()),
        };
        let (a, b) = (make(k), make(8 * k));
        let p = model::path(s, &a, 5);
        return (a, b, p.clone(), p);
    }
    c.label("eight times as deep");
    let kinds: Vec<usize> = (0..s.range(1, 4)).map(|_| s.below(6)).collect();
    let leaf = gen::value(s, &gen::Cfg { depth: 1, max_len: 3, ..Default::default() }, 1).value;
    let key = gen::small_key(s);
    let n = s.range(4, 24);
    let conds = s.bool();
    let make = |n: usize| {
        let mut y = leaf.clone();
        let mut steps = Vec::new();
        for i in 0..n {
            let entry = |y: Yaml| HashData::Element(HashElement { key: key.clone(), value: bare(y) });
            let side = || Yaml::UnquotedString("side".into());
            // what the step must find below it
            let wanted = if conds && i > 0 && kinds[(i - 1) % kinds.len()] == 1 { vec![model::Cond { field: format!("{key}2"), value: "side".to_string() }] } else { vec![] };
            let (z, st) = match kinds[i % kinds.len()] {
                0 => (Yaml::Hash(vec![entry(y)]), model::Step::Key(key.clone(), wanted)),
                1 => {
                    let other = HashData::Element(HashElement { key: format!("{key}2"), value: bare(side()) });
                    (Yaml::Hash(vec![other, HashData::Comment(" c".into()), entry(y)]), model::Step::Key(key.clone(), wanted))
                }
                2 => (Yaml::Array(vec![ArrayData::Element(bare(y))]), model::Step::All(wanted)),
                3 => (Yaml::Array(vec![ArrayData::Element(bare(y)), ArrayData::Element(bare(side()))]), model::Step::Idx(vec![0], wanted)),
                4 => (Yaml::InlineArray(vec![side(), y]), model::Step::Idx(vec![1], wanted)),
                _ => (Yaml::Hash(vec![entry(y), HashData::InlineComment(" i".into())]), model::Step::Key(key.clone(), wanted)),
            };
            y = z;
            steps.push(st);
        }
        steps.reverse();
        (y, model::Path { root: vec![], steps })
    };
    let ((a, pa), (b, pb)) = (make(n), make(8 * n));
    (a, b, pa, pb)
}

/// What a tree amounts to: its nodes and their texts, however deep they are.
fn mass(y: &Yaml) -> u64 {
    let mut m = 0;
    refsem::each(y, false, &mut |y, _| {
        m += 16;
        m += match y {
            Yaml::Hash(d) => d
                .iter()
                .map(|d| match d {
                    HashData::Element(e) => 16 + e.key.len() + e.value.alias.as_ref().map(|a| a.len()).unwrap_or(0),
                    HashData::Comment(c) | HashData::InlineComment(c) => 16 + c.len(),
                })
                .sum::<usize>(),
            Yaml::Array(d) => d
                .iter()
                .map(|d| match d {
                    ArrayData::Element(e) => 16 + e.alias.as_ref().map(|a| a.len()).unwrap_or(0),
                    ArrayData::Comment(c) | ArrayData::InlineComment(c) => 16 + c.len(),
                })
                .sum::<usize>(),
            Yaml::InlineHash(d) => d.iter().map(|(k, _)| 16 + k.len()).sum(),
            Yaml::InlineArray(d) => d.len(),
            o => refsem::text(o).map(|t| t.len()).unwrap_or(0),
        } as u64;
    });
    m
}

/// Do the references multiply its data no more than twice?
fn readable(y: &Yaml) -> bool {
    let mut n = 10;
    refsem::each(y, false, &mut |_, _| n += 2);
    refsem::substitute(&refsem::node(y), n).is_some()
}

struct Ser<'a>(&'a refsem::Data);
impl Serialize for Ser<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use refsem::Data::*;
        match self.0 {
            Bool(b) => s.serialize_bool(*b),
            I64(i) => s.serialize_i64(*i),
            U64(u) => s.serialize_u64(*u),
            F64(f) => s.serialize_f64(f64::from_bits(*f)),
            Str(t) => s.serialize_str(t),
            Seq(v) => s.collect_seq(v.iter().map(Ser)),
            Map(v) => s.collect_map(v.iter().map(|(k, v)| (k, Ser(v)))),
            _ => s.serialize_unit(),
        }
    }
}

/// Something eight times as large takes about eight times the work.
fn scaled(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (a, b, pa, pb) = two_sizes(s, c);
    c.nontrivial = true;
    let doc = |y: &Yaml| Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y.clone())] };
    let (da, db) = (doc(&a), doc(&b));
    let (ma, mb) = (mass(&a), mass(&b));
    let small = da.format().unwrap_or_default();
    c.case = format!("{}\n{small}", pa.show());
    // the work on the small and on the large one, each with the size that it is for
    let check = |what: &str, one: (u64, u64), eight: (u64, u64)| -> Result<(), String> {
        let rate = |(w, size): (u64, u64)| w as f64 / size.max(1) as f64;
        let (r1, r8) = (rate(one), rate(eight));
        if MEASURING.load(std::sync::atomic::Ordering::Relaxed) {
            let mut m = SHARES.lock().unwrap();
            let e = m.entry(format!("scaled: {}", what.split(['(', '"']).next().unwrap())).or_insert((0.0, 0, 0.0, 0));
            let x = r8 / (2.0 * r1 + SLACK);
            if x > e.0 {
                (e.0, e.1) = (x, one.1 as usize);
            }
        }
        if r8 > 2.0 * r1 + SLACK {
            return Err(format!(
                "{what}: {} bytes for a tree of size {}, but {} for one of size {} that is the same eight times as large\n--- the small one\n{small}",
                one.0, one.1, eight.0, eight.1
            ));
        }
        Ok(())
    };
    let format = |d: &Document| {
        let m = mass(gen::root(d));
        let (t, w, _) = cost(|| d.format().unwrap_or_default());
        (w, m + t.len() as u64)
    };
    ok!(check("formatting", format(&da), format(&db)));
    let pretty = |d: &Document, m: u64| {
        let d = d.clone();
        let (p, w, _) = cost(move || d.pretty());
        (p, (w, m))
    };
    let ((pda, wa), (pdb, wb)) = (pretty(&da, ma), pretty(&db, mb));
    ok!(check("prettying", wa, wb));
    ok!(check("formatting after prettying", format(&pda), format(&pdb)));
    let map = |y: &Yaml, m: u64| {
        let y = y.clone();
        let (_, w, _) = cost(move || y.map_yaml(&mut |y| y));
        (w, m)
    };
    ok!(check("rewriting", map(&a, ma), map(&b, mb)));
    let visit = |y: &Yaml, m: u64| {
        let (_, w, _) = cost(|| {
            let mut n = 0;
            y.visit_yaml(&mut |a: &AliasedYaml| n += a.value.as_string().map(|t| t.len()).unwrap_or(0));
            n
        });
        (w, m)
    };
    ok!(check("visiting and decoding", visit(&a, ma), visit(&b, mb)));
    let find = |y: &Yaml, p: &model::Path, m: u64| {
        let (mut y, p) = (y.clone(), p.real());
        let (v, w, _) = cost(|| y.find_values(&p));
        (w, m + v.0.iter().map(mass).sum::<u64>())
    };
    ok!(check(&format!("looking up {:?}", pa.show()), find(&a, &pa, ma), find(&b, &pb, mb)));
    let wide = pa.steps.len() == pb.steps.len();
    let mut op = match s.below(4) {
        0 => model::move_sub_op(s, &a),
        1 => model::move_map_op(s, &a),
        _ => model::simple_op(s, &a, &gen::Cfg { depth: 1, small_keys: true, ..Default::default() }),
    };
    let edit = |y: &Yaml, op: &model::Op, m: u64| {
        let (mut y, at) = (y.clone(), op.path().real());
        let (_, w, _) = cost(|| op.real_at(&at, &mut y));
        (w, m + mass(&y))
    };
    let before = edit(&a, &op, ma);
    if !wide {
        // down to the end in both
        *op.path_mut() = pa.clone();
        let one = edit(&a, &op, ma);
        *op.path_mut() = pb.clone();
        ok!(check(&op.show(), one, edit(&b, &op, mb)));
    } else {
        ok!(check(&op.show(), before, edit(&b, &op, mb)));
    }
    // reading, and writing what was read
    if readable(&a) && readable(&b) {
        let read = |y: &Yaml, m: u64| {
            let y = y.clone();
            let (r, w, _) = cost(move || from_yaml::<super::serde_props::Gen>(y));
            (r, (w, m))
        };
        let ((ga, wa), (gb, wb)) = (read(&a, ma), read(&b, mb));
        if let (Ok(ga), Ok(gb)) = (ga, gb) {
            c.label("read at both sizes");
            let write = |g: &super::serde_props::Gen| {
                let (y, w, _) = cost(|| Ser(&g.0).serialize(serializer::YamlSerializer::new()));
                (w, y.map(|y| mass(&y)).unwrap_or(1))
            };
            let (sa, sb) = (write(&ga), write(&gb));
            ok!(check("reading", (wa.0, wa.1 + sa.1), (wb.0, wb.1 + sb.1)));
            ok!(check("serializing", sa, sb));
        }
    }
    Outcome::Pass
}

/// Bytes per unit of size that may come on top.
const SLACK: f64 = 20.0;

fn c21_pinned() -> Vec<(String, Result<(), String>)> {
    limit();
    let rep = |name: &str, head: &str, unit: &str, n: usize, tail: &str| {
        let t = format!("---\n{head}{}{tail}", unit.repeat(n));
        let r = match parse(&t) {
            Parsed::Limit => Err(format!("{unit:?} {n} times takes more than {CALLS} calls")),
            _ => Ok(()),
        };
        (name.to_string(), r)
    };
    vec![
        rep("keys-then-comments", "", "a: \n# c\n", 40, ""),
        rep("keys-at-one-column", "", "a:\n", 60, "b: ["),
        rep("lists-at-one-column", "", "- x\n- &x\n- - &x\n", 20, "- ["),
        rep("lists-on-one-line", "", "- ", 60, "["),
        rep("keys-on-dashes", "", "- a:\n- x\n", 30, "- ["),
        rep("flow-lists", "a: ", "[", 60, "v"),
        rep("flow-mappings", "a: ", "{a: ", 60, "v"),
    ]
}

/// What one step takes: bytes allocated and CPU time of this thread.
pub fn cost<T>(f: impl FnOnce() -> T) -> (T, u64, std::time::Duration) {
    let (b, t) = (crate::alloc::bytes(), cpu());
    let r = f();
    let (b2, t2) = (crate::alloc::bytes(), cpu());
    (r, b2 - b, t2 - t)
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

fn cpu() -> std::time::Duration {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    std::time::Duration::new(t.sec as u64, t.nsec as u32)
}

/// The number of calls that a text takes, within 3 %.
pub fn calls(t: &str) -> usize {
    let over = |n: usize| {
        pest::set_call_limit(std::num::NonZeroUsize::new(n));
        matches!(parse(t), Parsed::Limit)
    };
    let (mut lo, mut hi) = (1usize, 1024usize);
    while over(hi) {
        lo = hi;
        hi *= 2;
        if hi > 40_000_000 {
            return hi;
        }
    }
    while hi - lo > hi / 32 + 1 {
        let m = (lo + hi) / 2;
        if over(m) {
            lo = m
        } else {
            hi = m
        }
    }
    hi
}

/// The largest shares of the limits, per step (for `measure`).
static SHARES: std::sync::Mutex<std::collections::BTreeMap<String, (f64, usize, f64, usize)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
static MEASURING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// For setting the limits: the largest shares of them that N cases take.
pub fn measure(n: u64, seed: u64, with_calls: bool) -> i32 {
    MEASURING.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut most: std::collections::BTreeMap<&str, (usize, usize)> = Default::default();
    for i in 0..n {
        let mut src = Src::random(case_seed("C21", seed, i));
        let mut ctx = Ctx::default();
        let _ = run_case(&C21, &mut src, &mut ctx);
        if with_calls {
            let k = calls(&ctx.case);
            let e = most.entry(ctx.labels[0]).or_default();
            *e = (*e).max((k, ctx.case.len()));
        }
    }
    for (w, (b, bl, t, tl)) in SHARES.lock().unwrap().iter() {
        println!("{w}: {:.1} % of the bytes ({bl}), {:.1} % of the time ({tl})", b * 100.0, t * 100.0);
    }
    for (l, (k, len)) in most {
        println!("{l}: {k} calls, {len} bytes");
    }
    0
}
