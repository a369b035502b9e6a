//! C01–C05: parsing, formatting, comments.

use super::{classify, diff, parse, Parsed};
use crate::engine::*;
use crate::{fail, gen, layout, model, must_parse, mutate, refsem};
use yaml_subset::yaml::*;

pub static PROPS: &[&Prop] = &[&C01, &C02, &C03, &C04, &C05];

// ── C01: totality ───────────────────────────────────────────────────────────

static C01: Prop = Prop {
    id: "C01",
    title: "Parsing any text ends in a document or a located error",
    rule: "a case is one text: a laid-out random document with 1-6 random edits (55%), tokens of the grammar in random order (20%), a prefix of a document (10%), random code points (10%), deep nesting up to 60 levels (5%), or (5% of all) two layouts that differ in one letter, parsed one after the other; it is parsed on its own, and what parses is also formatted, prettied and read back. Non-trivial: the text has at least 8 characters and two lines, or it parses",
    quick_cases: 1_600_000,
    thorough_cases: 36_000_000,
    assumptions: &[
        "pest's call limit is set to 5,000,000, so that a case ends: one that reaches it is counted as inconclusive (C21 decides how much work a text may take)",
        "a case that runs longer than 60 s, again in a fresh process, is reported as not ending",
        "nesting is bounded here (60 levels); that nesting of 10,000 levels overflows the stack is a listed finding",
    ],
    run: c01,
    pinned: c01_pinned,
};

/// Parses deep nesting on a stack of 8 MB in a process of its own.
pub fn deep(n: usize) -> i32 {
    let t = format!("---\n{}v{}\n", "[".repeat(n), "]".repeat(n));
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let _ = parse_yaml_file(&t);
        })
        .unwrap()
        .join()
        .is_err() as i32
}

fn c01_pinned() -> Vec<(String, Result<(), String>)> {
    let run = |n: usize| -> Result<(), String> {
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["deep", &n.to_string()])
            .stderr(std::process::Stdio::null())
            .status()
            .map_err(|e| e.to_string())?;
        if st.success() {
            Ok(())
        } else {
            Err(format!("parsing {n} nested flow lists ends with {st}"))
        }
    };
    let located = |t: &str| match parse_yaml_file(t) {
        Ok(_) => Ok(()),
        Err(e) if e.location().0 >= 1 => Ok(()),
        Err(e) => Err(format!("{t:?}: {e}")),
    };
    vec![
        ("nesting-10000".into(), run(10_000)),
        ("nesting-50".into(), run(50)),
        ("empty".into(), located("")),
        ("only-marker".into(), located("---")),
        ("nul".into(), located("---\n\0: \0\n")),
        ("bom".into(), located("\u{feff}---\na: b\n")),
    ]
}

fn junk(s: &mut Src) -> (String, &'static str) {
    let cfg = gen::Cfg { depth: 2, max_len: 3, ..Default::default() };
    match s.weighted(&[11, 4, 2, 2, 1]) {
        0 => {
            let d = gen::document(s, &cfg);
            let (t, _) = layout::document_any_eol(s, &d);
            (mutate::mutate(s, &t), "mutated document")
        }
        1 => {
            let mut t = String::from(*s.pick(&["---\n", "", "---", "# c\n---\n", "\n---\n", "--- \n"]));
            let n = s.range(0, 40);
            for _ in 0..n {
                t.push_str(s.pick(mutate::TOKENS));
            }
            (t, "tokens")
        }
        2 => {
            let d = gen::document(s, &cfg);
            let (t, _) = layout::document_any_eol(s, &d);
            let n = t.chars().count();
            let k = s.below(n + 1);
            (t.chars().take(k).collect(), "prefix")
        }
        3 => {
            let n = s.range(0, 60);
            let mut t = String::from(if s.bool() { "---\n" } else { "" });
            for _ in 0..n {
                let c = match s.weighted(&[6, 2, 1]) {
                    0 => *s.pick(&gen::ANY_CHARS[..]),
                    1 => *s.pick(&['\n', ' ', ':', '-', '#', '\r', '\t']),
                    _ => char::from_u32(((s.below(0x11) as u32) << 16) | s.below(0x10000) as u32).unwrap_or('\u{fffd}'),
                };
                t.push(c);
            }
            (t, "characters")
        }
        _ => {
            let n = s.range(1, 60);
            let unit = *s.pick(&["[", "{a: ", "- ", "a:\n", "\"", "'", "|\n", "&a ", "[[", "- - ", "[\n", "a: [", "{", "#\n"]);
            let mut t = String::from("---\n");
            if unit == "a:\n" {
                for i in 0..n {
                    t.push_str(&" ".repeat(i));
                    t.push_str("a:\n");
                }
            } else {
                if s.bool() {
                    t.push_str("k: ");
                }
                t.push_str(&unit.repeat(n));
                if s.bool() {
                    t.push_str("v");
                    let close = match unit {
                        "[" => "]",
                        "{a: " => "}",
                        "[[" => "]]",
                        _ => "",
                    };
                    t.push_str(&close.repeat(n));
                }
            }
            (t, "deep")
        }
    }
}

/// Two texts that differ in one letter only, one after the other.
fn twins(s: &mut Src, c: &mut Ctx) -> Outcome {
    let doc = gen::document(s, &gen::Cfg { depth: 3, ..Default::default() });
    let Some(twin) = gen::twin(s, &doc) else { return Outcome::Pass };
    let from = s.record.len();
    let a = layout::document(s, &doc, false);
    let choices = s.record[from..].to_vec();
    let b = layout::document(&mut Src::replay(&choices), &twin, false);
    c.label("two texts, one letter apart");
    c.case = format!("{a}\n--- and\n{b}");
    c.nontrivial = true;
    for (t, d) in [(&a, &doc), (&b, &twin), (&a, &doc)] {
        let got = must_parse!(t, "a supported layout");
        if got != *d {
            fail!("a text that differs from the one parsed before it in one letter gives another document:\n{}\n--- {}", c.case, diff(&format!("{d:?}"), &format!("{got:?}")));
        }
    }
    let f = doc.format();
    let _ = twin.format();
    if f != doc.format() || f == twin.format() && f.is_ok() && doc != twin {
        fail!("formatting depends on what was formatted before:\n{}", c.case);
    }
    Outcome::Pass
}

fn c01(s: &mut Src, c: &mut Ctx) -> Outcome {
    if s.chance(1, 20) {
        return twins(s, c);
    }
    let (t, kind) = junk(s);
    c.label(kind);
    c.case = t.clone();
    c.nontrivial = t.chars().count() >= 8 && t.contains('\n');
    let lines: Vec<&str> = t.split('\n').collect();
    match parse_yaml_file(&t) {
        Err(e) => {
            if e.to_string().contains("call limit reached") {
                return Outcome::Inconclusive("parser call limit");
            }
            c.label("rejected");
            let (line, col) = e.location();
            // one line past the last for an error at the end of the text
            if line < 1 || col < 1 || line > lines.len() {
                fail!("error location {line}:{col} is outside the text ({} lines):\n{t:?}", lines.len());
            }
            let chars = lines[line - 1].chars().count();
            if col > chars + 2 {
                fail!("error location {line}:{col} is outside its line ({chars} characters):\n{t:?}");
            }
            if e.to_string().is_empty() {
                fail!("the error has no message:\n{t:?}");
            }
            match parse_yaml_file(&t) {
                Err(e2) if e2.location() == (line, col) && e2.to_string() == e.to_string() => Outcome::Pass,
                _ => Outcome::Fail(format!("parsing twice gives different results:\n{t:?}")),
            }
        }
        Ok(d) => {
            c.label("parsed");
            c.nontrivial = true;
            match parse_yaml_file(&t) {
                Ok(d2) if d == d2 => {}
                _ => fail!("parsing twice gives different results:\n{t:?}"),
            }
            // whatever parses can be formatted, prettied and read by serde without a panic
            let f = match d.format() {
                Ok(f) => f,
                Err(e) => fail!("format: {e}\n{t:?}"),
            };
            let _ = parse(&f);
            let p = d.clone().pretty();
            if p.format().is_err() {
                fail!("format after pretty fails:\n{t:?}");
            }
            // searched, visited and edited
            let mut root = gen::root(&d).clone();
            for _ in 0..3 {
                let p = model::path(s, gen::root(&d), 5);
                let (got, want) = (root.find_values(&p.real()).0, model::find(gen::root(&d), &p));
                if got != want {
                    fail!("find_values({:?}) on\n{t:?}\n--- wants {want:?}\n--- got {got:?}", p.show());
                }
                for y in got {
                    if y.as_string() != refsem::text(&y) {
                        fail!("as_string of {y:?} is {:?} in\n{t:?}", y.as_string());
                    }
                }
            }
            let mut n = 0;
            root.visit_yaml(&mut |_: &AliasedYaml| n += 1);
            let mut m = 0;
            if root.clone().map_yaml(&mut |y| {
                m += 1;
                y
            }) != root
                || n >= m
            {
                fail!("map_yaml with the identity changes the tree, or visits {m} values of {n} in\n{t:?}");
            }
            let mut e = d.clone();
            for _ in 0..2 {
                let op = model::simple_op(s, gen::root(&e), &gen::Cfg { depth: 1, small_keys: true, ..Default::default() });
                op.real(&mut e);
            }
            if e.format().is_err() {
                fail!("format after an edit fails:\n{t:?}");
            }
            let node = refsem::node(gen::root(&d));
            if refsem::substitute(&node, 5000).is_some() {
                let _ = from_yaml_str::<crate::props::serde_props::Gen>(&t);
                let _ = from_yaml_str::<std::collections::BTreeMap<String, Vec<i32>>>(&t);
            } else {
                c.label("references multiply: not read");
            }
            Outcome::Pass
        }
    }
}

// ── C02: structure ──────────────────────────────────────────────────────────

static C02: Prop = Prop {
    id: "C02",
    title: "Every supported layout of a document parses to that document",
    rule: "a case is a random document rendered by the harness's own layout writer (indentation widths, compact and broken list items, lists at their key's column, values on the next line, blank lines, comment placement, spacing, CRLF or CR); the parsed tree must equal the document. Non-trivial: at least 3 nodes",
    quick_cases: 1_000_000,
    thorough_cases: 24_000_000,
    assumptions: &[
        "documents are in the crate's subset: one root collection after '---', keys of letters, digits, '_', '-' and single spaces inside",
        "not generated (listed findings): three lists opened on one line, an explicit indentation indicator on the first entry of a dash's line, plain flow scalars that end in ':'",
    ],
    run: c02,
    pinned: c02_pinned,
};

fn c02(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = gen::Cfg::default();
    let doc = gen::document(s, &cfg);
    let (text, crlf) = layout::document_any_eol(s, &doc);
    c.case = text.clone();
    classify(&doc, c);
    c.label_if(crlf, "CRLF or CR");
    c.nontrivial = refsem::nodes(gen::root(&doc)) >= 3;
    let got = must_parse!(text, "a supported layout");
    if got != doc {
        fail!("parsed to another document:\n{text}\n--- {}", diff(&format!("{doc:?}"), &format!("{got:?}")));
    }
    Outcome::Pass
}

fn el(v: Yaml) -> ArrayData {
    ArrayData::Element(AliasedYaml { alias: None, value: v })
}
fn entry(k: &str, v: Yaml) -> HashData {
    HashData::Element(HashElement { key: k.into(), value: AliasedYaml { alias: None, value: v } })
}
fn plain(t: &str) -> Yaml {
    Yaml::UnquotedString(t.into())
}

fn root_is(text: &str, want: Yaml) -> Result<(), String> {
    match parse(text) {
        Parsed::Doc(d) if *gen::root(&d) == want => Ok(()),
        Parsed::Doc(d) => Err(format!("{text:?} parses to {:?}", gen::root(&d))),
        Parsed::Rejected(e) => Err(format!("{text:?} is rejected: {e}")),
        Parsed::Limit => Err("call limit".into()),
    }
}

fn c02_pinned() -> Vec<(String, Result<(), String>)> {
    use Yaml::*;
    vec![
        // listed findings
        (
            "three-lists-on-one-line".into(),
            root_is("---\n- - - v\n  - w\n", Array(vec![el(Array(vec![el(Array(vec![el(plain("v"))])), el(plain("w"))]))])),
        ),
        (
            "three-lists-after-key".into(),
            root_is("---\nk: \n  - - - v\n    - w\n", Hash(vec![entry("k", Array(vec![el(Array(vec![el(Array(vec![el(plain("v"))])), el(plain("w"))]))]))])),
        ),
        (
            "indicator-on-dash-line".into(),
            root_is(
                "---\n- a: |2\n     l\n",
                Array(vec![el(Hash(vec![entry("a", LiteralString(vec![" l".into()], BlockChomping::Clip))]))]),
            ),
        ),
        (
            "indicator-in-nested-list".into(),
            root_is(
                "---\n- - |2\n     l\n",
                Array(vec![el(Array(vec![el(LiteralString(vec![" l".into()], BlockChomping::Clip))]))]),
            ),
        ),
        // repaired
        (
            "nested-list-on-parent-line".into(),
            root_is("---\n- - v\n  - w\n- x\n", Array(vec![el(Array(vec![el(plain("v")), el(plain("w"))])), el(plain("x"))])),
        ),
        (
            "value-on-next-line".into(),
            root_is("---\na:\n  v\nb: w\n", Hash(vec![entry("a", plain("v")), entry("b", plain("w"))])),
        ),
    ]
}

// ── C03: scalars ────────────────────────────────────────────────────────────

static C03: Prop = Prop {
    id: "C03",
    title: "Every scalar reads as exactly the text it denotes",
    rule: "a case is one to four scalars in random styles (plain, quoted with escapes and line breaks, literal and folded with every chomping), written by the layout writer at a random place of a document; each must be found by its path and read, by find_values/as_string and by serde, as the text of an independent reference. Non-trivial: some scalar is not a plain word",
    quick_cases: 3_000_000,
    thorough_cases: 48_000_000,
    assumptions: &[
        "a line break inside a quoted scalar follows the crate's own documented rules (a single one is dropped, n+1 stand for n, an escaped one stays), not YAML's",
    ],
    run: c03,
    pinned: no_pinned,
};

fn c03(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = gen::Cfg { anchors: false, ..Default::default() };
    let n = s.range(1, 4);
    let keys = ["a", "b", "c", "d"];
    let mut want: Vec<(String, Yaml)> = Vec::new();
    let mut root = Vec::new();
    for k in &keys[..n] {
        let v = gen::scalar(s, &cfg);
        let (path, node) = match s.weighted(&[4, 2, 2, 2, 1]) {
            0 => (k.to_string(), v.clone()),
            1 => (format!("{k}.x y"), Yaml::Hash(vec![entry("x y", v.clone())])),
            2 => {
                let other = gen::scalar(s, &cfg);
                (format!("{k}[1]"), Yaml::Array(vec![el(other), el(v.clone())]))
            }
            3 => (format!("{k}[0].z"), Yaml::Array(vec![el(Yaml::Hash(vec![entry("z", v.clone())]))])),
            _ => {
                let v = gen::inline_value(s, &cfg, 0);
                want.push((format!("{k}[0]"), v.clone()));
                root.push(entry(k, Yaml::InlineArray(vec![v])));
                continue;
            }
        };
        want.push((path, v));
        root.push(entry(k, node));
    }
    let doc = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(Yaml::Hash(root))] };
    let text = if s.chance(1, 4) { doc.format().unwrap() } else { layout::document_any_eol(s, &doc).0 };
    c.case = text.clone();
    classify(&doc, c);
    c.nontrivial = want.iter().any(|(_, v)| !matches!(v, Yaml::UnquotedString(t) if t.chars().all(char::is_alphanumeric)));
    let mut got = must_parse!(text, "a document of scalars");
    for (p, v) in &want {
        let found = got.find_values(&p.parse().unwrap());
        let t = refsem::text(v).unwrap();
        match &found.0[..] {
            [y] => {
                if y.as_string().as_ref() != Some(&t) {
                    fail!("{p} reads as {:?} instead of {t:?} in\n{text}", y.as_string());
                }
                // typed as a string
                match from_yaml::<String>(y.clone()) {
                    Ok(g) if g == t => {}
                    o => fail!("{p} deserializes to {o:?} instead of {t:?} in\n{text}"),
                }
            }
            o => fail!("{p} finds {o:?} in\n{text}"),
        }
    }
    Outcome::Pass
}

// ── C04: comments ───────────────────────────────────────────────────────────

static C04: Prop = Prop {
    id: "C04",
    title: "Comments survive parsing, formatting and prettying, in place",
    rule: "a case is a random document with many comments, laid out as text (or, in one case of six, one with mappings below the root emptied but for comments, as edits leave them); the sequence of comments, keys, items and scalar texts must be the document's after parsing, after format and parsing again, and (comments and keys) after pretty, format and parsing again. Non-trivial: at least 2 comments",
    quick_cases: 600_000,
    thorough_cases: 14_000_000,
    assumptions: &["whether a comment is on its own line or after a value is compared too; its indentation is not"],
    run: c04,
    pinned: no_pinned,
};

/// Comments at more places than [`gen::document`] puts them.
fn commented(s: &mut Src, y: &mut Yaml, root: bool) {
    match y {
        Yaml::Hash(v) => {
            let mut out = Vec::new();
            for (i, d) in std::mem::take(v).into_iter().enumerate() {
                let trailing = matches!(d, HashData::InlineComment(_));
                if !trailing && !(root && i == 0) && s.chance(1, 3) {
                    out.push(HashData::Comment(gen::comment_text(s)));
                }
                out.push(match d {
                    HashData::Element(mut e) => {
                        commented(s, &mut e.value.value, false);
                        HashData::Element(e)
                    }
                    o => o,
                });
            }
            *v = out;
        }
        Yaml::Array(v) => {
            let mut out = Vec::new();
            for (i, d) in std::mem::take(v).into_iter().enumerate() {
                let trailing = matches!(d, ArrayData::InlineComment(_));
                if !trailing && !(root && i == 0) && s.chance(1, 3) {
                    out.push(ArrayData::Comment(gen::comment_text(s)));
                }
                out.push(match d {
                    ArrayData::Element(mut e) => {
                        commented(s, &mut e.value, false);
                        ArrayData::Element(e)
                    }
                    o => o,
                });
            }
            *v = out;
        }
        _ => {}
    }
}

fn c04(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = gen::Cfg { depth: 3, max_len: 3, ..Default::default() };
    let mut doc = gen::document(s, &cfg);
    for i in doc.items.iter_mut() {
        if let DocumentData::Yaml(y) = i {
            commented(s, y, true);
        }
    }
    let (text, _) = layout::document_any_eol(s, &doc);
    c.case = text.clone();
    classify(&doc, c);
    let want = refsem::events(&doc);
    let n = refsem::comments(&doc).len();
    c.nontrivial = n >= 2;
    c.label_if(n >= 6, ">= 6 comments");
    let got = must_parse!(text, "a document with comments");
    let ev = refsem::events(&got);
    if ev != want {
        fail!("comments differ after parsing:\n{text}\n--- {}", diff(&format!("{want:?}"), &format!("{ev:?}")));
    }
    let f = got.format().unwrap();
    let again = must_parse!(f, format!("formatted text of\n{text}\n--- it"));
    let ev = refsem::events(&again);
    if ev != want {
        fail!("comments differ after format:\n{text}\n--- formatted\n{f}\n--- {}", diff(&format!("{want:?}"), &format!("{ev:?}")));
    }
    let f = got.pretty().format().unwrap();
    let again = must_parse!(f, format!("prettied text of\n{text}\n--- it"));
    // pretty changes styles, so a comment after a value may get a line of its own
    let flat = |e: &[refsem::Ev]| -> Vec<String> {
        e.iter()
            .filter_map(|e| match e {
                refsem::Ev::Comment(c) | refsem::Ev::Trailing(c) => Some(format!("#{c}")),
                refsem::Ev::Key(d, k) => Some(format!("{d}:{k}")),
                refsem::Ev::Item(d) => Some(format!("{d}-")),
                _ => None,
            })
            .collect()
    };
    // lists in lists may be put on one line, so items are only compared in documents without those
    let nested = c.labels.contains(&"list in list");
    let keep = |v: Vec<String>| -> Vec<String> { v.into_iter().filter(|x| !nested || !x.ends_with('-') || x.starts_with('#')).collect() };
    let (a, b) = (keep(flat(&want)), keep(flat(&refsem::events(&again))));
    if a != b {
        fail!("comments differ after pretty:\n{text}\n--- prettied\n{f}\n--- {}", diff(&format!("{a:?}"), &format!("{b:?}")));
    }
    // mappings that lost their entries keep their comments
    if s.chance(1, 6) {
        c.label("mappings without entries");
        gen::hollow(s, &mut doc, false);
        let want = refsem::comments(&doc);
        for (how, f) in [("format", doc.format()), ("pretty", doc.clone().pretty().format())] {
            let f = f.unwrap();
            let again = must_parse!(f, format!("after {how}, the document without some entries of\n{text}\n--- it"));
            let got = refsem::comments(&again);
            if got != want {
                fail!("comments differ after {how} of the document without some entries:\n{text}\n--- written\n{f}\n--- {}", diff(&format!("{want:?}"), &format!("{got:?}")));
            }
        }
    }
    Outcome::Pass
}

// ── C05: format and parse ───────────────────────────────────────────────────

static C05: Prop = Prop {
    id: "C05",
    title: "Formatting a document and parsing it gives the same document",
    rule: "a case is a random document as a tree (70%), or one parsed from a random layout (20%) or from a randomly edited text that still parses to a tree of ordinary scalars (10%); format must succeed, parse back to an equal tree, and format to the same text again. Non-trivial: at least 3 nodes",
    quick_cases: 1_100_000,
    thorough_cases: 20_000_000,
    assumptions: &[
        "trees are as the parser makes them: non-empty plain scalars that can be written bare where they stand, block scalars with a text line, an inline comment only after a value that ends on its line",
        "not claimed (listed finding): a plain flow scalar that ends in ':'",
    ],
    run: c05,
    pinned: c05_pinned,
};

/// Is the tree one whose scalars can be written the way it says?
pub fn ordinary(y: &Yaml) -> bool {
    let mut ok = true;
    refsem::each(y, false, &mut |y, inline| {
        ok &= match y {
            Yaml::UnquotedString(t) if inline => gen::plain_inline_ok(t),
            Yaml::UnquotedString(t) => gen::plain_block_ok(t),
            Yaml::LiteralString(l, _) | Yaml::FoldedString(l, _) => l.iter().any(|l| !l.trim_matches(' ').is_empty()),
            _ => true,
        }
    });
    ok
}

fn c05(s: &mut Src, c: &mut Ctx) -> Outcome {
    let doc = match s.weighted(&[7, 2, 1]) {
        0 => {
            c.label("tree");
            gen::document(s, &gen::Cfg::default())
        }
        1 => {
            c.label("layout");
            let d = gen::document(s, &gen::Cfg::default());
            let t = layout::document(s, &d, false);
            must_parse!(t, "a supported layout")
        }
        _ => {
            let d = gen::document(s, &gen::Cfg { depth: 2, max_len: 3, ..Default::default() });
            let t = layout::document(s, &d, false);
            let t = mutate::mutate(s, &t);
            c.case = t.clone();
            match parse(&t) {
                Parsed::Doc(d) if ordinary(gen::root(&d)) => {
                    c.label("edited text");
                    d
                }
                Parsed::Doc(_) => {
                    c.label("edited text with other scalars: not claimed");
                    c.excluded.push("edited text with scalars outside the claimed domain");
                    return Outcome::Pass;
                }
                Parsed::Limit => return Outcome::Inconclusive("parser call limit"),
                Parsed::Rejected(_) => {
                    c.label("edited text rejected");
                    return Outcome::Pass;
                }
            }
        }
    };
    classify(&doc, c);
    c.nontrivial = refsem::nodes(gen::root(&doc)) >= 3;
    let text = match doc.format() {
        Ok(t) => t,
        Err(e) => fail!("format fails: {e}\n{doc:?}"),
    };
    c.case = text.clone();
    let back = must_parse!(text, format!("formatted text of {doc:?}\n--- it"));
    if back != doc {
        fail!("formatted text parses to another document:\n{text}\n--- {}", diff(&format!("{doc:?}"), &format!("{back:?}")));
    }
    let again = back.format().unwrap();
    if again != text {
        fail!("formatting again gives another text:\n{}", diff(&text, &again));
    }
    Outcome::Pass
}

fn roundtrip(text: &str) -> Result<(), String> {
    let d = match parse(text) {
        Parsed::Doc(d) => d,
        _ => return Err(format!("{text:?} does not parse")),
    };
    let f = d.format().unwrap();
    match parse(&f) {
        Parsed::Doc(d2) if d == d2 => Ok(()),
        Parsed::Doc(d2) => Err(format!("{text:?} formats to {f:?}, which parses to {d2:?}")),
        Parsed::Rejected(e) => Err(format!("{text:?} formats to {f:?}, which is rejected: {e}")),
        Parsed::Limit => Err("call limit".into()),
    }
}

fn c05_pinned() -> Vec<(String, Result<(), String>)> {
    vec![
        ("flow-scalar-ends-in-colon".into(), roundtrip("---\na: [a:]\n")),
        // repaired
        ("item-starts-with-comment".into(), roundtrip("---\n- # c\n  a: b\n")),
        ("list-in-list-in-list".into(), roundtrip("---\n- - \n    - v\n    - w\n  - x\n")),
        ("indented-first-line".into(), roundtrip("---\na: |2\n    x\n  y\n")),
        ("inline-root".into(), roundtrip("---\n[a, b]\n")),
    ]
}
