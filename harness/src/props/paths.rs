//! C11, C12: paths.

use super::classify;
use crate::engine::*;
use crate::model::{self, Path, Step};
use crate::{fail, gen, layout, must_parse};
use yaml_subset::yaml::*;
use yaml_subset::YamlPath;

pub static PROPS: &[&Prop] = &[&C11, &C12];

static C11: Prop = Prop {
    id: "C11",
    title: "Path texts parse to the steps they spell; other texts are errors",
    rule: "a case is a random path written as text (keys, indexes, [*], conditions on any step the syntax allows), which must parse to exactly its steps, in one piece and put together from two parts with insert; or an edited path text or random characters, which must give exactly what an independent path parser gives, steps or an error. Non-trivial: at least 2 steps or conditions, or an edited text",
    quick_cases: 10_000_000,
    thorough_cases: 60_000_000,
    assumptions: &["spaces around keys are skipped by the path syntax, so keys here have none at their ends"],
    run: c11,
    pinned: c11_pinned,
};

fn word(s: &mut Src, banned: &str) -> String {
    let mut t = String::new();
    let n = gen::count(s, 1, 6, 40);
    for _ in 0..n {
        if s.chance(1, 2) {
            t.push_str(s.pick(&["a", "key", "x_y", "a-b", "a b", "0", "é", "日本", "type", "ß9", "*", "=", "|", ".", "[", "]", "[0]", "#", "'", "\"", ":", "a.b"]));
        } else {
            t.push(gen::any_char(s));
        }
    }
    t.retain(|c| !banned.contains(c));
    let t = t.trim_matches(' ').to_string();
    if t.is_empty() {
        "k".into()
    } else {
        t
    }
}

fn conds(s: &mut Src) -> Vec<model::Cond> {
    let n = if s.chance(1, 40) { s.range(3, 8) } else { s.weighted(&[5, 2, 1]) };
    let mut cs: Vec<model::Cond> = Vec::new();
    for _ in 0..n {
        let c = match cs.last() {
            // the last one again, or almost
            Some(l) if s.chance(1, 5) => match s.below(4) {
                0 => l.clone(),
                1 => model::Cond { field: l.field.clone(), value: format!("{} ", l.value) },
                2 => model::Cond { field: l.field.clone(), value: word(s, ".|") },
                _ => model::Cond { field: word(s, "="), value: l.value.clone() },
            },
            _ => model::Cond { field: word(s, "="), value: word(s, ".|") },
        };
        cs.push(c);
    }
    cs
}

fn any_path(s: &mut Src) -> Path {
    let n = s.weighted(&[1, 3, 3, 3, 2, 2, 1, 1]);
    if n == 0 {
        return Path { root: conds(s), steps: vec![] };
    }
    let n = if s.chance(1, 40) { s.range(10, 60) } else { n };
    let mut steps: Vec<Step> = Vec::new();
    for i in 0..n {
        let st = match if i == 0 { 0 } else { s.weighted(&[3, 2, 2]) } {
            0 => Step::Key(word(s, "[].|"), conds(s)),
            1 => {
                let i = match s.weighted(&[6, 2, 1]) {
                    0 => s.below(10),
                    1 => s.below(100_000),
                    _ => s.u64() as usize,
                };
                Step::Idx(vec![i], conds(s))
            }
            _ => Step::All(conds(s)),
        };
        if !matches!(st, Step::Key(..)) {
            // no conditions in front of an index
            match steps.last_mut() {
                Some(Step::Key(_, c)) | Some(Step::Idx(_, c)) | Some(Step::All(c)) => c.clear(),
                None => {}
            }
        }
        steps.push(st);
    }
    Path { root: vec![], steps }
}

/// The path syntax, written down again: `None` is an error.
///
///     path = key part* | ("|" cond)*      part = "." key | "[" (digits | "*") "]" ("|" cond)*
///     key = name ("|" cond)*              cond = field "=" value
///
/// A name has no `[ ] . |`, a field no `=`, a value no `. |`; spaces in front of any token but
/// the first are skipped.
fn reference(t: &str) -> Option<Path> {
    struct P {
        c: Vec<char>,
        i: usize,
    }
    impl P {
        fn skip(&mut self) {
            while self.c.get(self.i) == Some(&' ') {
                self.i += 1;
            }
        }
        fn eat(&mut self, x: char) -> bool {
            let at = self.i;
            self.skip();
            if self.c.get(self.i) == Some(&x) {
                self.i += 1;
                self.skip();
                true
            } else {
                self.i = at;
                false
            }
        }
        fn until(&mut self, stop: &str) -> Option<String> {
            let from = self.i;
            while self.i < self.c.len() && !stop.contains(self.c[self.i]) {
                self.i += 1;
            }
            (self.i > from).then(|| self.c[from..self.i].iter().collect())
        }
        fn conds(&mut self) -> Option<Vec<model::Cond>> {
            let mut v = Vec::new();
            while self.eat('|') {
                let field = self.until("=")?;
                if !self.eat('=') {
                    return None;
                }
                v.push(model::Cond { field, value: self.until(".|")? });
            }
            Some(v)
        }
        fn key(&mut self) -> Option<Step> {
            let k = self.until("[].|")?;
            Some(Step::Key(k, self.conds()?))
        }
    }
    let mut p = P { c: t.chars().collect(), i: 0 };
    let mut path = Path { root: vec![], steps: vec![] };
    if p.c.first().map(|c| !"[].|".contains(*c)).unwrap_or(false) {
        path.steps.push(p.key()?);
        loop {
            if p.eat('.') {
                path.steps.push(p.key()?);
            } else if p.eat('[') {
                if p.eat('*') {
                    if !p.eat(']') {
                        return None;
                    }
                    path.steps.push(Step::All(p.conds()?));
                } else {
                    let n = p.until("] ")?;
                    if !n.chars().all(|c| c.is_ascii_digit()) || !p.eat(']') {
                        return None;
                    }
                    path.steps.push(Step::Idx(vec![n.parse().ok()?], p.conds()?));
                }
            } else {
                break;
            }
        }
    } else {
        path.root = p.conds()?;
    }
    p.skip();
    (p.i == p.c.len()).then_some(path)
}

fn c11_pinned() -> Vec<(String, Result<(), String>)> {
    [
        // repaired
        "a[99999999999999999999999]", "a. b", "a[ 0]", "a[0 ]", "a[ * ]", "a| f = v .b", " .a", " |f=v", "a b  [0]", "a|f=v w  .b",
        "", "a", "a.b[3]|c=d.e[*]", "a..b", "[0]", "a[-1]", "a[]", "a|b", "a|=b", "|a=b", "a.", ".a", "a[0]b",
    ]
    .iter()
    .map(|t| {
        let r = match (t.parse::<YamlPath>(), reference(t)) {
            (Ok(r), Some(p)) => model::path_differs(&p, &r).map(|d| format!("{t:?}: {d}")).map_or(Ok(()), Err),
            (Err(_), None) => Ok(()),
            (r, p) => Err(format!("{t:?} gives {r:?} instead of {p:?}")),
        };
        (format!("path {t:?}"), r)
    })
    .collect()
}

fn c11(s: &mut Src, c: &mut Ctx) -> Outcome {
    let p = any_path(s);
    let text = p.text().expect("expressible");
    c.case = text.clone();
    let n = p.steps.len();
    match s.weighted(&[5, 3, 3]) {
        0 => {
            c.label(if n == 0 { "root path" } else { "path" });
            c.label_if(n >= 10, ">= 10 steps");
            c.nontrivial = n >= 2 || text.contains('|');
            match text.parse::<YamlPath>() {
                Err(e) => fail!("path {text:?} is rejected: {e}"),
                Ok(r) => {
                    if let Some(d) = model::path_differs(&p, &r) {
                        fail!("path {text:?}: {d}");
                    }
                }
            }
        }
        1 => {
            // two parts put together
            if n < 2 {
                return Outcome::Pass;
            }
            let cut = s.range(1, n - 1);
            let (a, b) = (Path { root: vec![], steps: p.steps[..cut].to_vec() }, Path { root: vec![], steps: p.steps[cut..].to_vec() });
            c.label("insert");
            c.nontrivial = true;
            let mut r = a.real();
            r.insert(b.real());
            if let Some(d) = model::path_differs(&p, &r) {
                fail!("inserting {:?} into {:?}: {d}", b.show(), a.show());
            }
            let mut r = YamlPath::Root(vec![]);
            r.insert(p.real());
            if let Some(d) = model::path_differs(&p, &r) {
                fail!("inserting {text:?} into the root path: {d}");
            }
        }
        _ => {
            let mut cs: Vec<char> = text.chars().collect();
            for _ in 0..s.range(1, 4) {
                let at = s.below(cs.len() + 1);
                match s.below(3) {
                    0 => {
                        let t = *s.pick(&["[", "]", ".", "|", "=", "*", " ", "[*]", "[0]", "[-1]", "[00]", "[99999999999999999999999]", "a", "|a=b", "..", "  ", " .", ". ", " [ 0 ]", "[ * ]", "[1 2]", " | a = b", "\n", "\u{a0}", "é", "٣", "[٣]", "[1,2]"]);
                        cs.splice(at..at, t.chars());
                    }
                    1 if at < cs.len() => {
                        cs.remove(at);
                    }
                    _ => cs.truncate(at),
                }
            }
            let t: String = cs.into_iter().collect();
            c.case = t.clone();
            c.nontrivial = true;
            match (t.parse::<YamlPath>(), reference(&t)) {
                (Err(e), None) => {
                    c.label("edited: rejected");
                    if e.to_string().is_empty() {
                        fail!("no message for {t:?}");
                    }
                }
                (Ok(r), Some(p)) => {
                    c.label("edited: parsed");
                    c.label_if(t.contains(' '), "edited: parsed, with spaces");
                    if let Some(d) = model::path_differs(&p, &r) {
                        fail!("path {t:?}: {d}");
                    }
                }
                (Err(e), Some(p)) => fail!("path {t:?} is rejected instead of {p:?}: {e}"),
                (Ok(r), None) => fail!("path {t:?} is not an error but {r:?}"),
            }
        }
    }
    Outcome::Pass
}

static C12: Prop = Prop {
    id: "C12",
    title: "Looking up a path finds exactly the values it selects, in order",
    rule: "a case is a random document, half of the time parsed from a random layout, and 1-4 paths made to lead into it (with conditions, indexes, lists of indexes, [*], also on flow lists), some of which miss; find_values must return what the reference evaluator selects, in document order, and leave the document as it was. Non-trivial: some path finds something in at least 2 steps",
    quick_cases: 2_500_000,
    thorough_cases: 36_000_000,
    assumptions: &[
        "flow mappings are opaque to paths, and the first of duplicate keys counts, as in the crate",
        "a path with several indexes lists them in ascending order",
    ],
    run: c12,
    pinned: no_pinned,
};

fn c12(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = model::edit_cfg(s);
    let mut doc = gen::document(s, &cfg);
    if s.bool() && !cfg.block_in_flow {
        let t = layout::document(s, &doc, false);
        doc = must_parse!(t, "a supported layout");
    }
    classify(&doc, c);
    let root = gen::root(&doc).clone();
    let mut shown = String::new();
    for _ in 0..s.range(1, 4) {
        let mut p = model::path(s, &root, 6);
        let mut want = model::find(&root, &p);
        for _ in 0..5 {
            if p.steps.len() >= 2 && !want.is_empty() || s.chance(1, 6) {
                break;
            }
            p = model::path(s, &root, 6);
            want = model::find(&root, &p);
        }
        let mut d = doc.clone();
        let got = match s.below(3) {
            0 => d.find_values(&p.real()).0,
            1 => {
                let mut y = root.clone();
                let g = y.find_values(&p.real()).0;
                if y != root {
                    fail!("find_values({:?}) changes the tree\n{}", p.show(), doc.format().unwrap());
                }
                g
            }
            _ => {
                let a = AliasedYaml { alias: Some("def".into()), value: root.clone() };
                let mut b = a.clone();
                let g = b.find_values(&p.real()).0;
                if a != b {
                    fail!("find_values({:?}) changes the value\n{}", p.show(), doc.format().unwrap());
                }
                g
            }
        };
        shown.push_str(&format!("{} -> {} found; ", p.show(), want.len()));
        c.label(match want.len() {
            0 => "nothing found",
            1 => "one found",
            _ => "several found",
        });
        let conds = p.steps.iter().any(|st| match st {
            Step::Key(_, c) | Step::Idx(_, c) | Step::All(c) => !c.is_empty(),
        });
        c.label_if(conds && !want.is_empty(), "found with conditions");
        c.nontrivial |= p.steps.len() >= 2 && !want.is_empty();
        c.steps += 1;
        if got != want {
            fail!("find_values({:?}) on\n{}\n--- wants {want:?}\n--- got {got:?}", p.show(), doc.format().unwrap());
        }
        if d != doc {
            fail!("find_values({:?}) changes\n{}", p.show(), doc.format().unwrap());
        }
    }
    c.case = format!("{shown}\n{}", doc.format().unwrap_or_default());
    Outcome::Pass
}
