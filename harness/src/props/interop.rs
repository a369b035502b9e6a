//! C20: what other YAML readers see.

use super::{classify, diff};
use crate::engine::*;
use crate::extyaml::{self, Read};
use crate::{fail, gen, layout, model, must_parse, refsem};
use yaml_subset::yaml::string::{DoubleQuotedStringEscapedChar as DEsc, DoubleQuotedStringPart as DP, SingleQuotedStringPart as SP};
use yaml_subset::yaml::*;

pub static PROPS: &[&Prop] = &[&C20];

static C20: Prop = Prop {
    id: "C20",
    title: "Other YAML readers see the same data",
    rule: "a case is a random document whose scalars and names are YAML, laid out as text and read by libyaml as it is, formatted, prettied, and edited and formatted; or (one of four) a random Rust value, whose tree must say what its JSON says, prettied and formatted. libyaml must see the same keys, order, texts, definitions and references. Non-trivial: the document or the serialized value has at least 3 nodes",
    quick_cases: 900_000,
    thorough_cases: 24_000_000,
    assumptions: &[
        "libyaml (YAML 1.1) stands for the other readers; what only YAML 1.2 allows is not generated or is excluded: '?' and ':' at the start of flow scalars, ':?' in them, a tab at the start of a block scalar",
        "plain scalars, keys and names that this crate takes and YAML does not are not generated, and neither are characters that YAML does not have",
        "quoted scalars are on one line (pinned findings: line breaks in quotes do not mean here what they mean in YAML)",
        "a line end is put behind the formatted text (pinned finding: format() leaves it out)",
    ],
    run: c20,
    pinned: c20_pinned,
};

/// Is the text a plain scalar of YAML?  (the subset takes many more, which YAML rejects or reads
/// as tags, sets, definitions, …)
fn yaml_plain(v: &str, inline: bool) -> bool {
    let c: Vec<char> = v.chars().collect();
    // in YAML 1.1, which libyaml reads
    if inline && quirk(v) {
        return false;
    }
    let space = |c: Option<&char>| matches!(c, None | Some(' ') | Some('\t'));
    let flow = |c: char| inline && ",[]{}".contains(c);
    match c.first() {
        None => return false,
        Some('-' | '?' | ':') => {
            if space(c.get(1)) || flow(c[1]) {
                return false;
            }
        }
        Some(f) => {
            if ",[]{}#&*!|>'\"%@` \t".contains(*f) {
                return false;
            }
        }
    }
    for i in 0..c.len() {
        let next = c.get(i + 1);
        if flow(c[i]) || c[i] == ':' && (space(next) || next.map(|n| flow(*n)).unwrap_or(false)) || c[i] == '#' && (i == 0 || space(c.get(i - 1))) {
            return false;
        }
        if !yaml_char(c[i]) || c[i] == '\r' || c[i] == '\n' {
            return false;
        }
    }
    !v.ends_with([' ', '\t']) && !v.starts_with("---") && !v.starts_with("...")
}

/// Characters that YAML takes bare in a text and that are no line ends of YAML 1.1.
fn yaml_char(c: char) -> bool {
    !(c < ' ' && !matches!(c, '\t' | '\n' | '\r') || ('\u{7f}'..'\u{a0}').contains(&c) || matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}'))
}

fn quirk(v: &str) -> bool {
    v.starts_with([':', '?']) || v.contains(":?")
}

fn safe(y: Yaml, inline: bool) -> Yaml {
    let plain = |v: String, inline: bool| {
        if yaml_plain(&v, inline) {
            return Yaml::UnquotedString(v);
        }
        let t: String = v.chars().filter(|c| c.is_alphanumeric() || "().+*/=_é日".contains(*c)).collect();
        Yaml::UnquotedString(if yaml_plain(&t, inline) { t } else { format!("v{t}") })
    };
    match y {
        Yaml::UnquotedString(v) => plain(v, inline),
        Yaml::InlineArray(v) => Yaml::InlineArray(v.into_iter().map(|y| safe(y, true)).collect()),
        Yaml::InlineHash(v) => Yaml::InlineHash(v.into_iter().map(|(k, y)| (k, safe(y, true))).collect()),
        Yaml::Array(v) => Yaml::Array(
            v.into_iter()
                .map(|d| match d {
                    ArrayData::Element(e) => ArrayData::Element(safe_value(e)),
                    ArrayData::Comment(t) => ArrayData::Comment(chars(t)),
                    ArrayData::InlineComment(t) => ArrayData::InlineComment(chars(t)),
                })
                .collect(),
        ),
        Yaml::Hash(v) => Yaml::Hash(
            v.into_iter()
                .map(|d| match d {
                    HashData::Element(e) => HashData::Element(HashElement {
                        key: e.key,
                        value: safe_value(e.value),
                    }),
                    HashData::Comment(t) => HashData::Comment(chars(t)),
                    HashData::InlineComment(t) => HashData::InlineComment(chars(t)),
                })
                .collect(),
        ),
        Yaml::Anchor(n) => Yaml::Anchor(ascii(n)),
        Yaml::SingleQuotedString(p) => Yaml::SingleQuotedString(
            p.into_iter()
                .filter(|p| *p != SP::RemovableNewline)
                .map(|p| match p {
                    SP::String(t) => SP::String(chars(t)),
                    p => p,
                })
                .collect(),
        ),
        Yaml::DoubleQuotedString(p) => Yaml::DoubleQuotedString(
            p.into_iter()
                .filter(|p| !matches!(p, DP::RemovableNewline | DP::EscapedChar(DEsc::RealNewline)))
                .map(|p| match p {
                    DP::String(t) => DP::String(chars(t)),
                    p => p,
                })
                .collect(),
        ),
        Yaml::LiteralString(l, c) => Yaml::LiteralString(l.into_iter().map(chars).collect(), c),
        Yaml::FoldedString(l, c) => Yaml::FoldedString(l.into_iter().map(chars).collect(), c),
    }
}

/// The characters that YAML does not have bare, or only as line ends, replaced.
fn chars(t: String) -> String {
    t.chars().map(|c| if yaml_char(c) { c } else { 'x' }).collect()
}

/// YAML allows more in names, libyaml does not.
fn ascii(n: String) -> String {
    n.chars().map(|c| if c.is_ascii() { c } else { 'u' }).collect()
}

fn safe_value(a: AliasedYaml) -> AliasedYaml {
    let value = safe(a.value, false);
    // a reference cannot be defined again
    let alias = if matches!(value, Yaml::Anchor(_)) { None } else { a.alias.map(ascii) };
    AliasedYaml { alias, value }
}

/// What `t` means to libyaml must be the data of `y`.
fn same(t: &str, what: &str, y: &Yaml) -> Result<(), String> {
    let n = match extyaml::read(t) {
        Read::Root(n) => n,
        // YAML allows it, libyaml does not
        Read::Rejected(m) if m.contains("tab character where an indentation") => return Ok(()),
        Read::Rejected(m) => return Err(format!("{what} is no YAML: {m}\n{t}\n--- data {:?}", refsem::data(y))),
        Read::Beyond(m) => return Err(format!("{what} has {m} in YAML\n{t}\n--- data {:?}", refsem::data(y))),
        Read::Empty => return Err(format!("{what} is empty in YAML\n{t}")),
    };
    let (n, m) = (refsem::resolve(&n), refsem::data(y));
    if n != m {
        return Err(format!("{what} means something else in YAML\n{t}\n--- {}", diff(&format!("{m:?}"), &format!("{n:?}"))));
    }
    Ok(())
}

/// Does the prettied tree have flow scalars that YAML 1.1 (libyaml) does not have?
fn quirks(y: &Yaml) -> bool {
    let mut q = false;
    refsem::each(y, false, &mut |y, inline| q |= inline && matches!(y, Yaml::UnquotedString(v) if quirk(v)));
    q
}

/// A written tree, prettied, as a text with a line end at its end.
pub fn written_is_yaml(y: Yaml, c: &mut Ctx) -> Outcome {
    let mut all_yaml = true;
    refsem::each(&y, false, &mut |y, _| all_yaml &= refsem::text(y).map(|t| t.chars().all(yaml_char)).unwrap_or(true));
    if !all_yaml {
        c.excluded.push("characters that YAML does not have");
        return Outcome::Pass;
    }
    let p = y.clone().pretty();
    if quirks(&p) {
        c.excluded.push("prettied to a flow scalar that YAML 1.1 does not have");
        return Outcome::Pass;
    }
    let t = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(p)] }.format().unwrap() + "\n";
    c.case = t.clone();
    match same(&t, "the written text", &y) {
        Ok(()) => Outcome::Pass,
        Err(m) => Outcome::Fail(m),
    }
}

fn c20(s: &mut Src, c: &mut Ctx) -> Outcome {
    if s.chance(1, 4) {
        c.label("serialized value");
        return super::serde_props::written(s, c);
    }
    let cfg = gen::Cfg { multiline_quotes: false, depth: 3, small_keys: s.bool(), ..gen::Cfg::default() };
    let mut doc = gen::document(s, &cfg);
    for t in doc.leading_comments.iter_mut() {
        *t = chars(t.clone());
    }
    for i in doc.items.iter_mut() {
        match i {
            DocumentData::Yaml(y) => *y = safe(y.clone(), false),
            DocumentData::Comment(t) => *t = chars(t.clone()),
        }
    }
    classify(&doc, c);
    let t = layout::document_yaml(s, &doc);
    c.case = t.clone();
    let d = must_parse!(t, "a supported layout");
    c.nontrivial = refsem::nodes(gen::root(&d)) >= 3;
    // the text itself, with what is quoted and what is not
    match extyaml::read(&t) {
        Read::Root(n) => {
            let m = refsem::node(gen::root(&d));
            if m != n {
                fail!("the text means something else in YAML\n{t}\n--- {}", diff(&format!("{n:?}"), &format!("{m:?}")));
            }
        }
        // YAML allows it, libyaml does not
        Read::Rejected(m) if m.contains("tab character where an indentation") => c.excluded.push("a block scalar that starts with a tab"),
        Read::Rejected(m) => fail!("a layout that should be YAML is not: {m}\n{t}"),
        Read::Beyond(m) => fail!("a layout that should be YAML has {m}\n{t}"),
        Read::Empty => fail!("a layout is empty\n{t}"),
    }
    if let Err(m) = same(&(d.format().unwrap() + "\n"), "the formatted text", gen::root(&d)) {
        fail!("{m}\n--- from\n{t}");
    }
    let p = d.clone().pretty();
    if quirks(gen::root(&p)) {
        c.excluded.push("prettied to a flow scalar that YAML 1.1 does not have");
    } else if let Err(m) = same(&(p.format().unwrap() + "\n"), "the prettied text", gen::root(&d)) {
        fail!("{m}\n--- from\n{t}");
    }
    // and after edits
    if s.bool() {
        let mut e = d.clone();
        let mut log = Vec::new();
        for _ in 0..s.range(1, 4) {
            let op = if s.chance(1, 4) { model::move_sub_op(s, gen::root(&e)) } else { model::simple_op(s, gen::root(&e), &cfg) };
            log.push(op.show());
            if op.real(&mut e) > 0 {
                c.label("edited");
            }
        }
        let mut ok = true;
        for i in e.items.iter_mut() {
            if let DocumentData::Yaml(y) = i {
                ok &= super::edits::keys_ok(y);
                *y = safe(y.clone(), false);
            }
        }
        if !ok {
            c.excluded.push("a new name that cannot be a key");
        } else if let Err(m) = same(&(e.format().unwrap() + "\n"), "the edited text", gen::root(&e)) {
            fail!("{m}\n--- operations\n{}\n--- from\n{t}", log.join("\n"));
        }
    }
    Outcome::Pass
}

fn c20_pinned() -> Vec<(String, Result<(), String>)> {
    let reads = |t: &str| match super::parse(t) {
        super::Parsed::Doc(d) => same(t, "the text", gen::root(&d)),
        super::Parsed::Rejected(m) => Err(m),
        super::Parsed::Limit => Err("parser call limit".into()),
    };
    let formatted = |t: &str, end: &str| match super::parse(t) {
        super::Parsed::Doc(d) => same(&(d.format().unwrap() + end), "the formatted text", gen::root(&d)),
        super::Parsed::Rejected(m) => Err(m),
        super::Parsed::Limit => Err("parser call limit".into()),
    };
    vec![
        ("line-break-in-double-quotes".into(), reads("---\na: \"b\n  c\"\n")),
        ("line-break-in-single-quotes".into(), reads("---\na: 'b\n  c'\n")),
        ("escaped-line-end".into(), reads("---\na: \"b\\\n  c\"\n")),
        ("final-line-end".into(), formatted("---\na: |\n  v\n", "")),
        ("with-final-line-end".into(), formatted("---\na: |\n  v\n", "\n")),
        ("quotes-for-percent".into(), {
            let p = |t: &str| match super::parse(t) {
                super::Parsed::Doc(d) => same(&(d.clone().pretty().format().unwrap() + "\n"), "the prettied text", gen::root(&d)),
                super::Parsed::Rejected(m) => Err(m),
        super::Parsed::Limit => Err("parser call limit".into()),
            };
            p("---\na: '%d'\nb: '! x'\nc: '@me'\nd: '`x'\ne: '? q'\nf:\n- '?'\n- '%'\n")
        }),
    ]
}
