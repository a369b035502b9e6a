//! Reference semantics, written independently of the crate: what a scalar denotes, what a
//! document's data is, how plain scalars resolve, where comments sit.

use yaml_subset::yaml::string::{DoubleQuotedStringEscapedChar as DEsc, DoubleQuotedStringPart as DP, SingleQuotedStringPart as SP};
use yaml_subset::yaml::*;

// ── text of scalars ─────────────────────────────────────────────────────────

fn chomped(body: String, ch: BlockChomping) -> String {
    // `body` has a line end after every line
    let core_len = body.trim_end_matches('\n').len();
    match ch {
        BlockChomping::Keep => body,
        BlockChomping::Strip => body[..core_len].to_string(),
        BlockChomping::Clip => format!("{}\n", &body[..core_len]),
    }
}

pub fn literal_text(lines: &[String], ch: BlockChomping) -> String {
    let mut body = String::new();
    for l in lines {
        body.push_str(l);
        body.push('\n');
    }
    chomped(body, ch)
}

/// YAML's folding: a line break between two text lines becomes a space, `n` empty lines between
/// them become `n` line breaks, and breaks next to a more-indented line stay as they are.
pub fn folded_text(lines: &[String], ch: BlockChomping) -> String {
    let indented = |l: &String| l.starts_with(' ') || l.starts_with('\t');
    let text_at: Vec<usize> = (0..lines.len()).filter(|i| !lines[*i].is_empty()).collect();
    let mut body = String::new();
    match text_at.first() {
        None => {
            for _ in lines {
                body.push('\n');
            }
        }
        Some(first) => {
            for _ in 0..*first {
                body.push('\n');
            }
            body.push_str(&lines[*first]);
            for pair in text_at.windows(2) {
                let (a, b) = (&lines[pair[0]], &lines[pair[1]]);
                let empties = pair[1] - pair[0] - 1;
                let keep = indented(a) || indented(b);
                match (keep, empties) {
                    (true, n) => body.extend(std::iter::repeat('\n').take(n + 1)),
                    (false, 0) => body.push(' '),
                    (false, n) => body.extend(std::iter::repeat('\n').take(n)),
                }
                body.push_str(b);
            }
            let last = text_at.last().unwrap();
            for _ in *last..lines.len() {
                body.push('\n');
            }
        }
    }
    chomped(body, ch)
}

pub fn single_text(parts: &[SP]) -> String {
    parts
        .iter()
        .map(|p| match p {
            SP::String(t) => t.clone(),
            SP::EscapedChar(_) => "'".to_string(),
            SP::BlankLines(n) => "\n".repeat(*n),
            SP::RemovableNewline => String::new(),
        })
        .collect()
}

pub fn double_text(parts: &[DP]) -> String {
    parts
        .iter()
        .map(|p| match p {
            DP::String(t) => t.clone(),
            DP::EscapedChar(c) => match c {
                DEsc::Quote => "\"",
                DEsc::Backslash => "\\",
                DEsc::Tab => "\t",
                DEsc::CarriageReturn => "\r",
                DEsc::Newline | DEsc::RealNewline => "\n",
            }
            .to_string(),
            DP::BlankLines(n) => "\n".repeat(*n),
            DP::RemovableNewline => String::new(),
        })
        .collect()
}

/// The string a scalar denotes; `None` for collections and references.
pub fn text(y: &Yaml) -> Option<String> {
    Some(match y {
        Yaml::UnquotedString(s) => s.clone(),
        Yaml::SingleQuotedString(p) => single_text(p),
        Yaml::DoubleQuotedString(p) => double_text(p),
        Yaml::LiteralString(l, c) => literal_text(l, *c),
        Yaml::FoldedString(l, c) => folded_text(l, *c),
        _ => return None,
    })
}

// ── data ────────────────────────────────────────────────────────────────────

/// A document's content with styles and comments gone; plain scalars are still told apart.
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Plain(String),
    Text(String),
    Seq(Vec<Node>),
    Map(Vec<(String, Node)>),
    Ref(String),
    Def(String, Box<Node>),
    /// a reference without a definition before it (after [`substitute`])
    Undef(String),
}

/// The same with plain scalars resolved to null, booleans, numbers and strings.
#[derive(Debug, Clone, PartialEq)]
pub enum Data {
    Null,
    Bool(bool),
    I64(i64),
    U64(u64),
    /// bits, so that NaN equals itself
    F64(u64),
    Str(String),
    Seq(Vec<Data>),
    Map(Vec<(String, Data)>),
    Ref(String),
    Def(String, Box<Data>),
    Undef(String),
}

pub fn is_null(s: &str) -> bool {
    matches!(s, "~" | "null" | "Null" | "NULL")
}

pub fn resolve_plain(s: &str) -> Data {
    if is_null(s) {
        return Data::Null;
    }
    if s == "true" || s == "false" {
        return Data::Bool(s == "true");
    }
    if let Ok(i) = s.parse::<i64>() {
        return Data::I64(i);
    }
    if let Ok(u) = s.parse::<u64>() {
        return Data::U64(u);
    }
    if let Ok(f) = s.parse::<f64>() {
        return Data::F64(f.to_bits());
    }
    Data::Str(s.to_string())
}

pub fn node(y: &Yaml) -> Node {
    match y {
        Yaml::UnquotedString(s) => Node::Plain(s.clone()),
        Yaml::Anchor(n) => Node::Ref(n.clone()),
        Yaml::InlineArray(v) => Node::Seq(v.iter().map(node).collect()),
        Yaml::InlineHash(v) => Node::Map(v.iter().map(|(k, v)| (k.clone(), node(v))).collect()),
        Yaml::Array(v) => Node::Seq(
            v.iter()
                .filter_map(|d| match d {
                    ArrayData::Element(e) => Some(aliased(e)),
                    _ => None,
                })
                .collect(),
        ),
        Yaml::Hash(v) => Node::Map(
            v.iter()
                .filter_map(|d| match d {
                    HashData::Element(e) => Some((e.key.clone(), aliased(&e.value))),
                    _ => None,
                })
                .collect(),
        ),
        other => Node::Text(text(other).expect("scalar")),
    }
}

fn aliased(a: &AliasedYaml) -> Node {
    match &a.alias {
        Some(n) => Node::Def(n.clone(), Box::new(node(&a.value))),
        None => node(&a.value),
    }
}

pub fn resolve(n: &Node) -> Data {
    match n {
        Node::Plain(s) => resolve_plain(s),
        Node::Text(s) => Data::Str(s.clone()),
        Node::Seq(v) => Data::Seq(v.iter().map(resolve).collect()),
        Node::Map(v) => Data::Map(v.iter().map(|(k, v)| (k.clone(), resolve(v))).collect()),
        Node::Ref(n) => Data::Ref(n.clone()),
        Node::Undef(n) => Data::Undef(n.clone()),
        Node::Def(n, v) => Data::Def(n.clone(), Box::new(resolve(v))),
    }
}

pub fn data(y: &Yaml) -> Data {
    resolve(&node(y))
}

/// Replaces every reference by the value of the last definition of that name that is complete
/// before it.  `None` when the result is larger than `budget` nodes.
pub fn substitute(n: &Node, budget: usize) -> Option<Node> {
    let mut left = budget;
    subst(n, &mut Vec::new(), &mut left)
}

fn subst(n: &Node, env: &mut Vec<(String, Node)>, left: &mut usize) -> Option<Node> {
    *left = left.checked_sub(1)?;
    Some(match n {
        Node::Ref(name) => match env.iter().rev().find(|(m, _)| m == name) {
            Some((_, v)) => {
                *left = left.checked_sub(size(v))?;
                v.clone()
            }
            None => Node::Undef(name.clone()),
        },
        Node::Def(name, v) => {
            let v = subst(v, env, left)?;
            env.push((name.clone(), v.clone()));
            v
        }
        Node::Seq(v) => Node::Seq(v.iter().map(|x| subst(x, env, left)).collect::<Option<_>>()?),
        Node::Map(v) => {
            Node::Map(v.iter().map(|(k, x)| subst(x, env, left).map(|x| (k.clone(), x))).collect::<Option<_>>()?)
        }
        x => x.clone(),
    })
}

pub fn size(d: &Node) -> usize {
    match d {
        Node::Seq(v) => 1 + v.iter().map(size).sum::<usize>(),
        Node::Map(v) => 1 + v.iter().map(|x| size(&x.1)).sum::<usize>(),
        Node::Def(_, v) => 1 + size(v),
        _ => 1,
    }
}

/// The first reference without a definition.
pub fn undefined(n: &Node) -> Option<&str> {
    match n {
        Node::Seq(v) => v.iter().find_map(undefined),
        Node::Map(v) => v.iter().find_map(|x| undefined(&x.1)),
        Node::Def(_, v) => undefined(v),
        Node::Undef(n) => Some(n),
        _ => None,
    }
}

// ── comments ────────────────────────────────────────────────────────────────

/// All comment texts of a document, in order.
pub fn comments(d: &Document) -> Vec<String> {
    let mut out = d.leading_comments.clone();
    for i in &d.items {
        match i {
            DocumentData::Comment(c) => out.push(c.clone()),
            DocumentData::Yaml(y) => yaml_comments(y, &mut out),
        }
    }
    out
}

pub fn yaml_comments(y: &Yaml, out: &mut Vec<String>) {
    match y {
        Yaml::Hash(v) => {
            for d in v {
                match d {
                    HashData::Comment(c) | HashData::InlineComment(c) => out.push(c.clone()),
                    HashData::Element(e) => yaml_comments(&e.value.value, out),
                }
            }
        }
        Yaml::Array(v) => {
            for d in v {
                match d {
                    ArrayData::Comment(c) | ArrayData::InlineComment(c) => out.push(c.clone()),
                    ArrayData::Element(e) => yaml_comments(&e.value, out),
                }
            }
        }
        _ => {}
    }
}

/// Comments and the entries around them, in order: where each comment sits.
/// An entry is its key (or `-`) with its nesting depth.
#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Comment(String),
    /// on the line of the entry before it
    Trailing(String),
    Key(usize, String),
    Item(usize),
    /// a scalar's text (or a marker for other leaves)
    Leaf(String),
    Root,
}

pub fn events(d: &Document) -> Vec<Ev> {
    let mut out: Vec<Ev> = d.leading_comments.iter().map(|c| Ev::Comment(c.clone())).collect();
    out.push(Ev::Root);
    for i in &d.items {
        match i {
            DocumentData::Comment(c) => out.push(Ev::Comment(c.clone())),
            DocumentData::Yaml(y) => yaml_events(y, 0, &mut out),
        }
    }
    out
}

fn yaml_events(y: &Yaml, depth: usize, out: &mut Vec<Ev>) {
    match y {
        Yaml::Hash(v) => {
            for d in v {
                match d {
                    HashData::Comment(c) => out.push(Ev::Comment(c.clone())),
                    HashData::InlineComment(c) => out.push(Ev::Trailing(c.clone())),
                    HashData::Element(e) => {
                        out.push(Ev::Key(depth, e.key.clone()));
                        yaml_events(&e.value.value, depth + 1, out);
                    }
                }
            }
        }
        Yaml::Array(v) => {
            for d in v {
                match d {
                    ArrayData::Comment(c) => out.push(Ev::Comment(c.clone())),
                    ArrayData::InlineComment(c) => out.push(Ev::Trailing(c.clone())),
                    ArrayData::Element(e) => {
                        out.push(Ev::Item(depth));
                        yaml_events(&e.value, depth + 1, out);
                    }
                }
            }
        }
        other => out.push(Ev::Leaf(text(other).unwrap_or_else(|| "\u{0}".into()))),
    }
}

/// The same events with every comment on a line of its own.
pub fn own_lines(ev: Vec<Ev>) -> Vec<Ev> {
    ev.into_iter()
        .map(|e| match e {
            Ev::Trailing(c) => Ev::Comment(c),
            e => e,
        })
        .collect()
}

/// Is there a same-line comment behind a block scalar (which cannot be written that way)?
pub fn comment_after_block(y: &Yaml) -> bool {
    fn block(y: &Yaml) -> bool {
        matches!(y, Yaml::LiteralString(..) | Yaml::FoldedString(..))
    }
    match y {
        Yaml::Hash(v) => {
            v.windows(2).any(|w| match (&w[0], &w[1]) {
                (HashData::Element(e), HashData::InlineComment(_)) => block(&e.value.value),
                _ => false,
            }) || v.iter().any(|d| match d {
                HashData::Element(e) => comment_after_block(&e.value.value),
                _ => false,
            })
        }
        Yaml::Array(v) => {
            v.windows(2).any(|w| match (&w[0], &w[1]) {
                (ArrayData::Element(e), ArrayData::InlineComment(_)) => block(&e.value),
                _ => false,
            }) || v.iter().any(|d| match d {
                ArrayData::Element(e) => comment_after_block(&e.value),
                _ => false,
            })
        }
        _ => false,
    }
}

// ── small helpers ───────────────────────────────────────────────────────────

pub fn nodes(y: &Yaml) -> usize {
    1 + match y {
        Yaml::InlineArray(v) => v.iter().map(nodes).sum(),
        Yaml::InlineHash(v) => v.iter().map(|x| nodes(&x.1)).sum(),
        Yaml::Array(v) => v
            .iter()
            .map(|d| match d {
                ArrayData::Element(e) => nodes(&e.value),
                _ => 0,
            })
            .sum(),
        Yaml::Hash(v) => v
            .iter()
            .map(|d| match d {
                HashData::Element(e) => nodes(&e.value.value),
                _ => 0,
            })
            .sum(),
        _ => 0,
    }
}

pub fn depth(y: &Yaml) -> usize {
    match y {
        Yaml::InlineArray(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        Yaml::InlineHash(v) => 1 + v.iter().map(|x| depth(&x.1)).max().unwrap_or(0),
        Yaml::Array(v) => {
            1 + v
                .iter()
                .map(|d| match d {
                    ArrayData::Element(e) => depth(&e.value),
                    _ => 0,
                })
                .max()
                .unwrap_or(0)
        }
        Yaml::Hash(v) => {
            1 + v
                .iter()
                .map(|d| match d {
                    HashData::Element(e) => depth(&e.value.value),
                    _ => 0,
                })
                .max()
                .unwrap_or(0)
        }
        _ => 0,
    }
}

/// Calls `f` on every node, with whether it is inside `[...]`/`{...}`.
pub fn each<'a>(y: &'a Yaml, inline: bool, f: &mut dyn FnMut(&'a Yaml, bool)) {
    f(y, inline);
    match y {
        Yaml::InlineArray(v) => v.iter().for_each(|x| each(x, true, f)),
        Yaml::InlineHash(v) => v.iter().for_each(|x| each(&x.1, true, f)),
        Yaml::Array(v) => v.iter().for_each(|d| {
            if let ArrayData::Element(e) = d {
                each(&e.value, inline, f)
            }
        }),
        Yaml::Hash(v) => v.iter().for_each(|d| {
            if let HashData::Element(e) = d {
                each(&e.value.value, inline, f)
            }
        }),
        _ => {}
    }
}
