//! The properties.  Each is a function from a source of choices to a verdict.

macro_rules! must_doc {
    ($t:expr) => {{
        use crate::props::{parse, Parsed};
        match parse(&$t) {
            Parsed::Doc(d) => d,
            Parsed::Limit => return crate::engine::Outcome::Inconclusive("parser call limit"),
            Parsed::Rejected(e) => return crate::engine::Outcome::Fail(format!("is rejected:\n{}\n--- error ---\n{}", $t, e)),
        }
    }};
}

pub mod codec;
pub mod edits;
pub mod effort;
pub mod interop;
pub mod paths;
pub mod pretty;
pub mod serde_props;
pub mod text;
pub mod traverse;

use crate::engine::Prop;
use yaml_subset::yaml::*;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(text::PROPS);
    v.extend(pretty::PROPS);
    v.extend(serde_props::PROPS);
    v.extend(paths::PROPS);
    v.extend(edits::PROPS);
    v.extend(traverse::PROPS);
    v.extend(codec::PROPS);
    v.extend(interop::PROPS);
    v.extend(effort::PROPS);
    v.sort_by_key(|p| p.id);
    v
}

pub enum Parsed {
    Doc(Document),
    Rejected(String),
    /// pest's call limit, which the harness sets, was reached
    Limit,
}

pub fn parse(t: &str) -> Parsed {
    match parse_yaml_file(t) {
        Ok(d) => Parsed::Doc(d),
        Err(e) => {
            let m = e.to_string();
            if m.contains("call limit reached") {
                Parsed::Limit
            } else {
                Parsed::Rejected(m)
            }
        }
    }
}

/// Parses a text that has to parse.
#[macro_export]
macro_rules! must_parse {
    ($t:expr, $what:expr) => {
        match $crate::props::parse(&$t) {
            $crate::props::Parsed::Doc(d) => d,
            $crate::props::Parsed::Limit => return $crate::engine::Outcome::Inconclusive("parser call limit"),
            $crate::props::Parsed::Rejected(e) => {
                $crate::fail!("{} is rejected:\n{}\n--- error ---\n{}", $what, $t, e)
            }
        }
    };
}

pub fn set_limits() {
    pest::set_call_limit(std::num::NonZeroUsize::new(5_000_000));
}

/// Label a document by the shapes in it.
pub fn classify(doc: &Document, ctx: &mut crate::engine::Ctx) {
    let root = match doc.items.iter().find_map(|i| match i {
        DocumentData::Yaml(y) => Some(y),
        _ => None,
    }) {
        Some(r) => r,
        None => return,
    };
    ctx.label_if(!doc.leading_comments.is_empty(), "leading comments");
    ctx.label_if(doc.items.len() > 1, "comments around the root");
    ctx.label_if(!matches!(root, Yaml::Hash(_) | Yaml::Array(_)), "inline root");
    let d = crate::refsem::depth(root);
    ctx.label_if(d >= 4, "depth >= 4");
    ctx.label_if(d >= 7, "depth >= 7");
    ctx.label_if(crate::refsem::nodes(root) >= 20, ">= 20 nodes");
    crate::refsem::each(root, false, &mut |y, inline| {
        let l = match y {
            Yaml::UnquotedString(_) if inline => "plain scalar in flow",
            Yaml::UnquotedString(_) => "plain scalar",
            Yaml::SingleQuotedString(_) => "single quoted",
            Yaml::DoubleQuotedString(_) => "double quoted",
            Yaml::LiteralString(..) => "literal",
            Yaml::FoldedString(..) => "folded",
            Yaml::Anchor(_) => "reference",
            Yaml::InlineArray(_) => "flow list",
            Yaml::InlineHash(_) => "flow mapping",
            Yaml::Array(v) => {
                for x in v {
                    match x {
                        ArrayData::Comment(_) => ctx.label("comment in list"),
                        ArrayData::InlineComment(_) => ctx.label("comment after list item"),
                        ArrayData::Element(e) => {
                            ctx.label_if(e.alias.is_some(), "definition");
                            ctx.label_if(matches!(e.value, Yaml::Array(_)), "list in list");
                            ctx.label_if(matches!(e.value, Yaml::Hash(_)), "mapping in list");
                        }
                    }
                }
                "block list"
            }
            Yaml::Hash(v) => {
                for x in v {
                    match x {
                        HashData::Comment(_) => ctx.label("comment in mapping"),
                        HashData::InlineComment(_) => ctx.label("comment after mapping entry"),
                        HashData::Element(e) => ctx.label_if(e.value.alias.is_some(), "definition"),
                    }
                }
                "block mapping"
            }
        };
        ctx.label(l);
    });
}

/// The first difference between two texts or debug prints, for messages.
pub fn diff(want: &str, got: &str) -> String {
    let at = want.chars().zip(got.chars()).take_while(|(a, b)| a == b).count();
    let from = at.saturating_sub(60);
    let cut = |s: &str| s.chars().skip(from).take(200).collect::<String>();
    format!("want …{}…\n got …{}…", cut(want), cut(got))
}

