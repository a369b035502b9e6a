//! Renders a document (the crate's syntax tree) as text, in any of the layouts the
//! subset supports: indentation widths, compact or broken list items, zero-indented
//! lists under keys, blank lines, comment placement, spacing, line ends.
//!
//! Independent of the crate's own formatter.  With all choices 0 the result is close to
//! what the formatter writes.

use crate::engine::Src;
use yaml_subset::yaml::string::{DoubleQuotedStringPart as DP, SingleQuotedStringPart as SP};
use yaml_subset::yaml::*;

pub struct W {
    pub out: String,
    /// parent column of the block scalar that was just written, if any
    after_block: Option<usize>,
    after_comment: bool,
    /// the block scalar just written ends in an empty line, which needs a line end to count
    ends_empty: bool,
    plain: bool,
    /// only what YAML has: indentation indicators of one digit
    yaml: bool,
}

fn sp(n: usize) -> String {
    " ".repeat(n)
}

impl W {
    fn push(&mut self, t: &str) {
        self.out.push_str(t);
        self.after_block = None;
        self.after_comment = false;
    }
    fn step(&self, s: &mut Src) -> usize {
        if self.plain {
            return 2;
        }
        if s.chance(1, 100) {
            return s.range(10, 40);
        }
        *s.pick(&[2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 3, 3, 4, 4, 4, 5, 7, 8, 9, 12])
    }
    fn gap(&self, s: &mut Src) -> String {
        if self.plain {
            return " ".into();
        }
        sp(if s.chance(1, 100) { s.range(4, 30) } else { *s.pick(&[1, 1, 1, 1, 1, 2, 3]) })
    }
    /// Ends the current line; optionally adds blank lines.
    fn newline(&mut self, s: &mut Src) {
        if self.after_block.is_some() {
            self.out.push('\n');
            return;
        }
        if !self.plain && !self.after_comment && s.chance(1, 12) {
            let k = crate::gen::count(s, 1, 2, 20);
            self.out.push_str(&sp(k));
        }
        self.out.push('\n');
        self.blanks(s);
    }
    fn blanks(&mut self, s: &mut Src) {
        if !self.plain && s.chance(1, 10) {
            let n = if s.chance(1, 10) { s.range(4, 20) } else { s.range(1, 3) };
            for _ in 0..n {
                let k = s.below(5);
                self.out.push_str(&sp(if k > 2 { k } else { 0 }));
                self.out.push('\n');
            }
        }
    }
    fn comment_line(&mut self, s: &mut Src, c: &str, col: usize) {
        let lim = self.after_block;
        self.newline(s);
        let ind = if self.plain {
            col
        } else {
            match s.weighted(&[6, 1, 1, 1]) {
                0 => col,
                1 => 0,
                2 => col + 2,
                _ => crate::gen::count(s, 0, 8, 40),
            }
        };
        let ind = match lim {
            Some(l) => ind.min(l),
            None => ind,
        };
        self.push(&format!("{}#{}", sp(ind), c));
        self.after_comment = true;
    }
}

pub fn quoted_single(parts: &[SP]) -> String {
    let mut o = String::from("'");
    for p in parts {
        match p {
            SP::String(t) => o.push_str(t),
            SP::EscapedChar(_) => o.push_str("''"),
            SP::BlankLines(n) => o.push_str(&"\n".repeat(n + 1)),
            SP::RemovableNewline => o.push('\n'),
        }
    }
    o.push('\'');
    o
}

pub fn quoted_double(parts: &[DP]) -> String {
    use yaml_subset::yaml::string::DoubleQuotedStringEscapedChar as E;
    let mut o = String::from("\"");
    for p in parts {
        match p {
            DP::String(t) => o.push_str(t),
            DP::EscapedChar(c) => o.push_str(match c {
                E::Quote => "\\\"",
                E::Backslash => "\\\\",
                E::Tab => "\\t",
                E::CarriageReturn => "\\r",
                E::Newline => "\\n",
                E::RealNewline => "\\\n",
            }),
            DP::BlankLines(n) => o.push_str(&"\n".repeat(n + 1)),
            DP::RemovableNewline => o.push('\n'),
        }
    }
    o.push('"');
    o
}

/// Must the block scalar have an indentation indicator?
pub fn needs_indicator(_folded: bool, lines: &[String]) -> bool {
    lines.iter().find(|l| !l.is_empty()).map(|l| l.starts_with(' ')).unwrap_or(false)
}

fn scalar_needs_indicator(v: &AliasedYaml) -> bool {
    match &v.value {
        Yaml::LiteralString(l, _) | Yaml::FoldedString(l, _) => needs_indicator(false, l),
        _ => false,
    }
}

fn inline_space(s: &mut Src, plain: bool, must: bool) -> String {
    if plain {
        return " ".into();
    }
    match s.weighted(&[12, 4, 1, 1]) {
        0 => " ".into(),
        1 => {
            if must {
                "  ".into()
            } else {
                String::new()
            }
        }
        2 => "\n  ".into(),
        _ => " \n".into(),
    }
}

pub fn inline(s: &mut Src, y: &Yaml, plain: bool) -> String {
    match y {
        Yaml::UnquotedString(t) => t.clone(),
        Yaml::SingleQuotedString(p) => quoted_single(p),
        Yaml::DoubleQuotedString(p) => quoted_double(p),
        Yaml::Anchor(a) => format!("*{a}"),
        Yaml::InlineArray(v) => {
            let mut o = String::from("[");
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    if !plain && s.chance(1, 8) {
                        o.push_str(&inline_space(s, plain, false));
                    }
                    o.push(',');
                }
                o.push_str(&inline_space(s, plain, false));
                o.push_str(&inline(s, e, plain));
            }
            if !v.is_empty() || (!plain && s.chance(1, 4)) {
                o.push_str(&inline_space(s, plain, false));
            }
            o.push(']');
            o
        }
        Yaml::InlineHash(v) => {
            let mut o = String::from("{");
            for (i, (k, e)) in v.iter().enumerate() {
                if i > 0 {
                    if !plain && s.chance(1, 8) {
                        o.push_str(&inline_space(s, plain, false));
                    }
                    o.push(',');
                }
                o.push_str(&inline_space(s, plain, false));
                o.push_str(k);
                if !plain && s.chance(1, 8) {
                    o.push(' ');
                }
                o.push(':');
                o.push_str(&inline_space(s, plain, true));
                o.push_str(&inline(s, e, plain));
            }
            if !v.is_empty() || (!plain && s.chance(1, 4)) {
                o.push_str(&inline_space(s, plain, false));
            }
            o.push('}');
            o
        }
        _ => panic!("not an inline value: {y:?}"),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum After {
    Key,
    Dash,
}

impl W {
    fn block_scalar(&mut self, s: &mut Src, folded: bool, lines: &[String], ch: &BlockChomping, parent_col: usize, on_dash_line: bool) {
        self.push(if folded { ">" } else { "|" });
        self.push(match ch {
            BlockChomping::Clip => "",
            BlockChomping::Strip => "-",
            BlockChomping::Keep => "+",
        });
        let mut ind = parent_col + self.step(s);
        if self.yaml {
            ind = ind.min(parent_col + 9);
        }
        let first_indented = needs_indicator(folded, lines);
        if first_indented || !on_dash_line && (!self.plain && s.chance(1, 8)) {
            let k = ind - parent_col;
            self.push(&format!("{k}"));
        }
        if !self.plain && s.chance(1, 10) {
            self.push(" ");
        }
        for l in lines {
            self.out.push('\n');
            if l.is_empty() {
                // an empty line may or may not carry the indentation
                if self.plain || s.chance(1, 4) {
                    self.out.push_str(&sp(ind));
                }
            } else {
                self.out.push_str(&sp(ind));
                self.out.push_str(l);
            }
        }
        self.after_block = Some(parent_col);
        self.ends_empty = lines.last().map(|l| l.is_empty()).unwrap_or(false);
    }

    /// Writes a value right after `key:` or `-`; `col` is the column of the key or dash.
    fn value(&mut self, s: &mut Src, v: &AliasedYaml, col: usize, after: After, on_dash_line: bool) {
        let collection = matches!(v.value, Yaml::Hash(_) | Yaml::Array(_) | Yaml::LiteralString(..) | Yaml::FoldedString(..));
        if after == After::Key && !collection && !self.plain && s.chance(1, 14) {
            // a value on the line after its key
            self.newline(s);
            let ind = col + self.step(s);
            self.out.push_str(&sp(ind));
            if let Some(a) = &v.alias {
                let g = self.gap(s);
                self.push(&format!("&{a}{g}"));
            }
            let t = inline(s, &v.value, self.plain);
            self.push(&t);
            return;
        }
        let mut aliased = false;
        if let Some(a) = &v.alias {
            let g = self.gap(s);
            self.push(&format!("{g}&{a}"));
            aliased = true;
        }
        match &v.value {
            Yaml::Hash(d) => {
                let lead = matches!(d.first(), Some(HashData::Comment(_)));
                // known finding: an indentation indicator on the first key of a list item
                let ind = matches!(d.first(), Some(HashData::Element(e)) if scalar_needs_indicator(&e.value));
                if after == After::Dash && !aliased && !lead && !ind && (self.plain || !s.chance(1, 8)) {
                    let g = self.gap(s);
                    self.push(&g);
                    self.hash(s, d, col + 1 + g.len(), true);
                    return;
                }
                let child = col + self.step(s);
                if lead && (after == After::Dash || (!self.plain && s.chance(1, 4))) && !(aliased && self.plain) {
                    self.comment_after(s, d.first().map(|x| match x {
                        HashData::Comment(c) => c.as_str(),
                        _ => "",
                    }));
                    self.hash(s, &d[1..], child, false);
                    return;
                }
                if after == After::Dash && !aliased {
                    self.push(" ");
                } else if !self.plain && s.chance(1, 10) {
                    self.push(" ");
                }
                self.hash(s, d, child, false);
            }
            Yaml::Array(d) => {
                let lead = matches!(d.first(), Some(ArrayData::Comment(_)));
                // known finding: a third list on one line (see DESIGN.md), so it goes on its own line
                let ind = matches!(d.first(), Some(ArrayData::Element(e)) if scalar_needs_indicator(e));
                if after == After::Dash && !aliased && !lead && !on_dash_line && !ind && (self.plain || !s.chance(1, 8)) {
                    let g = self.gap(s);
                    self.push(&g);
                    self.array(s, d, col + 1 + g.len(), true);
                    return;
                }
                let child = if after == After::Key && !self.plain && s.chance(1, 3) { col } else { col + self.step(s) };
                if lead && (after == After::Dash || aliased || (!self.plain && s.chance(1, 4))) {
                    self.comment_after(s, d.first().map(|x| match x {
                        ArrayData::Comment(c) => c.as_str(),
                        _ => "",
                    }));
                    self.array(s, &d[1..], child, false);
                    return;
                }
                if after == After::Dash && !aliased {
                    self.push(" ");
                } else if !self.plain && !lead && s.chance(1, 10) {
                    self.push(" ");
                }
                self.array(s, d, child, false);
            }
            Yaml::LiteralString(l, c) | Yaml::FoldedString(l, c) => {
                let g = self.gap(s);
                self.push(&g);
                self.block_scalar(s, matches!(v.value, Yaml::FoldedString(..)), l, c, col, on_dash_line);
            }
            other => {
                let g = self.gap(s);
                self.push(&g);
                let t = inline(s, other, self.plain);
                self.push(&t);
            }
        }
    }

    fn comment_after(&mut self, s: &mut Src, c: Option<&str>) {
        let g = self.gap(s);
        self.push(&format!("{g}#{}", c.unwrap_or("")));
        self.after_comment = true;
    }

    fn hash(&mut self, s: &mut Src, data: &[HashData], col: usize, mut same_line: bool) {
        for d in data {
            match d {
                HashData::Comment(c) => self.comment_line(s, c, col),
                HashData::InlineComment(c) => self.comment_after(s, Some(c)),
                HashData::Element(e) => {
                    let first = same_line;
                    if same_line {
                        same_line = false;
                    } else {
                        self.newline(s);
                        self.out.push_str(&sp(col));
                    }
                    self.push(&e.key);
                    if !self.plain && s.chance(1, 12) {
                        self.push(" ");
                    }
                    self.push(":");
                    self.value(s, &e.value, col, After::Key, first);
                }
            }
        }
    }

    fn array(&mut self, s: &mut Src, data: &[ArrayData], col: usize, mut same_line: bool) {
        for d in data {
            match d {
                ArrayData::Comment(c) => self.comment_line(s, c, col),
                ArrayData::InlineComment(c) => self.comment_after(s, Some(c)),
                ArrayData::Element(e) => {
                    let first = same_line;
                    if same_line {
                        same_line = false;
                    } else {
                        self.newline(s);
                        self.out.push_str(&sp(col));
                    }
                    self.push("-");
                    self.value(s, e, col, After::Dash, first);
                }
            }
        }
    }
}

pub fn document(s: &mut Src, doc: &Document, plain: bool) -> String {
    write(s, doc, plain, false)
}

/// A layout that is also YAML (as far as the texts in it are), with a line end at the end.
pub fn document_yaml(s: &mut Src, doc: &Document) -> String {
    let mut t = write(s, doc, false, true);
    if !t.ends_with('\n') {
        t.push('\n');
    }
    t
}

fn write(s: &mut Src, doc: &Document, plain: bool, yaml: bool) -> String {
    let mut w = W { out: String::new(), after_block: None, after_comment: false, ends_empty: false, plain, yaml };
    for (i, c) in doc.leading_comments.iter().enumerate() {
        if i == 0 {
            w.blanks(s);
        }
        let ind = if plain { 0 } else { *s.pick(&[0, 0, 0, 1, 4]) };
        w.push(&format!("{}#{}", sp(ind), c));
        w.after_comment = true;
        w.newline(s);
    }
    w.push("---");
    for item in &doc.items {
        match item {
            DocumentData::Comment(c) => w.comment_line(s, c, 0),
            DocumentData::Yaml(y) => {
                let col = if plain { 0 } else { *s.pick(&[0, 0, 0, 0, 0, 0, 1, 2, 4]) };
                match y {
                    Yaml::Hash(d) => w.hash(s, d, col, false),
                    Yaml::Array(d) => w.array(s, d, col, false),
                    other => {
                        w.newline(s);
                        let t = inline(s, other, plain);
                        w.push(&t);
                    }
                }
            }
        }
    }
    if w.after_block.is_some() && w.ends_empty {
        w.out.push('\n');
    } else if !plain {
        match s.weighted(&[4, 4, 1]) {
            0 => {}
            1 => w.out.push('\n'),
            _ => {
                if w.after_block.is_none() && !w.after_comment {
                    w.out.push_str(s.pick(&[" ", "\n\n", "\n  \n", "  \n \n\n"]))
                }
            }
        }
    }
    w.out
}

/// [`document`], sometimes with CRLF or CR line ends.
pub fn document_any_eol(s: &mut Src, doc: &Document) -> (String, bool) {
    let t = document(s, doc, false);
    match s.weighted(&[17, 2, 1]) {
        0 => (t, false),
        1 => (t.replace('\n', "\r\n"), true),
        _ => (t.replace('\n', "\r"), true),
    }
}
