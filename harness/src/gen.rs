//! Generators: scalars, keys, documents (as the crate's own syntax tree).
//!
//! Everything generated here is in the language the parser accepts, in the canonical
//! form it produces (e.g. no two adjacent text parts in a quoted string, comments
//! attached to the collection whose entry they precede).

use crate::engine::Src;
use yaml_subset::yaml::string::{
    DoubleQuotedStringEscapedChar as DEsc, DoubleQuotedStringPart as DP, SingleQuotedStringEscapedChar as SEsc,
    SingleQuotedStringPart as SP,
};
use yaml_subset::yaml::*;

#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub comments: bool,
    pub alias: bool,
    pub anchors: bool,
    pub block_scalars: bool,
    pub multiline_quotes: bool,
    pub inline: bool,
    pub unique_keys: bool,
    pub small_keys: bool,
    /// block values inside flow collections: no text has them, but serialized tuples do
    pub block_in_flow: bool,
    pub max_len: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            depth: 4,
            comments: true,
            alias: true,
            anchors: true,
            block_scalars: true,
            multiline_quotes: true,
            inline: true,
            unique_keys: false,
            small_keys: false,
            block_in_flow: false,
            max_len: 4,
        }
    }
}

// ── characters ──────────────────────────────────────────────────────────────

/// Unicode space separators (category Zs): the parser skips these where a separator is expected.
pub fn is_zs(c: char) -> bool {
    matches!(c, ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}

pub fn name_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// (the parser's tables take some characters for letters that have no meaning yet)
fn maybe_name_char(c: char) -> bool {
    name_char(c) || !c.is_ascii()
}

pub const KEY_POOL: &[&str] = &[
    "a", "b", "c", "d", "type", "k1", "x_y", "a-b", "a b", "_", "9", "Key", "name", "null", "true", "a  b", "0x", "z-",
    "long key with several words", "é", "日本", "ß9", "Ω_", "٣", "Ⅷ",
];
pub const SMALL_KEYS: &[&str] = &["a", "b", "c", "type", "k1", "x_y", "a-b", "a b"];

/// One of the few keys that edits use, now and then one that is almost it.
pub fn small_key(s: &mut Src) -> String {
    let t = *s.pick(SMALL_KEYS);
    if s.chance(1, 30) {
        let k = tweak(s, t);
        if key_ok(&k) {
            return k;
        }
    }
    t.to_string()
}

pub fn key(s: &mut Src, cfg: &Cfg) -> String {
    if cfg.small_keys {
        return small_key(s);
    }
    match s.weighted(&[6, 2, 1]) {
        0 => s.pick(&KEY_POOL[..8]).to_string(),
        1 if s.chance(1, 4) => {
            let t = *s.pick(KEY_POOL);
            let k = tweak(s, t);
            if key_ok(&k) {
                k
            } else {
                t.to_string()
            }
        }
        1 => s.pick(KEY_POOL).to_string(),
        _ => {
            let first = ['a', 'b', 'Z', '0', '7', '_', 'é', '日'];
            let rest = ['a', 'b', 'z', '1', '_', '-', ' ', 'Q', 'ñ', '²'];
            let n = if s.chance(1, 20) { count(s, 40, 90, 600) } else { s.range(0, 12) };
            let mut k = String::new();
            k.push(*s.pick(&first));
            for _ in 0..n {
                k.push(*s.pick(&rest));
            }
            k.trim_end().to_string()
        }
    }
}

/// Is the text a key of the text format?
pub fn key_ok(k: &str) -> bool {
    // letters and numbers beyond doubt: Rust counts some combining marks as letters
    let name = |c: char| {
        c.is_ascii_alphanumeric()
            || matches!(c, '_' | 'À'..='Ö' | 'à'..='ö' | 'Α'..='Ρ' | 'Σ'..='Ω' | 'α'..='ω' | 'А'..='я' | '一'..='鿕' | 'ß' | 'ø' | '٣' | 'Ⅷ' | 'ⅷ' | '²' | 'ÿ')
    };
    !k.ends_with(' ') && k.chars().next().map_or(false, name) && k.chars().all(|c| name(c) || c == '-' || c == ' ')
}

pub fn alias_name(s: &mut Src) -> String {
    if s.chance(1, 12) {
        let n = if s.chance(1, 10) { count(s, 30, 80, 300) } else { s.range(1, 9) };
        return (0..n).map(|_| *s.pick(&['a', 'Z', '0', '9', '_', 'é', '日'])).collect();
    }
    s.pick(&["x", "y", "anch", "ok2", "A_b", "1", "_", "é1", "correct"]).to_string()
}

/// A text that is almost the given one: other case, a character twice, left out or put in.
pub fn tweak(s: &mut Src, t: &str) -> String {
    let other = |c: char| -> char {
        if c.is_uppercase() {
            c.to_lowercase().next().unwrap()
        } else {
            let mut u = c.to_uppercase();
            let first = u.next().unwrap();
            if u.next().is_some() {
                c
            } else {
                first
            }
        }
    };
    let mut v: Vec<char> = t.chars().collect();
    if v.is_empty() {
        v.push(*s.pick(&['~', '0', ' ', 'a']));
        return v.into_iter().collect();
    }
    let at = s.below(v.len());
    match s.weighted(&[3, 3, 2, 2, 1, 4, 1]) {
        0 => v[at] = other(v[at]),
        1 => v = v.into_iter().map(other).collect(),
        2 => v.insert(at, v[at]),
        3 => {
            v.remove(at);
        }
        4 => {
            let to = s.below(v.len());
            v.swap(at, to);
        }
        5 => {
            let c = *s.pick(&['+', '-', '.', '_', '0', ' ', 'e', 'E', 'x', '~', '1', ',', ':', '\t', '\'']);
            let at = match s.below(3) {
                0 => 0,
                1 => v.len(),
                _ => at,
            };
            v.insert(at, c);
        }
        _ => {
            let c = any_char(s);
            v[at] = c;
        }
    }
    v.into_iter().collect()
}

/// One of the texts, now and then one that is almost it.
pub fn near(s: &mut Src, texts: &[&str]) -> String {
    let t = *s.pick(texts);
    if s.chance(1, 12) {
        tweak(s, t)
    } else {
        t.to_string()
    }
}

/// A count from `lo` to `hi`, now and then one up to `far`.
pub fn count(s: &mut Src, lo: usize, hi: usize, far: usize) -> usize {
    if s.chance(1, 30) {
        s.range(hi, far)
    } else {
        s.range(lo, hi)
    }
}

/// Any character but the line ends.
pub fn any_char(s: &mut Src) -> char {
    if s.chance(1, 30) {
        let c = match s.below(3) {
            0 => *s.pick(&[
                '\0', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{200b}', '\u{ad}', '\u{3000}', '\u{fffd}',
                '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}',
            ]),
            1 => char::from_u32(s.below(0x800) as u32).unwrap(),
            _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        };
        return if c == '\n' || c == '\r' { ' ' } else { c };
    }
    *s.pick(&ANY_CHARS[..])
}

// ── plain scalars ───────────────────────────────────────────────────────────

const FRAGS: &[&str] = &[
    "v", "w", "word", "1", "0", "-7", "3.5", "1e3", "true", "false", "null", "~", "NULL", "Null", "True", "TRUE", "False", "No", "yes", "it's", "don''t",
    "a,b", "x, y", "[z]", "f(x)[0]", "{if(a*b>0, c[0], d[1])}", "<em>b</em>", "|x|", "a > b", "a>b", "x:y", "http://e.org/a?b=1", "\"q\"",
    "say \"hi\"", "&amp;", "* 2", "a*b", "- z", "a - b", "-x", "--", "%d", "@me", "`c`", "!t", "? q", "\\n", "C:\\dir", "$\\frac{1}{2}$",
    "é", "日本語", "🎉", "e\u{301}", "a\u{a0}b", "t\tb", "=", "a=b", "...", "Lorem ipsum dolor sit amet", "0195d1a3-9c41",
    "2025-03-26T09:48:35.393+01:00", "+5", "0x1F", ".5", "NaN", "inf", "1_000", "&", "*", "&x", "*y", ":", "a:", ":a", "_",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e400", "-0", "0.0", "-0.0",
    "007", "1.", "-.5", "1E5", "1e-7", "+1.5e+3", ".inf", "-.inf", ".nan", "infinity", "-inf", "nan", "0b1", "0o17", "٣", "on", "off", "y", "n", "Yes", "NO", "None", "nil", "<<",
];

fn raw_fragment_string(s: &mut Src) -> String {
    let n = s.weighted(&[0, 8, 4, 2, 1]);
    let mut out = String::new();
    for i in 0..n.max(1) {
        if i > 0 {
            out.push_str(s.pick(&[" ", "", "  "]));
        }
        match s.weighted(&[8, 1]) {
            0 => out.push_str(&near(s, FRAGS)),
            _ => {
                let m = s.range(1, 8);
                for _ in 0..m {
                    out.push(any_char(s));
                }
            }
        }
    }
    out
}

pub const ANY_CHARS: [char; 48] = [
    'a', 'b', 'c', ' ', '0', '1', '-', ':', ',', '.', '\'', '"', '[', ']', '{', '}', '<', '>', '|', '&', '*', '!', '?', '%', '@', '`', '\\',
    '/', '(', ')', '+', '=', '~', '_', ';', '^', '$', 'é', 'ß', '日', '🎉', '\u{301}', '\t', '\u{a0}', 'Z', 'n', '9', '#',
];

/// Can `v` be written bare as a block value (after `key:` or `-`) and read back as itself?
pub fn plain_block_ok(v: &str) -> bool {
    let mut cs = v.chars();
    let first = match cs.next() {
        None => return false,
        Some(c) => c,
    };
    if is_zs(first) || v.ends_with(' ') {
        return false;
    }
    if matches!(first, '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|') {
        return false;
    }
    if v.contains(": ") || v.contains('#') || v.contains('\n') || v.contains('\r') {
        return false;
    }
    let second = cs.next();
    if v == "-" {
        return false;
    }
    // "- x" starts a list, "&x"/"*x" are an anchor definition/reference
    if first == '-' && second.map(is_zs).unwrap_or(false) {
        return false;
    }
    if (first == '&' || first == '*') && second.map(maybe_name_char).unwrap_or(false) {
        return false;
    }
    // "x:" followed by a separator or the end of the line starts a nested mapping
    let chars: Vec<char> = v.chars().collect();
    for (i, c) in chars.iter().enumerate() {
        if *c == ':' {
            match chars.get(i + 1) {
                None => return false,
                Some(n) if is_zs(*n) => return false,
                _ => {}
            }
        }
    }
    true
}

/// Same, inside `[...]` / `{...}`.
pub fn plain_inline_ok(v: &str) -> bool {
    let mut cs = v.chars();
    let first = match cs.next() {
        None => return false,
        Some(c) => c,
    };
    if first == ' ' || v.ends_with(' ') || first == '\'' {
        return false;
    }
    if v.chars().any(|c| matches!(c, ',' | '[' | ']' | '{' | '}' | '"' | '#' | '>' | '|' | '\n' | '\r')) || v.contains(": ") {
        return false;
    }
    if v.ends_with(':') || first == ':' {
        return false;
    }
    if first == '*' && cs.next().map(maybe_name_char).unwrap_or(false) {
        return false;
    }
    true
}

pub fn plain_block(s: &mut Src) -> String {
    for _ in 0..4 {
        let v = raw_fragment_string(s);
        if plain_block_ok(&v) {
            return v;
        }
        let t: String = v.trim_matches(' ').replace('#', "").replace(": ", ":");
        if plain_block_ok(&t) {
            return t;
        }
    }
    "v".into()
}

pub fn plain_inline(s: &mut Src) -> String {
    for _ in 0..4 {
        let v = raw_fragment_string(s);
        if plain_inline_ok(&v) {
            return v;
        }
        let t: String = v.chars().filter(|c| !",[]{}\"#>|\n\r".contains(*c)).collect();
        let t = t.trim_matches(' ').to_string();
        if plain_inline_ok(&t) {
            return t;
        }
    }
    "v".into()
}

// ── quoted scalars ──────────────────────────────────────────────────────────

fn text_run(s: &mut Src, banned: &str) -> String {
    let mut t = raw_fragment_string(s);
    if s.chance(1, 6) {
        t = format!(" {t}");
    }
    if s.chance(1, 6) {
        t.push(' ');
    }
    if s.chance(1, 5) {
        t.push_str(s.pick(&[": ", " #", "#", ", ", "[", "]", "{", "}", ">", "|", "-", "- "]));
    }
    if s.chance(1, 12) {
        let n = if s.chance(1, 10) { s.range(15, 200) } else { s.range(1, 14) };
        t = vec![t; n].join(" ");
        t = t.chars().take(4000).collect();
    }
    let t: String = t.chars().filter(|c| !banned.contains(*c)).collect();
    if t.is_empty() {
        "t".into()
    } else {
        t
    }
}

/// How many blank lines: sometimes more than a byte can count.
fn blank_lines(s: &mut Src) -> usize {
    if s.chance(1, 150) {
        s.range(200, 700)
    } else {
        count(s, 1, 3, 20)
    }
}

pub fn single_parts(s: &mut Src, multiline: bool) -> Vec<SP> {
    let n = if s.chance(1, 60) { count(s, 6, 40, 90) } else { s.weighted(&[1, 6, 3, 2, 1, 1]) };
    let mut out: Vec<SP> = Vec::new();
    for _ in 0..n {
        let nl_ok = multiline && !matches!(out.last(), Some(SP::RemovableNewline) | Some(SP::BlankLines(_)));
        let str_ok = !matches!(out.last(), Some(SP::String(_)));
        match s.weighted(&[6, 3, 1, 1]) {
            0 if str_ok => out.push(SP::String(text_run(s, "'\n"))),
            2 if nl_ok => out.push(SP::RemovableNewline),
            3 if nl_ok => out.push(SP::BlankLines(blank_lines(s))),
            _ => out.push(SP::EscapedChar(SEsc::SingleQuote)),
        }
    }
    out
}

pub fn double_parts(s: &mut Src, multiline: bool) -> Vec<DP> {
    let n = if s.chance(1, 60) { count(s, 6, 40, 90) } else { s.weighted(&[1, 6, 3, 2, 1, 1]) };
    let mut out: Vec<DP> = Vec::new();
    for _ in 0..n {
        let nl_ok = multiline && !matches!(out.last(), Some(DP::RemovableNewline) | Some(DP::BlankLines(_)));
        let str_ok = !matches!(out.last(), Some(DP::String(_)));
        match s.weighted(&[6, 4, 1, 1]) {
            0 if str_ok => out.push(DP::String(text_run(s, "\"\\\n"))),
            2 if nl_ok => out.push(DP::RemovableNewline),
            3 if nl_ok => out.push(DP::BlankLines(blank_lines(s))),
            _ => {
                let mut esc = vec![DEsc::Newline, DEsc::Quote, DEsc::Backslash, DEsc::Tab, DEsc::CarriageReturn];
                if multiline {
                    esc.push(DEsc::RealNewline);
                }
                out.push(DP::EscapedChar(*s.pick(&esc)));
            }
        }
    }
    out
}

// ── block scalars ───────────────────────────────────────────────────────────

pub fn chomp(s: &mut Src) -> BlockChomping {
    *s.pick(&[BlockChomping::Clip, BlockChomping::Strip, BlockChomping::Keep])
}

fn block_line(s: &mut Src) -> String {
    let mut t = match s.weighted(&[8, 1]) {
        0 => raw_fragment_string(s),
        _ => s.pick(&["# not a comment", "key: value", "- item", "for i in x:", "\"", "'", "---", "x #c", "- - a: |", "&a *b", "[", "}"]).to_string(),
    };
    if s.chance(1, 10) {
        t.push(' ');
    }
    t.retain(|c| c != '\n' && c != '\r');
    t
}

/// Lines of a literal/folded scalar.  The first line is non-empty text; later lines may be
/// empty or more indented; the list may end in empty lines.
pub fn block_lines(s: &mut Src) -> Vec<String> {
    let n = if s.chance(1, 60) { count(s, 6, 40, 90) } else { s.weighted(&[6, 5, 3, 2, 1]) + 1 };
    let mut out = Vec::new();
    let mut first = block_line(s);
    while first.starts_with(|c: char| c.is_whitespace()) {
        first.remove(0);
    }
    if first.is_empty() {
        first = "l".into();
    }
    if s.chance(1, 10) {
        let k = count(s, 1, 4, 15);
        first = format!("{}{first}", " ".repeat(k));
    }
    if s.chance(1, 10) {
        for _ in 0..count(s, 1, 2, 12) {
            out.push(String::new());
        }
    }
    out.push(first);
    for _ in 1..n {
        match s.weighted(&[5, 2, 2]) {
            0 => {
                let l = block_line(s);
                out.push(l);
            }
            1 => out.push(String::new()),
            _ => {
                let l = block_line(s);
                let k = count(s, 1, 5, 20);
                out.push(format!("{}{}", " ".repeat(k), l));
            }
        }
    }
    // a line of blanks only is written as an empty line
    for l in out.iter_mut() {
        if l.trim_matches(' ').is_empty() {
            l.clear();
        }
    }
    if s.chance(1, 4) {
        for _ in 0..count(s, 1, 3, 15) {
            out.push(String::new());
        }
    }
    out
}

// ── scalars ─────────────────────────────────────────────────────────────────

pub fn scalar(s: &mut Src, cfg: &Cfg) -> Yaml {
    let w_block = if cfg.block_scalars { 2 } else { 0 };
    match s.weighted(&[8, 3, 3, w_block, w_block, if cfg.anchors { 1 } else { 0 }]) {
        0 => Yaml::UnquotedString(plain_block(s)),
        1 => Yaml::SingleQuotedString(single_parts(s, cfg.multiline_quotes)),
        2 => Yaml::DoubleQuotedString(double_parts(s, cfg.multiline_quotes)),
        3 => Yaml::LiteralString(block_lines(s), chomp(s)),
        4 => Yaml::FoldedString(block_lines(s), chomp(s)),
        _ => Yaml::Anchor(alias_name(s)),
    }
}

pub fn inline_value(s: &mut Src, cfg: &Cfg, depth: usize) -> Yaml {
    let w = if depth > 0 { 2 } else { 0 };
    if cfg.block_in_flow && s.chance(1, 3) {
        return match s.below(if depth > 0 { 4 } else { 2 }) {
            0 if cfg.block_scalars => Yaml::LiteralString(block_lines(s), chomp(s)),
            0 | 1 => scalar(s, cfg),
            2 => array(s, cfg, depth - 1, true),
            _ => hash(s, cfg, depth - 1, true),
        };
    }
    match s.weighted(&[6, 2, 2, w, w, if cfg.anchors { 1 } else { 0 }]) {
        0 => Yaml::UnquotedString(plain_inline(s)),
        1 => Yaml::SingleQuotedString(single_parts(s, cfg.multiline_quotes)),
        2 => Yaml::DoubleQuotedString(double_parts(s, cfg.multiline_quotes)),
        3 => inline_array(s, cfg, depth - 1),
        4 => inline_hash(s, cfg, depth - 1),
        _ => Yaml::Anchor(alias_name(s)),
    }
}

/// Shall another entry follow the `n` there are?  (drawn per entry, so that entries can be shrunk away)
pub struct More {
    max: usize,
    num: usize,
}

impl More {
    pub fn new(s: &mut Src, cfg: &Cfg) -> More {
        if s.chance(1, 60) {
            if s.chance(1, 6) {
                return More { max: 150, num: 99 };
            }
            More { max: 30, num: 95 }
        } else {
            More { max: cfg.max_len, num: 65 }
        }
    }
    pub fn more(&self, s: &mut Src, n: usize) -> bool {
        n < self.max && s.chance(self.num, 100)
    }
}

fn flow_depth(s: &mut Src, depth: usize) -> usize {
    if depth > 0 && s.chance(1, 25) {
        s.range(3, 10)
    } else {
        depth.min(2)
    }
}

pub fn inline_array(s: &mut Src, cfg: &Cfg, depth: usize) -> Yaml {
    let more = More::new(s, cfg);
    let mut out = Vec::new();
    while more.more(s, out.len()) {
        out.push(inline_value(s, cfg, depth));
    }
    Yaml::InlineArray(out)
}

pub fn inline_hash(s: &mut Src, cfg: &Cfg, depth: usize) -> Yaml {
    let more = More::new(s, cfg);
    let mut seen: Vec<String> = Vec::new();
    let mut out = Vec::new();
    while more.more(s, seen.len()) {
        let k = key(s, cfg);
        let v = inline_value(s, cfg, depth);
        let dup = cfg.unique_keys && seen.contains(&k);
        seen.push(k.clone());
        if dup {
            continue;
        }
        out.push((k, v));
    }
    Yaml::InlineHash(out)
}

pub fn comment_text(s: &mut Src) -> String {
    let mut t = s
        .pick(&[
            " c", "", " a longer comment: with, [odd] {chars} 'q' \"d\"", "no space", " # nested # hash", " - item", " key: value", " ünï ✓", "  two  spaces ", " --- ", "!",
        ])
        .to_string();
    if s.chance(1, 3) {
        t.push_str(&format!(" n{}", s.below(1000)));
    }
    if s.chance(1, 60) {
        t = t.repeat(s.range(2, 60));
    }
    if s.chance(1, 30) {
        let at = s.range(0, t.chars().count());
        let c = any_char(s);
        t = t.chars().take(at).chain(std::iter::once(c)).chain(t.chars().skip(at)).collect();
    }
    t
}

pub fn ends_inline(y: &Yaml) -> bool {
    !matches!(y, Yaml::Hash(_) | Yaml::Array(_) | Yaml::LiteralString(..) | Yaml::FoldedString(..))
}

pub fn value(s: &mut Src, cfg: &Cfg, depth: usize) -> AliasedYaml {
    let alias = if cfg.alias && s.chance(1, 8) { Some(alias_name(s)) } else { None };
    let w = if depth > 0 { 3 } else { 0 };
    let wi = if cfg.inline { 1 } else { 0 };
    let v = match s.weighted(&[7, w, w, wi, wi]) {
        0 => scalar(s, cfg),
        1 => hash(s, cfg, depth - 1, true),
        2 => array(s, cfg, depth - 1, true),
        3 => {
            let depth = flow_depth(s, depth);
            inline_array(s, cfg, depth)
        }
        _ => {
            let depth = flow_depth(s, depth);
            inline_hash(s, cfg, depth)
        }
    };
    AliasedYaml { alias, value: v }
}

pub fn hash(s: &mut Src, cfg: &Cfg, depth: usize, lead_comment: bool) -> Yaml {
    let more = More::new(s, cfg);
    let mut out: Vec<HashData> = Vec::new();
    let mut seen: Vec<String> = Vec::new();
    while seen.is_empty() || more.more(s, seen.len()) {
        let i = seen.len();
        let k = key(s, cfg);
        let dup = cfg.unique_keys && seen.contains(&k);
        seen.push(k.clone());
        if dup {
            continue;
        }
        if cfg.comments && (i > 0 || lead_comment) && s.chance(1, 6) {
            for _ in 0..count(s, 1, 2, 12) {
                out.push(HashData::Comment(comment_text(s)));
            }
        }
        let v = value(s, cfg, depth);
        let inl = ends_inline(&v.value);
        out.push(HashData::Element(HashElement { key: k, value: v }));
        if cfg.comments && inl && s.chance(1, 8) {
            out.push(HashData::InlineComment(comment_text(s)));
        }
    }
    Yaml::Hash(out)
}

pub fn array(s: &mut Src, cfg: &Cfg, depth: usize, lead_comment: bool) -> Yaml {
    let more = More::new(s, cfg);
    let mut out: Vec<ArrayData> = Vec::new();
    let mut i = 0;
    while i == 0 || more.more(s, i) {
        if cfg.comments && (i > 0 || lead_comment) && s.chance(1, 6) {
            for _ in 0..count(s, 1, 2, 12) {
                out.push(ArrayData::Comment(comment_text(s)));
            }
        }
        let v = value(s, cfg, depth);
        let inl = ends_inline(&v.value);
        out.push(ArrayData::Element(v));
        i += 1;
        if cfg.comments && inl && s.chance(1, 8) {
            out.push(ArrayData::InlineComment(comment_text(s)));
        }
    }
    Yaml::Array(out)
}

/// One value far down, with a few entries next to it on the way.
fn chain(s: &mut Src, cfg: &Cfg, levels: usize) -> Yaml {
    let mut v = value(s, cfg, 1);
    for i in 0..levels {
        // the entry is made part of a small collection
        let small = Cfg { max_len: 2, ..cfg.clone() };
        let y = if s.bool() {
            let mut y = hash(s, &small, 0, i + 1 < levels);
            if let Yaml::Hash(d) = &mut y {
                let at: Vec<usize> = (0..d.len()).filter(|i| matches!(d[*i], HashData::Element(_))).collect();
                let at = *s.pick(&at);
                if let HashData::Element(e) = &mut d[at] {
                    e.value = v;
                    if !ends_inline(&e.value.value) && matches!(d.get(at + 1), Some(HashData::InlineComment(_))) {
                        d.remove(at + 1);
                    }
                }
            }
            y
        } else {
            let mut y = array(s, &small, 0, i + 1 < levels);
            if let Yaml::Array(d) = &mut y {
                let at: Vec<usize> = (0..d.len()).filter(|i| matches!(d[*i], ArrayData::Element(_))).collect();
                let at = *s.pick(&at);
                if let ArrayData::Element(e) = &mut d[at] {
                    *e = v;
                    if !ends_inline(&e.value) && matches!(d.get(at + 1), Some(ArrayData::InlineComment(_))) {
                        d.remove(at + 1);
                    }
                }
            }
            y
        };
        if i + 1 == levels {
            return y;
        }
        let alias = if cfg.alias && s.chance(1, 8) { Some(alias_name(s)) } else { None };
        v = AliasedYaml { alias, value: y };
    }
    unreachable!()
}

/// One entry, line or text somewhere in the value, hundreds or thousands of times.
fn enlarge(s: &mut Src, root: &mut Yaml, cfg: &Cfg) {
    fn nth<'a>(y: &'a mut Yaml, left: &mut usize) -> Option<&'a mut Yaml> {
        if *left == 0 {
            return Some(y);
        }
        *left -= 1;
        match y {
            Yaml::Hash(v) => v.iter_mut().find_map(|d| match d {
                HashData::Element(e) => nth(&mut e.value.value, left),
                _ => None,
            }),
            Yaml::Array(v) => v.iter_mut().find_map(|d| match d {
                ArrayData::Element(e) => nth(&mut e.value, left),
                _ => None,
            }),
            Yaml::InlineArray(v) => v.iter_mut().find_map(|y| nth(y, left)),
            Yaml::InlineHash(v) => v.iter_mut().find_map(|(_, y)| nth(y, left)),
            _ => None,
        }
    }
    let mut at = s.below(crate::refsem::nodes(root));
    let Some(y) = nth(root, &mut at) else { return };
    let n = *s.pick(&[130usize, 260, 520, 1030, 2060, 3000]);
    let times = |of: usize| n.min(6000 / of.max(1));
    let number = cfg.unique_keys || s.bool();
    let name = |k: &str, i: usize| if number { format!("{k}{i}") } else { k.to_string() };
    match y {
        Yaml::InlineArray(v) if !v.is_empty() => {
            let i = s.below(v.len());
            let e = v[i].clone();
            let more = vec![e; times(crate::refsem::nodes(&v[i]))];
            v.splice(i..i, more);
        }
        Yaml::InlineHash(v) if !v.is_empty() => {
            let i = s.below(v.len());
            let (k, e) = v[i].clone();
            let more: Vec<_> = (0..times(crate::refsem::nodes(&e))).map(|i| (name(&k, i), e.clone())).collect();
            v.splice(i..i, more);
        }
        Yaml::Array(v) => {
            let i = s.below(v.len());
            let (e, of) = (v[i].clone(), match &v[i] {
                ArrayData::Element(a) => crate::refsem::nodes(&a.value),
                _ => 1,
            });
            if !matches!(e, ArrayData::InlineComment(_)) {
                v.splice(i..i, vec![e; times(of)]);
            }
        }
        Yaml::Hash(v) => {
            let i = s.below(v.len());
            let more: Vec<_> = match &v[i] {
                HashData::Element(e) => (0..times(crate::refsem::nodes(&e.value.value)))
                    .map(|i| HashData::Element(HashElement { key: name(&e.key, i), value: e.value.clone() }))
                    .collect(),
                HashData::Comment(t) => vec![HashData::Comment(t.clone()); n],
                _ => vec![],
            };
            v.splice(i..i, more);
        }
        Yaml::LiteralString(l, _) | Yaml::FoldedString(l, _) => {
            let i = s.below(l.len());
            let t = l[i].clone();
            l.splice(i..i, vec![t; n]);
        }
        Yaml::UnquotedString(t) => {
            let long = t.repeat(n);
            if plain_block_ok(&long) && plain_inline_ok(&long) {
                *t = long;
            }
        }
        Yaml::SingleQuotedString(p) => {
            for p in p {
                if let SP::String(t) = p {
                    *t = t.repeat(n);
                    break;
                }
            }
        }
        Yaml::DoubleQuotedString(p) => {
            for p in p {
                if let DP::String(t) = p {
                    *t = t.repeat(n);
                    break;
                }
            }
        }
        _ => {}
    }
}

pub fn document(s: &mut Src, cfg: &Cfg) -> Document {
    let mut leading = Vec::new();
    let mut items = Vec::new();
    if cfg.comments && s.chance(1, 5) {
        for _ in 0..count(s, 1, 3, 12) {
            leading.push(comment_text(s));
        }
    }
    if cfg.comments && s.chance(1, 5) {
        for _ in 0..count(s, 1, 2, 12) {
            items.push(DocumentData::Comment(comment_text(s)));
        }
    }
    let depth = if cfg.depth > 2 && s.chance(1, 40) { cfg.depth + s.range(1, 6) } else { cfg.depth };
    let far = if cfg.depth > 2 && s.chance(1, 10) { 10 } else { 0 };
    let root = match s.weighted(&[24, 12, 1, 1, far]) {
        4 => {
            let n = count(s, 6, 40, 90);
            chain(s, cfg, n)
        }
        0 => hash(s, cfg, depth, false),
        1 => array(s, cfg, depth, false),
        2 if cfg.inline => {
            let depth = flow_depth(s, 2);
            inline_array(s, cfg, depth)
        }
        3 if cfg.inline => {
            let depth = flow_depth(s, 2);
            inline_hash(s, cfg, depth)
        }
        _ => hash(s, cfg, depth, false),
    };
    let mut root = root;
    if cfg.depth > 2 && s.chance(1, 1500) {
        enlarge(s, &mut root, cfg);
    }
    items.push(DocumentData::Yaml(root));
    if cfg.comments && s.chance(1, 5) {
        for _ in 0..count(s, 1, 2, 12) {
            items.push(DocumentData::Comment(comment_text(s)));
        }
    }
    Document { leading_comments: leading, items }
}

/// Takes the entries out of some of the mappings (and lists) below the root, as edits could have
/// done; their comments stay.
pub fn hollow(s: &mut Src, d: &mut Document, lists: bool) {
    fn below(s: &mut Src, y: &mut Yaml, lists: bool) {
        match y {
            Yaml::Hash(v) if s.chance(1, 3) => v.retain(|d| !matches!(d, HashData::Element(_))),
            Yaml::Array(v) if lists && s.chance(1, 3) => v.retain(|d| !matches!(d, ArrayData::Element(_))),
            _ => entries(s, y, lists),
        }
    }
    fn entries(s: &mut Src, y: &mut Yaml, lists: bool) {
        match y {
            Yaml::Hash(v) => v.iter_mut().for_each(|d| if let HashData::Element(e) = d { below(s, &mut e.value.value, lists) }),
            Yaml::Array(v) => v.iter_mut().for_each(|d| if let ArrayData::Element(e) = d { below(s, &mut e.value, lists) }),
            Yaml::InlineArray(v) => v.iter_mut().for_each(|y| below(s, y, lists)),
            Yaml::InlineHash(v) => v.iter_mut().for_each(|(_, y)| below(s, y, lists)),
            _ => (),
        }
    }
    for i in d.items.iter_mut() {
        if let DocumentData::Yaml(y) = i {
            entries(s, y, lists);
        }
    }
}

pub fn root(d: &Document) -> &Yaml {
    d.items
        .iter()
        .find_map(|i| match i {
            DocumentData::Yaml(y) => Some(y),
            _ => None,
        })
        .expect("document has a root")
}

/// The document with one letter of one text changed.
pub fn twin(s: &mut Src, d: &Document) -> Option<Document> {
    fn texts<'a>(y: &'a mut Yaml, out: &mut Vec<&'a mut String>) {
        match y {
            Yaml::UnquotedString(t) => out.push(t),
            Yaml::LiteralString(l, _) | Yaml::FoldedString(l, _) => out.extend(l.iter_mut()),
            Yaml::SingleQuotedString(p) => out.extend(p.iter_mut().filter_map(|p| match p {
                SP::String(t) => Some(t),
                _ => None,
            })),
            Yaml::DoubleQuotedString(p) => out.extend(p.iter_mut().filter_map(|p| match p {
                DP::String(t) => Some(t),
                _ => None,
            })),
            Yaml::Anchor(t) => out.push(t),
            Yaml::InlineArray(v) => v.iter_mut().for_each(|y| texts(y, out)),
            Yaml::InlineHash(v) => {
                for (k, y) in v {
                    out.push(k);
                    texts(y, out);
                }
            }
            Yaml::Hash(v) => {
                for d in v {
                    match d {
                        HashData::Element(e) => {
                            out.push(&mut e.key);
                            out.extend(e.value.alias.as_mut());
                            texts(&mut e.value.value, out);
                        }
                        HashData::Comment(t) | HashData::InlineComment(t) => out.push(t),
                    }
                }
            }
            Yaml::Array(v) => {
                for d in v {
                    match d {
                        ArrayData::Element(a) => {
                            out.extend(a.alias.as_mut());
                            texts(&mut a.value, out);
                        }
                        ArrayData::Comment(t) | ArrayData::InlineComment(t) => out.push(t),
                    }
                }
            }
        }
    }
    let letter = |c: &u8| c.is_ascii_lowercase();
    let mut d = d.clone();
    let mut all: Vec<&mut String> = Vec::new();
    all.extend(d.leading_comments.iter_mut());
    for i in d.items.iter_mut() {
        match i {
            DocumentData::Yaml(y) => texts(y, &mut all),
            DocumentData::Comment(t) => all.push(t),
        }
    }
    all.retain(|t| t.bytes().any(|b| letter(&b)));
    if all.is_empty() {
        return None;
    }
    // mostly near the end
    let n = all.len();
    let i = if s.bool() { n - 1 - s.below(n.min(3)) } else { s.below(n) };
    let t: &mut String = all.swap_remove(i);
    let at: Vec<usize> = t.bytes().enumerate().filter(|(_, b)| letter(b)).map(|x| x.0).collect();
    let at = *s.pick(&at);
    let b = t.as_bytes()[at];
    let b = (b'a' + (b - b'a' + 1 + s.below(25) as u8) % 26) as char;
    t.replace_range(at..at + 1, &b.to_string());
    Some(d)
}
