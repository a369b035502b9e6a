//! Reference model of paths and edits, on the crate's syntax tree but sharing no code with it.

use crate::engine::Src;
use crate::gen;
use crate::refsem;
use yaml_subset::yaml::*;
use yaml_subset::YamlPath;

// ── paths ───────────────────────────────────────────────────────────────────

#[derive(Debug, Clone, PartialEq)]
pub struct Cond {
    pub field: String,
    pub value: String,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    Key(String, Vec<Cond>),
    Idx(Vec<usize>, Vec<Cond>),
    All(Vec<Cond>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Path {
    /// conditions of the root path (only when there are no steps)
    pub root: Vec<Cond>,
    pub steps: Vec<Step>,
}

fn conds_text(c: &[Cond]) -> String {
    c.iter().map(|c| format!("|{}={}", c.field, c.value)).collect()
}

impl Path {
    /// As text; `None` when the path syntax cannot express it.
    pub fn text(&self) -> Option<String> {
        if self.steps.is_empty() {
            return Some(conds_text(&self.root));
        }
        if !matches!(self.steps[0], Step::Key(..)) {
            return None;
        }
        let mut o = String::new();
        for (i, st) in self.steps.iter().enumerate() {
            let next_is_index = matches!(self.steps.get(i + 1), Some(Step::Idx(..)) | Some(Step::All(_)));
            let c = match st {
                Step::Key(k, c) => {
                    if i > 0 {
                        o.push('.');
                    }
                    // a grouping makes keys of any text
                    if k.is_empty() || i > 0 && k.starts_with(' ') || k.contains(['.', '[', ']', '|']) {
                        return None;
                    }
                    o.push_str(k);
                    c
                }
                Step::Idx(ix, c) => {
                    if ix.len() != 1 {
                        return None;
                    }
                    o.push_str(&format!("[{}]", ix[0]));
                    c
                }
                Step::All(c) => {
                    o.push_str("[*]");
                    c
                }
            };
            // a condition's value runs up to the next '.' or '|'
            if next_is_index && !c.is_empty() {
                return None;
            }
            o.push_str(&conds_text(c));
        }
        Some(o)
    }

    /// The crate's own path value, parsed from text as far as the syntax goes.
    pub fn real(&self) -> YamlPath {
        if let Some(t) = self.text() {
            return t.parse().unwrap_or_else(|e| panic!("path {t:?} does not parse: {e}"));
        }
        match build(&self.steps) {
            Some(p) => *p,
            None => unreachable!("the root path has a text"),
        }
    }

    pub fn show(&self) -> String {
        self.text().unwrap_or_else(|| format!("{:?}", self.steps))
    }
}

fn build(steps: &[Step]) -> Option<Box<YamlPath>> {
    let st = steps.first()?;
    let rest = build(&steps[1..]);
    // conditions can only be made by the path parser
    macro_rules! conds {
        ($c:expr) => {
            match format!("x{}", conds_text($c)).parse::<YamlPath>().unwrap() {
                YamlPath::Key(_, c, _) => c,
                _ => unreachable!(),
            }
        };
    }
    Some(Box::new(match st {
        Step::Key(k, c) => YamlPath::Key(k.clone(), conds!(c), rest),
        Step::Idx(i, c) => YamlPath::Indexes(i.clone(), conds!(c), rest),
        Step::All(c) => YamlPath::AllIndexes(conds!(c), rest),
    }))
}

/// Does the crate's path equal the model's?  (`None` = yes)
pub fn path_differs(m: &Path, r: &YamlPath) -> Option<String> {
    fn conds<'a>(m: &[Cond], r: impl Iterator<Item = (&'a String, &'a String)>) -> bool {
        let r: Vec<Cond> = r.map(|(f, v)| Cond { field: f.clone(), value: v.clone() }).collect();
        m == &r[..]
    }
    if m.steps.is_empty() {
        return match r {
            YamlPath::Root(c) if conds(&m.root, c.iter().map(|c| (&c.field, &c.value))) => None,
            o => Some(format!("expected the root path with {:?}, got {o:?}", m.root)),
        };
    }
    let mut cur = Some(r);
    for st in &m.steps {
        let (ok, next) = match (st, cur) {
            (Step::Key(k, mc), Some(YamlPath::Key(rk, rc, n))) => {
                (k == rk && conds(mc, rc.iter().map(|c| (&c.field, &c.value))), n)
            }
            (Step::Idx(i, mc), Some(YamlPath::Indexes(ri, rc, n))) => {
                (i == ri && conds(mc, rc.iter().map(|c| (&c.field, &c.value))), n)
            }
            (Step::All(mc), Some(YamlPath::AllIndexes(rc, n))) => (conds(mc, rc.iter().map(|c| (&c.field, &c.value))), n),
            (_, o) => return Some(format!("expected step {st:?}, got {o:?}")),
        };
        if !ok {
            return Some(format!("expected step {st:?} in {r:?}"));
        }
        cur = next.as_deref();
    }
    cur.map(|c| format!("steps left over: {c:?}"))
}

// ── evaluation ──────────────────────────────────────────────────────────────

pub fn index_of(data: &[HashData], key: &str) -> Option<usize> {
    for (i, d) in data.iter().enumerate() {
        if let HashData::Element(e) = d {
            if e.key == key {
                return Some(i);
            }
        }
    }
    None
}

pub fn field<'a>(y: &'a Yaml, key: &str) -> Option<&'a AliasedYaml> {
    match y {
        Yaml::Hash(d) => index_of(d, key).and_then(|i| match &d[i] {
            HashData::Element(e) => Some(&e.value),
            _ => None,
        }),
        _ => None,
    }
}

pub fn holds(y: &Yaml, c: &[Cond]) -> bool {
    for c in c {
        match field(y, &c.field).and_then(|v| refsem::text(&v.value)) {
            Some(t) if t == c.value => {}
            _ => return false,
        }
    }
    true
}

/// The items of a list, block or inline.
fn items(y: &mut Yaml) -> Vec<&mut Yaml> {
    match y {
        Yaml::InlineArray(v) => v.iter_mut().collect(),
        Yaml::Array(v) => v
            .iter_mut()
            .filter_map(|d| match d {
                ArrayData::Element(e) => Some(&mut e.value),
                _ => None,
            })
            .collect(),
        _ => Vec::new(),
    }
}

fn selected<'a>(y: &'a mut Yaml, st: &Step) -> Vec<&'a mut Yaml> {
    let (idx, conds) = match st {
        Step::Idx(i, c) => (Some(i), c),
        Step::All(c) => (None, c),
        _ => return Vec::new(),
    };
    let all = items(y);
    let mut out = Vec::new();
    for (i, it) in all.into_iter().enumerate() {
        if idx.map(|ix| ix.contains(&i)).unwrap_or(true) && holds(it, conds) {
            out.push(it);
        }
    }
    out
}

pub enum Target<'a> {
    Entry(&'a mut HashElement),
    Node(&'a mut Yaml),
}

/// Visits what a path selects.  Listed indexes are visited in ascending order here, so paths
/// with several indexes list them that way.
pub fn select(y: &mut Yaml, p: &Path, f: &mut dyn FnMut(Target) -> usize) -> usize {
    if p.steps.is_empty() {
        if holds(y, &p.root) {
            return f(Target::Node(y));
        }
        return 0;
    }
    walk(y, &p.steps, f)
}

fn walk(y: &mut Yaml, steps: &[Step], f: &mut dyn FnMut(Target) -> usize) -> usize {
    let (st, rest) = (&steps[0], &steps[1..]);
    match st {
        Step::Key(k, c) => {
            if !holds(y, c) {
                return 0;
            }
            if let Yaml::Hash(d) = y {
                if let Some(i) = index_of(d, k) {
                    if let HashData::Element(e) = &mut d[i] {
                        return if rest.is_empty() { f(Target::Entry(e)) } else { walk(&mut e.value.value, rest, f) };
                    }
                }
            }
            0
        }
        _ => {
            let mut n = 0;
            for it in selected(y, st) {
                n += if rest.is_empty() { f(Target::Node(it)) } else { walk(it, rest, f) };
            }
            n
        }
    }
}

pub fn find(y: &Yaml, p: &Path) -> Vec<Yaml> {
    let mut y = y.clone();
    let mut out = Vec::new();
    select(&mut y, p, &mut |t| {
        out.push(match t {
            Target::Entry(e) => e.value.value.clone(),
            Target::Node(n) => n.clone(),
        });
        1
    });
    out
}

/// Structure edits: `f` gets the mapping that holds (or would hold) the last key.
fn structure(y: &mut Yaml, steps: &[Step], f: &mut dyn FnMut(&mut Vec<HashData>, &str) -> usize) -> usize {
    let Some(st) = steps.first() else { return 0 };
    let rest = &steps[1..];
    match st {
        Step::Key(k, c) => {
            if !holds(y, c) {
                return 0;
            }
            let Yaml::Hash(d) = y else { return 0 };
            if rest.is_empty() {
                return f(d, k);
            }
            match index_of(d, k) {
                Some(i) => match &mut d[i] {
                    HashData::Element(e) => structure(&mut e.value.value, rest, f),
                    _ => 0,
                },
                None => 0,
            }
        }
        _ => {
            if rest.is_empty() {
                return 0;
            }
            selected(y, st).into_iter().map(|it| structure(it, rest, f)).sum()
        }
    }
}

// ── operations ──────────────────────────────────────────────────────────────

#[derive(Debug, Clone)]
pub enum Op {
    Insert { path: Path, value: AliasedYaml, overwrite: bool, by_call: bool },
    Remove { path: Path },
    Rename { path: Path, name: String },
    ToObject { path: Path, key: String },
    MoveSub { path: Path, sub: String, fields: Vec<String> },
    MoveMap { path: Path, old: String, selector: String, new: String, keeps: Vec<String> },
}

impl Op {
    pub fn path(&self) -> &Path {
        match self {
            Op::Insert { path, .. } | Op::Remove { path } | Op::Rename { path, .. } => path,
            Op::ToObject { path, .. } | Op::MoveSub { path, .. } | Op::MoveMap { path, .. } => path,
        }
    }
    pub fn path_mut(&mut self) -> &mut Path {
        match self {
            Op::Insert { path, .. } | Op::Remove { path } | Op::Rename { path, .. } => path,
            Op::ToObject { path, .. } | Op::MoveSub { path, .. } | Op::MoveMap { path, .. } => path,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Insert { by_call: false, .. } => "insert_into_hash",
            Op::Insert { .. } => "insert_into_hash_by_call",
            Op::Remove { .. } => "remove_from_hash",
            Op::Rename { .. } => "rename_field",
            Op::ToObject { .. } => "to_object",
            Op::MoveSub { .. } => "move_to_subfield",
            Op::MoveMap { .. } => "move_to_map_with_field_as_key",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Op::Insert { path, value, overwrite, .. } => {
                format!("{}({:?}, {:?}, overwrite={overwrite})", self.name(), path.show(), value)
            }
            Op::Remove { path } => format!("remove_from_hash({:?})", path.show()),
            Op::Rename { path, name } => format!("rename_field({:?}, {name:?})", path.show()),
            Op::ToObject { path, key } => format!("to_object({:?}, {key:?})", path.show()),
            Op::MoveSub { path, sub, fields } => format!("move_to_subfield({:?}, {sub:?}, {fields:?})", path.show()),
            Op::MoveMap { path, old, selector, new, keeps } => {
                format!("move_to_map_with_field_as_key({:?}, {old:?}, {selector:?}, {new:?}, {keeps:?})", path.show())
            }
        }
    }
    /// The crate.
    pub fn real<T: YamlInsert>(&self, d: &mut T) -> usize {
        self.real_at(&self.path().real(), d)
    }
    /// The operation with its path made beforehand.
    pub fn real_at<T: YamlInsert>(&self, at: &YamlPath, d: &mut T) -> usize {
        match self {
            Op::Insert { value, overwrite, by_call, .. } => {
                if *by_call {
                    d.insert_into_hash_by_call(at, || value.clone(), *overwrite)
                } else {
                    d.insert_into_hash(at, value, *overwrite)
                }
            }
            Op::Remove { .. } => d.remove_from_hash(at),
            Op::Rename { name, .. } => d.rename_field(at, name.clone()),
            Op::ToObject { key, .. } => d.to_object(at, key.clone()),
            Op::MoveSub { sub, fields, .. } => d.move_to_subfield(at, sub.clone(), fields.clone()),
            Op::MoveMap { old, selector, new, keeps, .. } => {
                d.move_to_map_with_field_as_key(at, old.clone(), selector.clone(), new.clone(), keeps.clone())
            }
        }
    }
    /// The model.
    pub fn model(&self, y: &mut Yaml) -> usize {
        match self {
            Op::Insert { path, value, overwrite, .. } => structure(y, &path.steps, &mut |d, k| {
                let new = HashData::Element(HashElement { key: k.to_string(), value: value.clone() });
                match index_of(d, k) {
                    None => {
                        d.push(new);
                        1
                    }
                    Some(i) if *overwrite => {
                        d[i] = new;
                        1
                    }
                    Some(_) => 0,
                }
            }),
            Op::Remove { path } => structure(y, &path.steps, &mut |d, k| match index_of(d, k) {
                Some(i) => {
                    d.remove(i);
                    1
                }
                None => 0,
            }),
            Op::Rename { path, name } => select(y, path, &mut |t| match t {
                Target::Entry(e) => {
                    e.key = name.clone();
                    1
                }
                _ => 0,
            }),
            Op::ToObject { path, key } => select(y, path, &mut |t| match t {
                Target::Entry(e) => {
                    let inner = std::mem::replace(&mut e.value, AliasedYaml { alias: None, value: Yaml::Anchor(String::new()) });
                    e.value.value = Yaml::Hash(vec![HashData::Element(HashElement { key: key.clone(), value: inner })]);
                    1
                }
                _ => 0,
            }),
            Op::MoveSub { path, sub, fields } => select(y, path, &mut |t| {
                let node = match t {
                    Target::Entry(e) => &mut e.value.value,
                    Target::Node(n) => n,
                };
                move_sub(node, sub, fields)
            }),
            Op::MoveMap { path, old, selector, new, keeps } => select(y, path, &mut |t| {
                let node = match t {
                    Target::Entry(e) => &mut e.value.value,
                    Target::Node(n) => n,
                };
                move_map(node, old, selector, new, keeps)
            }),
        }
    }
}

fn take(d: &mut Vec<HashData>, k: &str) -> Option<AliasedYaml> {
    let i = index_of(d, k)?;
    match d.remove(i) {
        HashData::Element(e) => Some(e.value),
        _ => unreachable!(),
    }
}

fn put(d: &mut Vec<HashData>, k: &str, v: AliasedYaml) {
    let new = HashData::Element(HashElement { key: k.to_string(), value: v });
    match index_of(d, k) {
        Some(i) => d[i] = new,
        None => d.push(new),
    }
}

fn move_sub(y: &mut Yaml, sub: &str, fields: &[String]) -> usize {
    let Yaml::Hash(d) = y else { return 0 };
    let mut present: Vec<&String> = Vec::new();
    for f in fields {
        // a field that is named twice is moved once
        if f != sub && index_of(d, f).is_some() && !present.contains(&f) {
            present.push(f);
        }
    }
    if present.is_empty() {
        return 0;
    }
    match field(&Yaml::Hash(d.clone()), sub).map(|v| matches!(v.value, Yaml::Hash(_))) {
        Some(false) => return 0,
        Some(true) => {}
        None => d.push(HashData::Element(HashElement {
            key: sub.to_string(),
            value: AliasedYaml { alias: None, value: Yaml::Hash(Vec::new()) },
        })),
    }
    for f in present {
        let v = take(d, f).unwrap();
        let i = index_of(d, sub).unwrap();
        if let HashData::Element(HashElement { value: AliasedYaml { value: Yaml::Hash(inner), .. }, .. }) = &mut d[i] {
            put(inner, f, v);
        }
    }
    1
}

fn move_map(y: &mut Yaml, old: &str, selector: &str, new: &str, keeps: &[String]) -> usize {
    let Yaml::Hash(d) = y else { return 0 };
    let Some(oi) = index_of(d, old) else { return 0 };
    if index_of(d, new).is_some() {
        return 0;
    }
    let HashData::Element(HashElement { value: AliasedYaml { alias, value: Yaml::Hash(entries) }, .. }) = d[oi].clone() else {
        return 0;
    };
    // where does each entry go?  None = stays
    let dest: Vec<Option<String>> = entries
        .iter()
        .map(|e| match e {
            HashData::Element(e) => field(&e.value.value, selector)
                .and_then(|v| refsem::text(&v.value))
                .filter(|t| !t.is_empty() && !keeps.contains(t)),
            _ => None,
        })
        .collect();
    if dest.iter().all(|d| d.is_none()) {
        return 0;
    }
    let mut stay: Vec<HashData> = Vec::new();
    let mut groups: Vec<(String, Vec<HashData>)> = Vec::new();
    for (i, e) in entries.iter().enumerate() {
        // a comment goes where the next entry goes; one after the last entry goes where that went
        let to = match e {
            HashData::Element(_) => dest[i].clone(),
            _ => match (i + 1..entries.len()).find(|j| matches!(entries[*j], HashData::Element(_))) {
                Some(j) => dest[j].clone(),
                None => (0..i).rev().find(|j| matches!(entries[*j], HashData::Element(_))).and_then(|j| dest[j].clone()),
            },
        };
        let mut e = e.clone();
        if let HashData::Element(el) = &mut e {
            let scalar = field(&el.value.value, selector).and_then(|v| refsem::text(&v.value)).is_some();
            if scalar {
                if let Yaml::Hash(h) = &mut el.value.value {
                    take(h, selector);
                }
            }
        }
        match to {
            None => stay.push(e),
            Some(g) => match groups.iter_mut().find(|x| x.0 == g) {
                Some(x) => x.1.push(e),
                None => groups.push((g, vec![e])),
            },
        }
    }
    groups.sort_by(|a, b| a.0.cmp(&b.0));
    put(d, old, AliasedYaml { alias: alias.clone(), value: Yaml::Hash(stay) });
    put(
        d,
        new,
        AliasedYaml {
            alias,
            value: Yaml::Hash(
                groups
                    .into_iter()
                    .map(|(k, v)| HashData::Element(HashElement { key: k, value: AliasedYaml { alias: None, value: Yaml::Hash(v) } }))
                    .collect(),
            ),
        },
    );
    1
}

// ── generators ──────────────────────────────────────────────────────────────

/// Can the text stand as a condition's value in a path?
pub fn cond_value_ok(v: &str) -> bool {
    !v.is_empty() && !v.contains('.') && !v.contains('|') && !v.starts_with(' ') && !v.ends_with(' ')
}

/// The text of a scalar, or (which is no match) the first text in a list or mapping or the name of
/// a reference.
fn near_text(y: &Yaml) -> Option<String> {
    match y {
        Yaml::InlineArray(v) => v.first().and_then(refsem::text),
        Yaml::InlineHash(v) => v.first().and_then(|e| refsem::text(&e.1)),
        Yaml::Array(v) => v.iter().find_map(|d| match d {
            ArrayData::Element(e) => Some(refsem::text(&e.value)?),
            _ => None,
        }),
        Yaml::Hash(v) => v.iter().find_map(|d| match d {
            HashData::Element(e) => Some(refsem::text(&e.value.value)?),
            _ => None,
        }),
        Yaml::Anchor(n) => Some(n.clone()),
        y => refsem::text(y),
    }
}

pub fn conds(s: &mut Src, y: Option<&Yaml>) -> Vec<Cond> {
    let mut out = Vec::new();
    if !s.chance(1, 4) {
        return out;
    }
    for _ in 0..gen::count(s, 1, 2, 6) {
        // mostly a condition that holds
        let mut real = None;
        if let Some(Yaml::Hash(d)) = y {
            let cands: Vec<Cond> = d
                .iter()
                .filter_map(|d| match d {
                    HashData::Element(e) => near_text(&e.value.value)
                        .filter(|t| cond_value_ok(t))
                        .filter(|_| !e.key.is_empty() && !e.key.starts_with(' ') && !e.key.contains('='))
                        .map(|t| Cond { field: e.key.clone(), value: t }),
                    _ => None,
                })
                .collect();
            if !cands.is_empty() && !s.chance(1, 4) {
                let mut c = s.pick(&cands).clone();
                // almost one that holds
                if s.chance(1, 15) {
                    let t = if s.chance(1, 3) { &mut c.field } else { &mut c.value };
                    let near = gen::tweak(s, t);
                    if cond_value_ok(&near) && !near.contains('=') {
                        *t = near;
                    }
                }
                real = Some(c);
            }
        }
        out.push(real.unwrap_or_else(|| Cond {
            field: gen::small_key(s),
            value: s.pick(&["x", "v", "1", "word", "a b", "x=y", "[0]", "é"]).to_string(),
        }));
    }
    out
}

/// A path that mostly leads somewhere in `y`.
pub fn path(s: &mut Src, y: &Yaml, max_steps: usize) -> Path {
    let mut steps = Vec::new();
    let mut cur: Option<&Yaml> = Some(y);
    let n = if max_steps > 3 && s.chance(1, 20) { s.range(max_steps, 40) } else { s.range(0, max_steps) };
    if n == 0 && s.chance(2, 3) {
        return Path { root: conds(s, Some(y)), steps };
    }
    for _ in 0..n.max(1) {
        let st;
        match cur {
            Some(Yaml::Hash(d)) => {
                let keys: Vec<&HashElement> = d
                    .iter()
                    .filter_map(|d| match d {
                        HashData::Element(e) => Some(e),
                        _ => None,
                    })
                    .collect();
                let k = if keys.is_empty() || s.chance(1, 6) {
                    gen::small_key(s)
                } else if s.chance(1, 40) {
                    // almost one of the keys
                    let t = &s.pick(&keys).key;
                    let near = gen::tweak(s, t);
                    if gen::key_ok(&near) {
                        near
                    } else {
                        t.clone()
                    }
                } else {
                    // prefer collections, so that paths get long
                    let colls: Vec<&&HashElement> =
                        keys.iter().filter(|e| matches!(e.value.value, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineArray(_))).collect();
                    if !colls.is_empty() && s.bool() {
                        s.pick(&colls).key.clone()
                    } else {
                        s.pick(&keys).key.clone()
                    }
                };
                let next = field(cur.unwrap(), &k).map(|v| &v.value);
                // the path syntax has no conditions on a key in front of an index
                let c = if matches!(next, Some(Yaml::Array(_)) | Some(Yaml::InlineArray(_))) && s.chance(9, 10) {
                    Vec::new()
                } else {
                    conds(s, cur)
                };
                cur = next;
                st = Step::Key(k, c);
            }
            Some(Yaml::Array(_)) | Some(Yaml::InlineArray(_)) => {
                let its: Vec<&Yaml> = match cur.unwrap() {
                    Yaml::InlineArray(v) => v.iter().collect(),
                    Yaml::Array(v) => v
                        .iter()
                        .filter_map(|d| match d {
                            ArrayData::Element(e) => Some(&e.value),
                            _ => None,
                        })
                        .collect(),
                    _ => unreachable!(),
                };
                let i = s.below(its.len() + 1);
                let next = its.get(i).copied();
                let c = conds(s, next);
                st = match s.weighted(&[4, 4, 1, 1]) {
                    0 => Step::Idx(vec![i], c),
                    1 => Step::All(c),
                    2 => {
                        let mut ix: Vec<usize> = (0..=its.len()).filter(|_| s.bool()).collect();
                        if ix.is_empty() {
                            ix.push(0);
                        }
                        Step::Idx(ix, c)
                    }
                    _ => Step::Key(s.pick(gen::SMALL_KEYS).to_string(), Vec::new()),
                };
                cur = next;
            }
            _ => {
                if s.chance(3, 4) && !steps.is_empty() {
                    break;
                }
                st = match s.below(3) {
                    0 => Step::Key(s.pick(gen::SMALL_KEYS).to_string(), Vec::new()),
                    1 => Step::All(Vec::new()),
                    _ => Step::Idx(vec![s.below(3)], Vec::new()),
                };
                cur = None;
            }
        }
        steps.push(st);
    }
    Path { root: Vec::new(), steps }
}

/// A document for edits: few distinct keys, some of them texts that conditions can test.
pub fn edit_cfg(s: &mut Src) -> gen::Cfg {
    gen::Cfg { depth: 3, small_keys: true, unique_keys: !s.chance(1, 6), block_in_flow: s.chance(1, 5), ..gen::Cfg::default() }
}

/// An operation; of up to five, the first that changes something.
pub fn changing(s: &mut Src, y: &Yaml, mut f: impl FnMut(&mut Src) -> Op) -> Op {
    let mut op = f(s);
    for _ in 0..4 {
        if op.model(&mut y.clone()) > 0 || s.chance(1, 6) {
            break;
        }
        op = f(s);
    }
    op
}

pub fn simple_op(s: &mut Src, y: &Yaml, cfg: &gen::Cfg) -> Op {
    changing(s, y, |s| any_simple_op(s, y, cfg))
}

fn any_simple_op(s: &mut Src, y: &Yaml, cfg: &gen::Cfg) -> Op {
    let path = path(s, y, 5);
    match s.weighted(&[4, 2, 3, 3, 2]) {
        0 => {
            let value = gen::value(s, cfg, 1);
            Op::Insert { path, value, overwrite: s.bool(), by_call: false }
        }
        1 => {
            let value = gen::value(s, cfg, 1);
            Op::Insert { path, value, overwrite: s.bool(), by_call: true }
        }
        2 => Op::Remove { path },
        3 => Op::Rename { path, name: new_name(s) },
        _ => Op::ToObject { path, key: new_name(s) },
    }
}

/// A path to some mapping (or sometimes elsewhere).
pub fn node_path(s: &mut Src, y: &Yaml) -> Path {
    let mut best = Path { root: Vec::new(), steps: Vec::new() };
    for _ in 0..3 {
        let p = path(s, y, 4);
        if find(y, &p).iter().any(|y| matches!(y, Yaml::Hash(_))) {
            return p;
        }
        best = p;
    }
    best
}

/// A new name: mostly a plain key, sometimes one with characters that mean something in a path.
fn new_name(s: &mut Src) -> String {
    if s.chance(1, 15) {
        s.pick(&["a.b", "a|b=c", "[0]", "a[0]", "", " ", "..", ".", "a.b.c", "*", "|", "'", "é.é", " a"]).to_string()
    } else {
        gen::small_key(s)
    }
}

pub fn move_sub_op(s: &mut Src, y: &Yaml) -> Op {
    changing(s, y, |s| any_move_sub_op(s, y))
}

fn any_move_sub_op(s: &mut Src, y: &Yaml) -> Op {
    let path = node_path(s, y);
    let mut present: Vec<String> = Vec::new();
    for f in find(y, &path) {
        if let Yaml::Hash(d) = &f {
            for e in d {
                if let HashData::Element(e) = e {
                    if !present.contains(&e.key) {
                        present.push(e.key.clone());
                    }
                }
            }
        }
    }
    for k in gen::SMALL_KEYS {
        if !present.contains(&k.to_string()) && s.chance(1, 6) {
            present.push(k.to_string());
        }
    }
    if present.is_empty() {
        present.push("a".into());
    }
    let sub = if s.chance(1, 2) { s.pick(&present).clone() } else { new_name(s) };
    let sure = if s.chance(7, 8) { s.below(present.len()) } else { usize::MAX };
    let mut fields: Vec<String> = present.into_iter().enumerate().filter(|(i, _)| *i == sure || s.bool()).map(|(_, f)| f).collect();
    if s.bool() {
        fields.reverse();
    }
    if !fields.is_empty() && s.chance(1, 8) {
        // the same name twice
        let twice = s.pick(&fields).clone();
        fields.insert(s.below(fields.len() + 1), twice);
    }
    Op::MoveSub { path, sub, fields }
}

/// Makes some subfields already hold some of the fields that are going to be moved into them,
/// now and then with the very same value.
pub fn clash(s: &mut Src, y: &mut Yaml, sub: &str, fields: &[String]) {
    match y {
        Yaml::Hash(data) => {
            let moved: Vec<HashElement> = data
                .iter()
                .filter_map(|d| match d {
                    HashData::Element(e) if e.key != sub && fields.contains(&e.key) => Some(e.clone()),
                    _ => None,
                })
                .collect();
            for d in data.iter_mut() {
                let HashData::Element(e) = d else { continue };
                if let (true, false, Yaml::Hash(inner)) = (e.key == sub, moved.is_empty(), &mut e.value.value) {
                    let m = s.pick(&moved).clone();
                    let has = inner.iter().position(|d| matches!(d, HashData::Element(x) if x.key == m.key));
                    let d = HashData::Element(m);
                    match has {
                        Some(i) if s.bool() => inner[i] = d,
                        Some(_) => (),
                        None => inner.insert(s.below(inner.len() + 1), d),
                    }
                }
                clash(s, &mut e.value.value, sub, fields);
            }
        }
        Yaml::Array(data) => {
            for d in data {
                if let ArrayData::Element(e) = d {
                    clash(s, &mut e.value, sub, fields);
                }
            }
        }
        _ => (),
    }
}

pub const SELECTED: &[&str] = &["x", "y", "z z", "keep", "X1", "", "é"];

/// A text to group by, now and then one that is almost another.
fn selected_text(s: &mut Src) -> String {
    let t = *s.pick(SELECTED);
    if !s.chance(1, 8) {
        return t.to_string();
    }
    let mut t = gen::tweak(s, t);
    t.retain(|c| !"'\"\\\n\r".contains(c));
    t
}

fn selector_scalar(s: &mut Src, cfg: &gen::Cfg) -> Yaml {
    use yaml_subset::yaml::string::{DoubleQuotedStringPart as DP, SingleQuotedStringPart as SP};
    let t = selected_text(s);
    match s.weighted(&[6, 2, 2, 1]) {
        0 if gen::plain_block_ok(&t) => Yaml::UnquotedString(t),
        2 => Yaml::DoubleQuotedString(if t.is_empty() { vec![] } else { vec![DP::String(t)] }),
        3 => gen::inline_array(s, cfg, 0),
        _ => Yaml::SingleQuotedString(if t.is_empty() { vec![] } else { vec![SP::String(t)] }),
    }
}

/// A mapping of mappings with a selector field, as `move_to_map_with_field_as_key` takes.
pub fn grouping_hash(s: &mut Src, cfg: &gen::Cfg) -> Yaml {
    let mut entries = Vec::new();
    let n = gen::count(s, 1, 6, 30);
    let keys = ["a", "b", "c", "d", "k1", "x_y", "a-b", "a b"];
    for i in 0..n {
        if cfg.comments && s.chance(1, 4) {
            entries.push(HashData::Comment(gen::comment_text(s)));
        }
        let inner = match s.weighted(&[8, 1]) {
            0 => {
                let mut h = match gen::hash(s, cfg, 1, false) {
                    Yaml::Hash(h) => h,
                    _ => unreachable!(),
                };
                if s.chance(5, 6) {
                    let at = s.below(h.len() + 1);
                    // never between an entry and the comment on its line
                    let at = (at..=h.len()).find(|i| !matches!(h.get(*i), Some(HashData::InlineComment(_)))).unwrap();
                    let v = selector_scalar(s, cfg);
                    h.retain(|d| !matches!(d, HashData::Element(e) if e.key == "type"));
                    let at = at.min(h.len());
                    h.insert(at, HashData::Element(HashElement { key: "type".into(), value: AliasedYaml { alias: None, value: v } }));
                }
                Yaml::Hash(h)
            }
            _ => gen::scalar(s, cfg),
        };
        let alias = if cfg.alias && s.chance(1, 8) { Some(gen::alias_name(s)) } else { None };
        let inl = gen::ends_inline(&inner);
        entries.push(HashData::Element(HashElement { key: keys.get(i).map(|k| k.to_string()).unwrap_or_else(|| format!("k {i}")), value: AliasedYaml { alias, value: inner } }));
        if cfg.comments && inl && s.chance(1, 4) {
            entries.push(HashData::InlineComment(gen::comment_text(s)));
        }
    }
    if cfg.comments && s.chance(1, 5) {
        entries.push(HashData::Comment(gen::comment_text(s)));
    }
    let alias = if cfg.alias && s.chance(1, 6) { Some(gen::alias_name(s)) } else { None };
    let mut outer = match gen::hash(s, &gen::Cfg { max_len: 2, ..cfg.clone() }, 1, false) {
        Yaml::Hash(h) => h,
        _ => unreachable!(),
    };
    outer.retain(|d| !matches!(d, HashData::Element(e) if e.key == "old" || e.key == "new"));
    let at = if s.bool() { outer.len() } else { 0 };
    outer.insert(at, HashData::Element(HashElement { key: "old".into(), value: AliasedYaml { alias, value: Yaml::Hash(entries) } }));
    if s.chance(1, 10) {
        outer.push(HashData::Element(HashElement { key: "new".into(), value: gen::value(s, cfg, 1) }));
    }
    Yaml::Hash(outer)
}

pub fn move_map_op(s: &mut Src, y: &Yaml) -> Op {
    let path = node_path(s, y);
    let mut keeps: Vec<String> = SELECTED.iter().filter(|_| s.chance(1, 4)).map(|x| x.to_string()).collect();
    for k in keeps.iter_mut() {
        if s.chance(1, 8) {
            *k = gen::tweak(s, k);
        }
    }
    let old = if s.chance(1, 10) { new_name(s) } else { "old".into() };
    let selector = if s.chance(1, 10) { s.pick(gen::SMALL_KEYS).to_string() } else { "type".into() };
    let new = if s.chance(1, 6) { new_name(s) } else { "new".into() };
    Op::MoveMap { path, old, selector, new, keeps }
}

/// A document whose root (or a mapping under it) is a [`grouping_hash`].
pub fn grouping_document(s: &mut Src, cfg: &gen::Cfg) -> (Document, Path) {
    let h = grouping_hash(s, cfg);
    let k = |k: &str| Step::Key(k.to_string(), Vec::new());
    let el = |key: &str, value: Yaml| HashData::Element(HashElement { key: key.into(), value: AliasedYaml { alias: None, value } });
    let (root, steps) = match s.weighted(&[3, 2, 2]) {
        0 => (h, vec![]),
        1 => (Yaml::Hash(vec![el("p", h)]), vec![k("p")]),
        _ => {
            let mut items = vec![ArrayData::Element(AliasedYaml { alias: None, value: h })];
            for _ in 0..s.below(3) {
                let v = if s.bool() { grouping_hash(s, cfg) } else { gen::scalar(s, cfg) };
                items.push(ArrayData::Element(AliasedYaml { alias: None, value: v }));
            }
            let ix = if s.bool() { Step::All(vec![]) } else { Step::Idx(vec![s.below(items.len() + 1)], vec![]) };
            (Yaml::Hash(vec![el("p", Yaml::Array(items))]), vec![k("p"), ix])
        }
    };
    (Document { leading_comments: vec![], items: vec![DocumentData::Yaml(root)] }, Path { root: vec![], steps })
}
