//! C16: traversal.

use super::classify;
use crate::engine::*;
use crate::{fail, gen, refsem};
use yaml_subset::yaml::*;

pub static PROPS: &[&Prop] = &[&C16];

static C16: Prop = Prop {
    id: "C16",
    title: "map_yaml rewrites every node once, bottom-up; visit_yaml sees every block value",
    rule: "a case is a random tree; map_yaml must call its function once per node, children before parents and in order, on the already rewritten children, keep keys, comments and definitions, and with the identity change nothing; visit_yaml must be called once per value of a block collection, parents before children and in order. Non-trivial: at least 5 nodes",
    quick_cases: 1_000_000,
    thorough_cases: 32_000_000,
    assumptions: &["visit_yaml reports values that can have a definition, which values of flow collections cannot"],
    run: c16,
    pinned: no_pinned,
};

fn post<'a>(y: &'a Yaml, out: &mut Vec<&'a Yaml>) {
    match y {
        Yaml::InlineArray(v) => v.iter().for_each(|x| post(x, out)),
        Yaml::InlineHash(v) => v.iter().for_each(|x| post(&x.1, out)),
        Yaml::Array(v) => v.iter().for_each(|d| {
            if let ArrayData::Element(e) = d {
                post(&e.value, out)
            }
        }),
        Yaml::Hash(v) => v.iter().for_each(|d| {
            if let HashData::Element(e) = d {
                post(&e.value.value, out)
            }
        }),
        _ => {}
    }
    out.push(y);
}

fn pre<'a>(y: &'a Yaml, out: &mut Vec<&'a AliasedYaml>) {
    match y {
        Yaml::InlineArray(v) => v.iter().for_each(|x| pre(x, out)),
        Yaml::InlineHash(v) => v.iter().for_each(|x| pre(&x.1, out)),
        Yaml::Array(v) => v.iter().for_each(|d| {
            if let ArrayData::Element(e) = d {
                out.push(e);
                pre(&e.value, out)
            }
        }),
        Yaml::Hash(v) => v.iter().for_each(|d| {
            if let HashData::Element(e) = d {
                out.push(&e.value);
                pre(&e.value.value, out)
            }
        }),
        _ => {}
    }
}

/// The rewrite used as an example: upper-case plain scalars, mark collections with their size.
fn rewrite(y: Yaml) -> Yaml {
    match y {
        Yaml::UnquotedString(t) => Yaml::UnquotedString(format!("{t}!")),
        Yaml::Anchor(t) => Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(t)]),
        Yaml::InlineArray(mut v) => {
            v.push(Yaml::UnquotedString(format!("n{}", v.len())));
            Yaml::InlineArray(v)
        }
        Yaml::Hash(mut v) => {
            // looks at the children, which have to be rewritten already
            let n = v.iter().filter(|d| matches!(d, HashData::Element(e) if matches!(&e.value.value, Yaml::UnquotedString(t) if t.ends_with('!')))).count();
            v.push(HashData::Comment(format!("n{n}")));
            Yaml::Hash(v)
        }
        Yaml::Array(v) if v.is_empty() => Yaml::UnquotedString("empty".into()),
        y => y,
    }
}

fn reference(y: &Yaml) -> Yaml {
    rewrite(match y {
        Yaml::InlineArray(v) => Yaml::InlineArray(v.iter().map(reference).collect()),
        Yaml::InlineHash(v) => Yaml::InlineHash(v.iter().map(|(k, v)| (k.clone(), reference(v))).collect()),
        Yaml::Array(v) => Yaml::Array(
            v.iter()
                .map(|d| match d {
                    ArrayData::Element(e) => ArrayData::Element(AliasedYaml { alias: e.alias.clone(), value: reference(&e.value) }),
                    o => o.clone(),
                })
                .collect(),
        ),
        Yaml::Hash(v) => Yaml::Hash(
            v.iter()
                .map(|d| match d {
                    HashData::Element(e) => HashData::Element(HashElement {
                        key: e.key.clone(),
                        value: AliasedYaml { alias: e.value.alias.clone(), value: reference(&e.value.value) },
                    }),
                    o => o.clone(),
                })
                .collect(),
        ),
        leaf => leaf.clone(),
    })
}

fn c16(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = gen::Cfg { block_in_flow: s.chance(1, 4), ..gen::Cfg::default() };
    let doc = gen::document(s, &cfg);
    classify(&doc, c);
    c.label_if(cfg.block_in_flow, "block values in flow");
    let y = gen::root(&doc).clone();
    c.case = format!("{y:?}");
    c.nontrivial = refsem::nodes(&y) >= 5;
    // identity, with the order of the calls
    let mut want = Vec::new();
    post(&y, &mut want);
    let mut got = Vec::new();
    let same = y.clone().map_yaml(&mut |n| {
        got.push(n.clone());
        n
    });
    if same != y {
        fail!("map_yaml with the identity changes {y:?}\n--- to {same:?}");
    }
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a != *b) {
        fail!("map_yaml on {y:?}\n--- visits {got:?}\n--- instead of {want:?}");
    }
    let a = y.clone().map_yaml(&mut rewrite);
    let b = reference(&y);
    if a != b {
        fail!("map_yaml on {y:?}\n--- gives {a:?}\n--- instead of {b:?}");
    }
    // containers
    let al = AliasedYaml { alias: Some("x".into()), value: y.clone() };
    let m = vec![al.clone(), al.clone()].map_yaml(&mut rewrite);
    if m.len() != 2 || m.iter().any(|m| m.alias.as_deref() != Some("x") || m.value != b) {
        fail!("map_yaml on a list of values with a definition gives {m:?}");
    }
    let mut want = Vec::new();
    pre(&y, &mut want);
    let mut got = Vec::new();
    y.visit_yaml(&mut |a: &AliasedYaml| got.push(a.clone()));
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a != *b) {
        fail!("visit_yaml on {y:?}\n--- visits {got:?}\n--- instead of {want:?}");
    }
    let mut n = 0;
    let mut first = None;
    al.visit_yaml(&mut |a: &AliasedYaml| {
        n += 1;
        if first.is_none() {
            first = Some(a.clone());
        }
    });
    if n != want.len() + 1 || first.as_ref() != Some(&al) {
        fail!("visit_yaml on a value with a definition visits {n} values instead of {}", want.len() + 1);
    }
    // the same from every part of a tree
    let entry = HashElement { key: "k".into(), value: al.clone() };
    let mapped = AliasedYaml { alias: al.alias.clone(), value: b };
    let mapped_entry = HashElement { key: "k".into(), value: mapped.clone() };
    macro_rules! part {
        ($times:expr, $t:expr, $mapped:expr) => {{
            let mut got: Vec<AliasedYaml> = Vec::new();
            $t.visit_yaml(&mut |a: &AliasedYaml| got.push(a.clone()));
            let n = want.len() + 1;
            if got.len() != $times * n || got.iter().enumerate().any(|(i, a)| if i % n == 0 { *a != al } else { a != want[i % n - 1] }) {
                fail!("visit_yaml on {:?}\n--- visits {got:?}", $t);
            }
            let m = $t.map_yaml(&mut rewrite);
            if m != $mapped {
                fail!("map_yaml on {:?}\n--- gives {m:?}", $t);
            }
        }};
    }
    match s.below(6) {
        0 => part!(1, entry.clone(), mapped_entry),
        1 => part!(1, HashData::Element(entry.clone()), HashData::Element(mapped_entry)),
        2 => part!(1, ArrayData::Element(al.clone()), ArrayData::Element(mapped)),
        3 => part!(
            2,
            vec![ArrayData::Comment("c".into()), ArrayData::Element(al.clone()), ArrayData::InlineComment("d".into()), ArrayData::Element(al.clone())],
            vec![ArrayData::Comment("c".into()), ArrayData::Element(mapped.clone()), ArrayData::InlineComment("d".into()), ArrayData::Element(mapped)]
        ),
        4 => part!(
            2,
            vec![HashData::Element(entry.clone()), HashData::InlineComment("d".into()), HashData::Comment("c".into()), HashData::Element(entry.clone())],
            vec![HashData::Element(mapped_entry.clone()), HashData::InlineComment("d".into()), HashData::Comment("c".into()), HashData::Element(mapped_entry)]
        ),
        _ => part!(3, vec![al.clone(), al.clone(), al.clone()], vec![mapped.clone(), mapped.clone(), mapped]),
    }
    Outcome::Pass
}
