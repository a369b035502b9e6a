//! C13, C14, C15, C17: edits.

use super::{classify, diff};
use crate::engine::*;
use crate::model::{self, Op, Path};
use crate::{fail, gen, layout, must_parse, refsem};
use yaml_subset::yaml::*;

pub static PROPS: &[&Prop] = &[&C13, &C14, &C15, &C17];

static C13: Prop = Prop {
    id: "C13",
    title: "A history of edits changes exactly what its paths select",
    rule: "a case is a random document (half of the time parsed from a random layout) and 1-8 edits (insert, insert by call, remove, rename, to_object) at paths made to lead into the current document; after each edit the whole tree and the returned count must equal the reference model's. Non-trivial: at least 2 edits changed something",
    quick_cases: 1_200_000,
    thorough_cases: 28_000_000,
    assumptions: &["flow mappings are opaque to paths, and the first of duplicate keys counts, as in the crate"],
    run: c13,
    pinned: no_pinned,
};

fn start(s: &mut Src, c: &mut Ctx, cfg: &gen::Cfg) -> Result<Document, Outcome> {
    let doc = gen::document(s, cfg);
    classify(&doc, c);
    if s.bool() && !cfg.block_in_flow {
        let t = layout::document(s, &doc, false);
        return match super::parse(&t) {
            super::Parsed::Doc(mut d) => {
                if s.chance(1, 12) {
                    c.label("mappings emptied before");
                    gen::hollow(s, &mut d, false);
                }
                Ok(d)
            }
            super::Parsed::Limit => Err(Outcome::Inconclusive("parser call limit")),
            super::Parsed::Rejected(e) => Err(Outcome::Fail(format!("a supported layout is rejected:\n{t}\n{e}"))),
        };
    }
    Ok(doc)
}

fn root_mut(d: &mut Document) -> &mut Yaml {
    d.items
        .iter_mut()
        .find_map(|i| match i {
            DocumentData::Yaml(y) => Some(y),
            _ => None,
        })
        .unwrap()
}

/// What the operation is called on: they are the same for a document, a tree and a value.
#[derive(Clone, Copy)]
enum On {
    Document,
    Tree,
    Value,
    Part,
    /// for operations that add or remove entries; the others see a list item or an entry as such
    Item,
    Entry,
    EntryData,
}

fn on(s: &mut Src) -> On {
    *s.pick(&[On::Document, On::Tree, On::Value, On::Document, On::Tree, On::Value, On::Part, On::Item, On::Entry, On::EntryData])
}

/// Comments have nothing to edit.
fn comments_stay(op: &Op) -> Result<(), String> {
    let text = "c".to_string();
    macro_rules! check {
        ($t:expr) => {{
            let mut x = $t;
            let n = op.real(&mut x);
            if n != 0 || x != $t {
                return Err(format!("on {:?} returned {n} and left {x:?}\n--- operation\n{}", $t, op.show()));
            }
        }};
    }
    check!(ArrayData::Comment(text.clone()));
    check!(ArrayData::InlineComment(text.clone()));
    check!(HashData::Comment(text.clone()));
    check!(HashData::InlineComment(text.clone()));
    check!(DocumentData::Comment(text.clone()));
    Ok(())
}

/// Runs one operation on both sides and compares.
fn step(doc: &mut Document, op: &Op, log: &mut Vec<String>, on: On) -> Result<usize, String> {
    let before = doc.clone();
    let mut want = doc.clone();
    let wn = op.model(root_mut(&mut want));
    comments_stay(op)?;
    let on = match on {
        On::Item | On::Entry | On::EntryData if !matches!(op, Op::Insert { .. } | Op::Remove { .. }) => On::Value,
        on => on,
    };
    let gn = match on {
        On::Part => doc.items.iter_mut().map(|i| op.real(i)).sum(),
        On::Item | On::Entry | On::EntryData => {
            let value = AliasedYaml { alias: Some("def".into()), value: root_mut(doc).clone() };
            let entry = HashElement { key: "self".into(), value: value.clone() };
            let (n, v) = match on {
                On::Item => {
                    let mut x = ArrayData::Element(value);
                    (op.real(&mut x), if let ArrayData::Element(v) = x { Some(v) } else { None })
                }
                On::Entry => {
                    let mut x = entry;
                    (op.real(&mut x), (x.key == "self").then_some(x.value))
                }
                _ => {
                    let mut x = HashData::Element(entry);
                    (op.real(&mut x), if let HashData::Element(HashElement { key, value }) = x { (key == "self").then_some(value) } else { None })
                }
            };
            match v {
                Some(v) if v.alias.as_deref() == Some("def") => *root_mut(doc) = v.value,
                v => return Err(format!("an operation inside of an item changed the item to {v:?}\n--- operation\n{}", op.show())),
            }
            n
        }
        On::Document => op.real(doc),
        On::Tree => op.real(root_mut(doc)),
        On::Value => {
            let mut a = AliasedYaml { alias: Some("def".into()), value: root_mut(doc).clone() };
            let n = op.real(&mut a);
            if a.alias.as_deref() != Some("def") {
                return Err(format!("the definition of the root is now {:?}\n--- operation\n{}", a.alias, op.show()));
            }
            *root_mut(doc) = a.value;
            n
        }
    };
    log.push(format!("{} -> {wn}", op.show()));
    let show = |d: &Document| match d.format() {
        Ok(t) if !t.is_empty() => t,
        _ => format!("{d:?}"),
    };
    if gn != wn {
        return Err(format!("returned {gn} instead of {wn}\n--- operations\n{}\n--- on\n{}", log.join("\n"), show(&before)));
    }
    if *doc != want {
        return Err(format!(
            "wrong result\n--- operations\n{}\n--- before\n{}\n--- want\n{}\n--- got\n{}\n--- {}",
            log.join("\n"),
            show(&before),
            show(&want),
            show(doc),
            diff(&format!("{want:?}"), &format!("{doc:?}"))
        ));
    }
    Ok(wn)
}

fn c13(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = model::edit_cfg(s);
    let mut doc = match start(s, c, &cfg) {
        Ok(d) => d,
        Err(o) => return o,
    };
    let text = doc.format().unwrap_or_default();
    let mut log = Vec::new();
    let mut changed = 0;
    let on = on(s);
    let n = if s.chance(1, 30) { s.range(9, 30) } else { s.range(1, 8) };
    for _ in 0..n {
        let op = model::simple_op(s, gen::root(&doc), &cfg);
        match step(&mut doc, &op, &mut log, on) {
            Err(m) => fail!("{m}"),
            Ok(k) => {
                c.steps += 1;
                if k > 0 {
                    changed += 1;
                    c.label(op.name());
                    c.label_if(k > 1, "several places at once");
                }
            }
        }
    }
    c.nontrivial = changed >= 2;
    c.case = format!("{}\n{text}", log.join("\n"));
    Outcome::Pass
}

static C14: Prop = Prop {
    id: "C14",
    title: "Moving fields into a subfield moves exactly those fields, loses none",
    rule: "a case is a random document and 1-3 move_to_subfield operations at paths made to lead to mappings, with present and absent fields in any order, and a subfield that is absent, a mapping, some other value or itself one of the fields; tree and count must equal the reference model's, and no value that was there may be gone unless a moved field replaced it. Non-trivial: something moved",
    quick_cases: 1_100_000,
    thorough_cases: 28_000_000,
    assumptions: &["names are taken as names, not as paths"],
    run: c14,
    pinned: c14_pinned,
};

fn leaves(y: &Yaml) -> Vec<String> {
    let mut v = Vec::new();
    refsem::each(y, false, &mut |y, _| {
        if !matches!(y, Yaml::Hash(_) | Yaml::Array(_) | Yaml::InlineArray(_) | Yaml::InlineHash(_)) {
            v.push(format!("{y:?}"));
        }
    });
    v.sort();
    v
}

fn c14_pinned() -> Vec<(String, Result<(), String>)> {
    let fields = |t: &str, sub: &str, fields: &[&str]| -> Result<(), String> {
        let mut d = parse_yaml_file(t).map_err(|e| e.to_string())?;
        let fields = fields.iter().map(|f| f.to_string()).collect();
        let op = Op::MoveSub { path: Path { root: vec![], steps: vec![] }, sub: sub.into(), fields };
        step(&mut d, &op, &mut Vec::new(), On::Document).map(|_| ())
    };
    let case = |t: &str, sub: &str| fields(t, sub, &["a", "b"]);
    let t = "---\na: 1\nb: 2\nc: 3\n";
    vec![
        // repaired
        ("field-named-twice".into(), fields(t, "x", &["a", "b", "a"])),
        ("subfield-is-a-scalar".into(), case(t, "c")),
        ("subfield-is-a-moved-field".into(), case(t, "a")),
        ("subfield-with-dot".into(), case(t, "x.y")),
        ("subfield-empty".into(), case(t, "")),
        ("subfield-with-bracket".into(), case(t, "[0]")),
    ]
}

fn c14(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = model::edit_cfg(s);
    let mut doc = match start(s, c, &cfg) {
        Ok(d) => d,
        Err(o) => return o,
    };
    let text = doc.format().unwrap_or_default();
    let mut log = Vec::new();
    for _ in 0..s.range(1, 3) {
        let op = model::move_sub_op(s, gen::root(&doc));
        if let (Op::MoveSub { sub, fields, .. }, true) = (&op, s.chance(1, 3)) {
            model::clash(s, root_mut(&mut doc), sub, fields);
        }
        let before = gen::root(&doc).clone();
        let on = on(s);
        match step(&mut doc, &op, &mut log, on) {
            Err(m) => fail!("{m}"),
            Ok(k) => {
                c.steps += 1;
                c.nontrivial |= k > 0;
                c.label(match k {
                    0 => "nothing moved",
                    1 => "moved at one place",
                    _ => "moved at several places",
                });
                // independent of the model: without a field of that name in the subfield, nothing is lost
                if let Op::MoveSub { path, sub, fields } = &op {
                    let clash = model::find(&before, path).iter().any(|y| {
                        model::field(y, sub).map(|v| fields.iter().any(|f| model::field(&v.value, f).is_some())).unwrap_or(false)
                    });
                    c.label_if(clash, "replaces fields");
                    if !clash && leaves(&before) != leaves(gen::root(&doc)) {
                        fail!("values were lost or made up\n--- operations\n{}\n--- result\n{}", log.join("\n"), doc.format().unwrap());
                    }
                }
            }
        }
    }
    c.case = format!("{}\n{text}", log.join("\n"));
    Outcome::Pass
}

static C15: Prop = Prop {
    id: "C15",
    title: "Grouping a map by a field puts each entry under its field's value",
    rule: "a case is a mapping of mappings with a selector field (all scalar styles, empty, absent, a list; comments between entries; definitions), at the root, under a key or in a list, and one move_to_map_with_field_as_key with a random set of kept values; tree and count must equal the reference model's, and every entry and comment must be in exactly one of the two maps. Non-trivial: something moved",
    quick_cases: 1_300_000,
    thorough_cases: 28_000_000,
    assumptions: &["an existing new map is left as it is, with the old map", "a comment moves with the entry after it, one at the end with the last entry"],
    run: c15,
    pinned: no_pinned,
};

fn c15(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = model::edit_cfg(s);
    let mut op;
    let mut doc = if s.chance(1, 6) {
        let d = match start(s, c, &cfg) {
            Ok(d) => d,
            Err(o) => return o,
        };
        op = model::move_map_op(s, gen::root(&d));
        d
    } else {
        let (d, p) = model::grouping_document(s, &cfg);
        op = model::move_map_op(s, gen::root(&d));
        if let Op::MoveMap { path, .. } = &mut op {
            *path = p;
        }
        d
    };
    let text = doc.format().unwrap_or_default();
    let (lv, cm) = (refsem::comments(&doc), leaves(gen::root(&doc)).len());
    let mut log = Vec::new();
    match step(&mut doc, &op, &mut log, on(s)) {
        Err(m) => fail!("{m}"),
        Ok(k) => {
            c.steps += 1;
            c.nontrivial = k > 0;
            c.label(match k {
                0 => "nothing moved",
                1 => "one map grouped",
                _ => "several maps grouped",
            });
        }
    }
    let mut a = lv;
    let mut b = refsem::comments(&doc);
    a.sort();
    b.sort();
    // comments inside a selector's own value go with it; the selector is a scalar or stays
    if a != b {
        fail!("comments were lost or made up\n--- operations\n{}\n--- before\n{text}\n--- after\n{}", log.join("\n"), doc.format().unwrap());
    }
    if leaves(gen::root(&doc)).len() > cm {
        fail!("values were made up\n--- operations\n{}\n--- before\n{text}\n--- after\n{}", log.join("\n"), doc.format().unwrap());
    }
    c.case = format!("{}\n{text}", log.join("\n"));
    Outcome::Pass
}

static C17: Prop = Prop {
    id: "C17",
    title: "An edited document formats to text that parses back to its data",
    rule: "a case is a document parsed from a random layout (now and then with mappings below its root emptied but for comments), 1-6 edits of every kind, then format and parse, with and without pretty: the data (scalar texts, order, keys, definitions, references) and the sequence of comments must be those of the edited tree, and formatting and parsing that document again must not change it. Non-trivial: at least one edit changed something",
    quick_cases: 500_000,
    thorough_cases: 12_000_000,
    assumptions: &[
        "inserted values and names are ones the subset can write; grouped maps whose group names cannot be keys are counted and left out",
    ],
    run: c17,
    pinned: no_pinned,
};

pub fn keys_ok(y: &Yaml) -> bool {
    let mut ok = true;
    refsem::each(y, false, &mut |y, _| {
        if let Yaml::Hash(h) = y {
            for d in h {
                if let HashData::Element(e) = d {
                    ok &= gen::key_ok(&e.key);
                }
            }
        }
    });
    ok
}

fn c17(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cfg = gen::Cfg { block_in_flow: false, ..model::edit_cfg(s) };
    let grouping = s.chance(1, 5);
    let mut doc = if grouping {
        let (d, _) = model::grouping_document(s, &cfg);
        d
    } else {
        gen::document(s, &cfg)
    };
    let t = layout::document(s, &doc, false);
    doc = must_parse!(t, "a supported layout");
    if s.chance(1, 12) {
        c.label("mappings emptied before");
        gen::hollow(s, &mut doc, false);
    }
    let mut log = Vec::new();
    let n = gen::count(s, 1, 6, 40);
    for _ in 0..n {
        let root = gen::root(&doc);
        let op = match s.weighted(&[6, 2, if grouping { 6 } else { 0 }]) {
            0 => model::simple_op(s, root, &cfg),
            1 => model::move_sub_op(s, root),
            _ => model::move_map_op(s, root),
        };
        log.push(op.show());
        if op.real(&mut doc) > 0 {
            c.nontrivial = true;
            c.label(op.name());
        }
    }
    c.case = format!("{}\n{t}", log.join("\n"));
    if !keys_ok(gen::root(&doc)) {
        c.excluded.push("a group name that cannot be a key");
        return Outcome::Pass;
    }
    let f = doc.format().unwrap();
    let what = || format!("{t}\n--- operations\n{}", log.join("\n"));
    let back = must_parse!(f, format!("the edited document of\n{}\n--- formatted it", what()));
    let (a, b) = (refsem::data(gen::root(&doc)), refsem::data(gen::root(&back)));
    if a != b {
        fail!("data differs after format\n{}\n--- formatted\n{f}\n--- {}", what(), diff(&format!("{a:?}"), &format!("{b:?}")));
    }
    let (a, b) = (refsem::comments(&doc), refsem::comments(&back));
    if a != b {
        fail!("comments differ after format\n{}\n--- formatted\n{f}\n--- {}", what(), diff(&format!("{a:?}"), &format!("{b:?}")));
    }
    // and prettied first
    let p = doc.clone().pretty().format().unwrap();
    let pretty = must_parse!(p, format!("the edited document of\n{}\n--- prettied and formatted it", what()));
    let (a, b) = (refsem::data(gen::root(&doc)), refsem::data(gen::root(&pretty)));
    if a != b {
        fail!("data differs after pretty\n{}\n--- prettied\n{p}\n--- {}", what(), diff(&format!("{a:?}"), &format!("{b:?}")));
    }
    let (a, b) = (refsem::comments(&doc), refsem::comments(&pretty));
    if a != b {
        fail!("comments differ after pretty\n{}\n--- prettied\n{p}\n--- {}", what(), diff(&format!("{a:?}"), &format!("{b:?}")));
    }
    // what was read back is a document of its own: it formats to a text that parses to it again
    let f2 = back.format().unwrap();
    let again = must_parse!(f2, format!("the edited document, formatted and parsed of\n{}\n--- formatted again", what()));
    if again != back {
        fail!("formatting again changes the document\n{}\n--- formatted\n{f}\n--- {}", what(), diff(&format!("{back:?}"), &format!("{again:?}")));
    }
    Outcome::Pass
}
