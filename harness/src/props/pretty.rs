//! C06: pretty.

use super::{classify, diff};
use crate::engine::*;
use crate::{fail, gen, layout, must_parse, refsem};
use yaml_subset::yaml::*;

pub static PROPS: &[&Prop] = &[&C06];

static C06: Prop = Prop {
    id: "C06",
    title: "Prettying changes styles only: same data, same comments, valid, stable",
    rule: "a case is a random document (half as a tree, half parsed from a random layout); pretty must keep the data (scalar texts, what plain scalars resolve to, order, keys, definitions and references) and all comments in order; its formatted text must parse to the prettied tree; prettying again must change nothing (of one in twelve the entries of some mappings and lists are taken out first, and only the tree is judged). Non-trivial: pretty changed the tree",
    quick_cases: 850_000,
    thorough_cases: 14_000_000,
    assumptions: &["same domain of documents as C05"],
    run: c06,
    pinned: no_pinned,
};

/// Lists of lists, whose items pretty may put on one line.
fn nested_lists(s: &mut Src, cfg: &gen::Cfg) -> Yaml {
    let small = gen::Cfg { comments: s.chance(1, 4), alias: s.chance(1, 4), ..cfg.clone() };
    let mut items = Vec::new();
    for _ in 0..gen::count(s, 1, 3, 12) {
        let n = gen::count(s, 1, 4, 20);
        let mut inner = Vec::new();
        for _ in 0..n {
            let v = match s.weighted(&[6, 1, 1]) {
                0 => {
                    let cfg = gen::Cfg { anchors: false, block_scalars: s.chance(1, 10), ..small.clone() };
                    AliasedYaml { alias: None, value: gen::scalar(s, &cfg) }
                }
                1 => AliasedYaml { alias: None, value: gen::inline_array(s, &small, 1) },
                _ => gen::value(s, &small, 1),
            };
            inner.push(ArrayData::Element(v));
        }
        items.push(ArrayData::Element(AliasedYaml { alias: None, value: Yaml::Array(inner) }));
    }
    Yaml::Array(items)
}

fn c06(s: &mut Src, c: &mut Ctx) -> Outcome {
    // trees of serialized tuples: no text has them, but pretty gives them one
    let block_in_flow = s.chance(1, 8);
    let cfg = match block_in_flow {
        true => gen::Cfg { block_in_flow, block_scalars: false, comments: false, alias: false, anchors: false, ..gen::Cfg::default() },
        false => gen::Cfg::default(),
    };
    c.label_if(block_in_flow, "block values in flow");
    let mut doc = gen::document(s, &cfg);
    if !block_in_flow && s.chance(1, 3) {
        c.label("list of lists added");
        let v = nested_lists(s, &cfg);
        for i in doc.items.iter_mut() {
            if let DocumentData::Yaml(y) = i {
                match y {
                    Yaml::Hash(h) => h.push(HashData::Element(HashElement { key: "zz".into(), value: AliasedYaml { alias: None, value: v.clone() } })),
                    Yaml::Array(a) => a.push(ArrayData::Element(AliasedYaml { alias: None, value: v.clone() })),
                    _ => {}
                }
            }
        }
    }
    if !block_in_flow && s.bool() {
        let t = layout::document(s, &doc, false);
        doc = must_parse!(t, "a supported layout");
    }
    // what edits leave may have no text; its tree has to be kept all the same
    let hollow = s.chance(1, 12);
    c.label_if(hollow, "mappings and lists with nothing but comments");
    if hollow {
        gen::hollow(s, &mut doc, true);
    }
    classify(&doc, c);
    c.case = format!("{:?}", gen::root(&doc));
    let p = doc.clone().pretty();
    c.nontrivial = p != doc;
    let show = || doc.format().unwrap();
    let (a, b) = (refsem::data(gen::root(&doc)), refsem::data(gen::root(&p)));
    if a != b {
        fail!("pretty changes the data of\n{}\n--- {}", show(), diff(&format!("{a:?}"), &format!("{b:?}")));
    }
    let (a, b) = (refsem::comments(&doc), refsem::comments(&p));
    if a != b {
        fail!("pretty changes the comments of\n{}\n--- {}", show(), diff(&format!("{a:?}"), &format!("{b:?}")));
    }
    if hollow {
        let again = p.clone().pretty();
        if again != p {
            fail!("prettying again changes\n{}\n--- {}", show(), diff(&format!("{p:?}"), &format!("{again:?}")));
        }
        return Outcome::Pass;
    }
    let text = p.format().unwrap();
    let back = must_parse!(text, format!("the prettied text of\n{}\n--- it", show()));
    // a comment behind a quoted string that becomes a block scalar goes to a line of its own
    let moved = refsem::comment_after_block(gen::root(&p));
    c.label_if(moved, "comment behind a block scalar");
    if moved {
        let (a, b) = (refsem::data(gen::root(&p)), refsem::data(gen::root(&back)));
        if a != b {
            fail!("prettied text has other data\n{text}\n--- {}", diff(&format!("{a:?}"), &format!("{b:?}")));
        }
        let (a, b) = (refsem::own_lines(refsem::events(&p)), refsem::own_lines(refsem::events(&back)));
        if a != b {
            fail!("prettied text has comments elsewhere\n{text}\n--- {}", diff(&format!("{a:?}"), &format!("{b:?}")));
        }
    } else if back != p {
        fail!("prettied text parses to another document:\n{text}\n--- {}", diff(&format!("{p:?}"), &format!("{back:?}")));
    }
    let again = back.clone().pretty();
    if again != back {
        fail!("prettying again changes\n{text}\n--- {}", diff(&format!("{back:?}"), &format!("{again:?}")));
    }
    Outcome::Pass
}
