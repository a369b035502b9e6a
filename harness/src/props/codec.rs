//! C18: the block scalar codecs.

use crate::engine::*;
use crate::{fail, gen, refsem};
use yaml_subset::yaml::string::{create_folded, create_literal, parse_folded, parse_literal};
use yaml_subset::yaml::BlockChomping;

pub static PROPS: &[&Prop] = &[&C18];

static C18: Prop = Prop {
    id: "C18",
    title: "Literal and folded scalars decode to their text and encode any text",
    rule: "a case is a list of lines with a chomping, which parse_literal and parse_folded must decode as the YAML rules of an independent reference do; and a text (words, long words, runs of spaces, line ends at the start, inside and at the end) with a width, which create_literal and create_folded must encode to lines that decode to that text, with no folded line over the width unless a word or a run of spaces forces it. Non-trivial: at least 2 lines or a text longer than the width",
    quick_cases: 12_000_000,
    thorough_cases: 120_000_000,
    assumptions: &[
        "texts have some character other than a space or a line end, and for folding no line of the text starts with a space or tab (such lines are never folded in YAML)",
        "a text is decoded with the chomping the crate itself uses: keep when it ends in a line end, else strip",
    ],
    run: c18,
    pinned: c18_pinned,
};

fn text(s: &mut Src) -> String {
    let mut t = String::new();
    let n = gen::count(s, 1, 8, 60);
    if s.chance(1, 150) {
        // many lines
        t = s.pick(&["a\n", "b c\n\n", "w\nx\n", "word \n"]).repeat(gen::count(s, 20, 130, 400));
    }
    for i in 0..n {
        if i > 0 {
            t.push_str(s.pick(&[" ", " ", " ", "  ", "\n", "\n\n", "\n\n\n", "   ", " \n", "\r\n", "\r", "\u{85}", "\u{2028}", "\u{a0}", "\u{3000}"]));
        }
        match s.weighted(&[6, 1, 1]) {
            0 => t.push_str(s.pick(&["a", "word", "two words", "x: y", "- z", "#c", "é日本", "longer_word_here", "v.", "\t", "'q'", "\"", "\r", "\u{0}", "e\u{301}", "🎉\u{feff}"])),
            1 => t.push_str(&"w".repeat(gen::count(s, 1, 130, 2000))),
            _ => {
                let k = gen::count(s, 1, 40, 400);
                t.push_str(&vec!["word"; k].join(" "));
            }
        }
    }
    if s.chance(1, 3) {
        t.push_str(&"\n".repeat(gen::count(s, 1, 3, 20)));
    }
    if s.chance(1, 8) {
        t.push(' ');
    }
    if s.chance(1, 8) {
        t = format!("{}{t}", "\n".repeat(gen::count(s, 1, 2, 20)));
    }
    t
}

fn chomping_for(t: &str) -> BlockChomping {
    if t.ends_with('\n') {
        BlockChomping::Keep
    } else {
        BlockChomping::Strip
    }
}

fn c18_pinned() -> Vec<(String, Result<(), String>)> {
    let long = "w".repeat(120);
    let fold = |t: &str| {
        let lines = create_folded(t.to_string(), 90);
        let got = refsem::folded_text(&lines, chomping_for(t));
        if got == t {
            Ok(())
        } else {
            Err(format!("create_folded({t:?}, 90) = {lines:?}, which stands for {got:?}"))
        }
    };
    vec![
        // repaired
        ("long-first-word".into(), fold(&format!("{long} a a"))),
        ("repeated-spaces".into(), fold(&format!("{} a  b   c", "word ".repeat(17)))),
        ("tab-at-a-break".into(), fold(&format!("{} \tb", "word ".repeat(17).trim_end()))),
        ("three-line-ends".into(), fold("a\n\n\nb\n")),
    ]
}

fn c18(s: &mut Src, c: &mut Ctx) -> Outcome {
    match s.below(3) {
        0 => {
            c.label("decode");
            let mut lines = gen::block_lines(s);
            if s.chance(1, 10) {
                let i = s.below(lines.len());
                lines[i] = format!("\t{}", lines[i]);
            }
            let ch = gen::chomp(s);
            c.case = format!("{lines:?} {ch:?}");
            c.nontrivial = lines.len() >= 2;
            let l: Vec<&str> = lines.iter().map(|x| &x[..]).collect();
            let (a, b) = (parse_literal(l.clone(), ch), refsem::literal_text(&lines, ch));
            if a != b {
                fail!("parse_literal({lines:?}, {ch:?}) = {a:?} instead of {b:?}");
            }
            let (a, b) = (parse_folded(l, ch), refsem::folded_text(&lines, ch));
            if a != b {
                fail!("parse_folded({lines:?}, {ch:?}) = {a:?} instead of {b:?}");
            }
        }
        1 => {
            c.label("encode literal");
            let mut t = text(s);
            if s.chance(1, 4) {
                let k = s.range(1, 5);
                t = format!("{}{}", " ".repeat(k), t);
            }
            c.case = t.clone();
            c.nontrivial = t.contains('\n');
            let lines = create_literal(t.clone());
            if lines.iter().any(|l| l.contains('\n')) {
                fail!("create_literal({t:?}) has a line with a line end: {lines:?}");
            }
            let got = refsem::literal_text(&lines, chomping_for(&t));
            let own = parse_literal(lines.iter().map(|x| &x[..]).collect(), chomping_for(&t));
            if got != t || own != t {
                fail!("create_literal({t:?}) = {lines:?}, which stands for {got:?} (decoded by the crate: {own:?})");
            }
        }
        _ => {
            c.label("encode folded");
            let t = text(s);
            if t.split('\n').any(|l| l.starts_with(' ') || l.starts_with('\t')) {
                c.excluded.push("text with a line that starts with a space or tab");
                return Outcome::Pass;
            }
            let w = match s.weighted(&[2, 2, 1]) {
                0 => 90,
                1 => s.range(1, 40),
                _ => s.range(40, 200),
            };
            c.case = format!("{w} {t}");
            c.nontrivial = t.len() > w || t.contains('\n');
            c.label_if(t.len() > w, "longer than the width");
            let lines = create_folded(t.clone(), w);
            if lines.iter().any(|l| l.contains('\n')) {
                fail!("create_folded({t:?}, {w}) has a line with a line end: {lines:?}");
            }
            let got = refsem::folded_text(&lines, chomping_for(&t));
            let own = parse_folded(lines.iter().map(|x| &x[..]).collect(), chomping_for(&t));
            if got != t || own != t {
                fail!("create_folded({t:?}, {w}) = {lines:?}, which stands for {got:?} (decoded by the crate: {own:?})");
            }
            // a line is too long only when it is one word (repeated spaces tie words together)
            if !t.contains("  ") && !t.contains('\t') {
                c.label("width checked");
                for l in &lines {
                    if l.len() > w && l.contains(' ') && !l.ends_with(' ') {
                        fail!("create_folded({t:?}, {w}) has a line of {} that could be broken: {l:?}", l.len());
                    }
                }
            }
        }
    }
    Outcome::Pass
}
