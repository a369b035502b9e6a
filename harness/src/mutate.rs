//! Text mutations for the parser properties.
use crate::engine::Src;

pub const TOKENS: &[&str] = &[
    " ", "\n", "  ", ":", ": ", "-", "- ", "#", " #", "[", "]", "{", "}", ",", ", ", "'", "''", "\"", "\\", "|", ">", "|-", "|+", ">-", "&", "*", "&x", "*x", "\t",
    "\r\n", "\r", "---", "...", "a", "v", "1", "0", "é", "日", "🎉", "\u{a0}", "\u{2003}", "|2\n", "|0\n", "|10\n", "\n\n", "\n ", "\n  ", "\n    ", "a:", "- a: b", "a: b\n", "?", "!", "%",
    "\\n", "\\\n", "\u{feff}", "\u{85}", "\u{2028}", "\0", "\u{7f}", "٣", "|٣\n", "|99999999999999999999\n", ">1\n", "~", "null", "_",
];

pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    let n = s.range(1, 6);
    for _ in 0..n {
        let len = cs.len();
        let at = s.below(len + 1);
        match s.weighted(&[4, 3, 2, 2, 2, 1, 1]) {
            0 => {
                let t = *s.pick(TOKENS);
                cs.splice(at..at, t.chars());
            }
            1 => {
                let k = s.range(1, 4).min(len - at.min(len));
                cs.drain(at..at + k);
            }
            2 => {
                if at < len {
                    let t = *s.pick(TOKENS);
                    cs.splice(at..at + 1, t.chars());
                }
            }
            3 => {
                // copy a slice elsewhere
                let k = s.range(1, 12).min(len - at);
                let sl: Vec<char> = cs[at..at + k].to_vec();
                let to = s.below(len + 1);
                cs.splice(to..to, sl);
            }
            4 => {
                // copy, delete or re-indent a line
                let t: String = cs.iter().collect();
                let mut lines: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
                let i = s.below(lines.len());
                match s.below(4) {
                    0 => {
                        lines.remove(i);
                    }
                    1 => {
                        let l = lines[i].clone();
                        let j = s.below(lines.len() + 1);
                        lines.insert(j, l);
                    }
                    2 => lines[i].insert(0, ' '),
                    _ => {
                        if lines[i].starts_with(' ') {
                            lines[i].remove(0);
                        }
                    }
                }
                cs = lines.join("\n").chars().collect();
            }
            5 => cs.truncate(at),
            _ => {
                // any code point
                let hi = s.below(0x11);
                let lo = s.below(0x10000);
                if let Some(c) = char::from_u32(((hi as u32) << 16) | lo as u32) {
                    cs.insert(at.min(cs.len()), c);
                }
            }
        }
    }
    cs.into_iter().collect()
}
