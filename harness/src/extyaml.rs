//! libyaml (the C library of the system) as an independent reader of YAML.

use crate::refsem::Node;
use std::ffi::{c_char, c_int, c_uchar, CStr};

/// `yaml_event_t`: only the fields that are read have a place, the rest is room.
#[repr(C)]
struct Event {
    kind: c_int,
    data: [usize; 8],
    room: [u8; 256],
}

#[repr(C)]
struct Parser {
    error: c_int,
    problem: *const c_char,
    room: [u64; 512],
}

#[link(name = "yaml")]
extern "C" {
    fn yaml_parser_initialize(p: *mut Parser) -> c_int;
    fn yaml_parser_delete(p: *mut Parser);
    fn yaml_parser_set_input_string(p: *mut Parser, t: *const c_uchar, n: usize);
    fn yaml_parser_parse(p: *mut Parser, e: *mut Event) -> c_int;
    fn yaml_event_delete(e: *mut Event);
}

const STREAM_END: c_int = 2;
const DOC_START: c_int = 3;
const ALIAS: c_int = 5;
const SCALAR: c_int = 6;
const SEQ_START: c_int = 7;
const SEQ_END: c_int = 8;
const MAP_START: c_int = 9;
const MAP_END: c_int = 10;

pub enum Read {
    /// not YAML (to libyaml)
    Rejected(String),
    /// YAML with something that this subset does not have
    Beyond(&'static str),
    Root(Node),
    Empty,
}

enum Tok {
    Alias(String),
    Scalar { anchor: Option<String>, text: String, plain: bool },
    Start { anchor: Option<String>, seq: bool },
    End,
}

pub fn read(t: &str) -> Read {
    let mut toks = Vec::new();
    let mut docs = 0;
    let mut tags = false;
    unsafe {
        let mut p: Box<Parser> = Box::new(std::mem::zeroed());
        if yaml_parser_initialize(&mut *p) == 0 {
            return Read::Rejected("no memory".into());
        }
        yaml_parser_set_input_string(&mut *p, t.as_ptr(), t.len());
        let string = |p: usize| -> Option<String> {
            (p != 0).then(|| CStr::from_ptr(p as *const c_char).to_string_lossy().into_owned())
        };
        loop {
            let mut e: Event = std::mem::zeroed();
            if yaml_parser_parse(&mut *p, &mut e) == 0 {
                let m = if p.problem.is_null() { "?".to_string() } else { CStr::from_ptr(p.problem).to_string_lossy().into_owned() };
                yaml_parser_delete(&mut *p);
                return Read::Rejected(m);
            }
            let kind = e.kind;
            match kind {
                DOC_START => docs += 1,
                ALIAS => toks.push(Tok::Alias(string(e.data[0]).unwrap_or_default())),
                SCALAR => {
                    let n = e.data[3];
                    let bytes = std::slice::from_raw_parts(e.data[2] as *const u8, n);
                    tags |= e.data[1] != 0;
                    // plain_implicit, quoted_implicit: two ints; then the style
                    let style = (e.data[5] & 0xffff_ffff) as c_int;
                    toks.push(Tok::Scalar {
                        anchor: string(e.data[0]),
                        text: String::from_utf8_lossy(bytes).into_owned(),
                        plain: style == 1,
                    });
                }
                SEQ_START | MAP_START => {
                    tags |= e.data[1] != 0;
                    toks.push(Tok::Start { anchor: string(e.data[0]), seq: kind == SEQ_START })
                }
                SEQ_END | MAP_END => toks.push(Tok::End),
                _ => {}
            }
            yaml_event_delete(&mut e);
            if kind == STREAM_END {
                break;
            }
        }
        yaml_parser_delete(&mut *p);
    }
    if docs > 1 {
        return Read::Beyond("several documents");
    }
    if tags {
        return Read::Beyond("a tag");
    }
    if toks.is_empty() {
        return Read::Empty;
    }
    let mut at = 0;
    match build(&toks, &mut at) {
        Some(n) => Read::Root(n),
        None => Read::Beyond("a key that is no plain scalar"),
    }
}

fn build(t: &[Tok], at: &mut usize) -> Option<Node> {
    *at += 1;
    let def = |a: &Option<String>, n: Node| match a {
        Some(a) => Node::Def(a.clone(), Box::new(n)),
        None => n,
    };
    Some(match &t[*at - 1] {
        Tok::Alias(a) => Node::Ref(a.clone()),
        Tok::Scalar { anchor, text, plain } => def(anchor, if *plain { Node::Plain(text.clone()) } else { Node::Text(text.clone()) }),
        Tok::Start { anchor, seq: true } => {
            let mut v = Vec::new();
            while !matches!(t[*at], Tok::End) {
                v.push(build(t, at)?);
            }
            *at += 1;
            def(anchor, Node::Seq(v))
        }
        Tok::Start { anchor, seq: false } => {
            let mut v = Vec::new();
            while !matches!(t[*at], Tok::End) {
                let k = match build(t, at)? {
                    Node::Plain(k) => k,
                    _ => return None,
                };
                v.push((k, build(t, at)?));
            }
            *at += 1;
            def(anchor, Node::Map(v))
        }
        Tok::End => unreachable!(),
    })
}

