//! A reader for the JSON that serde_json writes: entries in order, numbers as their text.

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Seq(Vec<J>),
    Map(Vec<(String, J)>),
}

pub fn read(t: &str) -> J {
    let mut c = t.chars().peekable();
    let j = value(&mut c);
    assert!(c.next().is_none(), "more than one JSON value in {t}");
    j
}

type In<'a> = std::iter::Peekable<std::str::Chars<'a>>;

fn value(c: &mut In) -> J {
    match c.peek().copied().expect("a JSON value") {
        'n' => word(c, "null", J::Null),
        't' => word(c, "true", J::Bool(true)),
        'f' => word(c, "false", J::Bool(false)),
        '"' => J::Str(string(c)),
        '[' => {
            c.next();
            let mut v = Vec::new();
            while c.peek() != Some(&']') {
                if !v.is_empty() {
                    assert_eq!(c.next(), Some(','));
                }
                v.push(value(c));
            }
            c.next();
            J::Seq(v)
        }
        '{' => {
            c.next();
            let mut v = Vec::new();
            while c.peek() != Some(&'}') {
                if !v.is_empty() {
                    assert_eq!(c.next(), Some(','));
                }
                let k = string(c);
                assert_eq!(c.next(), Some(':'));
                v.push((k, value(c)));
            }
            c.next();
            J::Map(v)
        }
        _ => {
            let mut t = String::new();
            while let Some(x) = c.next_if(|x| x.is_ascii_alphanumeric() || "+-.".contains(*x)) {
                t.push(x);
            }
            assert!(t.parse::<f64>().is_ok(), "not a JSON number: {t:?}");
            J::Num(t)
        }
    }
}

fn word(c: &mut In, w: &str, j: J) -> J {
    for x in w.chars() {
        assert_eq!(c.next(), Some(x));
    }
    j
}

fn string(c: &mut In) -> String {
    assert_eq!(c.next(), Some('"'));
    let mut t = String::new();
    loop {
        match c.next().expect("the end of a JSON string") {
            '"' => return t,
            '\\' => t.push(match c.next().unwrap() {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                'b' => '\u{8}',
                'f' => '\u{c}',
                'u' => {
                    let h: String = (0..4).map(|_| c.next().unwrap()).collect();
                    char::from_u32(u32::from_str_radix(&h, 16).unwrap()).expect("serde_json escapes control characters only")
                }
                x => x,
            }),
            x => t.push(x),
        }
    }
}
