//! An independent lexer for the GraphQL lexical grammar (October 2021, with the later `\u{..}` escape).
#[derive(Debug, Clone, PartialEq)]
pub enum T {
    P(&'static str),
    Name(String),
    Var(String),
    Int(i32),
    Float(f64),
    Str(String),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Tok {
    pub t: T,
    pub s: usize,
    pub e: usize,
}

fn name_start(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphabetic()
}
fn name_cont(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphanumeric()
}

/// Err carries the byte offset where lexing failed.
pub fn lex(src: &str) -> Result<Vec<Tok>, usize> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' | b',' => {
                i += 1;
                continue;
            }
            0xEF if b[i..].starts_with("\u{FEFF}".as_bytes()) => {
                i += 3;
                continue;
            }
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
                continue;
            }
            _ => {}
        }
        let s = i;
        let t = match c {
            b'!' => { i += 1; T::P("!") }
            b'&' => { i += 1; T::P("&") }
            b'(' => { i += 1; T::P("(") }
            b')' => { i += 1; T::P(")") }
            b':' => { i += 1; T::P(":") }
            b'=' => { i += 1; T::P("=") }
            b'@' => { i += 1; T::P("@") }
            b'[' => { i += 1; T::P("[") }
            b']' => { i += 1; T::P("]") }
            b'{' => { i += 1; T::P("{") }
            b'}' => { i += 1; T::P("}") }
            b'|' => { i += 1; T::P("|") }
            b'.' => {
                if b[i..].starts_with(b"...") {
                    i += 3;
                    T::P("...")
                } else {
                    return Err(i);
                }
            }
            b'$' => {
                i += 1;
                if i >= b.len() || !name_start(b[i]) {
                    return Err(s);
                }
                while i < b.len() && name_cont(b[i]) {
                    i += 1;
                }
                T::Var(src[s + 1..i].to_string())
            }
            c if name_start(c) => {
                while i < b.len() && name_cont(b[i]) {
                    i += 1;
                }
                T::Name(src[s..i].to_string())
            }
            b'-' | b'0'..=b'9' => {
                if c == b'-' {
                    i += 1;
                }
                if i >= b.len() || !b[i].is_ascii_digit() {
                    return Err(s);
                }
                if b[i] == b'0' {
                    i += 1;
                } else {
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                }
                let mut fl = false;
                if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                    fl = true;
                    i += 1;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                }
                if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                    let mut j = i + 1;
                    if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                        j += 1;
                    }
                    if j < b.len() && b[j].is_ascii_digit() {
                        while j < b.len() && b[j].is_ascii_digit() {
                            j += 1;
                        }
                        i = j;
                        fl = true;
                    }
                }
                if i < b.len() && (name_cont(b[i]) || b[i] == b'.') {
                    return Err(s);
                }
                if fl {
                    let f: f64 = src[s..i].parse().map_err(|_| s)?;
                    if !f.is_finite() {
                        return Err(s);
                    }
                    T::Float(f)
                } else {
                    T::Int(src[s..i].parse().map_err(|_| s)?)
                }
            }
            b'"' => {
                if b[i..].starts_with(b"\"\"\"") {
                    i += 3;
                    let mut raw = String::new();
                    loop {
                        if i >= b.len() {
                            return Err(s);
                        }
                        if b[i..].starts_with(b"\"\"\"") {
                            i += 3;
                            break;
                        }
                        if b[i..].starts_with(b"\\\"\"\"") {
                            // kept apart from text until lines are cut; it contains no line break
                            raw.push_str("\"\"\"");
                            i += 4;
                            continue;
                        }
                        let ch = src[i..].chars().next().unwrap();
                        raw.push(ch);
                        i += ch.len_utf8();
                    }
                    T::Str(block_value(&raw))
                } else {
                    i += 1;
                    let mut o = String::new();
                    loop {
                        if i >= b.len() {
                            return Err(s);
                        }
                        match b[i] {
                            b'"' => {
                                i += 1;
                                break;
                            }
                            b'\n' | b'\r' => return Err(s),
                            b'\\' => {
                                i += 1;
                                if i >= b.len() {
                                    return Err(s);
                                }
                                let e = b[i];
                                i += 1;
                                match e {
                                    b'"' => o.push('"'),
                                    b'\\' => o.push('\\'),
                                    b'/' => o.push('/'),
                                    b'b' => o.push('\u{8}'),
                                    b'f' => o.push('\u{c}'),
                                    b'n' => o.push('\n'),
                                    b'r' => o.push('\r'),
                                    b't' => o.push('\t'),
                                    b'u' => {
                                        if i < b.len() && b[i] == b'{' {
                                            let st = i + 1;
                                            let mut j = st;
                                            while j < b.len() && b[j].is_ascii_hexdigit() {
                                                j += 1;
                                            }
                                            if j == st || j >= b.len() || b[j] != b'}' || j - st > 8 {
                                                return Err(s);
                                            }
                                            let v = u32::from_str_radix(&src[st..j], 16).map_err(|_| s)?;
                                            o.push(char::from_u32(v).ok_or(s)?);
                                            i = j + 1;
                                        } else {
                                            let h = hex4(b, i).ok_or(s)?;
                                            i += 4;
                                            if (0xD800..0xDC00).contains(&h) {
                                                if i + 1 < b.len() && b[i] == b'\\' && b[i + 1] == b'u' {
                                                    let l = hex4(b, i + 2).ok_or(s)?;
                                                    if !(0xDC00..0xE000).contains(&l) {
                                                        return Err(s);
                                                    }
                                                    i += 6;
                                                    o.push(
                                                        char::from_u32(0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00))
                                                            .ok_or(s)?,
                                                    );
                                                } else {
                                                    return Err(s);
                                                }
                                            } else {
                                                o.push(char::from_u32(h).ok_or(s)?);
                                            }
                                        }
                                    }
                                    _ => return Err(s),
                                }
                            }
                            _ => {
                                let ch = src[i..].chars().next().unwrap();
                                o.push(ch);
                                i += ch.len_utf8();
                            }
                        }
                    }
                    T::Str(o)
                }
            }
            _ => return Err(s),
        };
        out.push(Tok { t, s, e: i });
    }
    Ok(out)
}
fn hex4(b: &[u8], i: usize) -> Option<u32> {
    if i + 4 > b.len() {
        return None;
    }
    let mut v = 0;
    for k in 0..4 {
        v = v * 16 + (b[i + k] as char).to_digit(16)?;
    }
    Some(v)
}
/// The specification's BlockStringValue(rawValue).
pub fn block_value(raw: &str) -> String {
    let mut lines: Vec<String> = vec![String::new()];
    let cs: Vec<char> = raw.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\r' => {
                if i + 1 < cs.len() && cs[i + 1] == '\n' {
                    i += 1;
                }
                lines.push(String::new());
            }
            '\n' => lines.push(String::new()),
            c => lines.last_mut().unwrap().push(c),
        }
        i += 1;
    }
    let ws = |c: char| c == ' ' || c == '\t';
    let mut common: Option<usize> = None;
    for l in &lines[1..] {
        let len = l.chars().count();
        let ind = l.chars().take_while(|c| ws(*c)).count();
        if ind < len && common.map_or(true, |c| ind < c) {
            common = Some(ind);
        }
    }
    if let Some(c) = common {
        for l in lines.iter_mut().skip(1) {
            *l = l.chars().skip(c).collect();
        }
    }
    while lines.first().map_or(false, |l| l.chars().all(ws)) {
        lines.remove(0);
    }
    while lines.last().map_or(false, |l| l.chars().all(ws)) {
        lines.pop();
    }
    lines.join("\n")
}
