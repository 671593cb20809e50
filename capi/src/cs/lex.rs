//! C# tokens.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Int(i128, String),
    Flt(f64, char),
    Str(Vec<u16>),
    Chr(u16),
    P(&'static str),
    End,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub line: u32,
}
const PUNCT: &[&str] = &[
    "??=", "<<=", "=>", "==", "!=", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "::", "<<", "->", "{", "}", "(", ")", "[", "]", ";", ",", ".", "?",
    ":", "=", "<", ">", "+", "-", "*", "/", "%", "!", "&", "|", "^", "~",
];
/// Lines left by the preprocessor, with no symbol defined; dropped lines stay as empty ones.
fn preprocess(s: &str) -> Result<String, String> {
    let mut o = String::new();
    // (this branch is active, some branch was active, outer is active)
    let mut st: Vec<(bool, bool, bool)> = vec![];
    for (n, l) in s.lines().enumerate() {
        let t = l.trim_start().trim_start_matches('\u{feff}');
        let on = st.last().map_or(true, |x| x.0 && x.2);
        if let Some(d) = t.strip_prefix('#') {
            let d = d.trim();
            let (w, e) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            match w {
                "if" => {
                    let c = cond(e)?;
                    st.push((c, c, on))
                }
                "elif" => {
                    let c = cond(e)?;
                    let x = st.last_mut().ok_or("#elif")?;
                    x.0 = c && !x.1;
                    x.1 |= c
                }
                "else" => {
                    let x = st.last_mut().ok_or("#else")?;
                    x.0 = !x.1;
                    x.1 = true
                }
                "endif" => {
                    st.pop().ok_or("#endif")?;
                }
                "region" | "endregion" | "pragma" | "nullable" | "define" | "undef" | "line" | "warning" => {}
                w => return Err(format!("line {}: #{w}", n + 1)),
            }
        } else if on {
            o.push_str(l.trim_start_matches('\u{feff}'))
        }
        o.push('\n')
    }
    Ok(o)
}
/// Conditions over symbols of which none is defined.
fn cond(e: &str) -> Result<bool, String> {
    let e = e.split("//").next().unwrap().trim();
    if let Some((a, b)) = e.split_once("||") {
        return Ok(cond(a)? | cond(b)?);
    }
    if let Some((a, b)) = e.split_once("&&") {
        return Ok(cond(a)? & cond(b)?);
    }
    if let Some(x) = e.strip_prefix('!') {
        return Ok(!cond(x)?);
    }
    match e {
        "true" => Ok(true),
        x if !x.is_empty() && x.chars().all(|c| c.is_alphanumeric() || c == '_') => Ok(false),
        _ => Err(format!("#if {e}")),
    }
}
pub fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let src = preprocess(src)?;
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut line = 1;
    let mut o = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch == '\n' {
            line += 1;
            i += 1;
            continue;
        }
        if ch.is_whitespace() {
            i += 1;
            continue;
        }
        let next = c.get(i + 1).copied().unwrap_or('\0');
        if ch == '/' && next == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
            continue;
        }
        if ch == '/' && next == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                if c[i] == '\n' {
                    line += 1
                }
                i += 1
            }
            i += 2;
            continue;
        }
        let at = line;
        let mut push = |t| o.push(Tok { t, line: at });
        if ch.is_alphabetic() || ch == '_' || (ch == '@' && (next.is_alphabetic() || next == '_')) {
            let s = if ch == '@' { i + 1 } else { i };
            i = s;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1
            }
            push(T::Id(c[s..i].iter().collect()));
            continue;
        }
        if ch.is_ascii_digit() {
            let s = i;
            if ch == '0' && (next == 'x' || next == 'X') {
                i += 2;
                let s = i;
                while i < c.len() && (c[i].is_ascii_hexdigit() || c[i] == '_') {
                    i += 1
                }
                let t: String = c[s..i].iter().filter(|x| **x != '_').collect();
                let mut suf = String::new();
                while i < c.len() && "uUlL".contains(c[i]) {
                    suf.push(c[i].to_ascii_lowercase());
                    i += 1
                }
                push(T::Int(i128::from_str_radix(&t, 16).map_err(|e| e.to_string())?, suf));
                continue;
            }
            let mut flt = false;
            while i < c.len() {
                if c[i].is_ascii_digit() || c[i] == '_' {
                    i += 1
                } else if c[i] == '.' && c.get(i + 1).map_or(false, |x| x.is_ascii_digit()) {
                    flt = true;
                    i += 1
                } else if (c[i] == 'e' || c[i] == 'E') && c.get(i + 1).map_or(false, |x| x.is_ascii_digit() || ((*x == '-' || *x == '+') && c.get(i + 2).map_or(false, |y| y.is_ascii_digit()))) {
                    flt = true;
                    i += 2
                } else {
                    break;
                }
            }
            let t: String = c[s..i].iter().filter(|x| **x != '_').collect();
            let mut suf = String::new();
            while i < c.len() && "uUlLfFdD".contains(c[i]) {
                suf.push(c[i].to_ascii_lowercase());
                i += 1
            }
            if flt || suf == "f" || suf == "d" {
                let v = if suf == "f" { t.parse::<f32>().map_err(|e| e.to_string())? as f64 } else { t.parse::<f64>().map_err(|e| e.to_string())? };
                push(T::Flt(v, if suf == "f" { 'f' } else { 'd' }))
            } else {
                push(T::Int(t.parse().map_err(|_| format!("line {at}: number {t}"))?, suf))
            }
            continue;
        }
        let esc = |i: &mut usize| -> Result<Vec<u16>, String> {
            let mut b = [0; 2];
            if c[*i] != '\\' {
                let r = c[*i].encode_utf16(&mut b).to_vec();
                *i += 1;
                return Ok(r);
            }
            let e = *c.get(*i + 1).ok_or("escape")?;
            *i += 2;
            let hex = |n: usize, i: &mut usize| -> Result<u32, String> {
                let t: String = c[*i..(*i + n).min(c.len())].iter().collect();
                *i += n;
                u32::from_str_radix(&t, 16).map_err(|e| e.to_string())
            };
            Ok(match e {
                'n' => vec![10],
                't' => vec![9],
                'r' => vec![13],
                '0' => vec![0],
                '\\' | '"' | '\'' => vec![e as u16],
                'u' => vec![hex(4, i)? as u16],
                'U' => char::from_u32(hex(8, i)?).ok_or("escape")?.encode_utf16(&mut b).to_vec(),
                e => return Err(format!("line {at}: escape \\{e}")),
            })
        };
        if ch == '"' || (ch == '$' && next == '"') {
            i += if ch == '$' { 2 } else { 1 };
            let mut v = vec![];
            while i < c.len() && c[i] != '"' {
                if c[i] == '\n' {
                    return Err(format!("line {at}: text does not end"));
                }
                v.extend(esc(&mut i)?)
            }
            i += 1;
            push(T::Str(v));
            continue;
        }
        if ch == '@' && next == '"' {
            i += 2;
            let mut v = String::new();
            while i < c.len() {
                if c[i] == '"' {
                    if c.get(i + 1) == Some(&'"') {
                        i += 1
                    } else {
                        break;
                    }
                }
                if c[i] == '\n' {
                    line += 1
                }
                v.push(c[i]);
                i += 1
            }
            i += 1;
            push(T::Str(v.encode_utf16().collect()));
            continue;
        }
        if ch == '\'' {
            i += 1;
            let v = esc(&mut i)?;
            if c.get(i) != Some(&'\'') || v.len() != 1 {
                return Err(format!("line {at}: character"));
            }
            i += 1;
            push(T::Chr(v[0]));
            continue;
        }
        match PUNCT.iter().find(|p| c[i..].iter().take(p.len()).collect::<String>() == **p) {
            Some(p) => {
                i += p.len();
                push(T::P(p))
            }
            None => return Err(format!("line {at}: character {ch:?}")),
        }
    }
    o.push(Tok { t: T::End, line });
    Ok(o)
}
