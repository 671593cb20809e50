//! The C header that safer-ffi generates from the exported functions.
use super::spec::norm;
use std::collections::BTreeMap;

/// The functions that the generated header declares, without parameter names, and the header's types.
pub fn header() -> (BTreeMap<String, String>, Vec<String>, String) {
    std::env::set_var("CARGO_PKG_NAME", "mc");
    let mut v = Vec::new();
    safer_ffi::headers::builder().to_writer(&mut v).generate().expect("HARNESS: no header");
    let text = String::from_utf8(v).expect("HARNESS: header");
    let mut clean = String::new();
    let mut rest = text.as_str();
    while let Some(i) = rest.find("/*") {
        clean.push_str(&rest[..i]);
        rest = rest[i..].find("*/").map_or("", |j| &rest[i + j + 2..]);
    }
    clean.push_str(rest);
    let clean: String = clean.lines().filter(|l| !l.starts_with('#') && !l.starts_with("extern \"C\"")).map(|l| format!("{l}\n")).collect();
    let (mut f, mut types, mut cur, mut depth) = (BTreeMap::new(), vec![], String::new(), 0);
    for c in clean.chars() {
        match c {
            '{' => depth += 1,
            '}' => depth -= 1,
            _ => {}
        }
        if c == ';' && depth <= 0 {
            match cur.split_once('(') {
                Some((h, p)) if !h.contains("typedef") => {
                    let name = h.trim().rsplit(|c: char| c.is_whitespace() || c == '*').next().unwrap().to_string();
                    let p = p.trim_end().trim_end_matches(')');
                    let p: Vec<String> = p.split(',').map(|a| {
                        let a = a.trim();
                        // the last word is the parameter's name
                        if a == "void" { a.into() } else { a.trim_end_matches(|c: char| c.is_alphanumeric() || c == '_').to_string() }
                    }).collect();
                    f.insert(name, norm(&format!("{h}({})", p.join(","))));
                }
                _ => types.push(norm(&cur)),
            }
            cur.clear()
        } else {
            cur.push(c)
        }
    }
    (f, types, text)
}
