//! Generates uses of the naming macros (`remangle`, `substitute`) for mc-names.
use std::fmt::Write;

#[path = "src/spec.rs"]
mod spec;

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src/spec.rs");
    let mut s = String::new();
    names(&mut s);
    exprs(&mut s);
    nests(&mut s);
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/names.rs"), s).unwrap();
    // the exported functions by name
    let (mut decl, mut table) = (String::from("extern \"C\" {\n"), String::from("pub static TABLE: &[(&str, unsafe extern \"C\" fn())] = &[\n"));
    for name in spec::spec().keys() {
        let _ = writeln!(decl, "    fn {name}();");
        let _ = writeln!(table, "    ({name:?}, {name}),");
    }
    std::fs::write(format!("{out}/table.rs"), format!("{decl}}}\n{table}];\n")).unwrap();
}
/// Paths of 1 to 3 parts in every spelling, on five kinds of item.
fn names(s: &mut String) {
    let parts = ["a", "tp_client", "_x1"];
    let mut table = String::from("pub static NAMES: &[Named] = &[\n");
    let mut n = 0;
    for len in 1..=3usize {
        for code in 0..3usize.pow(len as u32) {
            let p: Vec<&str> = (0..len).map(|i| parts[code / 3usize.pow(i as u32) % 3]).collect();
            for style in 0..16 {
                let pad = if style & 1 != 0 { " " } else { "" };
                let sep = if style & 2 != 0 { "::::" } else { "::" };
                let lead = if style & 4 != 0 { "::" } else { "" };
                let tail = if style & 8 != 0 { "::" } else { "" };
                let text = format!("{lead}{}{tail}", p.iter().map(|x| format!("{pad}{x}{pad}")).collect::<Vec<_>>().join(sep));
                let want: String = p.iter().map(|x| format!("{x}__")).collect();
                let (item, own, full) = match n % 5 {
                    0 => (format!("pub struct Thing;"), "Thing", "std::any::type_name::<$Thing>()"),
                    1 => (format!("pub struct Pair<'a, T: Clone> where T: 'a {{ pub a: &'a T }}"), "Pair", "std::any::type_name::<$Pair<'static, u8>>()"),
                    2 => (format!("#[derive(Debug)] pub enum Either {{ A, B(u8) }}"), "Either", "std::any::type_name::<$Either>()"),
                    3 => (format!("pub fn State__value<T: Clone>(x: &T) -> T {{ x.clone() }}"), "State__value", "fn_name($State__value::<u8>)"),
                    _ => (format!("pub extern \"C\" fn f(x: u32) -> u32 {{ x + 1 }}"), "f", "fn_name($f)"),
                };
                let m = format!("n{n}");
                let _ = writeln!(s, "mod {m} {{ #[rsharp::remangle({text:?})] {item} }}");
                // reached by its own name and by its full one
                let by_own = full.replace('$', &format!("{m}::"));
                let by_full = full.replace('$', &format!("{m}::{want}"));
                let _ = writeln!(table, "Named {{ path: {text:?}, own: {own:?}, want: \"{want}{own}\", by_own: || {by_own}, by_full: || {by_full} }},");
                n += 1;
            }
        }
    }
    s.push_str(&table);
    s.push_str("];\n");
}
/// Expressions around `substitute!()`, next to what they mean.
fn exprs(s: &mut String) {
    let leaf = ["substitute!()", "3i64"];
    let form = |k: usize, l: &str, r: &str| match k {
        0 => format!("({l} * 7 - {r})"),
        1 => format!("({{ let a = {l}; a + {r} * 2 }})"),
        2 => format!("(if {l} > {r} {{ {l} }} else {{ {r} - 1 }})"),
        3 => format!("g({l}, {r})"),
        4 => format!("(|x: i64| x * 5 + {l})({r})"),
        5 => format!("[{l}, {r}, 11][({r} & 1) as usize + 1]"),
        6 => format!("(match {l} {{ 3 => {r}, x if x == {r} => 17, _ => {l} + {r} }})"),
        7 => format!("(S {{ a: {l}, b: ({r}, 1) }}).sum()"),
        8 => format!("(-{l} as i32 as i64).wrapping_mul({r})"),
        _ => format!("({{ let mut t = 0; for i in 0..({l}).min(200) {{ t += i; if t > 99 {{ break; }} }} while t > {r} * 9 {{ t -= {r}.max(1) }} t }})"),
    };
    let mut all: Vec<String> = leaf.iter().map(|x| x.to_string()).collect();
    let mut ones = vec![];
    for k in 0..10 {
        for l in leaf {
            for r in leaf {
                ones.push(form(k, l, r))
            }
        }
    }
    let mut twos = vec![];
    for k in 0..10 {
        for x in &ones {
            twos.push(form(k, x, leaf[0]));
            twos.push(form(k, leaf[1], x));
        }
    }
    all.extend(ones);
    all.extend(twos);
    let mut table = String::from("pub static EXPRS: &[Valued] = &[\n");
    for (c, chunk) in all.chunks(20).enumerate() {
        // the value takes turns, so that it cannot be built in
        let v = [41, 3, 8, 120][c % 4];
        let mut a = String::new();
        let mut b = String::new();
        for (i, e) in chunk.iter().enumerate() {
            let _ = writeln!(a, "pub fn e{i}() -> i64 {{ {e} }}");
            let _ = writeln!(b, "pub fn e{i}() -> i64 {{ {} }}", e.replace("substitute!()", &format!("({v})")));
            let _ = writeln!(table, "Valued {{ text: {e:?}, with: {v}, got: || x{c}::e{i}(), want: || y{c}::e{i}() }},");
        }
        let _ = writeln!(s, "#[rsharp::substitute({v})] mod x{c} {{ use super::*; {a} }}\nmod y{c} {{ use super::*; {b} }}");
    }
    s.push_str(&table);
    s.push_str("];\n");
}
/// `substitute!()` inside attributes, at every place in nested modules.
fn nests(s: &mut String) {
    let mut table = String::from("pub static NESTS: &[Named] = &[\n");
    let kinds = [("pub struct T;", "T", "std::any::type_name::<$T>()"), ("pub enum T { A }", "T", "std::any::type_name::<$T>()"), ("pub fn t() {}", "t", "fn_name($t)")];
    let spell = ["substitute!()", "substitute ! ()", "substitute! ()"];
    for (n, path) in ["tp_example", "a::b", "::x::"].iter().enumerate() {
        let want: String = path.split("::").filter(|x| !x.is_empty()).map(|x| format!("{x}__")).collect();
        for depth in 0..4 {
            for (k, (item, own, full)) in kinds.iter().enumerate() {
                for (q, sp) in spell.iter().enumerate() {
                    let m = format!("s{n}_{depth}_{k}_{q}");
                    // a second, unmarked attribute and a sibling stay as they are
                    let mut body = format!("#[rsharp::remangle({sp})] #[doc = \"substitute\"] {item} pub struct Sibling;");
                    let mut inner = format!("{m}::");
                    for d in 0..depth {
                        body = format!("pub mod d{d} {{ {body} }} pub fn beside{d}() -> &'static str {{ substitute!() }}");
                    }
                    for d in (0..depth).rev() {
                        inner.push_str(&format!("d{d}::"));
                    }
                    let _ = writeln!(s, "#[rsharp::substitute({path:?})] mod {m} {{ {body} }}");
                    let by_own = full.replace('$', &inner);
                    let by_full = full.replace('$', &format!("{inner}{want}"));
                    let _ = writeln!(table, "Named {{ path: {path:?}, own: {own:?}, want: \"{want}{own}\", by_own: || {by_own}, by_full: || {by_full} }},");
                    if depth > 0 {
                        let _ = writeln!(table, "Named {{ path: {path:?}, own: \"beside\", want: {path:?}, by_own: || {m}::beside{}(), by_full: || {m}::beside{}() }},", depth - 1, depth - 1);
                        let _ = writeln!(table, "Named {{ path: {path:?}, own: \"Sibling\", want: \"Sibling\", by_own: || std::any::type_name::<{inner}Sibling>(), by_full: || std::any::type_name::<{inner}Sibling>() }},");
                    }
                }
            }
        }
    }
    // several placeholders in one attribute, on their own and together with plain arguments
    let many = [
        "#[cfg_attr(target_os = $, rsharp::remangle($))]",
        "#[cfg_attr(all(target_os = $, not(target_family = $), unix), rsharp::remangle($))]",
        "#[cfg_attr(any(target_family = $, target_os = $), rsharp::remangle($))] #[cfg(not(target_family = $))]",
        "#[cfg_attr(not(target_os = $), doc = $)] #[cfg_attr(target_os = $, doc = $, rsharp::remangle($))]",
    ];
    for (a, attr) in many.iter().enumerate() {
        for depth in 0..3 {
            for (k, (item, own, full)) in kinds.iter().enumerate() {
                for (q, sp) in spell.iter().enumerate() {
                    let m = format!("m{a}_{depth}_{k}_{q}");
                    let mut body = format!("{} {item}", attr.replace('$', sp));
                    let mut inner = format!("{m}::");
                    for d in 0..depth {
                        body = format!("pub mod d{d} {{ {body} }}");
                    }
                    for d in (0..depth).rev() {
                        inner.push_str(&format!("d{d}::"));
                    }
                    let _ = writeln!(s, "#[rsharp::substitute(\"linux\")] mod {m} {{ {body} }}");
                    let by_own = full.replace('$', &inner);
                    let by_full = full.replace('$', &format!("{inner}linux__"));
                    let _ = writeln!(table, "Named {{ path: \"linux\", own: {own:?}, want: \"linux__{own}\", by_own: || {by_own}, by_full: || {by_full} }},");
                }
            }
        }
    }
    s.push_str(&table);
    s.push_str("];\n");
}
