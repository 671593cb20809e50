//! Writes the macro-declared contracts that `fields.rs` (C07) explores.
use std::fmt::Write;
const T: [&str; 14] = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64", "String", "ObjectHandle", "ContractDataHandle"];
const N: [&str; 14] = ["zeta", "a", "m1", "b_", "x9", "_k", "contract", "idx", "w", "y", "c_whatever", "handle", "states", "q"];
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    lists.extend((0..14).map(|a| vec![a]));
    for d in [0, 1, 5] {
        lists.extend((0..14).map(|a| vec![a, (a + d) % 14]));
    }
    lists.extend((0..14).map(|a| vec![a, (a + 3) % 14, (a * 2 + 1) % 14]));
    lists.push((0..14).collect());
    lists.push((0..14).rev().collect());
    lists.push(vec![2; 9]);
    lists.push((0..40).map(|i| i * 5 % 14).collect());
    lists.extend([41usize, 66, 131, 300, 600].map(|n| (0..n).map(|i| (i * 5 + i / 14) % 14).collect()));
    let mut src = String::new();
    let mut tab = String::new();
    for (mac, pre) in [("states", "S"), ("channels", "C")] {
        for (k, l) in lists.iter().enumerate() {
            let name = format!("{pre}{k}");
            let (mut f, mut acc, mut desc) = (String::new(), String::new(), String::new());
            for (i, t) in l.iter().enumerate() {
                let n = if i < 14 { N[(i * 3 + k) % 14].to_string() } else if i == 17 { format!("\u{e4}\u{f1}{i}") } else if i == 40 { "n".repeat(300) } else { format!("{}{i}", N[i % 14]) };
                write!(f, "{}{n}: {}, ", ["", "pub ", "pub(crate) "][(i + k) % 3], T[*t]).unwrap();
                write!(acc, "{}(self.{n}(), {i}, h), ", if pre == "S" { "sid::<" } else { "cid::<" }.to_string() + T[*t] + ">").unwrap();
                write!(desc, "(\"{n}\", {t}), ").unwrap();
            }
            writeln!(src, "#[{mac}]\n#[allow(dead_code)]\npub struct {name} {{ {f}}}\nimpl Mk for {name} {{ fn mk(h: ContractDataHandle) -> Self {{ Self::new(h) }} fn accessors(&self, h: ContractDataHandle) -> Vec<bool> {{ let _ = h; vec![{acc}] }} }}").unwrap();
            writeln!(tab, "    {}::<{name}>(\"{}\", &[{desc}]),", match (pre, l.len() == 1 && l[0] < 12 || l.len() == 2 && k % 4 > 0 || l.len() == 3 && k % 3 > 0) { ("S", true) => "thin_s", ("S", false) => "decl_s", (_, true) => "thin_c", _ => "decl_c" }, f.trim().replace('"', "")).unwrap();
        }
    }
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("decls.rs"), format!("{src}\npub fn decls() -> Vec<Decl> {{ vec![\n{tab}] }}\n")).unwrap();
}
