//! What flatc 23.1.21 makes of the schemas in /repo (`--rust --gen-all --rust-module-root-file`), as one file.
use std::collections::BTreeMap;
use std::fmt::Write;
use std::path::Path;

const SCHEMAS: &str = "/repo/client/serialize/flatbuffers";

#[derive(Debug, Clone)]
enum Item {
    Table { name: String, fields: Vec<(String, String)> },
    Union { name: String, of: Vec<String> },
    Enum { name: String, base: String, of: Vec<(String, i64)> },
}
impl Item {
    fn name(&self) -> &str {
        match self {
            Item::Table { name, .. } | Item::Union { name, .. } | Item::Enum { name, .. } => name,
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={SCHEMAS}");
    let mut items: BTreeMap<String, Vec<Item>> = BTreeMap::new();
    let mut done = vec![];
    read("all.fbs", &mut done, &mut items);
    let mut s = String::new();
    // namespaces are nested modules: a.b becomes mod a { mod b }
    let root = items.keys().next().unwrap().split('.').next().unwrap().to_string();
    let _ = writeln!(s, "pub mod {root} {{");
    let all = items.clone();
    for (ns, list) in &items {
        let m = ns.strip_prefix(&format!("{root}.")).unwrap_or("");
        if m.is_empty() {
            assert!(list.is_empty(), "items in the root namespace");
            continue;
        }
        let _ = writeln!(s, "pub mod {m} {{\nuse flatbuffers::*;");
        for i in list {
            emit(&mut s, ns, i, &all)
        }
        s.push_str("}\n");
    }
    s.push_str("}\n");
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("mod.rs"), s).unwrap();
}
fn tokens(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in t.lines() {
        let l = l.split("//").next().unwrap();
        let mut word = String::new();
        for c in l.chars().chain([' ']) {
            if c.is_alphanumeric() || c == '_' || c == '.' || c == '-' {
                word.push(c);
                continue;
            }
            if !word.is_empty() {
                v.push(std::mem::take(&mut word))
            }
            if !c.is_whitespace() {
                v.push(c.to_string())
            }
        }
    }
    v
}
fn read(file: &str, done: &mut Vec<String>, items: &mut BTreeMap<String, Vec<Item>>) {
    if done.contains(&file.to_string()) {
        return;
    }
    done.push(file.to_string());
    let t = tokens(&std::fs::read_to_string(Path::new(SCHEMAS).join(file)).unwrap());
    let mut ns = String::new();
    let mut i = 0;
    while i < t.len() {
        match t[i].as_str() {
            "include" => {
                read(&t[i + 2], done, items);
                i += 5
            }
            "namespace" => {
                ns = t[i + 1].clone();
                items.entry(ns.clone()).or_default();
                i += 3
            }
            k @ ("table" | "union" | "enum") => {
                let name = t[i + 1].clone();
                let open = (i..).find(|j| t[*j] == "{").unwrap();
                let close = (open..).find(|j| t[*j] == "}").unwrap();
                let body = &t[open + 1..close];
                let item = match k {
                    "table" => Item::Table { name, fields: body.split(|x| x == ";").filter(|f| !f.is_empty()).map(|f| (f[0].clone(), f[2..].concat())).collect() },
                    "union" => Item::Union { name, of: body.split(|x| x == ",").filter(|f| !f.is_empty()).map(|f| f[0].clone()).collect() },
                    _ => {
                        let mut next = 0;
                        let of = body.split(|x| x == ",").filter(|f| !f.is_empty()).map(|f| {
                            if f.len() > 1 {
                                next = f[2].parse().unwrap()
                            }
                            next += 1;
                            (f[0].clone(), next - 1)
                        }).collect();
                        Item::Enum { name, base: t[i + 3].clone(), of }
                    }
                };
                items.get_mut(&ns).unwrap().push(item);
                i = close + 1
            }
            x => panic!("{file}: {x}"),
        }
    }
}
fn scalar(t: &str) -> Option<&'static str> {
    Some(match t {
        "uint8" | "ubyte" => "u8",
        "uint16" | "ushort" => "u16",
        "uint32" | "uint" => "u32",
        "uint64" | "ulong" => "u64",
        "int8" | "byte" => "i8",
        "int16" | "short" => "i16",
        "int32" | "int" => "i32",
        "int64" | "long" => "i64",
        "float32" | "float" => "f32",
        "float64" | "double" => "f64",
        "bool" => "bool",
        _ => return None,
    })
}
fn find<'a>(ns: &str, t: &str, all: &'a BTreeMap<String, Vec<Item>>) -> (&'a Item, String) {
    let (m, n) = t.rsplit_once('.').unwrap_or((ns, t));
    let item = all.get(m).and_then(|l| l.iter().find(|i| i.name() == n)).unwrap_or_else(|| panic!("no {t} in {ns}"));
    let path = if m == ns { n.to_string() } else { format!("super::{}::{n}", m.rsplit('.').next().unwrap()) };
    (item, path)
}
fn snake(n: &str) -> String {
    let mut s = String::new();
    let c: Vec<char> = n.chars().collect();
    for (i, x) in c.iter().enumerate() {
        if x.is_uppercase() && i > 0 && c[i - 1] != '_' && (c[i - 1].is_lowercase() || c.get(i + 1).map_or(false, |y| y.is_lowercase())) {
            s.push('_')
        }
        s.extend(x.to_lowercase())
    }
    s
}
/// name, type when read, type for Follow and verification, type in Args, default in Args, default when read
struct Kind {
    read: String,
    follow: String,
    arg: String,
    default: String,
    is_scalar: bool,
}
fn kind(ns: &str, t: &str, all: &BTreeMap<String, Vec<Item>>) -> Kind {
    if let Some(s) = scalar(t) {
        let d = match s { "bool" => "false".into(), "f32" | "f64" => "0.0".into(), _ => "0".to_string() };
        return Kind { read: s.into(), follow: s.into(), arg: s.into(), default: d, is_scalar: true };
    }
    if t == "string" {
        return offset("&'a str".into());
    }
    if let Some(e) = t.strip_prefix('[') {
        let e = e.trim_end_matches(']');
        let k = kind(ns, e, all);
        let inner = if k.is_scalar { k.read } else { k.follow };
        return offset(format!("Vector<'a, {inner}>"));
    }
    match find(ns, t, all) {
        (Item::Table { .. }, p) => offset(format!("{p}<'a>")),
        (Item::Enum { of, .. }, p) => Kind { read: p.clone(), follow: p.clone(), arg: p.clone(), default: format!("{p}::{}", of[0].0), is_scalar: true },
        (Item::Union { .. }, p) => panic!("union {p} is no plain kind"),
    }
}
fn offset(r: String) -> Kind {
    Kind { follow: format!("ForwardsUOffset<{r}>"), arg: format!("Option<WIPOffset<{r}>>"), default: "None".into(), read: r, is_scalar: false }
}
fn emit(s: &mut String, ns: &str, item: &Item, all: &BTreeMap<String, Vec<Item>>) {
    match item {
        Item::Enum { name, base, of } => tag(s, name, scalar(base).unwrap(), of),
        Item::Union { name, of } => {
            let mut c = vec![("NONE".to_string(), 0)];
            c.extend(of.iter().enumerate().map(|(i, x)| (x.replace('.', "_"), i as i64 + 1)));
            tag(s, name, "u8", &c)
        }
        Item::Table { name, fields } => table(s, ns, name, fields, all),
    }
}
fn tag(s: &mut String, name: &str, base: &str, of: &[(String, i64)]) {
    let consts: String = of.iter().map(|(n, v)| format!("pub const {n}: Self = Self({v});\n")).collect();
    let vals: String = of.iter().map(|(n, _)| format!("Self::{n},")).collect();
    let names: String = of.iter().map(|(n, _)| format!("Self::{n} => Some({n:?}),")).collect();
    let _ = writeln!(s, "
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(transparent)]
pub struct {name}(pub {base});
#[allow(non_upper_case_globals)]
impl {name} {{
    {consts}
    pub const ENUM_MIN: {base} = {};
    pub const ENUM_MAX: {base} = {};
    pub const ENUM_VALUES: &'static [Self] = &[{vals}];
    pub fn variant_name(self) -> Option<&'static str> {{
        match self {{ {names} _ => None }}
    }}
}}
impl std::fmt::Debug for {name} {{
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{
        match self.variant_name() {{
            Some(n) => f.write_str(n),
            None => f.write_fmt(format_args!(\"<UNKNOWN {{:?}}>\", self.0)),
        }}
    }}
}}
impl Scalar for {name} {{
    const SIZE: usize = <{base} as Scalar>::SIZE;
    fn put(self, to: &mut [u8]) {{ self.0.put(to) }}
    fn take(from: &[u8]) -> Self {{ Self(<{base}>::take(from)) }}
}}
impl<'a> Follow<'a> for {name} {{
    type Inner = Self;
    fn follow(buf: &'a [u8], loc: usize) -> Self {{ Self(<{base}>::follow(buf, loc)) }}
}}
impl Push for {name} {{
    type Output = {name};
    const WIDTH: usize = <{base} as Scalar>::SIZE;
    fn push(&self, dst: &mut [u8], _rest: usize) {{ self.0.put(dst) }}
}}
impl Verifiable for {name} {{
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {{ v.in_buffer::<{base}>(pos) }}
}}
impl From<{name}> for {base} {{
    fn from(x: {name}) -> {base} {{ x.0 }}
}}", of[0].1, of.last().unwrap().1);
}
fn table(s: &mut String, ns: &str, name: &str, fields: &[(String, String)], all: &BTreeMap<String, Vec<Item>>) {
    let (mut get, mut vts, mut args, mut defaults, mut add, mut verify, mut debug) = (String::new(), String::new(), String::new(), String::new(), vec![], String::new(), String::new());
    let mut slot = 4;
    let mut life = false;
    for (f, t) in fields {
        let union = match t.starts_with('[') || t == "string" || scalar(t).is_some() {
            true => None,
            false => match find(ns, t, all) { (Item::Union { of, .. }, p) => Some((of.clone(), p)), _ => None },
        };
        let up = f.to_uppercase();
        if let Some((of, p)) = union {
            let _ = writeln!(vts, "pub const VT_{up}_TYPE: VOffsetT = {slot};\npub const VT_{up}: VOffsetT = {};", slot + 2);
            let _ = writeln!(get, "pub fn {f}_type(&self) -> {p} {{ self._tab.get::<{p}>(Self::VT_{up}_TYPE, Some({p}::NONE)).unwrap() }}
                pub fn {f}(&self) -> Option<Table<'a>> {{ self._tab.get::<ForwardsUOffset<Table<'a>>>(Self::VT_{up}, None) }}");
            let _ = writeln!(args, "pub {f}_type: {p},\npub {f}: Option<WIPOffset<UnionWIPOffset>>,");
            let _ = writeln!(defaults, "{f}_type: {p}::NONE, {f}: None,");
            add.push((4, format!("if let Some(x) = args.{f} {{ fbb.push_slot_always::<WIPOffset<_>>({name}::VT_{up}, x) }}")));
            add.push((1, format!("fbb.push_slot({name}::VT_{up}_TYPE, args.{f}_type, {p}::NONE);")));
            let mut arms = String::new();
            for (i, u) in of.iter().enumerate() {
                let (_, up2) = find(if u.contains('.') { ns } else { p_ns(ns, &p, all) }, u, all);
                // members are named relative to the union's own namespace
                let path = if u.contains('.') { up2 } else { p.rsplit_once("::").map_or(u.clone(), |(m, _)| format!("{m}::{u}")) };
                let c = u.replace('.', "_");
                let _ = writeln!(get, "#[allow(non_snake_case)] pub fn {f}_as_{}(&self) -> Option<{path}<'a>> {{
                    if self.{f}_type() == {p}::{c} {{ self.{f}().map(|t| {path} {{ _tab: t }}) }} else {{ None }} }}", snake(&c));
                let _ = writeln!(arms, "{} => <ForwardsUOffset<{path}> as Verifiable>::run_verifier(v, pos),", i + 1);
            }
            let _ = writeln!(verify, ".visit_union::<{p}>(\"{f}_type\", Self::VT_{up}_TYPE, \"{f}\", Self::VT_{up}, false, |key, v, pos| match key {{ {arms} _ => Ok(()) }})?");
            let _ = writeln!(debug, ".field(\"{f}_type\", &self.{f}_type())");
            slot += 4;
            continue;
        }
        let k = kind(ns, t, all);
        let _ = writeln!(vts, "pub const VT_{up}: VOffsetT = {slot};");
        if k.is_scalar {
            let _ = writeln!(get, "pub fn {f}(&self) -> {} {{ self._tab.get::<{}>(Self::VT_{up}, Some({})).unwrap() }}", k.read, k.follow, k.default);
            add.push((width(&k.read, ns, t, all), format!("fbb.push_slot({name}::VT_{up}, args.{f}, {});", k.default)));
        } else {
            life = true;
            let _ = writeln!(get, "pub fn {f}(&self) -> Option<{}> {{ self._tab.get::<{}>(Self::VT_{up}, None) }}", k.read, k.follow);
            add.push((4, format!("if let Some(x) = args.{f} {{ fbb.push_slot_always::<WIPOffset<_>>({name}::VT_{up}, x) }}")));
        }
        let _ = writeln!(args, "pub {f}: {},", k.arg);
        let _ = writeln!(defaults, "{f}: {},", k.default);
        let _ = writeln!(verify, ".visit_field::<{}>(\"{f}\", Self::VT_{up}, false)?", k.follow);
        let _ = writeln!(debug, ".field(\"{f}\", &self.{f}())");
        slot += 2;
    }
    // widest first, and among equals the last first, as flatc writes them
    let mut order: Vec<usize> = (0..add.len()).collect();
    order.sort_by_key(|i| (std::cmp::Reverse(add[*i].0), std::cmp::Reverse(*i)));
    let adds: String = order.iter().map(|i| format!("{}\n", add[*i].1)).collect();
    let (l, la, lr) = if life { ("<'a>", "<'args>", "<'a>") } else { ("", "", "") };
    let _ = writeln!(s, "
#[derive(Copy, Clone, PartialEq)]
pub struct {name}<'a> {{ pub _tab: Table<'a> }}
impl<'a> Follow<'a> for {name}<'a> {{
    type Inner = {name}<'a>;
    fn follow(buf: &'a [u8], loc: usize) -> Self {{ Self {{ _tab: Table {{ buf, loc }} }} }}
}}
pub struct {name}Args{l} {{ {args} }}
impl{l} Default for {name}Args{lr} {{ fn default() -> Self {{ Self {{ {defaults} }} }} }}
impl<'a> {name}<'a> {{
    {vts}
    pub fn init_from_table(table: Table<'a>) -> Self {{ {name} {{ _tab: table }} }}
    #[allow(unused_mut, unused_variables)]
    pub fn create<'bldr: 'args, 'args: 'mut_bldr, 'mut_bldr>(fbb: &'mut_bldr mut FlatBufferBuilder<'bldr>, args: &'args {name}Args{la}) -> WIPOffset<{name}<'bldr>> {{
        let start = fbb.start_table();
        {adds}
        let o = fbb.end_table(start);
        WIPOffset::new(o.value())
    }}
    {get}
}}
impl<'a> Verifiable for {name}<'a> {{
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {{
        v.visit_table(pos)?
        {verify}
        .finish();
        Ok(())
    }}
}}
impl std::fmt::Debug for {name}<'_> {{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ f.debug_struct(\"{name}\"){debug}.finish() }}
}}");
}
fn p_ns<'a>(ns: &'a str, path: &str, all: &'a BTreeMap<String, Vec<Item>>) -> &'a str {
    match path.strip_prefix("super::").and_then(|p| p.split_once("::")) {
        Some((m, _)) => all.keys().find(|k| k.rsplit('.').next() == Some(m)).unwrap(),
        None => ns,
    }
}
fn width(read: &str, ns: &str, t: &str, all: &BTreeMap<String, Vec<Item>>) -> usize {
    match read {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        "u64" | "i64" | "f64" => 8,
        _ => match find(ns, t, all) {
            (Item::Enum { base, .. }, _) => width(scalar(base).unwrap(), ns, base, all),
            _ => 4,
        },
    }
}
