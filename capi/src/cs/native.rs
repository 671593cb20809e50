//! The exported C functions, callable by name, with a record of what every pointer points to.
use crate::meter::Meter;
use crate::header::header;
use mcx::alloc::{begins_block, fault_so_far, Fault};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Prim {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Bool,
    Char,
}
use Prim::*;
impl Prim {
    pub fn size(self) -> usize {
        match self {
            U8 | I8 | Bool => 1,
            U16 | I16 | Char => 2,
            U32 | I32 | F32 => 4,
            _ => 8,
        }
    }
    pub fn range(self) -> (i128, i128) {
        match self {
            U8 => (0, 255),
            I8 => (-128, 127),
            U16 | Char => (0, 65535),
            I16 => (-32768, 32767),
            U32 => (0, u32::MAX as i128),
            I32 => (i32::MIN as i128, i32::MAX as i128),
            U64 => (0, u64::MAX as i128),
            I64 => (i64::MIN as i128, i64::MAX as i128),
            _ => (0, 1),
        }
    }
    pub fn is_float(self) -> bool {
        matches!(self, F32 | F64)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum CTy {
    Void,
    Prim(Prim),
    /// to a named C type, or to a primitive one
    Ptr(String),
    PrimPtr(Prim),
    Struct(String),
}
#[derive(Debug)]
pub struct CFn {
    pub name: String,
    pub ret: CTy,
    pub ret_const: bool,
    pub params: Vec<CTy>,
    pub addr: usize,
}
pub struct Lib {
    fns: HashMap<String, CFn>,
    keys: HashMap<String, Vec<String>>,
    structs: HashMap<String, Vec<(String, CTy)>>,
}
/// Names without case and underscores: CppSharp changes both.
pub fn key(s: &str) -> String {
    s.chars().filter(|c| *c != '_').collect::<String>().to_lowercase()
}
fn prim(s: &str) -> Option<Prim> {
    Some(match s {
        "uint8_t" | "BaselineKind_t" => U8,
        "int8_t" => I8,
        "uint16_t" => U16,
        "int16_t" => I16,
        "uint32_t" => U32,
        "int32_t" => I32,
        "uint64_t" | "size_t" | "uintptr_t" => U64,
        "int64_t" => I64,
        "float" => F32,
        "double" => F64,
        "bool" => Bool,
        _ => return None,
    })
}
fn cty(s: &str, structs: &HashMap<String, Vec<(String, CTy)>>) -> CTy {
    let s = s.trim();
    if let Some(t) = s.strip_suffix('*') {
        let t = t.trim().trim_end_matches("const").trim();
        return match prim(t) {
            Some(p) => CTy::PrimPtr(p),
            None => CTy::Ptr(t.into()),
        };
    }
    match prim(s) {
        Some(p) => CTy::Prim(p),
        None if s == "void" => CTy::Void,
        None if structs.contains_key(s) => CTy::Struct(s.into()),
        None => panic!("HARNESS: C type {s:?}"),
    }
}
impl Lib {
    pub fn load(table: &[(&str, unsafe extern "C" fn())]) -> Lib {
        let (decl, types, _) = header();
        let mut structs: HashMap<String, Vec<(String, CTy)>> = HashMap::new();
        for _ in 0..2 {
            for t in &types {
                let Some(t) = t.strip_prefix("typedef struct ") else { continue };
                let (Some(a), Some(b)) = (t.find('{'), t.rfind('}')) else { continue };
                let name = t[b + 1..].trim().to_string();
                let fields = t[a + 1..b].split(';').filter(|f| !f.trim().is_empty()).map(|f| {
                    let f = f.trim();
                    let n: String = f.chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    let n: String = n.chars().rev().collect();
                    let ty = f[..f.len() - n.len()].trim();
                    // pointers to pointers are never followed
                    let ty = if ty.matches('*').count() > 1 { CTy::Ptr("void".into()) } else { cty(ty, &structs) };
                    (n, ty)
                });
                let fields = fields.collect();
                structs.insert(name, fields);
            }
        }
        let at: HashMap<&str, usize> = table.iter().map(|(n, f)| (*n, *f as usize)).collect();
        let mut fns = HashMap::new();
        let mut keys: HashMap<String, Vec<String>> = HashMap::new();
        for (name, sig) in &decl {
            let (head, params) = sig.split_once('(').unwrap();
            let params = params.trim_end_matches(')');
            let ret = head.trim().strip_suffix(name.as_str()).unwrap();
            let params = if params.trim() == "void" { vec![] } else { params.split(',').map(|p| cty(p, &structs)).collect() };
            let Some(addr) = at.get(name.as_str()) else { continue };
            keys.entry(key(name)).or_default().push(name.clone());
            fns.insert(name.clone(), CFn { name: name.clone(), ret: cty(ret, &structs), ret_const: ret.contains("const"), params, addr: *addr });
        }
        Lib { fns, keys, structs }
    }
    pub fn len(&self) -> usize {
        self.fns.len()
    }
    pub fn exact(&self, name: &str) -> Option<&CFn> {
        self.fns.get(name)
    }
    /// The function that CppSharp gave this name.
    pub fn renamed(&self, name: &str) -> Option<&CFn> {
        match self.keys.get(&key(name))?.as_slice() {
            [n] => self.fns.get(n),
            _ => None,
        }
    }
    pub fn struct_named(&self, name: &str) -> Option<&str> {
        let k = key(&format!("{name}_t"));
        self.structs.keys().find(|s| key(s) == k).map(|s| s.as_str())
    }
    pub fn fields(&self, name: &str) -> &[(String, CTy)] {
        &self.structs[name]
    }
    /// Offsets of the fields, and the size.
    pub fn layout(&self, name: &str) -> (Vec<usize>, usize) {
        let (mut at, mut align, mut v) = (0, 1, vec![]);
        for (_, t) in self.fields(name) {
            let s = match t {
                CTy::Prim(p) => p.size(),
                CTy::Struct(_) => panic!("HARNESS: nested struct"),
                _ => 8,
            };
            at = (at + s - 1) / s * s;
            v.push(at);
            at += s;
            align = align.max(s)
        }
        (v, (at + align - 1) / align * align)
    }
}
/// A value as the calling convention sees it.
#[derive(Clone, Debug)]
pub enum Raw {
    Int(u64),
    F32(f32),
    F64(f64),
    Bytes(Vec<u8>),
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Pair(u64, u64);
macro_rules! call {
    ($addr:expr, $r:ty, $i:expr, $d:expr, $s:expr) => {{
        let f: unsafe extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64, f64, f64, f64, f64, f64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> $r = std::mem::transmute($addr);
        let (i, d, s) = ($i, $d, $s);
        f(i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9])
    }};
}
/// What a pointer points to.
#[derive(Clone, Debug)]
struct Track {
    /// the block that it lives in begins here
    root: u64,
}
/// The pointers that the program was given.
#[derive(Default)]
pub struct Memory {
    live: HashMap<u64, Vec<(String, Track)>>,
    roots: HashMap<u64, String>,
    /// what lies in each block
    parts: HashMap<u64, Vec<u64>>,
    /// local variables whose address was taken
    pub stack: Vec<(u64, usize, Option<String>)>,
    pub meter: Meter,
    pub calls: u64,
}
fn pname(p: Prim) -> String {
    format!("{p:?}*")
}
impl Memory {
    pub fn known(&self, addr: u64) -> bool {
        self.live.contains_key(&addr) || self.stack.iter().any(|s| addr >= s.0 && addr < s.0 + s.1 as u64)
    }
    fn check(&mut self, f: &CFn, i: usize, want: &str, addr: u64) -> Result<(), String> {
        if let Some(s) = self.stack.iter_mut().find(|s| s.0 == addr) {
            match &s.2 {
                Some(t) if t != want => return Err(format!("{}: parameter {i} points to a {t}, expected {want}", f.name)),
                _ => return Ok(()),
            }
        }
        if addr == 0 {
            return Err(format!("{}: parameter {i} is null", f.name));
        }
        let other: Vec<&String> = self.live.get(&addr).iter().flat_map(|v| v.iter().map(|x| &x.0)).collect();
        if other.iter().any(|t| *t == want) {
            return Ok(());
        }
        if other.is_empty() {
            Err(format!("{}: parameter {i} ({want}) points to nothing that is alive", f.name))
        } else {
            Err(format!("{}: parameter {i} points to {other:?}, expected {want}", f.name))
        }
    }
    /// Calls a function; `sret` is where a large result goes.
    pub fn call(&mut self, lib: &Lib, f: &CFn, args: &[Raw], sret: Option<u64>) -> Result<Raw, String> {
        assert_eq!(args.len(), f.params.len());
        let (mut ints, mut flts, mut stack) = (vec![], vec![], vec![]);
        if let Some(a) = sret {
            ints.push(a)
        }
        let mut first = None;
        for (i, (a, t)) in args.iter().zip(&f.params).enumerate() {
            match (t, a) {
                (CTy::Ptr(n), Raw::Int(p)) => {
                    self.check(f, i, n, *p)?;
                    first.get_or_insert(*p);
                }
                (CTy::PrimPtr(n), Raw::Int(p)) => {
                    self.check(f, i, &pname(*n), *p)?;
                    first.get_or_insert(*p);
                }
                _ => {}
            }
            match a {
                Raw::Int(x) if ints.len() < 6 => ints.push(*x),
                Raw::Int(x) => stack.push(*x),
                Raw::F32(x) if flts.len() < 8 => flts.push(f64::from_bits(x.to_bits() as u64)),
                Raw::F32(x) => stack.push(x.to_bits() as u64),
                Raw::F64(x) if flts.len() < 8 => flts.push(*x),
                Raw::F64(x) => stack.push(x.to_bits()),
                Raw::Bytes(b) => {
                    let w: Vec<u64> = b.chunks(8).map(|c| {
                        let mut x = [0; 8];
                        x[..c.len()].copy_from_slice(c);
                        u64::from_le_bytes(x)
                    }).collect();
                    if b.len() <= 16 && ints.len() + w.len() <= 6 {
                        ints.extend(w)
                    } else {
                        stack.extend(w)
                    }
                }
            }
        }
        if stack.len() > 10 {
            panic!("HARNESS: {} takes too much", f.name)
        }
        ints.resize(6, 0);
        flts.resize(8, 0.0);
        stack.resize(10, 0);
        self.calls += 1;
        let (ret, addr) = (&f.ret, f.addr);
        enum Got {
            F32(f32),
            F64(f64),
            Int(Pair),
        }
        let frees = mcx::alloc::frees();
        let old = mcx::alloc::watch(true);
        let got = self.meter.c(|| unsafe {
            match ret {
                CTy::Prim(F32) => Got::F32(call!(addr, f32, &ints, &flts, &stack)),
                CTy::Prim(F64) => Got::F64(call!(addr, f64, &ints, &flts, &stack)),
                _ => Got::Int(call!(addr, Pair, &ints, &flts, &stack)),
            }
        });
        mcx::alloc::watch(old);
        let r = match (ret, got) {
            (_, Got::F32(x)) => Raw::F32(x),
            (_, Got::F64(x)) => Raw::F64(x),
            (CTy::Prim(p), Got::Int(x)) => Raw::Int(match p.size() {
                1 => x.0 as u8 as u64,
                2 => x.0 as u16 as u64,
                4 => x.0 as u32 as u64,
                _ => x.0,
            }),
            (CTy::Struct(n), Got::Int(p)) => {
                let mut b = vec![];
                if sret.is_none() {
                    b.extend(p.0.to_le_bytes());
                    b.extend(p.1.to_le_bytes());
                    b.truncate(lib.layout(n).1)
                }
                Raw::Bytes(b)
            }
            (_, Got::Int(x)) => Raw::Int(x.0),
        };
        match fault_so_far() {
            Fault::None => {}
            x => return Err(format!("{}: {x:?}", f.name)),
        }
        if mcx::alloc::frees() != frees {
            self.sweep(frees)
        }
        if let (Some(a), CTy::Struct(n)) = (sret, &f.ret) {
            if let Some(s) = self.stack.iter_mut().find(|s| s.0 == a) {
                s.2 = Some(n.clone())
            }
        }
        let to = match &f.ret {
            CTy::Ptr(n) => n.clone(),
            CTy::PrimPtr(p) => pname(*p),
            _ => return Ok(r),
        };
        let Raw::Int(p) = r else { unreachable!() };
        if p == 0 {
            return Err(format!("{} gives null", f.name));
        }
        let root = if !f.ret_const && !self.roots.contains_key(&p) && unsafe { begins_block(p) } {
            self.roots.insert(p, to.clone());
            p
        } else {
            // part of what the first parameter points to
            first.and_then(|a| self.live.get(&a)).map_or(0, |v| v[0].1.root)
        };
        self.parts.entry(root).or_default().push(p);
        let at = self.live.entry(p).or_default();
        match at.iter_mut().find(|x| x.0 == to) {
            Some(x) => x.1 = Track { root },
            None => at.push((to, Track { root })),
        }
        Ok(r)
    }
    /// Forgets what was freed.
    fn sweep(&mut self, since: u64) {
        let dead: Vec<u64> = match mcx::alloc::freed(since) {
            Some(v) => v,
            None => self.roots.keys().copied().collect(),
        };
        for a in dead {
            // the block may be in use again already
            if !self.roots.contains_key(&a) || unsafe { begins_block(a) } && mcx::alloc::freed(since).is_none() {
                continue;
            }
            self.roots.remove(&a);
            for p in self.parts.remove(&a).unwrap_or_default() {
                if let Some(v) = self.live.get_mut(&p) {
                    v.retain(|t| t.1.root != a);
                    if v.is_empty() {
                        self.live.remove(&p);
                    }
                }
            }
        }
    }
}
