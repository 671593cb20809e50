//! mc-names: what things are called across the border (C24).
extern crate rsharp;
extern crate tp_client;
extern crate tp_contract_example;
extern crate unity_states;
#[path = "../header.rs"]
mod header;
#[path = "../spec.rs"]
mod spec;
use header::header;
use mcx::{ensure, fnv, Ch, Ctx, Res};
use spec::{norm, spec};
use std::ffi::{c_char, c_int, c_void, CString};

fn main() {
    let ctx = Ctx::from_args();
    macros(&ctx);
    exports(&ctx);
    ctx.finish()
}

pub struct Named {
    path: &'static str,
    own: &'static str,
    want: &'static str,
    by_own: fn() -> &'static str,
    by_full: fn() -> &'static str,
}
pub struct Valued {
    text: &'static str,
    with: i64,
    got: fn() -> i64,
    want: fn() -> i64,
}
fn fn_name<F>(_: F) -> &'static str {
    std::any::type_name::<F>()
}
mod generated {
    #![allow(non_camel_case_types, non_snake_case, dead_code, unused, clippy::all)]
    use super::{fn_name, Named, Valued};
    fn g(a: i64, b: i64) -> i64 {
        a - b * 4
    }
    struct S {
        a: i64,
        b: (i64, i64),
    }
    impl S {
        fn sum(&self) -> i64 {
            self.a * 2 + self.b.0 - self.b.1
        }
    }
    include!(concat!(env!("OUT_DIR"), "/names.rs"));
}
/// `a::b::Name<u8>` without the path and the arguments.
fn last(full: &str) -> &str {
    full.split('<').next().unwrap().rsplit("::").next().unwrap()
}
fn named(ch: &mut Ch, table: &'static [Named]) -> Res {
    let i = ch.pick(table.len());
    let n = &table[i];
    ch.step();
    ch.log(|| format!("{} in {:?}", n.own, n.path));
    ch.state(i as u64);
    let (a, b) = ((n.by_own)(), (n.by_full)());
    let (a, b) = if n.own == "beside" { (a, b) } else { (last(a), last(b)) };
    ch.outcome(mcx::hash_of(&a));
    ensure!(a == n.want && b == n.want, "name", "{:?} in the path {:?} is called {a:?} (by its own name) and {b:?} (by its full name), expected {:?}", n.own, n.path, n.want);
    Ok(())
}
fn macros(ctx: &Ctx) {
    ctx.explore("remangle", 1, "paths of 1 to 3 parts over 3 parts in 16 spellings, on structs, generic structs, enums, generic and extern functions", |ch: &mut Ch| named(ch, generated::NAMES));
    ctx.explore("substitute in attributes", 1, "3 paths, nesting of 0 to 3 modules, 3 item kinds, 3 spellings, with siblings and expressions beside; 4 forms with 2 to 5 placeholders in the attributes of one item", |ch: &mut Ch| named(ch, generated::NESTS));
    ctx.explore("substitute in expressions", 1, "842 expressions of depth up to 2 over 10 forms with the macro at every place", |ch: &mut Ch| {
        let i = ch.pick(generated::EXPRS.len());
        let e = &generated::EXPRS[i];
        ch.step();
        ch.log(|| format!("{} with {}", e.text, e.with));
        ch.state(i as u64);
        let (got, want) = ((e.got)(), (e.want)());
        ch.outcome(got as u64);
        ensure!(got == want, "value", "{} with {} substituted is {got}, expected {want}", e.text, e.with);
        Ok(())
    });
}

// ---- the exported interface ----

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
fn library() -> *mut c_void {
    let p = std::env::current_exe().unwrap().parent().unwrap().join("deps/libunity_states.so");
    let p = CString::new(p.to_str().unwrap()).unwrap();
    let h = unsafe { dlopen(p.as_ptr(), 2) };
    assert!(!h.is_null(), "HARNESS: libunity_states.so does not load");
    h
}
fn exports(ctx: &Ctx) {
    let spec = spec();
    let (decl, types, text) = header();
    if std::env::var("MC_DUMP").is_ok() {
        println!("{text}");
    }
    ctx.note("functions promised", spec.len());
    ctx.note("functions declared", decl.len());
    let lib = library() as usize;
    let names: Vec<String> = spec.keys().chain(decl.keys().filter(|k| !spec.contains_key(*k))).cloned().collect();
    // functions of other crates' examples are not in every library
    let n = names.len();
    ctx.explore("exports", 1, "every exported function: declared once in the header with its promised signature, resolvable in the built library, no two under one address", |ch: &mut Ch| {
        let i = ch.pick(n);
        let name = &names[i];
        ch.step();
        ch.log(|| name.clone());
        ch.state(i as u64);
        ch.outcome(fnv(1, i as u64));
        match (spec.get(name), decl.get(name)) {
            (Some(s), Some(d)) => ensure!(s == d, "signature", "{name} is declared as\n  {d}\nexpected\n  {s}"),
            (Some(_), None) => return mcx::viol("undeclared", format!("{name} is not declared in the header")),
            // a new function is nobody's promise, but must exist
            (None, _) => {}
        }
        let c = CString::new(name.as_str()).unwrap();
        ensure!(!unsafe { dlsym(lib as *mut c_void, c.as_ptr()) }.is_null(), "unexported", "{name} is not exported by the library");
        Ok(())
    });
    // types that C programs read the fields of
    let want = [
        "typedef struct tp_client__contract__ContractId_Version { uint16_t major; uint16_t minor; uint16_t patch; } tp_client__contract__ContractId_Version_t",
        "typedef struct slice_ref_uint8 { uint8_t const * ptr; size_t len; } slice_ref_uint8_t",
        "typedef struct slice_ref_uint16 { uint16_t const * ptr; size_t len; } slice_ref_uint16_t",
        "typedef struct Vec_tp_client__object__ObjectHandle { tp_client__object__ObjectHandle_t * ptr; size_t len; size_t cap; } Vec_tp_client__object__ObjectHandle_t",
    ];
    ctx.explore("layouts", 1, "the structs that C programs read fields of, the kinds of baseline", |ch: &mut Ch| {
        let i = ch.pick(want.len() + 1);
        ch.step();
        ch.state(i as u64);
        ch.outcome(i as u64);
        if i == want.len() {
            let e = types.iter().find(|t| t.contains("BaselineKind_t") && t.contains('{')).cloned().unwrap_or_default();
            let (m, f) = (e.find("BASELINE_KIND_MAIN = 0"), e.find("BASELINE_KIND_FORK"));
            ensure!(m.is_some() && m < f, "layout", "the kinds of baseline are declared as {e:?}");
            return Ok(());
        }
        ensure!(types.contains(&norm(want[i])), "layout", "the header lacks {:?}", want[i]);
        Ok(())
    });
}
