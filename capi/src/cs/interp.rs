//! Runs C#: the repository's sources, as they are written, against the real native functions.
//! Types are checked where a value is converted (parameters, variables, results, native calls).
use super::ast::*;
use super::native::*;
use super::parse;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

pub type ClassId = usize;
pub type ScopeId = usize;
#[derive(Clone, Debug, PartialEq)]
pub enum TRef {
    Class(ClassId),
    Prim(Prim),
    Str,
    Object,
    Void,
    IntPtr,
    /// a name under one of CppSharp's namespaces
    Ext(String),
    Built(&'static str),
    Param,
    Ns(String),
}
pub struct Class {
    pub full: String,
    pub name: String,
    pub kind: Kind,
    pub generics: Vec<String>,
    pub base: Option<ClassId>,
    pub outer: Option<ClassId>,
    pub is_abstract: bool,
    pub bases: Vec<(&'static Ty, ScopeId)>,
    pub interfaces: Vec<ClassId>,
    pub fields: Vec<(&'static Field, ScopeId)>,
    pub props: Vec<(&'static Prop, ScopeId)>,
    pub methods: Vec<(&'static Method, ScopeId)>,
    pub ctors: Vec<(&'static Method, ScopeId)>,
    pub dtor: Option<(&'static Method, ScopeId)>,
    pub consts: Vec<(String, i64)>,
}
pub struct Scope {
    ns: String,
    usings: &'static [String],
    aliases: &'static [(String, Vec<String>, Vec<Ty>)],
    parent: Option<ScopeId>,
}
pub struct Program {
    pub classes: Vec<Class>,
    pub by_name: HashMap<String, ClassId>,
    scopes: Vec<Scope>,
    namespaces: HashSet<String>,
    pub lib: Lib,
}
const EXT: &[&str] = &["tp_client", "unity_states", "tp_contract_example"];
const BUILT: &[&str] = &[
    "System.Text.UTF8Encoding", "System.Text.UnicodeEncoding", "System.Text.Encoding", "System.ReadOnlySpan", "System.Span", "System.Action", "System.Func", "System.GC", "System.Type", "System.Console", "Xunit.Assert", "System.Runtime.InteropServices.LayoutKind",
    "System.BitConverter", "System.Math",
];
fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.into()
    } else {
        format!("{a}.{b}")
    }
}
impl Program {
    /// Parses sources of (name, text) into a program.
    pub fn load(sources: &[(String, String)], lib: Lib) -> Result<Program, String> {
        let mut p = Program { classes: vec![], by_name: HashMap::new(), scopes: vec![], namespaces: HashSet::new(), lib };
        for n in ["System", "System.Text", "System.Runtime", "System.Runtime.InteropServices", "Xunit", "System.Threading"] {
            p.namespaces.insert(n.into());
        }
        for (name, text) in std::iter::once(&("prelude".to_string(), include_str!("prelude.cs").to_string())).chain(sources) {
            let ns = parse::parse(text).map_err(|e| format!("{name}: {e}"))?;
            p.add_ns(Box::leak(Box::new(ns)), "", None).map_err(|e| format!("{name}: {e}"))?;
        }
        for c in 0..p.classes.len() {
            let (bases, kind) = (p.classes[c].bases.clone(), p.classes[c].kind);
            for (t, s) in bases {
                let Ty::Name(_, parts, _) = t else { return Err(format!("{}: base type", p.classes[c].full)) };
                match p.resolve(parts, s, p.classes[c].outer) {
                    Some(TRef::Class(b)) if p.classes[b].kind == Kind::Class && kind == Kind::Class => {
                        if p.classes[c].base.map_or(false, |x| x != b) {
                            return Err(format!("{} has two base classes", p.classes[c].full));
                        }
                        p.classes[c].base = Some(b)
                    }
                    Some(TRef::Class(b)) => p.classes[c].interfaces.push(b),
                    Some(_) => {}
                    None => return Err(format!("{}: its base type {} does not exist", p.classes[c].full, parts.join("."))),
                }
            }
        }
        Ok(p)
    }
    fn add_ns(&mut self, n: &'static Ns, outer: &str, parent: Option<ScopeId>) -> Result<(), String> {
        let full = if n.name.is_empty() { outer.to_string() } else { join(outer, &n.name) };
        let mut part = String::new();
        for x in full.split('.').filter(|x| !x.is_empty()) {
            part = join(&part, x);
            self.namespaces.insert(part.clone());
        }
        self.scopes.push(Scope { ns: full.clone(), usings: &n.usings, aliases: &n.aliases, parent });
        let s = self.scopes.len() - 1;
        for d in &n.decls {
            self.add_decl(d, &full, s, None)?
        }
        for i in &n.inner {
            self.add_ns(i, &full, Some(s))?
        }
        Ok(())
    }
    fn add_decl(&mut self, d: &'static Decl, outer: &str, s: ScopeId, oc: Option<ClassId>) -> Result<(), String> {
        let full = join(outer, &d.name);
        let id = match self.by_name.get(&full) {
            Some(i) => {
                if self.classes[*i].kind != d.kind || d.kind == Kind::Enum {
                    return Err(format!("{full} is declared twice"));
                }
                *i
            }
            None => {
                self.classes.push(Class {
                    full: full.clone(),
                    name: d.name.clone(),
                    kind: d.kind,
                    generics: d.generics.clone(),
                    base: None,
                    outer: oc,
                    is_abstract: d.is_abstract || d.is_static || d.kind == Kind::Interface,
                    bases: vec![],
                    interfaces: vec![],
                    fields: vec![],
                    props: vec![],
                    methods: vec![],
                    ctors: vec![],
                    dtor: None,
                    consts: vec![],
                });
                self.by_name.insert(full.clone(), self.classes.len() - 1);
                self.classes.len() - 1
            }
        };
        let c = &mut self.classes[id];
        c.is_abstract |= d.is_abstract;
        c.bases.extend(d.bases.iter().map(|b| (b, s)));
        c.fields.extend(d.fields.iter().map(|b| (b, s)));
        c.props.extend(d.props.iter().map(|b| (b, s)));
        c.methods.extend(d.methods.iter().map(|b| (b, s)));
        c.ctors.extend(d.ctors.iter().map(|b| (b, s)));
        if let Some(x) = &d.dtor {
            c.dtor = Some((x, s))
        }
        let mut next = 0;
        for (n, v) in &d.consts {
            if let Some(Ex { e: E::Int(i, _), .. }) = v {
                next = *i as i64
            }
            c.consts.push((n.clone(), next));
            next += 1
        }
        for (i, f) in c.fields.iter().enumerate() {
            if c.fields[..i].iter().any(|g| g.0.name == f.0.name) {
                return Err(format!("{full}.{} is declared twice", f.0.name));
            }
        }
        for n in &d.nested {
            self.add_decl(n, &full, s, Some(id))?
        }
        Ok(())
    }
    fn in_ns(&self, ns: &str, name: &str) -> Option<TRef> {
        let f = join(ns, name);
        if let Some(c) = self.by_name.get(&f) {
            return Some(TRef::Class(*c));
        }
        if f == "System.IntPtr" {
            return Some(TRef::IntPtr);
        }
        if f == "System.String" {
            return Some(TRef::Str);
        }
        if f == "System.Object" {
            return Some(TRef::Object);
        }
        if let Some(b) = BUILT.iter().find(|b| **b == f) {
            return Some(TRef::Built(b));
        }
        if self.namespaces.contains(&f) {
            return Some(TRef::Ns(f));
        }
        None
    }
    fn first(&self, name: &str, scope: ScopeId, class: Option<ClassId>, aliases: bool) -> Option<TRef> {
        use Prim::*;
        match name {
            "byte" => return Some(TRef::Prim(U8)),
            "sbyte" => return Some(TRef::Prim(I8)),
            "short" => return Some(TRef::Prim(I16)),
            "ushort" => return Some(TRef::Prim(U16)),
            "int" => return Some(TRef::Prim(I32)),
            "uint" => return Some(TRef::Prim(U32)),
            "long" => return Some(TRef::Prim(I64)),
            "ulong" => return Some(TRef::Prim(U64)),
            "float" => return Some(TRef::Prim(F32)),
            "double" => return Some(TRef::Prim(F64)),
            "bool" => return Some(TRef::Prim(Bool)),
            "char" => return Some(TRef::Prim(Char)),
            "string" => return Some(TRef::Str),
            "object" => return Some(TRef::Object),
            "void" => return Some(TRef::Void),
            _ => {}
        }
        let mut c = class;
        while let Some(i) = c {
            if self.classes[i].generics.iter().any(|g| g == name) {
                return Some(TRef::Param);
            }
            let mut b = Some(i);
            while let Some(j) = b {
                if let Some(x) = self.by_name.get(&format!("{}.{name}", self.classes[j].full)) {
                    return Some(TRef::Class(*x));
                }
                b = self.classes[j].base
            }
            c = self.classes[i].outer
        }
        let mut s = Some(scope);
        while let Some(i) = s {
            let sc = &self.scopes[i];
            let up = sc.parent.map_or("", |p| self.scopes[p].ns.as_str());
            let mut ns = sc.ns.as_str();
            let mut inner = true;
            loop {
                if ns == up && !ns.is_empty() {
                    break;
                }
                if let Some(t) = self.in_ns(ns, name) {
                    return Some(t);
                }
                if inner && aliases {
                    if let Some(a) = sc.aliases.iter().find(|a| a.0 == name) {
                        return self.path(&a.1, i, None, false);
                    }
                }
                if inner {
                    let mut hits: Vec<TRef> = sc.usings.iter().filter_map(|u| self.in_ns(u, name)).filter(|t| !matches!(t, TRef::Ns(_))).collect();
                    if let Some(h) = hits.pop() {
                        return Some(h);
                    }
                }
                inner = false;
                if ns.is_empty() {
                    break;
                }
                ns = ns.rsplit_once('.').map_or("", |x| x.0)
            }
            s = sc.parent
        }
        if EXT.contains(&name) {
            return Some(TRef::Ext(name.into()));
        }
        None
    }
    pub fn step(&self, t: &TRef, name: &str) -> Option<TRef> {
        match t {
            TRef::Ns(n) => self.in_ns(n, name),
            TRef::Ext(p) => Some(TRef::Ext(format!("{p}.{name}"))),
            TRef::Class(c) => {
                let mut c = Some(*c);
                while let Some(i) = c {
                    if let Some(x) = self.by_name.get(&format!("{}.{name}", self.classes[i].full)) {
                        return Some(TRef::Class(*x));
                    }
                    c = self.classes[i].base
                }
                None
            }
            _ => None,
        }
    }
    fn path(&self, parts: &[String], scope: ScopeId, class: Option<ClassId>, aliases: bool) -> Option<TRef> {
        let mut t = self.first(&parts[0], scope, class, aliases)?;
        for p in &parts[1..] {
            t = self.step(&t, p)?
        }
        Some(t)
    }
    pub fn resolve(&self, parts: &[String], scope: ScopeId, class: Option<ClassId>) -> Option<TRef> {
        self.path(parts, scope, class, true)
    }
    pub fn is_a(&self, c: ClassId, of: ClassId) -> bool {
        let mut x = Some(c);
        while let Some(i) = x {
            if i == of || self.classes[i].interfaces.contains(&of) {
                return true;
            }
            x = self.classes[i].base
        }
        false
    }
    fn chain(&self, c: ClassId) -> impl Iterator<Item = ClassId> + '_ {
        std::iter::successors(Some(c), move |i| self.classes[*i].base)
    }
    /// Tests of xunit: (class, method).
    pub fn facts(&self) -> Vec<(ClassId, &'static str)> {
        let mut v = vec![];
        for (i, c) in self.classes.iter().enumerate() {
            for (m, _) in &c.methods {
                if m.fact {
                    v.push((i, m.name.as_str()))
                }
            }
        }
        v
    }
}

pub struct Obj {
    pub class: ClassId,
    fields: RefCell<Vec<(&'static str, V)>>,
}
#[derive(Clone)]
pub enum V {
    Void,
    Null,
    /// a nullable struct without a value
    None,
    Bool(bool),
    Int(Prim, i128),
    Flt(Prim, f64),
    Str(Rc<Vec<u16>>),
    /// an `IntPtr` (no type) or a pointer
    Ptr(Option<Prim>, u64),
    Obj(Rc<Obj>),
    Struct(ClassId, Rc<Vec<V>>),
    Nat(Rc<str>, Rc<Vec<u8>>),
    Enum(ClassId, i64),
    Bytes(Rc<RefCell<Vec<u8>>>),
    Span(u64, usize),
    Tuple(Rc<Vec<V>>),
    Ty(TRef),
    Fn(Rc<Func>),
    Enc(bool),
    /// `default` of a type that is not known here
    Uninit,
}
pub enum Func {
    Native(String),
    Lambda(Arc<(Vec<String>, Body)>, Frame),
    Group(Option<V>, ClassId, String),
}
pub enum Ctl {
    Throw(V),
    Bug(String, String),
    Return(V),
    Break,
    Continue,
}
pub type R<T = V> = Result<T, Ctl>;
pub fn bug<T>(key: &str, msg: String) -> R<T> {
    Err(Ctl::Bug(key.into(), msg))
}
fn compile<T>(msg: String) -> R<T> {
    bug("compile", msg)
}
pub struct Var {
    name: Rc<str>,
    value: V,
    ty: Option<(&'static Ty, ScopeId, Option<ClassId>)>,
    cell: Option<Rc<RefCell<Vec<u64>>>>,
}
#[derive(Clone)]
pub struct Frame {
    vars: Rc<RefCell<Vec<Var>>>,
    this: Option<V>,
    own: Option<Rc<RefCell<Vec<V>>>>,
    class: Option<ClassId>,
    scope: ScopeId,
}
pub struct Interp {
    pub p: &'static Program,
    pub mem: Memory,
    /// objects that have a finalizer
    pub objects: Vec<Rc<Obj>>,
    statics: HashMap<(ClassId, &'static str), V>,
    steps: u64,
    depth: u32,
}
thread_local! {
    static TYPES: RefCell<HashMap<Id, TRef>> = RefCell::new(HashMap::new());
    static NAMES: RefCell<HashMap<Id, Option<TRef>>> = RefCell::new(HashMap::new());
}
fn utf16(s: &str) -> V {
    V::Str(Rc::new(s.encode_utf16().collect()))
}
pub fn text(v: &V) -> String {
    match v {
        V::Str(s) => String::from_utf16_lossy(s),
        V::Int(_, i) => i.to_string(),
        V::Flt(_, f) => f.to_string(),
        V::Bool(b) => b.to_string(),
        V::Null | V::None => "null".into(),
        V::Obj(_) => "object".into(),
        V::Tuple(t) => format!("({})", t.iter().map(text).collect::<Vec<_>>().join(", ")),
        V::Enum(_, i) => format!("enum {i}"),
        V::Ptr(..) => "pointer".into(),
        _ => "value".into(),
    }
}
impl Interp {
    pub fn new(p: &'static Program) -> Interp {
        // only what Rust allocates is watched
        mcx::alloc::watch(false);
        Interp { p, mem: Memory::default(), objects: vec![], statics: HashMap::new(), steps: 0, depth: 0 }
    }
    pub fn class(&self, full: &str) -> R<ClassId> {
        match self.p.by_name.get(full) {
            Some(c) => Ok(*c),
            None => compile(format!("there is no type {full}")),
        }
    }
    pub fn throw<T>(&mut self, class: &str, msg: &str) -> R<T> {
        let c = self.class(class)?;
        let o = Rc::new(Obj { class: c, fields: RefCell::new(vec![("Message", utf16(msg))]) });
        Err(Ctl::Throw(V::Obj(o)))
    }
    pub fn class_name(&self, v: &V) -> String {
        match v {
            V::Obj(o) => self.p.classes[o.class].full.clone(),
            _ => "?".into(),
        }
    }
    pub fn message(&self, v: &V) -> String {
        match v {
            V::Obj(o) => o.fields.borrow().iter().find(|f| f.0 == "Message").map_or(String::new(), |f| text(&f.1)),
            _ => String::new(),
        }
    }
    // ---- types ----
    fn tref(&self, t: &'static Ty, scope: ScopeId, class: Option<ClassId>) -> R<TRef> {
        let Ty::Name(id, parts, _) = t else { return compile("a named type is needed".into()) };
        if let Some(t) = TYPES.with(|c| c.borrow().get(id).cloned()) {
            return Ok(t);
        }
        match self.p.resolve(parts, scope, class) {
            Some(TRef::Ns(n)) => compile(format!("{n} is a namespace, not a type")),
            Some(t) => {
                TYPES.with(|c| c.borrow_mut().insert(*id, t.clone()));
                Ok(t)
            }
            None => compile(format!("there is no type {}", parts.join("."))),
        }
    }
    fn default(&self, t: &'static Ty, scope: ScopeId, class: Option<ClassId>) -> R {
        Ok(match t {
            Ty::Opt(_) => V::None,
            Ty::Ptr(_) => V::Ptr(self.elem(t, scope, class)?, 0),
            Ty::Arr(_) => V::Null,
            Ty::Tuple(v) => V::Tuple(Rc::new(v.iter().map(|t| self.default(t, scope, class)).collect::<R<Vec<_>>>()?)),
            Ty::Var => V::Uninit,
            Ty::Name(..) => match self.tref(t, scope, class)? {
                TRef::Prim(Prim::Bool) => V::Bool(false),
                TRef::Prim(p) if p.is_float() => V::Flt(p, 0.0),
                TRef::Prim(p) => V::Int(p, 0),
                TRef::IntPtr => V::Ptr(None, 0),
                TRef::Class(c) => self.default_class(c)?,
                TRef::Param => V::Uninit,
                TRef::Ext(p) => match self.ext_struct(&p) {
                    Some(n) => V::Nat(n.into(), Rc::new(vec![0; self.p.lib.layout(n).1])),
                    None => return compile(format!("there is no type {p}")),
                },
                _ => V::Null,
            },
        })
    }
    fn default_class(&self, c: ClassId) -> R {
        let k = &self.p.classes[c];
        Ok(match k.kind {
            Kind::Struct => V::Struct(c, Rc::new(k.fields.iter().filter(|f| !f.0.is_static).map(|f| self.default(&f.0.ty, f.1, Some(c))).collect::<R<Vec<_>>>()?)),
            Kind::Enum => V::Enum(c, 0),
            _ => V::Null,
        })
    }
    fn ext_struct(&self, path: &str) -> Option<&'static str> {
        let p: &'static Program = self.p;
        let n = path.strip_suffix(".__Internal").unwrap_or(path);
        p.lib.struct_named(n.rsplit('.').next()?)
    }
    /// The primitive type that a pointer type points to; other pointers have none.
    fn elem(&self, t: &'static Ty, scope: ScopeId, class: Option<ClassId>) -> R<Option<Prim>> {
        let Ty::Ptr(t) = t else { return Ok(None) };
        Ok(match &**t {
            Ty::Name(..) => match self.tref(t, scope, class)? {
                TRef::Prim(p) => Some(p),
                _ => None,
            },
            _ => None,
        })
    }
    pub fn shows_value(&self, v: &V) -> String {
        match v {
            V::Str(_) => format!("{:?}", text(v)),
            _ => text(v),
        }
    }
    pub fn shows(&self, v: &V) -> String {
        match v {
            V::Obj(o) => self.p.classes[o.class].name.clone(),
            V::Struct(c, _) | V::Enum(c, _) => self.p.classes[*c].name.clone(),
            V::Int(p, _) | V::Flt(p, _) => format!("{p:?}"),
            V::Ptr(None, _) => "IntPtr".into(),
            V::Ptr(Some(p), _) => format!("{p:?}*"),
            V::Nat(n, _) => n.to_string(),
            V::Str(_) => "string".into(),
            V::Fn(_) => "method".into(),
            V::Ty(_) => "type".into(),
            V::Bytes(_) => "byte[]".into(),
            _ => text(v),
        }
    }
    /// Implicit conversion.
    fn coerce(&self, v: V, t: &'static Ty, scope: ScopeId, class: Option<ClassId>) -> R {
        let no = |v: &V| compile(format!("a {} is given where {} is wanted", self.shows(v), show_ty(t)));
        match (t, v) {
            (Ty::Var, v) => Ok(v),
            (Ty::Opt(_), V::Null | V::None) => Ok(V::None),
            (Ty::Opt(t), v) => self.coerce(v, t, scope, class),
            (Ty::Ptr(_), V::Null) => Ok(V::Ptr(self.elem(t, scope, class)?, 0)),
            (Ty::Ptr(_), V::Ptr(p, a)) => {
                let e = self.elem(t, scope, class)?;
                if e == p || (e.is_none() && p.is_some()) {
                    Ok(V::Ptr(e, a))
                } else {
                    no(&V::Ptr(p, a))
                }
            }
            (Ty::Arr(_), v @ (V::Null | V::Bytes(_))) => Ok(v),
            (Ty::Tuple(ts), V::Tuple(vs)) if ts.len() == vs.len() => Ok(V::Tuple(Rc::new(vs.iter().zip(ts).map(|(v, t)| self.coerce(v.clone(), t, scope, class)).collect::<R<Vec<_>>>()?))),
            (Ty::Name(..), v) => {
                let r = self.tref(t, scope, class)?;
                match (&r, v) {
                    (TRef::Param | TRef::Object, v) => Ok(v),
                    (_, V::Uninit) => self.default(t, scope, class),
                    (TRef::Prim(Prim::Bool), v @ V::Bool(_)) => Ok(v),
                    (TRef::Prim(p), V::Int(q, i)) if p.is_float() && q != Prim::Bool => Ok(V::Flt(*p, if *p == Prim::F32 { i as f32 as f64 } else { i as f64 })),
                    (TRef::Prim(p), V::Flt(q, f)) if *p == q || (*p == Prim::F64 && q == Prim::F32) => Ok(V::Flt(*p, f)),
                    (TRef::Prim(p), V::Int(q, i)) if *p != Prim::Bool && !p.is_float() => {
                        let (a, b) = p.range();
                        // what is written as a number may be of any type that holds it
                        let (c, d) = q.range();
                        if i >= a && i <= b && (q == Prim::I32 || (c >= a && d <= b)) {
                            Ok(V::Int(*p, i))
                        } else {
                            no(&V::Int(q, i))
                        }
                    }
                    (TRef::Str, v @ (V::Str(_) | V::Null)) => Ok(v),
                    (TRef::IntPtr, v @ V::Ptr(None, _)) => Ok(v),
                    (TRef::Class(c), v) => match (&v, self.p.classes[*c].kind) {
                        (V::Obj(o), Kind::Class | Kind::Interface) if self.p.is_a(o.class, *c) => Ok(v),
                        (V::Null, Kind::Class | Kind::Interface) => Ok(v),
                        (V::Struct(d, _), Kind::Struct) if d == c => Ok(v),
                        (V::Enum(d, _), Kind::Enum) if d == c => Ok(v),
                        (V::Int(_, 0), Kind::Enum) => Ok(V::Enum(*c, 0)),
                        _ => no(&v),
                    },
                    (TRef::Ext(p), V::Nat(n, b)) if self.ext_struct(p) == Some(&*n) => Ok(V::Nat(n, b)),
                    (TRef::Built("System.Action" | "System.Func"), v @ (V::Fn(_) | V::Null)) => Ok(v),
                    (TRef::Built("System.ReadOnlySpan" | "System.Span"), v @ V::Span(..)) => Ok(v),
                    (TRef::Built("System.Text.Encoding" | "System.Text.UTF8Encoding" | "System.Text.UnicodeEncoding"), v @ V::Enc(_)) => Ok(v),
                    (TRef::Void, V::Void) => Ok(V::Void),
                    (_, v) => no(&v),
                }
            }
            (_, v) => no(&v),
        }
    }
    fn cast(&mut self, v: V, t: &'static Ty, f: &Frame) -> R {
        if let (Ty::Ptr(_), V::Ptr(_, a)) = (t, &v) {
            return Ok(V::Ptr(self.elem(t, f.scope, f.class)?, *a));
        }
        if let Ty::Name(..) = t {
            let r = self.tref(t, f.scope, f.class)?;
            match (&r, &v) {
                (TRef::IntPtr, V::Ptr(_, a)) => return Ok(V::Ptr(None, *a)),
                (TRef::IntPtr, V::Int(_, a)) => return Ok(V::Ptr(None, *a as u64)),
                (TRef::Prim(p), V::Ptr(_, a)) if matches!(p, Prim::U64 | Prim::I64) => return Ok(self.wrap(*p, *a as i128)),
                (TRef::Prim(p), V::Int(_, i)) if p.is_float() => return Ok(V::Flt(*p, if *p == Prim::F32 { *i as f32 as f64 } else { *i as f64 })),
                (TRef::Prim(p), V::Int(_, i)) if *p != Prim::Bool => return Ok(self.wrap(*p, *i)),
                (TRef::Prim(p), V::Flt(_, x)) if p.is_float() => return Ok(V::Flt(*p, if *p == Prim::F32 { *x as f32 as f64 } else { *x })),
                (TRef::Prim(p), V::Flt(_, x)) if *p != Prim::Bool => return Ok(self.wrap(*p, *x as i128)),
                (TRef::Prim(p), V::Enum(_, i)) if *p != Prim::Bool && !p.is_float() => return Ok(self.wrap(*p, *i as i128)),
                (TRef::Class(c), V::Int(_, i)) if self.p.classes[*c].kind == Kind::Enum => return Ok(V::Enum(*c, *i as i64)),
                (TRef::Class(c), V::Obj(o)) => {
                    if self.p.is_a(o.class, *c) {
                        return Ok(v);
                    }
                    return self.throw("System.InvalidCastException", "cast");
                }
                _ => {}
            }
        }
        self.coerce(v, t, f.scope, f.class)
    }
    fn wrap(&self, p: Prim, i: i128) -> V {
        use Prim::*;
        V::Int(p, match p {
            U8 => i as u8 as i128,
            I8 => i as i8 as i128,
            U16 | Char => i as u16 as i128,
            I16 => i as i16 as i128,
            U32 => i as u32 as i128,
            I32 => i as i32 as i128,
            U64 => i as u64 as i128,
            _ => i as i64 as i128,
        })
    }
    // ---- native calls ----
    fn to_raw(&self, v: &V, t: &CTy, f: &CFn, i: usize) -> R<Raw> {
        let no = || compile(format!("{}: parameter {i} is a {}, not a {t:?}", f.name, self.shows(v)));
        Ok(match (t, v) {
            (CTy::Prim(Prim::Bool), V::Bool(b)) => Raw::Int(*b as u64),
            (CTy::Prim(Prim::F32), V::Flt(Prim::F32, x)) => Raw::F32(*x as f32),
            (CTy::Prim(Prim::F64), V::Flt(_, x)) => Raw::F64(*x),
            (CTy::Prim(p), V::Int(q, x)) if !p.is_float() && *p != Prim::Bool => {
                let ((a, b), (c, d)) = (p.range(), q.range());
                // constants take the type of the parameter
                if *x < a || *x > b || !(*q == Prim::I32 || (c >= a && d <= b)) {
                    return no();
                }
                Raw::Int(*x as u64)
            }
            (CTy::Prim(p), V::Int(_, x)) if p.is_float() => {
                if *p == Prim::F32 {
                    Raw::F32(*x as f32)
                } else {
                    Raw::F64(*x as f64)
                }
            }
            (CTy::PrimPtr(p), V::Ptr(Some(q), a)) if p == q => Raw::Int(*a),
            (CTy::Ptr(_), V::Ptr(None, a)) => Raw::Int(*a),
            (CTy::Struct(n), V::Nat(m, b)) if **m == **n => Raw::Bytes(b.to_vec()),
            (CTy::Struct(n), V::Struct(c, fs)) => {
                let k = &self.p.classes[*c];
                let want = self.p.lib.fields(n);
                let have: Vec<&'static Field> = k.fields.iter().filter(|f| !f.0.is_static).map(|f| f.0).collect();
                if want.len() != have.len() {
                    return no();
                }
                let (at, size) = self.p.lib.layout(n);
                let mut b = vec![0; size];
                for (j, (x, (_, t))) in fs.iter().zip(want).enumerate() {
                    let bits = match (t, x) {
                        (CTy::PrimPtr(p), V::Ptr(Some(q), a)) if p == q => *a,
                        (CTy::Ptr(_), V::Ptr(None, a)) => *a,
                        (CTy::Prim(p), V::Int(q, x)) if p == q => *x as u64,
                        _ => return no(),
                    };
                    let w = match t {
                        CTy::Prim(p) => p.size(),
                        _ => 8,
                    };
                    b[at[j]..at[j] + w].copy_from_slice(&bits.to_le_bytes()[..w])
                }
                Raw::Bytes(b)
            }
            _ => return no(),
        })
    }
    fn native(&mut self, f: &'static CFn, mut args: Vec<V>) -> R {
        let big = matches!(&f.ret, CTy::Struct(n) if self.p.lib.layout(n).1 > 16);
        let mut sret = None;
        if big && args.len() == f.params.len() + 1 {
            match args.remove(0) {
                V::Ptr(None, a) if self.mem.known(a) => sret = Some(a),
                V::Ptr(None, _) => return bug("memory", format!("{}: its result goes nowhere", f.name)),
                v => return compile(format!("{}: its result goes to a {}", f.name, self.shows(&v))),
            }
        } else if big {
            return compile(format!("{}: where its result goes is missing", f.name));
        }
        if args.len() != f.params.len() {
            return bug("arity", format!("{} takes {} parameters, not {}", f.name, f.params.len(), args.len()));
        }
        let raw = args.iter().zip(&f.params).enumerate().map(|(i, (v, t))| self.to_raw(v, t, f, i)).collect::<R<Vec<_>>>()?;
        let r = match self.mem.call(&self.p.lib, f, &raw, sret) {
            Ok(r) => r,
            Err(e) => return bug("memory", e),
        };
        Ok(match (&f.ret, r) {
            (CTy::Void, _) => V::Void,
            (CTy::Struct(_), _) if sret.is_some() => V::Void,
            (CTy::Struct(n), Raw::Bytes(b)) => V::Nat(n.as_str().into(), Rc::new(b)),
            (CTy::Prim(p), Raw::F32(x)) => V::Flt(*p, x as f64),
            (CTy::Prim(p), Raw::F64(x)) => V::Flt(*p, x),
            (CTy::Prim(Prim::Bool), Raw::Int(x)) => V::Bool(x != 0),
            (CTy::Prim(p), Raw::Int(x)) => self.wrap(*p, x as i128),
            (CTy::Ptr(_), Raw::Int(a)) => V::Ptr(None, a),
            (CTy::PrimPtr(p), Raw::Int(a)) => V::Ptr(Some(*p), a),
            _ => panic!("HARNESS: result of {}", f.name),
        })
    }
    fn by_cppsharp(&self, path: &str) -> R<&'static CFn> {
        let p: &'static Program = self.p;
        let n = path.rsplit('.').next().unwrap();
        if !path.ends_with(&format!(".generated.__Internal.{n}")) {
            return compile(format!("there is no {path}"));
        }
        match p.lib.renamed(n) {
            Some(f) => Ok(f),
            None => bug("missing", format!("no exported function is called {n}")),
        }
    }
    fn extern_call(&mut self, m: &'static Method, name: &str, scope: ScopeId, class: ClassId, args: Vec<V>) -> R {
        let p: &'static Program = self.p;
        let Some(f) = p.lib.exact(name) else { return bug("missing", format!("no exported function is called {name}")) };
        if m.params.len() != args.len() {
            return compile(format!("{name} is declared with {} parameters and called with {}", m.params.len(), args.len()));
        }
        let args = args.into_iter().zip(&m.params).map(|(v, p)| self.coerce(v, &p.ty, scope, Some(class))).collect::<R<Vec<_>>>()?;
        // declarations of imported functions may be wrong without an error from the compiler
        let r = match self.native(f, args) {
            Err(Ctl::Bug(k, m)) if k == "compile" => return bug("signature", m),
            r => r?,
        };
        // results are converted by the declaration
        let ret = match (&m.ret, r) {
            (Ty::Ptr(_), V::Ptr(Some(p), a)) => V::Ptr(Some(p), a),
            (t, V::Ptr(Some(p), a)) => match self.tref(t, scope, Some(class))? {
                TRef::IntPtr => V::Ptr(None, a),
                _ => V::Ptr(Some(p), a),
            },
            (t @ Ty::Name(..), V::Nat(n, b)) => match self.tref(t, scope, Some(class))? {
                TRef::Class(c) if p.classes[c].kind == Kind::Struct => self.as_struct(c, &n, &b)?,
                _ => V::Nat(n, b),
            },
            (_, v) => v,
        };
        match self.coerce(ret, &m.ret, scope, Some(class)) {
            Err(Ctl::Bug(_, e)) => bug("signature", format!("the result of {name}: {e}")),
            r => r,
        }
    }
    fn as_struct(&self, c: ClassId, n: &str, b: &[u8]) -> R {
        let want = self.p.lib.fields(n);
        let have: Vec<_> = self.p.classes[c].fields.iter().filter(|f| !f.0.is_static).collect();
        let no = || bug("signature", format!("{} does not have the layout of {n}", self.p.classes[c].full));
        if have.len() != want.len() {
            return no();
        }
        let mut v = vec![];
        for (i, (f, s)) in have.into_iter().enumerate() {
            let x = self.nat_field(n, b, i);
            match self.coerce(x, &f.ty, *s, Some(c)) {
                Ok(x) => v.push(x),
                Err(_) => return no(),
            }
        }
        Ok(V::Struct(c, Rc::new(v)))
    }
    fn nat_field(&self, n: &str, b: &[u8], i: usize) -> V {
        let at = self.p.lib.layout(n).0[i];
        let get = |w: usize| {
            let mut x = [0; 8];
            x[..w].copy_from_slice(&b[at..at + w]);
            u64::from_le_bytes(x)
        };
        match &self.p.lib.fields(n)[i].1 {
            CTy::Prim(p) => self.wrap(*p, get(p.size()) as i128),
            CTy::PrimPtr(p) => V::Ptr(Some(*p), get(8)),
            _ => V::Ptr(None, get(8)),
        }
    }
    // ---- objects ----
    fn frame(&self, class: Option<ClassId>, scope: ScopeId, this: Option<V>) -> Frame {
        Frame { vars: Rc::new(RefCell::new(vec![])), this, own: None, class, scope }
    }
    fn bind(&mut self, f: &Frame, params: &'static [Param], args: Vec<V>, scope: ScopeId, class: Option<ClassId>) -> R<()> {
        let n = args.len();
        for (p, a) in params.iter().zip(args) {
            let v = self.coerce(a, &p.ty, scope, class)?;
            f.vars.borrow_mut().push(Var { name: p.name.as_str().into(), value: v, ty: Some((&p.ty, scope, class)), cell: None })
        }
        for p in &params[n.min(params.len())..] {
            let Some(d) = &p.default else { return compile("an argument is missing".into()) };
            let v = self.eval(d, f)?;
            let v = self.coerce(v, &p.ty, scope, class)?;
            f.vars.borrow_mut().push(Var { name: p.name.as_str().into(), value: v, ty: Some((&p.ty, scope, class)), cell: None })
        }
        Ok(())
    }
    /// Which of some functions takes these arguments.
    fn overload<'a>(&self, of: impl Iterator<Item = (&'static Method, ScopeId, ClassId)> + 'a, args: &[V], what: &str) -> R<(&'static Method, ScopeId, ClassId)> {
        let mut best: Option<(i32, (&'static Method, ScopeId, ClassId))> = None;
        let mut tie = false;
        let mut any = false;
        let mut last = String::new();
        for (m, s, c) in of {
            any = true;
            let least = m.params.iter().filter(|p| p.default.is_none()).count();
            if args.len() < least || args.len() > m.params.len() {
                last = format!("{what} takes {} arguments, not {}", m.params.len(), args.len());
                continue;
            }
            let mut score = 0;
            let mut fits = true;
            for (a, p) in args.iter().zip(&m.params) {
                match self.coerce(a.clone(), &p.ty, s, Some(c)) {
                    Ok(b) => match (a, b) {
                        (V::Int(p, _), V::Int(q, _)) if *p == q => score += 2,
                        (V::Int(..), V::Int(..)) => score += 1,
                        (V::Int(..), _) => {}
                        _ => score += 2,
                    },
                    Err(Ctl::Bug(_, e)) => {
                        last = format!("{what}: {e}");
                        fits = false
                    }
                    Err(_) => fits = false,
                }
            }
            if !fits {
                continue;
            }
            match &best {
                Some((b, _)) if *b > score => {}
                Some((b, (_, _, bc))) if *b == score => tie |= *bc == c,
                _ => {
                    best = Some((score, (m, s, c)));
                    tie = false
                }
            }
        }
        match best {
            Some(_) if tie => compile(format!("{what}: two overloads take these arguments")),
            Some((_, m)) => Ok(m),
            None if any => compile(last),
            None => compile(format!("there is no {what}")),
        }
    }
    pub fn new_object(&mut self, c: ClassId, args: Vec<V>) -> R {
        let k = &self.p.classes[c];
        if k.kind == Kind::Struct {
            let V::Struct(_, fields) = self.default_class(c)? else { unreachable!() };
            if args.is_empty() {
                return Ok(V::Struct(c, fields));
            }
            let (m, s, _) = self.overload(k.ctors.iter().map(|m| (m.0, m.1, c)), &args, &k.full)?;
            let own = Rc::new(RefCell::new(fields.to_vec()));
            let mut f = self.frame(Some(c), s, None);
            f.own = Some(own.clone());
            self.bind(&f, &m.params, args, s, Some(c))?;
            self.run(&m.body, &f)?;
            let v = own.borrow().clone();
            return Ok(V::Struct(c, Rc::new(v)));
        }
        if k.is_abstract || k.kind != Kind::Class {
            return compile(format!("{} cannot be made", k.full));
        }
        let o = Rc::new(Obj { class: c, fields: RefCell::new(vec![]) });
        for i in self.p.chain(c) {
            for (f, s) in &self.p.classes[i].fields {
                if !f.is_static {
                    let v = self.default(&f.ty, *s, Some(i))?;
                    o.fields.borrow_mut().push((f.name.as_str(), v))
                }
            }
            for (f, s) in &self.p.classes[i].props {
                if f.auto && !f.is_static {
                    let v = self.default(&f.ty, *s, Some(i))?;
                    o.fields.borrow_mut().push((f.name.as_str(), v))
                }
            }
        }
        if self.p.chain(c).any(|i| self.p.classes[i].dtor.is_some()) {
            self.objects.push(o.clone())
        }
        self.construct(c, &o, args)?;
        Ok(V::Obj(o))
    }
    fn construct(&mut self, c: ClassId, o: &Rc<Obj>, args: Vec<V>) -> R<()> {
        let p: &'static Program = self.p;
        let k = &p.classes[c];
        let ctors: Vec<_> = k.ctors.iter().filter(|m| !m.0.is_static).map(|m| (m.0, m.1, c)).collect();
        let this = V::Obj(o.clone());
        let init = |me: &mut Interp| -> R<()> {
            for (fd, s) in &k.fields {
                if let (Some(e), false) = (&fd.init, fd.is_static) {
                    let f = me.frame(Some(c), *s, None);
                    let v = me.eval(e, &f)?;
                    let v = me.coerce(v, &fd.ty, *s, Some(c))?;
                    set_raw(o, &fd.name, v);
                }
            }
            for (fd, s) in &k.props {
                if let (Some(e), false) = (&fd.init, fd.is_static) {
                    let f = me.frame(Some(c), *s, None);
                    let v = me.eval(e, &f)?;
                    let v = me.coerce(v, &fd.ty, *s, Some(c))?;
                    set_raw(o, &fd.name, v);
                }
            }
            Ok(())
        };
        if ctors.is_empty() {
            if !args.is_empty() {
                return compile(format!("{} takes no arguments", k.full));
            }
            init(self)?;
            return match k.base {
                Some(b) => self.construct(b, o, vec![]),
                None => Ok(()),
            };
        }
        // whatever the types, a class of the repository without a constructor for so many arguments is a mistake
        let takes = |m: &Method| m.params.iter().any(|p| p.rest) || (m.params.iter().filter(|p| p.default.is_none()).count()..=m.params.len()).contains(&args.len());
        if !ctors.is_empty() && !ctors.iter().any(|m| takes(m.0)) {
            return bug("constructor-arguments", format!("{} has no constructor that takes {} arguments", k.full, args.len()));
        }
        let (m, s, _) = self.overload(ctors.into_iter(), &args, &k.full)?;
        let f = self.frame(Some(c), s, None);
        self.bind(&f, &m.params, args, s, Some(c))?;
        match &m.chain {
            Some((false, a)) => {
                let a = self.evals(a, &f)?;
                self.construct(c, o, a)?
            }
            chain => {
                init(self)?;
                let a = match chain {
                    Some((_, a)) => self.evals(a, &f)?,
                    None => vec![],
                };
                match k.base {
                    Some(b) => self.construct(b, o, a)?,
                    None if !a.is_empty() => return compile(format!("{} has no base class", k.full)),
                    None => {}
                }
            }
        }
        let f = Frame { this: Some(this), ..f };
        self.run(&m.body, &f)?;
        Ok(())
    }
    fn run(&mut self, b: &'static Body, f: &Frame) -> R {
        self.depth += 1;
        if self.depth > 60 {
            return bug("endless", "calls do not end".into());
        }
        let stack = self.mem.stack.len();
        let r = match b {
            Body::None => compile("a function without a body is called".into()),
            Body::Expr(e) => self.eval(e, f),
            Body::Block(s) => match self.exec(s, f) {
                Ok(()) => Ok(V::Void),
                Err(Ctl::Return(v)) => Ok(v),
                Err(e) => Err(e),
            },
        };
        self.depth -= 1;
        self.mem.stack.truncate(stack);
        r
    }
    fn invoke(&mut self, m: &'static Method, scope: ScopeId, class: ClassId, this: Option<V>, args: Vec<V>) -> R {
        if let Some(n) = &m.native {
            return self.extern_call(m, n, scope, class, args);
        }
        let mut f = self.frame(Some(class), scope, if m.is_static { None } else { this.clone() });
        if let (Some(V::Struct(_, v)), false) = (&this, m.is_static) {
            f.own = Some(Rc::new(RefCell::new(v.to_vec())))
        }
        self.bind(&f, &m.params, args, scope, Some(class))?;
        let r = self.run(&m.body, &f)?;
        if is_void(&m.ret) {
            return Ok(V::Void);
        }
        self.coerce(r, &m.ret, scope, Some(class))
    }
    pub fn call_method(&mut self, this: &V, name: &str, args: Vec<V>) -> R {
        self.tick()?;
        let c = match this {
            V::Obj(o) => o.class,
            V::Struct(c, _) => *c,
            V::Null => return self.throw("System.NullReferenceException", name),
            _ => return self.call_builtin(this, name, args),
        };
        if !self.p.chain(c).any(|i| self.p.classes[i].methods.iter().any(|m| m.0.name == name)) {
            return self.call_builtin(this, name, args);
        }
        let m = self.find_method(c, name, &args)?;
        self.invoke(m.0, m.1, m.2, Some(this.clone()), args)
    }
    /// The most derived method of this name that takes the arguments.
    fn find_method(&self, c: ClassId, name: &str, args: &[V]) -> R<(&'static Method, ScopeId, ClassId)> {
        let mut err = None;
        for i in self.p.chain(c) {
            let k = &self.p.classes[i];
            if !k.methods.iter().any(|m| m.0.name == name) {
                continue;
            }
            let with_body = k.methods.iter().filter(|m| m.0.name == name && (!matches!(m.0.body, Body::None) || m.0.native.is_some())).map(|m| (m.0, m.1, i));
            match self.overload(with_body, args, &format!("{}.{name}", k.name)) {
                Ok(m) => return Ok(m),
                Err(e) => err = err.or(Some(e)),
            }
        }
        Err(err.unwrap_or_else(|| Ctl::Bug("compile".into(), format!("{} has no method {name}", self.p.classes[c].full))))
    }
    fn find_prop(&self, c: ClassId, name: &str) -> Option<(&'static Prop, ScopeId, ClassId)> {
        let mut first = None;
        for i in self.p.chain(c) {
            if let Some(p) = self.p.classes[i].props.iter().find(|p| p.0.name == name) {
                // an abstract property has accessors without bodies, which make it look like an automatic one
                first.get_or_insert((p.0, p.1, i));
            }
        }
        first
    }
    pub fn get(&mut self, this: &V, name: &str) -> R {
        self.tick()?;
        match this {
            V::Obj(o) => {
                if let Some((p, s, c)) = self.find_prop(o.class, name) {
                    if !p.auto {
                        let Some(g) = &p.get else { return compile(format!("{name} cannot be read")) };
                        let f = self.frame(Some(c), s, Some(this.clone()));
                        let v = self.run(g, &f)?;
                        return self.coerce(v, &p.ty, s, Some(c));
                    }
                }
                let v = o.fields.borrow().iter().find(|f| f.0 == name).map(|f| f.1.clone());
                if let Some(v) = v {
                    return Ok(v);
                }
                if self.p.chain(o.class).any(|i| self.p.classes[i].methods.iter().any(|m| m.0.name == name)) {
                    return Ok(V::Fn(Rc::new(Func::Group(Some(this.clone()), o.class, name.into()))));
                }
                compile(format!("{} has no member {name}", self.p.classes[o.class].full))
            }
            V::Struct(c, v) => {
                let k = &self.p.classes[*c];
                if let Some(i) = k.fields.iter().filter(|f| !f.0.is_static).position(|f| f.0.name == name) {
                    return Ok(v[i].clone());
                }
                if let Some((p, s, c)) = self.find_prop(*c, name) {
                    let Some(g) = &p.get else { return compile(format!("{name} cannot be read")) };
                    let mut f = self.frame(Some(c), s, Some(this.clone()));
                    f.own = Some(Rc::new(RefCell::new(v.to_vec())));
                    let v = self.run(g, &f)?;
                    return self.coerce(v, &p.ty, s, Some(c));
                }
                self.nullable(this, name)
            }
            V::Nat(n, b) => {
                if let Some(i) = self.p.lib.fields(n).iter().position(|f| key(&f.0) == key(name)) {
                    return Ok(self.nat_field(n, b, i));
                }
                self.nullable(this, name)
            }
            V::None | V::Bool(_) | V::Int(..) | V::Flt(..) | V::Enum(..) | V::Ptr(..) => self.nullable(this, name),
            V::Null => self.throw("System.NullReferenceException", name),
            V::Str(s) if name == "Length" => Ok(V::Int(Prim::I32, s.len() as i128)),
            V::Bytes(b) if name == "Length" => Ok(V::Int(Prim::I32, b.borrow().len() as i128)),
            V::Span(_, n) if name == "Length" => Ok(V::Int(Prim::I32, *n as i128)),
            V::Tuple(t) => match name.strip_prefix("Item").and_then(|n| n.parse::<usize>().ok()) {
                Some(i) if i >= 1 && i <= t.len() => Ok(t[i - 1].clone()),
                _ => compile(format!("a tuple has no member {name}")),
            },
            V::Ty(t) => self.get_static(&t.clone(), name),
            _ => Ok(V::Fn(Rc::new(Func::Group(Some(this.clone()), usize::MAX, name.into())))),
        }
    }
    fn nullable(&mut self, v: &V, name: &str) -> R {
        match (v, name) {
            (V::None, "HasValue") => Ok(V::Bool(false)),
            (V::None, "Value") => self.throw("System.InvalidOperationException", "Nullable object must have a value."),
            (_, "HasValue") => Ok(V::Bool(true)),
            (_, "Value") => Ok(v.clone()),
            _ => Ok(V::Fn(Rc::new(Func::Group(Some(v.clone()), usize::MAX, name.into())))),
        }
    }
    fn get_static(&mut self, t: &TRef, name: &str) -> R {
        match t {
            TRef::Class(c) => {
                let p: &'static Program = self.p;
                for i in p.chain(*c) {
                    let k = &p.classes[i];
                    if let Some(x) = k.consts.iter().find(|x| x.0 == name) {
                        return Ok(V::Enum(i, x.1));
                    }
                    if let Some((fd, s)) = k.fields.iter().find(|f| f.0.is_static && f.0.name == name) {
                        if let Some(v) = self.statics.get(&(i, fd.name.as_str())) {
                            return Ok(v.clone());
                        }
                        let f = self.frame(Some(i), *s, None);
                        let v = match &fd.init {
                            Some(e) => {
                                let v = self.eval(e, &f)?;
                                self.coerce(v, &fd.ty, *s, Some(i))?
                            }
                            None => self.default(&fd.ty, *s, Some(i))?,
                        };
                        self.statics.insert((i, fd.name.as_str()), v.clone());
                        return Ok(v);
                    }
                    if let Some((pr, s)) = k.props.iter().find(|f| f.0.is_static && f.0.name == name) {
                        let Some(g) = &pr.get else { return compile(format!("{name} cannot be read")) };
                        let f = self.frame(Some(i), *s, None);
                        let v = self.run(g, &f)?;
                        return self.coerce(v, &pr.ty, *s, Some(i));
                    }
                    if k.methods.iter().any(|m| m.0.name == name) {
                        return Ok(V::Fn(Rc::new(Func::Group(None, *c, name.into()))));
                    }
                }
                match p.step(t, name) {
                    Some(t) => Ok(V::Ty(t)),
                    None => compile(format!("{} has no member {name}", p.classes[*c].full)),
                }
            }
            TRef::Ext(p) => {
                if p.ends_with(".__Internal") {
                    self.by_cppsharp(&format!("{p}.{name}"))?;
                    return Ok(V::Fn(Rc::new(Func::Native(format!("{p}.{name}")))));
                }
                Ok(V::Ty(TRef::Ext(format!("{p}.{name}"))))
            }
            TRef::Ns(_) => match self.p.step(t, name) {
                Some(t) => Ok(V::Ty(t)),
                None => compile(format!("there is no {name} there")),
            },
            TRef::IntPtr if name == "Zero" => Ok(V::Ptr(None, 0)),
            TRef::IntPtr if name == "Size" => Ok(V::Int(Prim::I32, 8)),
            TRef::Prim(p) if name == "MaxValue" && !p.is_float() => Ok(V::Int(*p, p.range().1)),
            TRef::Prim(p) if name == "MinValue" && !p.is_float() => Ok(V::Int(*p, p.range().0)),
            TRef::Str if name == "Empty" => Ok(utf16("")),
            TRef::Built("System.Text.Encoding") if name == "UTF8" => Ok(V::Enc(true)),
            TRef::Built("System.Text.Encoding") if name == "Unicode" => Ok(V::Enc(false)),
            TRef::Built(b) => Ok(V::Fn(Rc::new(Func::Group(None, usize::MAX, format!("{b}.{name}"))))),
            t => compile(format!("{t:?} has no member {name}")),
        }
    }
    pub fn set(&mut self, this: &V, name: &str, v: V) -> R<()> {
        self.tick()?;
        match this {
            V::Obj(o) => {
                if let Some((p, s, c)) = self.find_prop(o.class, name) {
                    let v = self.coerce(v, &p.ty, s, Some(c))?;
                    if p.auto {
                        set_raw(o, name, v);
                        return Ok(());
                    }
                    let Some(b) = &p.set else { return compile(format!("{}.{name} cannot be written", self.p.classes[o.class].name)) };
                    let f = self.frame(Some(c), s, Some(this.clone()));
                    f.vars.borrow_mut().push(Var { name: "value".into(), value: v, ty: Some((&p.ty, s, Some(c))), cell: None });
                    self.run(b, &f)?;
                    return Ok(());
                }
                for i in self.p.chain(o.class) {
                    if let Some((fd, s)) = self.p.classes[i].fields.iter().find(|f| f.0.name == name && !f.0.is_static) {
                        let v = self.coerce(v, &fd.ty, *s, Some(i))?;
                        set_raw(o, name, v);
                        return Ok(());
                    }
                }
                compile(format!("{} has no member {name}", self.p.classes[o.class].full))
            }
            V::Null => self.throw("System.NullReferenceException", name),
            V::Ty(TRef::Class(c)) => {
                for i in self.p.chain(*c) {
                    if let Some((fd, s)) = self.p.classes[i].fields.iter().find(|f| f.0.name == name && f.0.is_static) {
                        let v = self.coerce(v, &fd.ty, *s, Some(i))?;
                        self.statics.insert((i, fd.name.as_str()), v);
                        return Ok(());
                    }
                }
                compile(format!("there is no static member {name}"))
            }
            _ => compile(format!("{name} of a {} cannot be written", self.shows(this))),
        }
    }
    pub fn index(&mut self, this: &V, i: Vec<V>) -> R {
        match (this, i.as_slice()) {
            (V::Obj(o), _) => {
                let Some((p, s, c)) = self.find_prop(o.class, "this") else { return compile("no indexer".into()) };
                let Some(g) = &p.get else { return compile("the indexer cannot be read".into()) };
                let f = self.frame(Some(c), s, Some(this.clone()));
                self.bind(&f, &p.params, i, s, Some(c))?;
                let v = self.run(g, &f)?;
                self.coerce(v, &p.ty, s, Some(c))
            }
            (V::Bytes(b), [V::Int(_, i)]) => {
                let x = usize::try_from(*i).ok().and_then(|i| b.borrow().get(i).copied());
                match x {
                    Some(x) => Ok(V::Int(Prim::U8, x as i128)),
                    None => self.throw("System.IndexOutOfRangeException", "Index was outside the bounds of the array."),
                }
            }
            (V::Null, _) => self.throw("System.NullReferenceException", "[]"),
            (v, _) => compile(format!("a {} has no indexer", self.shows(v))),
        }
    }
    pub fn set_index(&mut self, this: &V, i: Vec<V>, v: V) -> R<()> {
        match (this, i.as_slice()) {
            (V::Obj(o), _) => {
                let Some((p, s, c)) = self.find_prop(o.class, "this") else { return compile("no indexer".into()) };
                let Some(b) = &p.set else { return compile("the indexer cannot be written".into()) };
                let f = self.frame(Some(c), s, Some(this.clone()));
                self.bind(&f, &p.params, i, s, Some(c))?;
                let v = self.coerce(v, &p.ty, s, Some(c))?;
                f.vars.borrow_mut().push(Var { name: "value".into(), value: v, ty: None, cell: None });
                self.run(b, &f)?;
                Ok(())
            }
            (V::Bytes(b), [V::Int(_, i)]) => {
                let ok = usize::try_from(*i).ok().filter(|i| *i < b.borrow().len());
                match (ok, v) {
                    (Some(i), V::Int(_, x)) => {
                        b.borrow_mut()[i] = x as u8;
                        Ok(())
                    }
                    _ => self.throw("System.IndexOutOfRangeException", "Index was outside the bounds of the array."),
                }
            }
            (v, _) => compile(format!("a {} has no indexer", self.shows(v))),
        }
    }
    fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > 3_000_000 {
            return bug("endless", "the program does not end".into());
        }
        Ok(())
    }
    pub fn call_value(&mut self, f: &V, args: Vec<V>) -> R {
        let V::Fn(f) = f else {
            if let V::Null = f {
                return self.throw("System.NullReferenceException", "call");
            }
            return compile(format!("a {} is called", self.shows(f)));
        };
        match &**f {
            Func::Native(p) => {
                let f = self.by_cppsharp(p)?;
                self.native(f, args)
            }
            Func::Lambda(l, fr) => {
                let l: &'static (Vec<String>, Body) = unsafe { &*Arc::as_ptr(l) };
                if l.0.len() != args.len() {
                    return compile("a lambda with other arguments".into());
                }
                let n = fr.vars.borrow().len();
                for (n, a) in l.0.iter().zip(args) {
                    fr.vars.borrow_mut().push(Var { name: n.as_str().into(), value: a, ty: None, cell: None })
                }
                let r = self.run(&l.1, fr);
                fr.vars.borrow_mut().truncate(n);
                r
            }
            Func::Group(Some(this), _, name) => self.call_method(&this.clone(), name, args),
            Func::Group(None, usize::MAX, name) => self.call_builtin_static(name, args),
            Func::Group(None, c, name) => {
                let m = self.find_method(*c, name, &args)?;
                self.invoke(m.0, m.1, m.2, None, args)
            }
        }
    }
    // ---- what the runtime and the test framework bring ----
    fn call_builtin(&mut self, this: &V, name: &str, args: Vec<V>) -> R {
        match (this, name, args.as_slice()) {
            (V::Enc(u8_), "GetBytes", [V::Str(s)]) => {
                let b = if *u8_ { String::from_utf16_lossy(s).into_bytes() } else { s.iter().flat_map(|u| u.to_le_bytes()).collect() };
                Ok(V::Bytes(Rc::new(RefCell::new(b))))
            }
            (V::Enc(true), "GetByteCount", [V::Str(s)]) => Ok(V::Int(Prim::I32, String::from_utf16_lossy(s).len() as i128)),
            (V::Enc(_), "GetBytes" | "GetByteCount" | "GetString", [V::Null, ..]) => self.throw("System.ArgumentNullException", "s"),
            (V::Enc(true), "GetString", [V::Ptr(Some(Prim::U8), a), V::Int(Prim::I32, n)]) => {
                if *n < 0 {
                    return self.throw("System.ArgumentOutOfRangeException", "byteCount");
                }
                if *a == 0 {
                    return self.throw("System.ArgumentNullException", "bytes");
                }
                Ok(self.read_text(*a, *n as usize))
            }
            (V::Enc(true), "GetString", [V::Span(a, n)]) => Ok(self.read_text(*a, *n)),
            (V::Enc(true), "GetString", [V::Bytes(b)]) => Ok(utf16(&String::from_utf8_lossy(&b.borrow()))),
            (V::Ptr(None, a), "ToInt64", []) => Ok(V::Int(Prim::I64, *a as i64 as i128)),
            (V::Span(a, n), "ToArray", []) => {
                let b = unsafe { std::slice::from_raw_parts(*a as *const u8, *n) }.to_vec();
                Ok(V::Bytes(Rc::new(RefCell::new(b))))
            }
            (_, "ToString", []) => Ok(utf16(&text(this))),
            (V::Fn(_), "Invoke", _) => self.call_value(this, args),
            (a, "Equals", [b]) => Ok(V::Bool(self.same(a, b))),
            (_, "GetHashCode", []) => Ok(V::Int(Prim::I32, 0)),
            (V::None, "GetValueOrDefault", []) => Ok(V::Uninit),
            (_, "GetValueOrDefault", []) => Ok(this.clone()),
            _ => compile(format!("a {} has no method {name} that takes these arguments", self.shows(this))),
        }
    }
    fn read_text(&self, a: u64, n: usize) -> V {
        utf16(&String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(a as *const u8, n) }))
    }
    /// `Equals`: values by value, objects by identity.
    fn same(&self, a: &V, b: &V) -> bool {
        match (a, b) {
            (V::Null | V::None, V::Null | V::None) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(_, a), V::Int(_, b)) => a == b,
            (V::Flt(_, a), V::Flt(_, b)) => a == b || (a.is_nan() && b.is_nan()),
            (V::Int(_, a), V::Flt(_, b)) | (V::Flt(_, b), V::Int(_, a)) => *a as f64 == *b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Ptr(_, a), V::Ptr(_, b)) => a == b,
            (V::Obj(a), V::Obj(b)) => Rc::ptr_eq(a, b),
            (V::Enum(c, a), V::Enum(d, b)) => c == d && a == b,
            (V::Struct(c, a), V::Struct(d, b)) => c == d && a.iter().zip(b.iter()).all(|(a, b)| self.same(a, b)),
            (V::Tuple(a), V::Tuple(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| self.same(a, b)),
            (V::Nat(a, x), V::Nat(b, y)) => a == b && x == y,
            _ => false,
        }
    }
    fn call_builtin_static(&mut self, name: &str, args: Vec<V>) -> R {
        let fail = |me: &mut Interp, m: String| me.throw("Xunit.XunitException", &m);
        match (name, args.as_slice()) {
            ("Xunit.Assert.True", [V::Bool(true)]) | ("Xunit.Assert.False", [V::Bool(false)]) | ("Xunit.Assert.Null", [V::Null | V::None]) => Ok(V::Void),
            ("Xunit.Assert.NotNull", [v]) if !matches!(v, V::Null | V::None) => Ok(V::Void),
            ("Xunit.Assert.Equal", [a, b]) if self.same(a, b) => Ok(V::Void),
            ("Xunit.Assert.NotEqual", [a, b]) if !self.same(a, b) => Ok(V::Void),
            ("Xunit.Assert.Throws", [V::Ty(TRef::Class(c)), f]) => match self.call_value(f, vec![]) {
                Err(Ctl::Throw(V::Obj(o))) if o.class == *c => Ok(V::Obj(o)),
                Err(Ctl::Throw(v)) => {
                    let m = format!("{} is thrown: {}", self.class_name(&v), self.message(&v));
                    fail(self, m)
                }
                Err(e) => Err(e),
                Ok(_) => fail(self, "nothing is thrown".into()),
            },
            (n, _) if n.starts_with("Xunit.Assert.") => fail(self, format!("{n}({})", args.iter().map(text).collect::<Vec<_>>().join(", "))),
            ("System.GC.SuppressFinalize", [V::Obj(o)]) => {
                let o = o.clone();
                self.objects.retain(|x| !Rc::ptr_eq(x, &o));
                Ok(V::Void)
            }
            ("System.GC.KeepAlive" | "System.Console.WriteLine" | "System.GC.Collect" | "System.GC.WaitForPendingFinalizers", _) => Ok(V::Void),
            _ => compile(format!("{name} is not known")),
        }
    }
    // ---- expressions ----
    fn evals(&mut self, es: &'static [Ex], f: &Frame) -> R<Vec<V>> {
        es.iter().map(|e| self.eval(e, f)).collect()
    }
    fn local(&self, f: &Frame, n: &str) -> Option<V> {
        let vars = f.vars.borrow();
        let v = vars.iter().rev().find(|v| &*v.name == n)?;
        if let Some(c) = &v.cell {
            let c = c.borrow();
            let addr = c.as_ptr() as u64;
            let ty = self.mem.stack.iter().find(|s| s.0 == addr).and_then(|s| s.2.clone());
            if let Some(t) = ty {
                let n = self.p.lib.layout(&t).1;
                let b = c.iter().flat_map(|w| w.to_le_bytes()).take(n).collect();
                return Some(V::Nat(t.as_str().into(), Rc::new(b)));
            }
            if let V::Int(p, _) = v.value {
                return Some(self.wrap(p, c[0] as i128));
            }
        }
        Some(v.value.clone())
    }
    fn address_of(&mut self, e: &'static Ex, f: &Frame) -> R {
        match &e.e {
            E::Name(_, n, _) => {
                let mut vars = f.vars.borrow_mut();
                let Some(v) = vars.iter_mut().rev().find(|v| &*v.name == n.as_str()) else { return compile(format!("the address of {n}")) };
                let (ty, bytes, prim) = match &v.value {
                    V::Nat(n, b) => (Some(n.to_string()), b.to_vec(), None),
                    V::Uninit => (None, vec![0; 64], None),
                    V::Int(p, i) => (None, (*i as u64).to_le_bytes().to_vec(), Some(*p)),
                    v => return compile(format!("the address of a {}", self.shows(v))),
                };
                if v.cell.is_none() {
                    let w = bytes.chunks(8).map(|c| {
                        let mut x = [0; 8];
                        x[..c.len()].copy_from_slice(c);
                        u64::from_le_bytes(x)
                    });
                    let cell: Vec<u64> = w.collect();
                    self.mem.stack.push((cell.as_ptr() as u64, cell.len() * 8, ty));
                    v.cell = Some(Rc::new(RefCell::new(cell)))
                }
                let a = v.cell.as_ref().unwrap().borrow().as_ptr() as u64;
                // the address of a number has its type; a struct's is only good for a cast
                Ok(V::Ptr(prim, a))
            }
            E::Index(a, i) => {
                let a = self.eval(a, f)?;
                let i = self.evals(i, f)?;
                match (&a, i.as_slice()) {
                    (V::Bytes(b), [V::Int(_, i)]) => {
                        let n = b.borrow().len();
                        match usize::try_from(*i) {
                            Ok(i) if i < n => Ok(V::Ptr(Some(Prim::U8), b.borrow().as_ptr() as u64 + i as u64)),
                            _ => self.throw("System.IndexOutOfRangeException", "Index was outside the bounds of the array."),
                        }
                    }
                    (V::Null, _) => self.throw("System.NullReferenceException", "[]"),
                    _ => compile("the address of an item".into()),
                }
            }
            _ => compile("an address".into()),
        }
    }
    fn deref(&mut self, v: V) -> R {
        let V::Ptr(Some(p), a) = v else { return compile(format!("a {} is dereferenced", self.shows(&v))) };
        if a == 0 {
            return self.throw("System.NullReferenceException", "*");
        }
        if !self.mem.known(a) {
            return bug("memory", "memory is read that is not alive".into());
        }
        Ok(unsafe {
            let q = a as *const u8;
            match p {
                Prim::Bool => V::Bool(*q != 0),
                Prim::F32 => V::Flt(p, (q as *const f32).read_unaligned() as f64),
                Prim::F64 => V::Flt(p, (q as *const f64).read_unaligned()),
                _ => {
                    let mut b = [0; 8];
                    b[..p.size()].copy_from_slice(std::slice::from_raw_parts(q, p.size()));
                    self.wrap(p, u64::from_le_bytes(b) as i128)
                }
            }
        })
    }
    fn member_here(&self, f: &Frame, n: &str) -> bool {
        f.class.map_or(false, |c| {
            let mut c = Some(c);
            while let Some(o) = c {
                for i in self.p.chain(o) {
                    let k = &self.p.classes[i];
                    if k.fields.iter().any(|x| x.0.name == n) || k.props.iter().any(|x| x.0.name == n) || k.methods.iter().any(|x| x.0.name == n) || k.consts.iter().any(|x| x.0 == n) {
                        return true;
                    }
                }
                c = self.p.classes[o].outer
            }
            false
        })
    }
    fn name_type(&self, id: Id, n: &str, f: &Frame) -> Option<TRef> {
        if let Some(t) = NAMES.with(|c| c.borrow().get(&id).cloned()) {
            return t;
        }
        let t = self.p.resolve(&[n.to_string()], f.scope, f.class);
        NAMES.with(|c| c.borrow_mut().insert(id, t.clone()));
        t
    }
    fn name(&mut self, id: Id, n: &'static str, f: &Frame) -> R {
        if let Some(v) = self.local(f, n) {
            return Ok(v);
        }
        if self.member_here(f, n) {
            if let Some(own) = &f.own {
                let c = f.class.unwrap();
                if let Some(i) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).position(|x| x.0.name == n) {
                    return Ok(own.borrow()[i].clone());
                }
            }
            let c = f.class.unwrap();
            let mut o = Some(c);
            while let Some(c) = o {
                let is_static = self.p.chain(c).any(|i| {
                    let k = &self.p.classes[i];
                    k.fields.iter().any(|x| x.0.name == n && x.0.is_static) || k.props.iter().any(|x| x.0.name == n && x.0.is_static) || k.consts.iter().any(|x| x.0 == n)
                });
                if is_static {
                    return self.get_static(&TRef::Class(c), n);
                }
                if let Some(this) = &f.this {
                    if self.p.chain(c).any(|i| self.p.classes[i].methods.iter().any(|m| m.0.name == n)) {
                        return Ok(V::Fn(Rc::new(Func::Group(Some(this.clone()), c, n.into()))));
                    }
                    return self.get(&this.clone(), n);
                }
                if self.p.chain(c).any(|i| self.p.classes[i].methods.iter().any(|m| m.0.name == n && m.0.is_static)) {
                    return Ok(V::Fn(Rc::new(Func::Group(None, c, n.into()))));
                }
                o = self.p.classes[c].outer
            }
        }
        match self.name_type(id, n, f) {
            Some(t) => Ok(V::Ty(t)),
            None => compile(format!("there is no {n}")),
        }
    }
    pub fn eval(&mut self, e: &'static Ex, f: &Frame) -> R {
        self.tick()?;
        Ok(match &e.e {
            E::Null => V::Null,
            E::Bool(b) => V::Bool(*b),
            E::Int(i, s) => {
                use Prim::*;
                let of: &[Prim] = match s.as_str() {
                    "" => &[I32, U32, I64, U64],
                    "u" => &[U32, U64],
                    "l" => &[I64, U64],
                    _ => &[U64],
                };
                match of.iter().find(|p| *i <= p.range().1) {
                    Some(p) => V::Int(*p, *i),
                    None => return compile(format!("the number {i}")),
                }
            }
            E::Flt(x, s) => V::Flt(if *s == 'f' { Prim::F32 } else { Prim::F64 }, *x),
            E::Str(s) => V::Str(Rc::new(s.to_vec())),
            E::Chr(c) => V::Int(Prim::Char, *c as i128),
            E::This => match (&f.own, &f.this) {
                (Some(o), _) => V::Struct(f.class.unwrap(), Rc::new(o.borrow().clone())),
                (_, Some(t)) => t.clone(),
                _ => return compile("`this` in a static function".into()),
            },
            E::Base => return compile("`base`".into()),
            E::Name(id, n, _) => return self.name(*id, n, f),
            E::Member(a, n, g, quiet) => {
                if let E::Base = a.e {
                    let this = f.this.clone().unwrap();
                    return self.get(&this, n);
                }
                // a member and its type may share a name
                if let E::Name(id, an, _) = &a.e {
                    if self.local(f, an).is_none() && self.member_here(f, an) {
                        if let Some(TRef::Class(c)) = self.name_type(*id, an, f) {
                            if self.p.classes[c].kind == Kind::Enum || self.p.chain(c).any(|i| self.p.classes[i].methods.iter().any(|m| m.0.is_static && m.0.name == *n)) {
                                return self.get_static(&TRef::Class(c), n);
                            }
                        }
                    }
                }
                if let E::This = a.e {
                    if let Some(own) = &f.own {
                        let c = f.class.unwrap();
                        if let Some(i) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).position(|x| x.0.name == *n) {
                            return Ok(own.borrow()[i].clone());
                        }
                    }
                }
                let o = self.eval(a, f)?;
                if *quiet && matches!(o, V::Null | V::None) {
                    return Ok(V::Null);
                }
                let _ = g;
                return self.get(&o, n);
            }
            E::Call(a, args) => {
                match &a.e {
                    E::Member(o, n, g, quiet) => {
                        if let E::Base = o.e {
                            let args = self.evals(args, f)?;
                            let Some(b) = f.class.and_then(|c| self.p.classes[c].base) else { return compile("`base`".into()) };
                            let m = self.find_method(b, n, &args)?;
                            return self.invoke(m.0, m.1, m.2, f.this.clone(), args);
                        }
                        // the function is found before the arguments are computed, but called after
                        let callee = match &o.e {
                            E::Name(..) | E::This | E::Member(..) => self.eval(o, f),
                            _ => self.eval(o, f),
                        }?;
                        if *quiet && matches!(callee, V::Null | V::None) {
                            return Ok(V::Null);
                        }
                        let mut args = self.evals(args, f)?;
                        if let V::Ty(t) = &callee {
                            // type arguments matter to the test framework only
                            if let (TRef::Built("Xunit.Assert"), [t]) = (t, g.as_slice()) {
                                args.insert(0, V::Ty(self.tref(t, f.scope, f.class)?))
                            }
                            let m = self.get_static(&t.clone(), n)?;
                            return self.call_value(&m, args);
                        }
                        if let V::Obj(ob) = &callee {
                            // a field or property that holds a function
                            if !self.p.chain(ob.class).any(|i| self.p.classes[i].methods.iter().any(|m| m.0.name == *n)) && (self.find_prop(ob.class, n).is_some() || ob.fields.borrow().iter().any(|x| x.0 == n)) {
                                let m = self.get(&callee, n)?;
                                return self.call_value(&m, args);
                            }
                        }
                        return self.call_method(&callee, n, args);
                    }
                    E::Name(id, n, _) if self.local(f, n).is_none() => {
                        let args = self.evals(args, f)?;
                        let mut c = f.class;
                        while let Some(k) = c {
                            if self.p.chain(k).any(|i| self.p.classes[i].methods.iter().any(|m| m.0.name == *n)) {
                                // virtual functions of the object itself
                                let from = match &f.this {
                                    Some(V::Obj(o)) if self.p.is_a(o.class, k) => o.class,
                                    _ => k,
                                };
                                let m = self.find_method(from, n, &args)?;
                                return self.invoke(m.0, m.1, m.2, f.this.clone(), args);
                            }
                            c = self.p.classes[k].outer
                        }
                        let v = self.name(*id, n, f)?;
                        return self.call_value(&v, args);
                    }
                    _ => {}
                }
                let c = self.eval(a, f)?;
                let args = self.evals(args, f)?;
                return self.call_value(&c, args);
            }
            E::Index(a, i) => {
                let a = self.eval(a, f)?;
                let i = self.evals(i, f)?;
                return self.index(&a, i);
            }
            E::New(t, args, init) => {
                let r = self.tref(t, f.scope, f.class)?;
                let args = self.evals(args, f)?;
                let v = match (&r, args.as_slice()) {
                    (TRef::Class(c), _) => self.new_object(*c, args)?,
                    (TRef::IntPtr, [V::Ptr(_, a)]) => V::Ptr(None, *a),
                    (TRef::IntPtr, [V::Int(_, a)]) => V::Ptr(None, *a as u64),
                    (TRef::Built("System.Text.UTF8Encoding"), _) => V::Enc(true),
                    (TRef::Built("System.Text.UnicodeEncoding"), _) => V::Enc(false),
                    (TRef::Built("System.ReadOnlySpan" | "System.Span"), [V::Ptr(Some(Prim::U8), a), V::Int(Prim::I32, n)]) if *n >= 0 => V::Span(*a, *n as usize),
                    _ => return compile(format!("new {}", show_ty(t))),
                };
                for (n, e) in init {
                    let x = self.eval(e, f)?;
                    self.set(&v, n, x)?
                }
                v
            }
            E::NewArr(t, n, items) => {
                match t {
                    Ty::Name(..) if self.tref(t, f.scope, f.class)? == TRef::Prim(Prim::U8) => {}
                    _ => return compile("an array of something else than bytes".into()),
                }
                let mut b = vec![];
                for i in items {
                    match self.eval(i, f)? {
                        V::Int(_, x) => b.push(x as u8),
                        v => return compile(format!("a {} in an array of bytes", self.shows(&v))),
                    }
                }
                if let Some(n) = n {
                    match self.eval(n, f)? {
                        V::Int(_, n) => b.resize(n as usize, 0),
                        v => return compile(format!("a size of {}", self.shows(&v))),
                    }
                }
                V::Bytes(Rc::new(RefCell::new(b)))
            }
            E::Cast(t, a) => {
                let v = self.eval(a, f)?;
                return self.cast(v, t, f);
            }
            E::Un("&", a) => return self.address_of(a, f),
            E::Un("*", a) => {
                let v = self.eval(a, f)?;
                return self.deref(v);
            }
            E::Un(op @ ("++" | "--"), a) => {
                let v = self.eval(a, f)?;
                let n = self.binary(if *op == "++" { "+" } else { "-" }, v.clone(), V::Int(Prim::I32, 1))?;
                let n = same_type(&v, n);
                self.assign(a, n.clone(), f)?;
                n
            }
            E::Post(op, a) => {
                let v = self.eval(a, f)?;
                let n = self.binary(if *op == "++" { "+" } else { "-" }, v.clone(), V::Int(Prim::I32, 1))?;
                let n = same_type(&v, n);
                self.assign(a, n, f)?;
                v
            }
            E::Un(op, a) => {
                let v = self.eval(a, f)?;
                match (*op, v) {
                    ("!", V::Bool(b)) => V::Bool(!b),
                    ("-", V::Int(p, i)) => {
                        if p == Prim::U32 || p.size() < 4 {
                            self.wrap(if p == Prim::U32 { Prim::I64 } else { Prim::I32 }, -i)
                        } else {
                            self.wrap(p, -i)
                        }
                    }
                    ("-", V::Flt(p, x)) => V::Flt(p, -x),
                    ("+", v) => v,
                    ("~", V::Int(p, i)) => self.wrap(if p.size() < 4 { Prim::I32 } else { p }, !i),
                    (op, v) => return compile(format!("{op} on a {}", self.shows(&v))),
                }
            }
            E::Bin(op, a, b) => {
                let x = self.eval(a, f)?;
                match (*op, &x) {
                    ("&&", V::Bool(false)) => return Ok(V::Bool(false)),
                    ("||", V::Bool(true)) => return Ok(V::Bool(true)),
                    ("??", V::Null | V::None) => return self.eval(b, f),
                    ("??", _) => return Ok(x),
                    _ => {}
                }
                let y = self.eval(b, f)?;
                return self.binary(op, x, y);
            }
            E::Assign(op, l, r) => {
                if *op == "??=" {
                    let v = self.eval(l, f)?;
                    if !matches!(v, V::Null | V::None) {
                        return Ok(v);
                    }
                    let v = self.eval(r, f)?;
                    self.assign(l, v.clone(), f)?;
                    return Ok(v);
                }
                if *op == "=" {
                    // the target's object is computed before the value
                    return self.assign_to(l, r, f);
                }
                let a = self.eval(l, f)?;
                let b = self.eval(r, f)?;
                let v = self.binary(&op[..op.len() - 1], a.clone(), b)?;
                let v = same_type(&a, v);
                self.assign(l, v.clone(), f)?;
                v
            }
            E::Cond(c, a, b) => {
                let V::Bool(c) = self.eval(c, f)? else { return compile("a condition".into()) };
                return self.eval(if c { a } else { b }, f);
            }
            E::Lambda(l) => V::Fn(Rc::new(Func::Lambda(l.clone(), f.clone()))),
            E::Tuple(v) => V::Tuple(Rc::new(self.evals(v, f)?)),
            E::Default(None) => V::Uninit,
            E::Default(Some(t)) => return self.default(t, f.scope, f.class),
            E::Throw(e) => {
                let v = self.eval(e, f)?;
                return Err(Ctl::Throw(v));
            }
            E::Is(a, p) => {
                let v = self.eval(a, f)?;
                V::Bool(self.fits(&v, p, f)?)
            }
            E::As(a, t) => {
                let v = self.eval(a, f)?;
                if !matches!(v, V::Null | V::None) && self.coerce(v.clone(), t, f.scope, f.class).is_ok() {
                    v
                } else {
                    V::Null
                }
            }
            E::Switch(a, arms) => {
                let v = self.eval(a, f)?;
                for (p, g, e) in arms {
                    let depth = f.vars.borrow().len();
                    if self.fits(&v, p, f)? && g.as_ref().map_or(Ok(true), |g| self.truth(g, f))? {
                        let r = self.eval(e, f);
                        f.vars.borrow_mut().truncate(depth);
                        return r;
                    }
                    f.vars.borrow_mut().truncate(depth)
                }
                return self.throw("System.InvalidOperationException", "no case fits");
            }
            E::TypeOf(t) => V::Ty(self.tref(t, f.scope, f.class)?),
            E::NameOf(n) => utf16(n),
        })
    }
    fn binary(&mut self, op: &str, a: V, b: V) -> R {
        use Prim::*;
        if op == "==" || op == "!=" {
            let eq = match (&a, &b) {
                (V::Flt(_, x), V::Flt(_, y)) => x == y,
                (V::Uninit, V::Null) | (V::Null, V::Uninit) => true,
                (V::Int(..) | V::Flt(..), V::Int(..) | V::Flt(..)) | (V::Bool(_), V::Bool(_)) | (V::Str(_), V::Str(_)) | (V::Ptr(..), V::Ptr(..)) | (V::Obj(_), V::Obj(_)) | (V::Tuple(_), V::Tuple(_)) => self.same(&a, &b),
                (V::Enum(c, _), V::Enum(d, _)) if c == d => self.same(&a, &b),
                (V::Enum(_, x), V::Int(_, 0)) | (V::Int(_, 0), V::Enum(_, x)) => *x == 0,
                (V::Null | V::None, _) | (_, V::Null | V::None) => {
                    let p = |v: &V| matches!(v, V::Null | V::None | V::Ptr(Some(_), 0));
                    p(&a) && p(&b)
                }
                // structs without operators do not compare
                _ => return compile(format!("{op} between a {} and a {}", self.shows(&a), self.shows(&b))),
            };
            return Ok(V::Bool(eq == (op == "==")));
        }
        let no = |me: &Interp, a: &V, b: &V| compile(format!("{op} between a {} and a {}", me.shows(a), me.shows(b)));
        Ok(match (&a, &b) {
            (V::Bool(x), V::Bool(y)) => V::Bool(match op {
                "&&" | "&" => *x && *y,
                "||" | "|" => *x || *y,
                "^" => x != y,
                _ => return no(self, &a, &b),
            }),
            (V::Str(x), y) if op == "+" => {
                let mut s = x.to_vec();
                s.extend(text(y).encode_utf16());
                V::Str(Rc::new(s))
            }
            (x, V::Str(y)) if op == "+" => {
                let mut s: Vec<u16> = text(x).encode_utf16().collect();
                s.extend(y.iter());
                V::Str(Rc::new(s))
            }
            (V::Ptr(p, x), V::Int(_, i)) if op == "+" || op == "-" => {
                let w = p.map_or(1, |p| p.size()) as i128;
                let i = if op == "+" { *i * w } else { -*i * w };
                V::Ptr(*p, (*x as i128 + i) as u64)
            }
            (V::Int(p, x), V::Int(q, y)) => {
                let t = if *p == U64 || *q == U64 {
                    U64
                } else if *p == I64 || *q == I64 || (*p == U32 && q.range().0 < 0) || (*q == U32 && p.range().0 < 0) {
                    I64
                } else if *p == U32 || *q == U32 {
                    U32
                } else {
                    I32
                };
                match op {
                    "+" => self.wrap(t, x + y),
                    "-" => self.wrap(t, x - y),
                    "*" => self.wrap(t, x.wrapping_mul(*y)),
                    "/" | "%" if *y == 0 => return self.throw("System.ArgumentException", "division by zero"),
                    "/" => self.wrap(t, x / y),
                    "%" => self.wrap(t, x % y),
                    "&" => self.wrap(t, x & y),
                    "|" => self.wrap(t, x | y),
                    "^" => self.wrap(t, x ^ y),
                    "<<" => self.wrap(t, x << (y & 63)),
                    "<" => V::Bool(x < y),
                    ">" => V::Bool(x > y),
                    "<=" => V::Bool(x <= y),
                    ">=" => V::Bool(x >= y),
                    _ => return no(self, &a, &b),
                }
            }
            (V::Int(..) | V::Flt(..), V::Int(..) | V::Flt(..)) => {
                let num = |v: &V| match v {
                    V::Int(_, i) => *i as f64,
                    V::Flt(_, x) => *x,
                    _ => 0.0,
                };
                let (x, y) = (num(&a), num(&b));
                let t = if matches!(a, V::Flt(F64, _)) || matches!(b, V::Flt(F64, _)) { F64 } else { F32 };
                let v = match op {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    "/" => x / y,
                    "<" => return Ok(V::Bool(x < y)),
                    ">" => return Ok(V::Bool(x > y)),
                    "<=" => return Ok(V::Bool(x <= y)),
                    ">=" => return Ok(V::Bool(x >= y)),
                    _ => return no(self, &a, &b),
                };
                V::Flt(t, if t == F32 { v as f32 as f64 } else { v })
            }
            (V::Enum(c, x), V::Enum(d, y)) if c == d => match op {
                "|" => V::Enum(*c, x | y),
                "&" => V::Enum(*c, x & y),
                "<" => V::Bool(x < y),
                ">" => V::Bool(x > y),
                _ => return no(self, &a, &b),
            },
            _ => return no(self, &a, &b),
        })
    }
    fn assign_to(&mut self, l: &'static Ex, r: &'static Ex, f: &Frame) -> R {
        match &l.e {
            E::Member(a, n, _, _) if !matches!((&a.e, &f.own), (E::This, Some(_))) => {
                // locals of a struct type are changed in place
                if let E::Name(_, an, _) = &a.e {
                    if matches!(self.local(f, an), Some(V::Struct(..) | V::Nat(..))) {
                        let v = self.eval(r, f)?;
                        self.assign(l, v.clone(), f)?;
                        return Ok(v);
                    }
                }
                let o = self.eval(a, f)?;
                let v = self.eval(r, f)?;
                self.set(&o, n, v.clone())?;
                Ok(v)
            }
            E::Index(a, i) => {
                let a = self.eval(a, f)?;
                let i = self.evals(i, f)?;
                let v = self.eval(r, f)?;
                self.set_index(&a, i, v.clone())?;
                Ok(v)
            }
            _ => {
                let v = self.eval(r, f)?;
                self.assign(l, v.clone(), f)?;
                Ok(v)
            }
        }
    }
    fn assign(&mut self, l: &'static Ex, v: V, f: &Frame) -> R<()> {
        match &l.e {
            E::Name(id, n, _) => {
                let found = f.vars.borrow().iter().rposition(|x| &*x.name == n.as_str());
                if let Some(i) = found {
                    let ty = f.vars.borrow()[i].ty;
                    let v = match ty {
                        Some((t, s, c)) => self.coerce(v, t, s, c)?,
                        None => v,
                    };
                    let mut vars = f.vars.borrow_mut();
                    if let Some(c) = &vars[i].cell {
                        let mut c = c.borrow_mut();
                        match &v {
                            V::Nat(_, b) => {
                                for (w, x) in c.iter_mut().zip(b.chunks(8)) {
                                    let mut y = [0; 8];
                                    y[..x.len()].copy_from_slice(x);
                                    *w = u64::from_le_bytes(y)
                                }
                            }
                            V::Int(_, x) => c[0] = *x as u64,
                            _ => {}
                        }
                    }
                    vars[i].value = v;
                    return Ok(());
                }
                if n == "_" {
                    return Ok(());
                }
                if self.member_here(f, n) {
                    if let Some(own) = &f.own {
                        let c = f.class.unwrap();
                        if let Some(i) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).position(|x| x.0.name == *n) {
                            let (fd, s) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).nth(i).unwrap();
                            let v = self.coerce(v, &fd.ty, *s, Some(c))?;
                            own.borrow_mut()[i] = v;
                            return Ok(());
                        }
                    }
                    let c = f.class.unwrap();
                    if self.p.chain(c).any(|i| self.p.classes[i].fields.iter().any(|x| x.0.name == *n && x.0.is_static)) {
                        return self.set(&V::Ty(TRef::Class(c)), n, v);
                    }
                    if let Some(t) = &f.this {
                        return self.set(&t.clone(), n, v);
                    }
                }
                let _ = id;
                compile(format!("there is no variable {n}"))
            }
            E::Member(a, n, _, _) => {
                if let (E::This, Some(own)) = (&a.e, &f.own) {
                    let c = f.class.unwrap();
                    let Some(i) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).position(|x| x.0.name == *n) else { return compile(format!("there is no field {n}")) };
                    let (fd, s) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).nth(i).unwrap();
                    let v = self.coerce(v, &fd.ty, *s, Some(c))?;
                    own.borrow_mut()[i] = v;
                    return Ok(());
                }
                if let E::Name(_, an, _) = &a.e {
                    if let Some(V::Struct(c, fields)) = self.local(f, an) {
                        let Some(i) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).position(|x| x.0.name == *n) else { return compile(format!("there is no field {n}")) };
                        let (fd, s) = self.p.classes[c].fields.iter().filter(|x| !x.0.is_static).nth(i).unwrap();
                        let mut fields = fields.to_vec();
                        fields[i] = self.coerce(v, &fd.ty, *s, Some(c))?;
                        return self.assign(a, V::Struct(c, Rc::new(fields)), f);
                    }
                }
                let o = self.eval(a, f)?;
                self.set(&o, n, v)
            }
            E::Index(a, i) => {
                let a = self.eval(a, f)?;
                let i = self.evals(i, f)?;
                self.set_index(&a, i, v)
            }
            _ => compile("an assignment to this".into()),
        }
    }
    // ---- statements ----
    fn exec(&mut self, s: &'static S, f: &Frame) -> R<()> {
        self.tick()?;
        let depth = f.vars.borrow().len();
        let r = self.exec_in(s, f);
        // names that a condition gives live on
        if !matches!(s, S::Local(..) | S::Expr(_) | S::If(..)) {
            f.vars.borrow_mut().truncate(depth)
        }
        r
    }
    /// Whether a value fits a pattern; what the pattern names is a variable from then on.
    fn fits(&mut self, v: &V, p: &'static Pat, f: &Frame) -> R<bool> {
        let null = matches!(v, V::Null | V::None);
        let name = |n: &'static Option<String>| {
            if let Some(n) = n {
                f.vars.borrow_mut().push(Var { name: n.as_str().into(), value: v.clone(), ty: None, cell: None })
            }
        };
        Ok(match p {
            Pat::Any(n) => {
                name(n);
                true
            }
            Pat::Null => null,
            Pat::Some(n) => {
                if !null {
                    name(n)
                }
                !null
            }
            Pat::Const(e) => {
                let c = self.eval(e, f)?;
                matches!(self.binary("==", v.clone(), c)?, V::Bool(true))
            }
            Pat::Type(t, e, n) => {
                let prim = matches!(t, Ty::Name(_, n, _) if n.len() == 1 && super::parse::PRIMS.contains(&n[0].as_str()));
                if let (Some(e), false) = (e, prim) {
                    if self.tref(t, f.scope, f.class).is_err() {
                        let c = self.eval(e, f)?;
                        return Ok(matches!(self.binary("==", v.clone(), c)?, V::Bool(true)));
                    }
                }
                let yes = !null && self.coerce(v.clone(), t, f.scope, f.class).is_ok();
                if yes {
                    name(n)
                }
                yes
            }
            Pat::Rel(op, e) => {
                let c = self.eval(e, f)?;
                !null && matches!(self.binary(op, v.clone(), c)?, V::Bool(true))
            }
            Pat::Not(p) => !self.fits(v, p, f)?,
            Pat::And(p, q) => self.fits(v, p, f)? && self.fits(v, q, f)?,
            Pat::Or(p, q) => self.fits(v, p, f)? || self.fits(v, q, f)?,
        })
    }
    fn truth(&mut self, e: &'static Ex, f: &Frame) -> R<bool> {
        match self.eval(e, f)? {
            V::Bool(b) => Ok(b),
            v => compile(format!("a {} is no condition", self.shows(&v))),
        }
    }
    fn exec_in(&mut self, s: &'static S, f: &Frame) -> R<()> {
        match s {
            S::Block(v) => {
                for s in v {
                    self.exec(s, f)?
                }
                Ok(())
            }
            S::Local(t, vs) => {
                for (n, e) in vs {
                    let v = match e {
                        Some(e) => {
                            let v = self.eval(e, f)?;
                            self.coerce(v, t, f.scope, f.class)?
                        }
                        None => self.default(t, f.scope, f.class)?,
                    };
                    f.vars.borrow_mut().push(Var { name: n.as_str().into(), value: v, ty: Some((t, f.scope, f.class)), cell: None })
                }
                Ok(())
            }
            S::Expr(e) => self.eval(e, f).map(|_| ()),
            S::If(c, a, b) => {
                if self.truth(c, f)? {
                    self.exec(a, f)
                } else if let Some(b) = b {
                    self.exec(b, f)
                } else {
                    Ok(())
                }
            }
            S::While(c, b) => {
                while self.truth(c, f)? {
                    match self.exec(b, f) {
                        Err(Ctl::Break) => break,
                        Err(Ctl::Continue) => {}
                        r => r?,
                    }
                }
                Ok(())
            }
            S::Do(b, c) => {
                loop {
                    match self.exec(b, f) {
                        Err(Ctl::Break) => break,
                        Err(Ctl::Continue) => {}
                        r => r?,
                    }
                    if !self.truth(c, f)? {
                        break;
                    }
                }
                Ok(())
            }
            S::Each(t, n, e, b) => {
                let all = match self.eval(e, f)? {
                    V::Tuple(v) => v.to_vec(),
                    V::Bytes(b) => {
                        let b = b.borrow().clone();
                        b.into_iter().map(|b| V::Int(Prim::U8, b as i128)).collect()
                    }
                    V::Null => return self.throw("System.NullReferenceException", "foreach"),
                    v => return compile(format!("`foreach` over a {}", self.shows(&v))),
                };
                for v in all {
                    let depth = f.vars.borrow().len();
                    let v = self.coerce(v, t, f.scope, f.class)?;
                    f.vars.borrow_mut().push(Var { name: n.as_str().into(), value: v, ty: None, cell: None });
                    let r = self.exec(b, f);
                    f.vars.borrow_mut().truncate(depth);
                    match r {
                        Err(Ctl::Break) => break,
                        Err(Ctl::Continue) => {}
                        r => r?,
                    }
                }
                Ok(())
            }
            S::Switch(e, v) => {
                let x = self.eval(e, f)?;
                for (labels, b) in v {
                    for (p, g) in labels {
                        if self.fits(&x, p, f)? && g.as_ref().map_or(Ok(true), |g| self.truth(g, f))? {
                            for s in b {
                                match self.exec(s, f) {
                                    Err(Ctl::Break) => return Ok(()),
                                    r => r?,
                                }
                            }
                            return Ok(());
                        }
                    }
                }
                Ok(())
            }
            S::For(i, c, st, b) => {
                for s in i {
                    self.exec(s, f)?
                }
                loop {
                    if let Some(c) = c {
                        if !self.truth(c, f)? {
                            break;
                        }
                    }
                    match self.exec(b, f) {
                        Err(Ctl::Break) => break,
                        Err(Ctl::Continue) => {}
                        r => r?,
                    }
                    self.evals(st, f)?;
                }
                Ok(())
            }
            S::Return(None) => Err(Ctl::Return(V::Void)),
            S::Return(Some(e)) => {
                let v = self.eval(e, f)?;
                Err(Ctl::Return(v))
            }
            S::Throw(Some(e)) => {
                let v = self.eval(e, f)?;
                Err(Ctl::Throw(v))
            }
            S::Throw(None) => compile("`throw` outside of `catch`".into()),
            S::Fixed(t, n, e, b) => {
                // an array stands for the address of its first item
                let v = match &e.e {
                    E::Un("&", _) => self.eval(e, f)?,
                    _ => match self.eval(e, f)? {
                        V::Bytes(b) => {
                            let b = b.borrow();
                            V::Ptr(Some(Prim::U8), if b.is_empty() { 0 } else { b.as_ptr() as u64 })
                        }
                        V::Null => V::Null,
                        v => return compile(format!("`fixed` of a {}", self.shows(&v))),
                    },
                };
                let v = self.coerce(v, t, f.scope, f.class)?;
                f.vars.borrow_mut().push(Var { name: n.as_str().into(), value: v, ty: None, cell: None });
                self.exec(b, f)
            }
            S::Using(l, b) => {
                self.exec(l, f)?;
                let v = match &**l {
                    S::Local(..) => f.vars.borrow().last().map(|v| v.value.clone()),
                    _ => None,
                };
                let r = self.exec(b, f);
                if let (Some(v @ V::Obj(_)), false) = (v, matches!(r, Err(Ctl::Bug(..)))) {
                    self.call_method(&v, "Dispose", vec![])?;
                }
                r
            }
            S::Try(b, cs, fin) => {
                let mut r = self.exec(b, f);
                if let Err(Ctl::Throw(v)) = r {
                    let mut out = None;
                    for (t, n, b) in cs {
                        let fits = match t {
                            None => true,
                            Some(t) => self.coerce(v.clone(), t, f.scope, f.class).is_ok(),
                        };
                        if fits {
                            let d = f.vars.borrow().len();
                            if let Some(n) = n {
                                f.vars.borrow_mut().push(Var { name: n.as_str().into(), value: v.clone(), ty: None, cell: None })
                            }
                            let mut x = self.exec(b, f);
                            if let Err(Ctl::Bug(_, m)) = &x {
                                if m == "`throw` outside of `catch`" {
                                    x = Err(Ctl::Throw(v.clone()))
                                }
                            }
                            f.vars.borrow_mut().truncate(d);
                            out = Some(x);
                            break;
                        }
                    }
                    r = out.unwrap_or(Err(Ctl::Throw(v)))
                }
                if let (Some(b), false) = (fin, matches!(r, Err(Ctl::Bug(..)))) {
                    self.exec(b, f)?
                }
                r
            }
            S::Break => Err(Ctl::Break),
            S::Continue => Err(Ctl::Continue),
        }
    }
    // ---- for drivers ----
    /// What the garbage collector does to an object that is not used any more.
    pub fn finalize(&mut self, o: &Rc<Obj>) -> R<()> {
        let p: &'static Program = self.p;
        self.objects.retain(|x| !Rc::ptr_eq(x, o));
        for i in p.chain(o.class) {
            if let Some((m, s)) = &p.classes[i].dtor {
                let f = self.frame(Some(i), *s, Some(V::Obj(o.clone())));
                self.run(&m.body, &f)?;
            }
        }
        Ok(())
    }
    pub fn new_by_name(&mut self, full: &str, args: Vec<V>) -> R {
        let c = self.class(full)?;
        self.new_object(c, args)
    }
    pub fn call_static(&mut self, full: &str, name: &str, args: Vec<V>) -> R {
        let c = self.class(full)?;
        let m = self.find_method(c, name, &args)?;
        self.invoke(m.0, m.1, m.2, None, args)
    }
    pub fn direct(&mut self, name: &str, args: Vec<V>) -> R {
        let p: &'static Program = self.p;
        match p.lib.exact(name) {
            Some(f) => self.native(f, args),
            None => bug("missing", format!("no exported function is called {name}")),
        }
    }
    /// The text of a `ReadOnlySpan<byte>`.
    pub fn span_text(&self, v: &V) -> Option<String> {
        match v {
            V::Span(a, n) => Some(text(&self.read_text(*a, *n))),
            _ => None,
        }
    }
    pub fn structure(&mut self, full: &str, args: Vec<V>) -> R {
        self.new_by_name(full, args)
    }
    pub fn enum_value(&mut self, full: &str, name: &str) -> R {
        let c = self.class(full)?;
        self.get_static(&TRef::Class(c), name)
    }
}
fn same_type(like: &V, v: V) -> V {
    match (like, v) {
        (V::Int(p, _), V::Int(_, i)) => {
            let (a, b) = p.range();
            let n = b - a + 1;
            V::Int(*p, (i - a).rem_euclid(n) + a)
        }
        (V::Flt(Prim::F32, _), V::Flt(_, x)) => V::Flt(Prim::F32, x as f32 as f64),
        (_, v) => v,
    }
}
fn set_raw(o: &Rc<Obj>, name: &str, v: V) {
    if let Some(f) = o.fields.borrow_mut().iter_mut().find(|f| f.0 == name) {
        f.1 = v
    }
}
fn is_void(t: &Ty) -> bool {
    matches!(t, Ty::Name(_, n, _) if n.len() == 1 && n[0] == "void")
}
fn show_ty(t: &Ty) -> String {
    match t {
        Ty::Name(_, n, _) => n.join("."),
        Ty::Ptr(t) => format!("{}*", show_ty(t)),
        Ty::Opt(t) => format!("{}?", show_ty(t)),
        Ty::Arr(t) => format!("{}[]", show_ty(t)),
        Ty::Tuple(v) => format!("({})", v.iter().map(show_ty).collect::<Vec<_>>().join(", ")),
        Ty::Var => "var".into(),
    }
}
