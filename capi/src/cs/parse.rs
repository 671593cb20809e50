//! C# source text to `ast`.
use super::ast::*;
use super::lex::{lex, Tok, T};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

static NEXT: AtomicU32 = AtomicU32::new(1);
fn id() -> Id {
    NEXT.fetch_add(1, Ordering::Relaxed)
}
type R<X> = Result<X, String>;
pub struct Parser {
    t: Vec<Tok>,
    i: usize,
    /// the last attributes had `Fact` among them
    fact: bool,
}
const MODS: &[&str] = &[
    "public", "private", "protected", "internal", "static", "sealed", "abstract", "override", "virtual", "unsafe", "readonly", "extern", "partial", "new", "const", "volatile", "async",
];
pub const PRIMS: &[&str] = &["byte", "sbyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string", "object", "void", "decimal", "nint", "nuint"];
const KEYWORDS: &[&str] = &[
    "if", "else", "return", "throw", "while", "for", "foreach", "do", "switch", "case", "break", "continue", "new", "this", "base", "null", "true", "false", "is", "as", "in", "out", "ref", "using", "namespace", "class", "struct",
    "enum", "interface", "try", "catch", "finally", "fixed", "unsafe", "lock", "typeof", "default", "operator", "const", "static", "public", "private", "protected", "internal", "sealed", "abstract", "override", "virtual",
    "readonly", "extern", "goto", "checked", "unchecked", "sizeof", "stackalloc", "params", "event", "delegate",
];
pub fn parse(src: &str) -> R<Ns> {
    let mut p = Parser { t: lex(src)?, i: 0, fact: false };
    let n = p.ns_body(String::new())?;
    match p.peek() {
        T::End => Ok(n),
        _ => p.err("a declaration"),
    }
}
impl Parser {
    fn peek(&self) -> &T {
        &self.t[self.i].t
    }
    fn peek_at(&self, n: usize) -> &T {
        &self.t[(self.i + n).min(self.t.len() - 1)].t
    }
    fn line(&self) -> u32 {
        self.t[self.i].line
    }
    fn err<X>(&self, want: &str) -> R<X> {
        Err(format!("line {}: expected {want}, found {:?}", self.line(), self.peek()))
    }
    fn bump(&mut self) -> T {
        let t = self.t[self.i].t.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1
        }
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(q) if *q == p)
    }
    fn is_id(&self, p: &str) -> bool {
        matches!(self.peek(), T::Id(q) if q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let b = self.is(p);
        if b {
            self.bump();
        }
        b
    }
    fn eat_id(&mut self, p: &str) -> bool {
        let b = self.is_id(p);
        if b {
            self.bump();
        }
        b
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            self.err(&format!("`{p}`"))
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            T::Id(s) if !KEYWORDS.contains(&s.as_str()) => {
                let s = s.clone();
                self.bump();
                Ok(s)
            }
            _ => self.err("a name"),
        }
    }
    fn try_<X>(&mut self, f: impl FnOnce(&mut Self) -> R<X>) -> Option<X> {
        let i = self.i;
        match f(self) {
            Ok(x) => Some(x),
            Err(_) => {
                self.i = i;
                None
            }
        }
    }
    // ---- declarations ----
    fn dotted(&mut self) -> R<Vec<String>> {
        let mut v = vec![self.ident()?];
        while self.eat(".") {
            v.push(self.ident()?)
        }
        Ok(v)
    }
    fn ns_body(&mut self, name: String) -> R<Ns> {
        let mut n = Ns { name, ..Ns::default() };
        loop {
            if self.is_id("using") {
                self.bump();
                let is_static = self.eat_id("static");
                let a = self.dotted()?;
                if self.eat("=") {
                    let b = self.dotted()?;
                    let g = if self.is("<") { self.generics()? } else { vec![] };
                    n.aliases.push((a[0].clone(), b, g))
                } else if !is_static {
                    n.usings.push(a.join("."))
                }
                self.want(";")?
            } else if self.is_id("namespace") {
                self.bump();
                let name = self.dotted()?.join(".");
                if self.eat(";") {
                    let rest = self.ns_body(name)?;
                    n.inner.push(rest)
                } else {
                    self.want("{")?;
                    let m = self.ns_body(name)?;
                    self.want("}")?;
                    n.inner.push(m)
                }
            } else if matches!(self.peek(), T::End) || self.is("}") {
                return Ok(n);
            } else {
                self.attrs()?;
                let m = self.mods();
                let d = self.decl(&m)?;
                n.decls.push(d)
            }
        }
    }
    /// The entry point of a `DllImport` among the attributes ("" for the method's own name).
    fn attrs(&mut self) -> R<Option<String>> {
        let mut dll = None;
        self.fact = false;
        while self.is("[") {
            let mut depth = 0;
            let s = self.i;
            loop {
                match self.bump() {
                    T::P("[") => depth += 1,
                    T::P("]") => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    T::Id(x) if x == "DllImport" || x == "DllImportAttribute" => dll = Some(String::new()),
                    T::Id(x) if x == "Fact" => self.fact = true,
                    T::Id(x) if x == "EntryPoint" && self.is("=") => {
                        self.bump();
                        match self.bump() {
                            T::Str(v) => dll = Some(String::from_utf16_lossy(&v)),
                            _ => return self.err("a text"),
                        }
                    }
                    T::End => {
                        self.i = s;
                        return self.err("an attribute");
                    }
                    _ => {}
                }
            }
        }
        Ok(dll)
    }
    fn mods(&mut self) -> Vec<String> {
        let mut m = vec![];
        while let T::Id(s) = self.peek() {
            if !MODS.contains(&s.as_str()) {
                break;
            }
            // `partial` and the like may be names
            m.push(s.clone());
            self.bump();
        }
        m
    }
    fn type_params(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.eat("<") {
            loop {
                v.push(self.ident()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.want(">")?
        }
        Ok(v)
    }
    fn wheres(&mut self) -> R<()> {
        while self.is_id("where") {
            while !self.is("{") && !self.is("=>") && !self.is(";") {
                if matches!(self.peek(), T::End) {
                    return self.err("`{`");
                }
                self.bump();
                if self.is_id("where") {
                    break;
                }
            }
        }
        Ok(())
    }
    fn decl(&mut self, m: &[String]) -> R<Decl> {
        let line = self.line();
        let kind = match self.bump() {
            T::Id(s) if s == "class" || s == "record" => Kind::Class,
            T::Id(s) if s == "struct" => Kind::Struct,
            T::Id(s) if s == "enum" => Kind::Enum,
            T::Id(s) if s == "interface" => Kind::Interface,
            _ => {
                self.i -= 1;
                return self.err("a type");
            }
        };
        let name = self.ident()?;
        let mut d = Decl {
            kind,
            generics: self.type_params()?,
            bases: vec![],
            fields: vec![],
            props: vec![],
            methods: vec![],
            ctors: vec![],
            dtor: None,
            nested: vec![],
            consts: vec![],
            is_abstract: m.iter().any(|x| x == "abstract"),
            is_static: m.iter().any(|x| x == "static"),
            line,
            name,
        };
        if self.eat(":") {
            loop {
                d.bases.push(self.ty()?);
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.wheres()?;
        self.want("{")?;
        if kind == Kind::Enum {
            while !self.is("}") {
                self.attrs()?;
                let n = self.ident()?;
                let v = if self.eat("=") { Some(self.expr()?) } else { None };
                d.consts.push((n, v));
                if !self.eat(",") {
                    break;
                }
            }
        } else {
            while !self.is("}") {
                self.member(&mut d)?
            }
        }
        self.want("}")?;
        self.eat(";");
        Ok(d)
    }
    fn params(&mut self, close: &str) -> R<Vec<Param>> {
        let mut v = vec![];
        while !self.is(close) {
            self.attrs()?;
            let mut rest = false;
            while self.is_id("this") || self.is_id("params") || self.is_id("in") {
                rest |= self.is_id("params");
                self.bump();
            }
            if self.is_id("ref") || self.is_id("out") {
                return self.err("a parameter by value");
            }
            let ty = self.ty()?;
            let name = self.ident()?;
            let default = if self.eat("=") { Some(self.expr()?) } else { None };
            v.push(Param { ty, name, default, rest });
            if !self.eat(",") {
                break;
            }
        }
        self.want(close)?;
        Ok(v)
    }
    fn body(&mut self) -> R<Body> {
        if self.eat(";") {
            Ok(Body::None)
        } else if self.eat("=>") {
            let e = self.expr()?;
            self.want(";")?;
            Ok(Body::Expr(e))
        } else {
            Ok(Body::Block(self.block()?))
        }
    }
    fn member(&mut self, d: &mut Decl) -> R<()> {
        let dll = self.attrs()?;
        let fact = self.fact;
        let line = self.line();
        if self.is("~") {
            self.bump();
            self.ident()?;
            self.want("(")?;
            self.want(")")?;
            let body = self.body()?;
            d.dtor = Some(Method { name: "~".into(), ret: Ty::Var, params: vec![], body, is_static: false, native: None, generics: vec![], chain: None, line, fact });
            return Ok(());
        }
        let m = self.mods();
        if let T::Id(s) = self.peek() {
            if ["class", "struct", "enum", "interface", "record"].contains(&s.as_str()) {
                let n = self.decl(&m)?;
                d.nested.push(n);
                return Ok(());
            }
            if ["event", "delegate", "operator", "implicit", "explicit"].contains(&s.as_str()) {
                return self.err("a supported member");
            }
        }
        let has = |x: &str| m.iter().any(|y| y == x);
        // `~Name` may follow modifiers
        if self.is("~") {
            return self.member(d);
        }
        // constructor
        if matches!((self.peek(), self.peek_at(1)), (T::Id(n), T::P("(")) if *n == d.name) {
            self.bump();
            self.bump();
            let params = self.params(")")?;
            let mut chain = None;
            if self.eat(":") {
                let base = if self.eat_id("base") {
                    true
                } else if self.eat_id("this") {
                    false
                } else {
                    return self.err("`base` or `this`");
                };
                self.want("(")?;
                chain = Some((base, self.args(")")?))
            }
            let body = self.body()?;
            d.ctors.push(Method { name: d.name.clone(), ret: Ty::Var, params, body, is_static: has("static"), native: None, generics: vec![], chain, line, fact });
            return Ok(());
        }
        let ty = self.ty()?;
        // indexer
        if self.is_id("this") {
            self.bump();
            self.want("[")?;
            let params = self.params("]")?;
            let (get, set, auto, init) = self.accessors()?;
            d.props.push(Prop { name: "this".into(), ty, params, get, set, auto, is_static: false, init });
            return Ok(());
        }
        let name = self.ident()?;
        if has("const") || self.is("=") || self.is(";") || self.is(",") {
            let is_static = has("static") || has("const");
            let mut name = name;
            loop {
                let init = if self.eat("=") { Some(self.expr()?) } else { None };
                d.fields.push(Field { name, ty: ty.clone(), init, is_static });
                if !self.eat(",") {
                    break;
                }
                name = self.ident()?
            }
            return self.want(";");
        }
        if self.is("{") || self.is("=>") {
            let (get, set, auto, init) = self.accessors()?;
            d.props.push(Prop { name, ty, params: vec![], get, set, auto, is_static: has("static"), init });
            return Ok(());
        }
        let generics = self.type_params()?;
        self.want("(")?;
        let params = self.params(")")?;
        self.wheres()?;
        let body = self.body()?;
        let native = dll.map(|e| if e.is_empty() { name.clone() } else { e });
        d.methods.push(Method { name, ret: ty, params, body, is_static: has("static"), native, generics, chain: None, line, fact });
        Ok(())
    }
    #[allow(clippy::type_complexity)]
    fn accessors(&mut self) -> R<(Option<Body>, Option<Body>, bool, Option<Ex>)> {
        if self.eat("=>") {
            let e = self.expr()?;
            self.want(";")?;
            return Ok((Some(Body::Expr(e)), None, false, None));
        }
        self.want("{")?;
        let (mut g, mut s) = (None, None);
        while !self.is("}") {
            self.attrs()?;
            self.mods();
            if self.eat_id("get") {
                g = Some(self.body()?)
            } else if self.eat_id("set") || self.eat_id("init") {
                s = Some(self.body()?)
            } else {
                return self.err("`get` or `set`");
            }
        }
        self.want("}")?;
        let auto = matches!(g, Some(Body::None));
        let init = if self.eat("=") {
            let e = self.expr()?;
            self.want(";")?;
            Some(e)
        } else {
            None
        };
        Ok((g, s, auto, init))
    }
    // ---- types ----
    fn generics(&mut self) -> R<Vec<Ty>> {
        let mut v = vec![];
        self.want("<")?;
        loop {
            v.push(self.ty()?);
            if !self.eat(",") {
                break;
            }
        }
        self.want(">")?;
        Ok(v)
    }
    pub fn ty(&mut self) -> R<Ty> {
        let mut t = if self.eat("(") {
            let mut v = vec![];
            loop {
                v.push(self.ty()?);
                let _ = self.try_(|p| p.ident());
                if !self.eat(",") {
                    break;
                }
            }
            self.want(")")?;
            Ty::Tuple(v)
        } else {
            let mut v = vec![self.ident()?];
            if v[0] == "global" && self.eat("::") {
                v = vec![self.ident()?]
            }
            let mut g = vec![];
            loop {
                if self.is("<") {
                    g = self.generics()?
                }
                if !self.eat(".") {
                    break;
                }
                v.push(self.ident()?)
            }
            if v.len() == 1 && v[0] == "var" {
                return Ok(Ty::Var);
            }
            Ty::Name(id(), v, g)
        };
        loop {
            if self.eat("*") {
                t = Ty::Ptr(Box::new(t))
            } else if self.is("?") {
                self.bump();
                t = Ty::Opt(Box::new(t))
            } else if self.is("[") && matches!(self.peek_at(1), T::P("]")) {
                self.bump();
                self.bump();
                t = Ty::Arr(Box::new(t))
            } else {
                return Ok(t);
            }
        }
    }
    // ---- statements ----
    pub fn block(&mut self) -> R<S> {
        self.want("{")?;
        let mut v = vec![];
        // functions may be called before the place where they stand
        let mut fns = 0;
        while !self.is("}") {
            match self.local_fn()? {
                Some(f) => {
                    v.insert(fns, f);
                    fns += 1
                }
                None => v.push(self.stmt()?),
            }
        }
        self.want("}")?;
        Ok(S::Block(v))
    }
    fn local_fn(&mut self) -> R<Option<S>> {
        let line = self.line();
        let start = self.i;
        let head = self.try_(|p| {
            while p.eat_id("static") || p.eat_id("unsafe") {}
            p.ty()?;
            let n = p.ident()?;
            p.want("(")?;
            let ps = p.params(")")?;
            if p.is("{") || p.is("=>") {
                Ok((n, ps))
            } else {
                p.err("a body")
            }
        });
        let Some((n, ps)) = head else {
            self.i = start;
            return Ok(None);
        };
        if ps.iter().any(|p| p.default.is_some() || p.rest) {
            return self.err("a function without optional parameters");
        }
        let b = if self.is("{") {
            Body::Block(self.block()?)
        } else {
            self.want("=>")?;
            let e = self.expr()?;
            self.want(";")?;
            Body::Expr(e)
        };
        let names = ps.into_iter().map(|p| p.name).collect();
        Ok(Some(S::Local(Ty::Var, vec![(n, Some(Ex { e: E::Lambda(Arc::new((names, b))), line }))])))
    }
    // ---- patterns ----
    fn pat(&mut self) -> R<Pat> {
        let mut a = self.pat_and()?;
        while self.eat_id("or") {
            a = Pat::Or(Box::new(a), Box::new(self.pat_and()?))
        }
        Ok(a)
    }
    fn pat_and(&mut self) -> R<Pat> {
        let mut a = self.pat_one()?;
        while self.eat_id("and") {
            a = Pat::And(Box::new(a), Box::new(self.pat_one()?))
        }
        Ok(a)
    }
    fn pat_name(&mut self) -> Option<String> {
        match self.peek() {
            T::Id(s) if !["and", "or", "when", "is", "as"].contains(&s.as_str()) => self.try_(|p| p.ident()),
            _ => None,
        }
    }
    fn pat_one(&mut self) -> R<Pat> {
        if self.eat_id("not") {
            return Ok(Pat::Not(Box::new(self.pat_one()?)));
        }
        if self.eat_id("null") {
            return Ok(Pat::Null);
        }
        if self.is_id("var") {
            self.bump();
            let n = self.ident()?;
            return Ok(Pat::Any(Some(n).filter(|n| n != "_")));
        }
        if self.is_id("_") {
            self.bump();
            return Ok(Pat::Any(None));
        }
        if self.is("{") && matches!(self.peek_at(1), T::P("}")) {
            self.bump();
            self.bump();
            return Ok(Pat::Some(self.pat_name().filter(|n| n != "_")));
        }
        for op in ["<=", ">=", "<", ">"] {
            if self.eat(op) {
                return Ok(Pat::Rel(op, self.bin(8)?));
            }
        }
        if self.is("(") {
            let p = self.try_(|p| {
                p.want("(")?;
                let x = p.pat()?;
                p.want(")")?;
                Ok(x)
            });
            if let Some(p) = p {
                return Ok(p);
            }
        }
        let i = self.i;
        let t = self.try_(|p| {
            let t = p.ty()?;
            if let Ty::Opt(t) = t {
                // the `?` belongs to a choice
                p.i -= 1;
                return Ok(*t);
            }
            Ok(t)
        });
        let Some(t) = t else { return Ok(Pat::Const(self.bin(8)?)) };
        let end = self.i;
        if let Some(n) = self.pat_name() {
            return Ok(Pat::Type(t, None, Some(n).filter(|n| n != "_")));
        }
        self.i = i;
        let e = self.try_(|p| p.postfix());
        if e.is_none() || self.i != end {
            if e.is_some() && self.i > end {
                return Ok(Pat::Const(e.unwrap()));
            }
            self.i = end;
            return Ok(Pat::Type(t, None, None));
        }
        Ok(Pat::Type(t, e.map(Box::new), None))
    }
    fn guard(&mut self) -> R<Option<Ex>> {
        Ok(if self.eat_id("when") { Some(self.expr()?) } else { None })
    }
    fn local(&mut self) -> R<S> {
        self.eat_id("const");
        let ty = self.ty()?;
        let mut v = vec![];
        loop {
            let n = self.ident()?;
            if !self.is("=") && !self.is(";") && !self.is(",") && !self.is(")") {
                return self.err("`=`");
            }
            let e = if self.eat("=") { Some(self.expr()?) } else { None };
            v.push((n, e));
            if !self.eat(",") {
                return Ok(S::Local(ty, v));
            }
        }
    }
    fn local_or_expr(&mut self) -> R<S> {
        // a declaration is a type and a name
        let i = self.i;
        let decl = self.try_(|p| {
            p.eat_id("const");
            p.ty()?;
            p.ident()?;
            if p.is("=") || p.is(";") || p.is(",") {
                Ok(())
            } else {
                p.err("`=`")
            }
        });
        self.i = i;
        if decl.is_some() {
            return self.local();
        }
        Ok(S::Expr(self.expr()?))
    }
    fn stmt(&mut self) -> R<S> {
        if self.is("{") {
            return self.block();
        }
        if self.eat(";") {
            return Ok(S::Block(vec![]));
        }
        let kw = match self.peek() {
            T::Id(s) => s.clone(),
            _ => String::new(),
        };
        match kw.as_str() {
            "if" => {
                self.bump();
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                let a = Box::new(self.stmt()?);
                let b = if self.eat_id("else") { Some(Box::new(self.stmt()?)) } else { None };
                Ok(S::If(c, a, b))
            }
            "while" => {
                self.bump();
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                Ok(S::While(c, Box::new(self.stmt()?)))
            }
            "for" => {
                self.bump();
                self.want("(")?;
                let mut init = vec![];
                if !self.is(";") {
                    init.push(self.local_or_expr()?)
                }
                self.want(";")?;
                let c = if self.is(";") { None } else { Some(self.expr()?) };
                self.want(";")?;
                let step = self.args(")")?;
                Ok(S::For(init, c, step, Box::new(self.stmt()?)))
            }
            "return" => {
                self.bump();
                let e = if self.is(";") { None } else { Some(self.expr()?) };
                self.want(";")?;
                Ok(S::Return(e))
            }
            "throw" => {
                self.bump();
                let e = if self.is(";") { None } else { Some(self.expr()?) };
                self.want(";")?;
                Ok(S::Throw(e))
            }
            "break" => {
                self.bump();
                self.want(";")?;
                Ok(S::Break)
            }
            "continue" => {
                self.bump();
                self.want(";")?;
                Ok(S::Continue)
            }
            "unsafe" | "checked" | "unchecked" if matches!(self.peek_at(1), T::P("{")) => {
                self.bump();
                self.block()
            }
            "lock" => {
                self.bump();
                self.want("(")?;
                let e = self.expr()?;
                self.want(")")?;
                let b = self.stmt()?;
                Ok(S::Block(vec![S::Expr(e), b]))
            }
            "fixed" => {
                self.bump();
                self.want("(")?;
                let t = self.ty()?;
                let n = self.ident()?;
                self.want("=")?;
                let e = self.expr()?;
                self.want(")")?;
                Ok(S::Fixed(t, n, e, Box::new(self.stmt()?)))
            }
            "using" => {
                self.bump();
                if self.eat("(") {
                    let l = self.local_or_expr()?;
                    self.want(")")?;
                    return Ok(S::Using(Box::new(l), Box::new(self.stmt()?)));
                }
                let l = self.local()?;
                self.want(";")?;
                let mut rest = vec![];
                while !self.is("}") {
                    rest.push(self.stmt()?)
                }
                Ok(S::Using(Box::new(l), Box::new(S::Block(rest))))
            }
            "try" => {
                self.bump();
                let b = self.block()?;
                let mut c = vec![];
                while self.eat_id("catch") {
                    let (mut t, mut n) = (None, None);
                    if self.eat("(") {
                        t = Some(self.ty()?);
                        if !self.is(")") {
                            n = Some(self.ident()?)
                        }
                        self.want(")")?
                    }
                    c.push((t, n, self.block()?))
                }
                let f = if self.eat_id("finally") { Some(Box::new(self.block()?)) } else { None };
                Ok(S::Try(Box::new(b), c, f))
            }
            "do" => {
                self.bump();
                let b = self.stmt()?;
                if !self.eat_id("while") {
                    return self.err("`while`");
                }
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                self.want(";")?;
                Ok(S::Do(Box::new(b), c))
            }
            "foreach" => {
                self.bump();
                self.want("(")?;
                let t = self.ty()?;
                let n = self.ident()?;
                if !self.eat_id("in") {
                    return self.err("`in`");
                }
                let e = self.expr()?;
                self.want(")")?;
                Ok(S::Each(t, n, e, Box::new(self.stmt()?)))
            }
            "switch" => {
                self.bump();
                self.want("(")?;
                let e = self.expr()?;
                self.want(")")?;
                self.want("{")?;
                let mut v = vec![];
                while !self.is("}") {
                    let mut labels = vec![];
                    loop {
                        if self.eat_id("case") {
                            let p = self.pat()?;
                            labels.push((p, self.guard()?))
                        } else if self.is_id("default") && matches!(self.peek_at(1), T::P(":")) {
                            self.bump();
                            labels.push((Pat::Any(None), None))
                        } else {
                            break;
                        }
                        self.want(":")?
                    }
                    if labels.is_empty() {
                        return self.err("`case`");
                    }
                    let mut b = vec![];
                    while !self.is("}") && !self.is_id("case") && !(self.is_id("default") && matches!(self.peek_at(1), T::P(":"))) {
                        b.push(self.stmt()?)
                    }
                    v.push((labels, b))
                }
                self.want("}")?;
                // what is taken when nothing else fits comes last
                v.sort_by_key(|x| x.0.iter().any(|l| matches!(l.0, Pat::Any(None)) && l.1.is_none()));
                Ok(S::Switch(e, v))
            }
            "goto" => self.err("a supported statement"),
            _ => {
                let s = self.local_or_expr()?;
                self.want(";")?;
                Ok(s)
            }
        }
    }
    // ---- expressions ----
    fn args(&mut self, close: &str) -> R<Vec<Ex>> {
        let mut v = vec![];
        while !self.is(close) {
            // a parameter's name before its value changes nothing here
            if matches!((self.peek(), self.peek_at(1)), (T::Id(_), T::P(":"))) {
                return self.err("arguments by position");
            }
            v.push(self.expr()?);
            if !self.eat(",") {
                break;
            }
        }
        self.want(close)?;
        Ok(v)
    }
    pub fn expr(&mut self) -> R<Ex> {
        let line = self.line();
        let mk = |e| Ex { e, line };
        if self.is_id("throw") {
            self.bump();
            let e = self.expr()?;
            return Ok(mk(E::Throw(Box::new(e))));
        }
        if let Some(l) = self.lambda()? {
            return Ok(l);
        }
        let c = self.bin(0)?;
        if self.is("?") {
            self.bump();
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(mk(E::Cond(Box::new(c), Box::new(a), Box::new(b))));
        }
        for op in ["=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "??=", "%="] {
            if self.is(op) {
                self.bump();
                let r = self.expr()?;
                return Ok(mk(E::Assign(op, Box::new(c), Box::new(r))));
            }
        }
        Ok(c)
    }
    fn lambda(&mut self) -> R<Option<Ex>> {
        let line = self.line();
        let names = self.try_(|p| {
            let mut v = vec![];
            if p.eat("(") {
                while !p.is(")") {
                    if !matches!(p.peek_at(1), T::P("," | ")")) {
                        p.ty()?;
                    }
                    v.push(p.ident()?);
                    if !p.eat(",") {
                        break;
                    }
                }
                p.want(")")?
            } else {
                v.push(p.ident()?)
            }
            p.want("=>")?;
            Ok(v)
        });
        let Some(v) = names else { return Ok(None) };
        let b = if self.is("{") { Body::Block(self.block()?) } else { Body::Expr(self.expr()?) };
        Ok(Some(Ex { e: E::Lambda(Arc::new((v, b))), line }))
    }
    fn bin(&mut self, level: usize) -> R<Ex> {
        const L: &[&[&str]] = &[&["??"], &["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<", ">", "<=", ">="], &["<<"], &["+", "-"], &["*", "/", "%"]];
        if level == L.len() {
            return self.unary();
        }
        let line = self.line();
        let mut a = self.bin(level + 1)?;
        'outer: loop {
            if level == 7 && (self.is_id("is") || self.is_id("as")) {
                let is = self.is_id("is");
                self.bump();
                a = Ex { e: if is { E::Is(Box::new(a), Box::new(self.pat()?)) } else { E::As(Box::new(a), self.ty()?) }, line };
                continue;
            }
            for op in L[level] {
                if self.is(op) {
                    self.bump();
                    // `??` takes its right side whole
                    let b = if level == 0 { self.expr()? } else { self.bin(level + 1)? };
                    a = Ex { e: E::Bin(op, Box::new(a), Box::new(b)), line };
                    continue 'outer;
                }
            }
            return Ok(a);
        }
    }
    fn unary(&mut self) -> R<Ex> {
        let line = self.line();
        for op in ["!", "-", "+", "~", "&", "*", "++", "--"] {
            if self.is(op) {
                self.bump();
                let e = self.unary()?;
                return Ok(Ex { e: E::Un(op, Box::new(e)), line });
            }
        }
        if self.is("(") {
            let cast = self.try_(|p| {
                p.want("(")?;
                let t = p.ty()?;
                p.want(")")?;
                let sure = match &t {
                    Ty::Name(_, n, g) => (n.len() == 1 && PRIMS.contains(&n[0].as_str())) || !g.is_empty(),
                    Ty::Tuple(_) | Ty::Var => false,
                    _ => true,
                };
                let follows = match p.peek() {
                    T::Id(s) => s != "is" && s != "as",
                    T::Int(..) | T::Flt(..) | T::Str(_) | T::Chr(_) => true,
                    T::P(x) => ["(", "!", "~"].contains(x) || (sure && ["-", "+", "&", "*"].contains(x)),
                    T::End => false,
                };
                if follows {
                    Ok(t)
                } else {
                    p.err("an operand")
                }
            });
            if let Some(t) = cast {
                let e = self.unary()?;
                return Ok(Ex { e: E::Cast(t, Box::new(e)), line });
            }
        }
        self.postfix()
    }
    fn type_args(&mut self) -> Vec<Ty> {
        if !self.is("<") {
            return vec![];
        }
        self.try_(|p| {
            let g = p.generics()?;
            match p.peek() {
                T::P("(" | ")" | "." | ";" | "," | "]" | "}" | "?") => Ok(g),
                _ => p.err("`(`"),
            }
        })
        .unwrap_or_default()
    }
    fn postfix(&mut self) -> R<Ex> {
        let line = self.line();
        let mut a = self.primary()?;
        loop {
            let e = if self.is(".") || self.is("?.") || self.is("->") {
                let q = self.is("?.");
                if self.is("->") {
                    a = Ex { e: E::Un("*", Box::new(a)), line }
                }
                self.bump();
                let n = self.ident()?;
                let g = self.type_args();
                E::Member(Box::new(a), n, g, q)
            } else if self.eat("(") {
                E::Call(Box::new(a), self.args(")")?)
            } else if self.eat("[") {
                E::Index(Box::new(a), self.args("]")?)
            } else if self.is_id("switch") && matches!(self.peek_at(1), T::P("{")) {
                self.bump();
                self.bump();
                let mut v = vec![];
                while !self.is("}") {
                    let p = self.pat()?;
                    let g = self.guard()?;
                    self.want("=>")?;
                    v.push((p, g, self.expr()?));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.want("}")?;
                E::Switch(Box::new(a), v)
            } else if self.is("++") || self.is("--") {
                let op = if self.is("++") { "++" } else { "--" };
                self.bump();
                E::Post(op, Box::new(a))
            } else if self.is("!") && matches!(self.peek_at(1), T::P("." | ")" | ";" | ",")) {
                // says that a reference is not null, and does nothing
                self.bump();
                continue;
            } else {
                return Ok(a);
            };
            a = Ex { e, line }
        }
    }
    fn primary(&mut self) -> R<Ex> {
        let line = self.line();
        let mk = |e| Ok(Ex { e, line });
        match self.peek().clone() {
            T::Int(n, s) => {
                self.bump();
                mk(E::Int(n, s))
            }
            T::Flt(n, s) => {
                self.bump();
                mk(E::Flt(n, s))
            }
            T::Str(s) => {
                self.bump();
                mk(E::Str(Arc::new(s)))
            }
            T::Chr(c) => {
                self.bump();
                mk(E::Chr(c))
            }
            T::P("(") => {
                self.bump();
                let mut v = vec![self.expr()?];
                while self.eat(",") {
                    v.push(self.expr()?)
                }
                self.want(")")?;
                if v.len() == 1 {
                    Ok(v.pop().unwrap())
                } else {
                    mk(E::Tuple(v))
                }
            }
            T::Id(s) => match s.as_str() {
                "null" => {
                    self.bump();
                    mk(E::Null)
                }
                "true" | "false" => {
                    self.bump();
                    mk(E::Bool(s == "true"))
                }
                "this" => {
                    self.bump();
                    mk(E::This)
                }
                "base" => {
                    self.bump();
                    mk(E::Base)
                }
                "default" => {
                    self.bump();
                    let mut t = None;
                    if self.eat("(") {
                        t = Some(self.ty()?);
                        self.want(")")?
                    }
                    mk(E::Default(t))
                }
                "typeof" => {
                    self.bump();
                    self.want("(")?;
                    let t = self.ty()?;
                    self.want(")")?;
                    mk(E::TypeOf(t))
                }
                "nameof" if matches!(self.peek_at(1), T::P("(")) => {
                    self.bump();
                    self.bump();
                    let mut n = String::new();
                    while !self.is(")") {
                        match self.bump() {
                            T::Id(x) => n = x,
                            T::End => return self.err("`)`"),
                            _ => {}
                        }
                    }
                    self.bump();
                    mk(E::NameOf(n))
                }
                "new" => {
                    self.bump();
                    if self.is("[") {
                        self.bump();
                        self.want("]")?;
                        self.want("{")?;
                        let v = self.args("}")?;
                        return mk(E::NewArr(Ty::Var, None, v));
                    }
                    // an array type ends before its size
                    let t = self.ty()?;
                    if let Ty::Arr(t) = t {
                        self.want("{")?;
                        let v = self.args("}")?;
                        return mk(E::NewArr(*t, None, v));
                    }
                    if self.eat("[") {
                        let n = self.expr()?;
                        self.want("]")?;
                        let v = if self.eat("{") { self.args("}")? } else { vec![] };
                        return mk(E::NewArr(t, Some(Box::new(n)), v));
                    }
                    let a = if self.eat("(") { self.args(")")? } else { vec![] };
                    let mut init = vec![];
                    if self.eat("{") {
                        while !self.is("}") {
                            let n = self.ident()?;
                            self.want("=")?;
                            init.push((n, self.expr()?));
                            if !self.eat(",") {
                                break;
                            }
                        }
                        self.want("}")?
                    }
                    mk(E::New(t, a, init))
                }
                _ => {
                    let mut n = self.ident()?;
                    if n == "global" && self.eat("::") {
                        n = self.ident()?
                    }
                    let g = self.type_args();
                    mk(E::Name(id(), n, g))
                }
            },
            _ => self.err("an expression"),
        }
    }
}
