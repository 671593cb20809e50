//! Every place in the C# sources that calls a C function: it exists and takes as many arguments.
use super::ast::*;
use super::interp::Program;
use super::native::{key, Lib};
use super::program::Loaded;
use mcx::{ensure, Ch, Ctx, Res};

struct Site {
    at: String,
    name: String,
    args: usize,
    exact: bool,
}
struct Visit<'a> {
    lib: &'a Lib,
    at: String,
    found: Vec<Site>,
}
const OURS: [&str; 4] = ["tpclient", "tpcontractexample", "ballcontract", "ballstates"];
impl Visit<'_> {
    fn body(&mut self, b: &Body) {
        match b {
            Body::None => {}
            Body::Expr(e) => self.ex(e),
            Body::Block(s) => self.s(s),
        }
    }
    fn method(&mut self, class: &str, m: &Method) {
        self.at = format!("{class}.{}", m.name);
        if let Some(n) = &m.native {
            self.found.push(Site { at: self.at.clone(), name: n.clone(), args: m.params.len(), exact: true })
        }
        for e in m.chain.iter().flat_map(|c| &c.1) {
            self.ex(e)
        }
        self.body(&m.body)
    }
    fn all(&mut self, es: &[Ex]) {
        es.iter().for_each(|e| self.ex(e))
    }
    fn ex(&mut self, e: &Ex) {
        match &e.e {
            E::Call(f, a) => {
                if let E::Member(q, n, _, _) = &f.e {
                    // a qualified name that CppSharp made, or that it should have made
                    let last = match &q.e {
                        E::Name(_, n, _) | E::Member(_, n, _, _) => n.as_str(),
                        _ => "",
                    };
                    let k = key(n);
                    if ["__Internal", "ffi", "generated"].contains(&last) && OURS.iter().any(|o| k.starts_with(o)) || self.lib.renamed(n).is_some() && n.contains("__") {
                        self.found.push(Site { at: self.at.clone(), name: n.clone(), args: a.len(), exact: false })
                    }
                }
                self.ex(f);
                self.all(a)
            }
            E::Member(a, ..) | E::Cast(_, a) | E::Un(_, a) | E::Post(_, a) | E::Throw(a) | E::Is(a, _) | E::As(a, _) => self.ex(a),
            E::Index(a, b) => {
                self.ex(a);
                self.all(b)
            }
            E::New(_, a, b) => {
                self.all(a);
                b.iter().for_each(|b| self.ex(&b.1))
            }
            E::NewArr(_, a, b) => {
                a.iter().for_each(|a| self.ex(a));
                self.all(b)
            }
            E::Bin(_, a, b) | E::Assign(_, a, b) => {
                self.ex(a);
                self.ex(b)
            }
            E::Cond(a, b, c) => {
                self.ex(a);
                self.ex(b);
                self.ex(c)
            }
            E::Switch(a, v) => {
                self.ex(a);
                for (_, g, e) in v {
                    g.iter().for_each(|g| self.ex(g));
                    self.ex(e)
                }
            }
            E::Lambda(l) => self.body(&l.1),
            E::Tuple(a) => self.all(a),
            _ => {}
        }
    }
    fn s(&mut self, s: &S) {
        match s {
            S::Block(v) => v.iter().for_each(|s| self.s(s)),
            S::Local(_, v) => v.iter().flat_map(|v| &v.1).for_each(|e| self.ex(e)),
            S::Expr(e) => self.ex(e),
            S::If(c, a, b) => {
                self.ex(c);
                self.s(a);
                b.iter().for_each(|b| self.s(b))
            }
            S::Switch(e, v) => {
                self.ex(e);
                for (l, b) in v {
                    l.iter().flat_map(|l| &l.1).for_each(|g| self.ex(g));
                    b.iter().for_each(|s| self.s(s))
                }
            }
            S::While(c, a) | S::Do(a, c) | S::Each(_, _, c, a) => {
                self.ex(c);
                self.s(a)
            }
            S::For(i, c, n, b) => {
                i.iter().for_each(|s| self.s(s));
                c.iter().for_each(|c| self.ex(c));
                self.all(n);
                self.s(b)
            }
            S::Return(e) | S::Throw(e) => e.iter().for_each(|e| self.ex(e)),
            S::Fixed(_, _, e, b) => {
                self.ex(e);
                self.s(b)
            }
            S::Using(a, b) => {
                self.s(a);
                self.s(b)
            }
            S::Try(a, c, f) => {
                self.s(a);
                c.iter().for_each(|c| self.s(&c.2));
                f.iter().for_each(|f| self.s(f))
            }
            S::Break | S::Continue => {}
        }
    }
}
fn sites(p: &Program) -> Vec<Site> {
    let mut v = Visit { lib: &p.lib, at: String::new(), found: vec![] };
    for c in &p.classes {
        for (m, _) in c.methods.iter().chain(&c.ctors).chain(&c.dtor) {
            v.method(&c.full, m)
        }
        for (q, _) in &c.props {
            v.at = format!("{}.{}", c.full, q.name);
            q.get.iter().for_each(|b| v.body(b));
            q.set.iter().for_each(|b| v.body(b));
            q.init.iter().for_each(|e| v.ex(e))
        }
        for (f, _) in &c.fields {
            v.at = format!("{}.{}", c.full, f.name);
            f.init.iter().for_each(|e| v.ex(e))
        }
    }
    v.found
}
pub fn calls(ctx: &Ctx, l: &Loaded) {
    let Ok(p) = l.ready() else { return };
    let s = sites(p);
    ctx.note("places in C# that call a C function", s.len());
    ctx.explore("calls", 1, "every place in the C# sources that calls a C function", |ch: &mut Ch| -> Res {
        let i = ch.pick(s.len().max(1));
        let Some(s) = s.get(i) else { return Ok(()) };
        ch.step();
        ch.state(i as u64);
        ch.log(|| format!("{}: {} with {} arguments", s.at, s.name, s.args));
        let f = if s.exact { p.lib.exact(&s.name) } else { p.lib.renamed(&s.name) };
        let Some(f) = f else { return mcx::viol(format!("missing:{}", s.at), format!("{} calls {}, and no exported function is called that", s.at, s.name)) };
        ensure!(f.params.len() == s.args, format!("arity:{}", s.at), "{}: {} takes {} parameters, not {}", s.at, f.name, f.params.len(), s.args);
        Ok(())
    });
}
