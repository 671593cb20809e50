//! The C# program that the repository's sources make up.
use super::interp::{Ctl, Interp, Program, R, V};
use super::native::Lib;
use super::parse;
use mcx::{viol, Ctx, Res, Viol};
use std::path::{Path, PathBuf};

pub fn repo() -> PathBuf {
    PathBuf::from("/repo")
}
fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut d: Vec<PathBuf> = d.filter_map(|e| e.ok().map(|e| e.path())).collect();
    d.sort();
    for p in d {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if p.is_dir() {
            // what someone generated there may be outdated
            if !["obj", "bin", "generated", "target"].contains(&n.as_str()) {
                files(&p, out)
            }
        } else if n.ends_with(".cs") {
            out.push(p)
        }
    }
}
pub struct Loaded {
    pub program: Option<&'static Program>,
    /// sources with constructs that are not interpreted
    pub skipped: Vec<String>,
    pub error: Option<String>,
}
impl Loaded {
    pub fn ready(&self) -> Res<&'static Program> {
        match (&self.error, self.program) {
            (Some(e), _) if self.skipped.is_empty() => viol("compile", e.clone()),
            (_, Some(p)) => Ok(p),
            _ => viol("unsupported", "the sources could not be read"),
        }
    }
}
/// Reads the sources under /repo and the generated ones.
pub fn load(ctx: &Ctx, generated: &[(String, String)], table: &[(&str, unsafe extern "C" fn())]) -> Loaded {
    let mut paths = vec![];
    for d in ["crates/rsharp/cs", "client/cs", "client/contract_example/cs", "demos/unity_states/cs"] {
        files(&repo().join(d), &mut paths)
    }
    let unity = repo().join("demos/unity_states/unity/Assets/Scripts");
    for f in ["BallStateDataSourcePlatform.cs", "IBallStateDataSource.cs.cs", "BallStateDataSourceType.cs"] {
        paths.push(unity.join(f))
    }
    let mut sources = generated.to_vec();
    for p in paths {
        if let Ok(t) = std::fs::read_to_string(&p) {
            sources.push((p.display().to_string(), t))
        }
    }
    let mut skipped = vec![];
    sources.retain(|(n, t)| match parse::parse(t) {
        Ok(_) => true,
        Err(e) => {
            skipped.push(format!("{n}: {e}"));
            false
        }
    });
    ctx.note("C# sources interpreted", sources.len());
    ctx.note("C# sources not interpreted", skipped.len());
    for s in &skipped {
        println!("NOT DECIDED: {s}")
    }
    match Program::load(&sources, Lib::load(table)) {
        Ok(p) => Loaded { program: Some(Box::leak(Box::new(p))), skipped, error: None },
        Err(e) => Loaded { program: None, skipped, error: Some(e) },
    }
}
/// What the interpreter does not know is no violation.
pub fn quiet(r: Res) -> Res {
    match r {
        Err(v) if ["compile", "unsupported"].contains(&v.key.split(':').next().unwrap()) => {
            if UNDECIDED.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < 5 {
                println!("NOT DECIDED: {}", v.msg)
            }
            Ok(())
        }
        r => r,
    }
}
pub static UNDECIDED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// What became of a piece of program.
pub enum Out {
    Ok(V),
    /// an exception of this class
    Threw(String, String),
}
pub fn out(i: &Interp, r: R) -> Res<Out> {
    match r {
        Ok(v) => Ok(Out::Ok(v)),
        Err(Ctl::Throw(v)) => Ok(Out::Threw(i.class_name(&v), i.message(&v))),
        Err(Ctl::Bug(k, m)) => Err(Viol { key: k, msg: m }),
        Err(_) => viol("compile", "a jump out of a function"),
    }
}
/// Must not throw.
pub fn must(i: &Interp, what: &str, r: R) -> Res<V> {
    match out(i, r)? {
        Out::Ok(v) => Ok(v),
        Out::Threw(c, m) => viol("throws", format!("{what} throws {c}: {m}")),
    }
}
