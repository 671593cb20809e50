//! The programs that generate C# (C25).
use std::path::{Path, PathBuf};
use std::process::Command;

pub const GEN: &str = "/verif/target/gen";
/// The generators of worker `k`: copies that find their templates in that worker's directory.
pub struct Gen {
    pub root: PathBuf,
    pub bins: [PathBuf; 2],
}
pub const OUT: [&str; 2] = ["client/cs/src/generated/wrapped", "crates/rsharp/cs/src/generated"];
impl Gen {
    pub fn first() -> Gen {
        let t = Path::new(GEN).join("t/debug");
        Gen { root: Path::new(GEN).join("w00"), bins: [t.join("cs_codegen"), t.join("rsharp_codegen")] }
    }
    pub fn run(&self, which: usize, force: bool) -> (bool, String) {
        let mut c = Command::new(&self.bins[which]);
        if force {
            c.arg("-f");
        }
        c.current_dir(self.root.join(SOURCES[which])).env_clear().env("CARGO_MANIFEST_DIR", self.root.join(SOURCES[which]));
        // a program cannot be started while a process forked meanwhile still has it open for writing
        let o = (0..500)
            .find_map(|_| match c.output() {
                Err(e) if e.raw_os_error() == Some(26) => {
                    std::thread::sleep(std::time::Duration::from_millis(10));
                    None
                }
                o => Some(o),
            })
            .and_then(|o| o.ok())
            .expect("HARNESS: the generator does not start");
        (o.status.success(), String::from_utf8_lossy(&o.stderr).to_string())
    }
    pub fn out(&self, which: usize) -> PathBuf {
        self.root.join(OUT[which])
    }
}
/// What both generators make.
pub fn generated() -> Result<Vec<(String, String)>, String> {
    let g = Gen::first();
    let mut v = vec![];
    for w in 0..2 {
        let d = g.out(w);
        let _ = std::fs::remove_dir_all(&d);
        let (ok, err) = g.run(w, false);
        if !ok {
            return Err(format!("{} fails: {err}", g.bins[w].display()));
        }
        let mut names: Vec<PathBuf> = std::fs::read_dir(&d).map_err(|e| e.to_string())?.filter_map(|e| e.ok().map(|e| e.path())).collect();
        names.sort();
        for p in names {
            v.push((p.display().to_string(), std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?))
        }
    }
    Ok(v)
}

// ---- C25 ----
use mcx::{ensure, Ch, Ctx, Res};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::sync::Mutex;

/// Contents of a directory; directories are `None`.
type Dir = BTreeMap<String, Option<Vec<u8>>>;
fn read(d: &Path) -> Option<Dir> {
    fn add(d: &Path, prefix: &str, to: &mut Dir) -> Option<()> {
        for e in std::fs::read_dir(d).ok()?.filter_map(|e| e.ok()) {
            // a character for each byte
            let n = format!("{prefix}{}", e.file_name().as_bytes().iter().map(|b| *b as char).collect::<String>());
            match std::fs::read(e.path()) {
                Ok(c) => drop(to.insert(n, Some(c))),
                Err(_) => {
                    add(&e.path(), &format!("{n}/"), to);
                    to.insert(n, None);
                }
            }
        }
        Some(())
    }
    let mut v = Dir::new();
    add(d, "", &mut v)?;
    Some(v)
}
fn write(d: &Path, s: &Option<Dir>) {
    let _ = std::fs::remove_dir_all(d);
    let Some(s) = s else { return };
    std::fs::create_dir_all(d).expect("HARNESS");
    for (n, c) in s {
        let p = d.join(std::ffi::OsStr::from_bytes(&n.chars().map(|c| c as u8).collect::<Vec<_>>()));
        match c {
            Some(c) => std::fs::write(p, c).expect("HARNESS"),
            None => std::fs::create_dir(p).expect("HARNESS"),
        }
    }
}
fn replace(b: &mut [u8], from: &[u8], to: &[u8]) -> usize {
    let (mut i, mut n) = (0, 0);
    while i + from.len() <= b.len() {
        if &b[i..i + from.len()] == from {
            b[i..i + to.len()].copy_from_slice(to);
            n += 1;
            i += from.len()
        } else {
            i += 1
        }
    }
    n
}
const SOURCES: [&str; 2] = ["client/codegen_wrapped", "crates/rsharp/codegen"];
impl Gen {
    /// A copy of the generators that works in a directory of its own.
    fn copy(k: usize) -> Gen {
        let (first, name) = (Gen::first(), format!("w{k:02}"));
        assert!((1..=99).contains(&k));
        let root = Path::new(GEN).join(&name);
        let _ = std::fs::remove_dir_all(&root);
        for s in SOURCES {
            let to = root.join(s);
            std::fs::create_dir_all(&to).expect("HARNESS");
            for e in std::fs::read_dir(first.root.join(s)).expect("HARNESS").filter_map(|e| e.ok()) {
                if e.path().is_file() {
                    std::fs::copy(e.path(), to.join(e.file_name())).expect("HARNESS");
                }
            }
        }
        let bins = [0, 1].map(|w| {
            let mut b = std::fs::read(&first.bins[w]).expect("HARNESS");
            replace(&mut b, b"/verif/target/gen/w00/", format!("/verif/target/gen/{name}/").as_bytes());
            let p = root.join(first.bins[w].file_name().unwrap());
            std::fs::write(&p, b).expect("HARNESS");
            std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o755)).expect("HARNESS");
            p
        });
        Gen { root, bins }
    }
    /// Ends when a file gets longer than `blocks` blocks of 512 bytes.
    fn run_limited(&self, which: usize, blocks: usize) -> bool {
        let o = Command::new("/bin/sh")
            .args(["-c", &format!("ulimit -c 0; for i in 1 2 3 4 5 6 7 8 9; do (ulimit -f {blocks}; exec \"$0\" -f); r=$?; [ $r = 126 ] || exit $r; sleep 0.1; done; exit 126")])
            .arg(&self.bins[which])
            .current_dir(self.root.join(SOURCES[which]))
            .env_clear()
            .env("CARGO_MANIFEST_DIR", self.root.join(SOURCES[which]))
            .output()
            .expect("HARNESS: the generator does not start");
        o.status.success()
    }
    fn templates(&self, which: usize) -> Vec<PathBuf> {
        let d = self.root.join(SOURCES[which]);
        let mut v: Vec<PathBuf> = std::fs::read_dir(d).expect("HARNESS").filter_map(|e| e.ok().map(|e| e.path())).filter(|p| p.extension().map_or(false, |e| e == "tpl")).collect();
        v.sort();
        v
    }
}
/// Copies that no run is using.
struct Pool {
    free: Mutex<Vec<Gen>>,
    made: Mutex<usize>,
}
impl Pool {
    /// The copies are made before anything runs: a program cannot be started while a process, forked meanwhile by
    /// another thread, still has it open for writing.
    fn new() -> Pool {
        let n = std::env::var("MC_THREADS").ok().and_then(|n| n.parse().ok()).unwrap_or(8usize).clamp(8, 64);
        Pool { free: Mutex::new((1..=n).map(Gen::copy).collect()), made: Mutex::new(n) }
    }
    fn with<R>(&self, f: impl FnOnce(&Gen) -> R) -> R {
        let g = self.free.lock().unwrap().pop();
        let g = g.unwrap_or_else(|| {
            let k = {
                let mut m = self.made.lock().unwrap();
                *m += 1;
                *m
            };
            Gen::copy(k)
        });
        // goes back even when the run is stopped by unwinding
        struct Back<'a>(&'a Pool, Option<Gen>);
        impl Drop for Back<'_> {
            fn drop(&mut self) {
                if let (Ok(mut free), Some(g)) = (self.0.free.lock(), self.1.take()) {
                    free.push(g)
                }
            }
        }
        let back = Back(self, Some(g));
        f(back.1.as_ref().unwrap())
    }
}
/// The files that there must be: one class for each thing that C can release.
fn expected(which: usize, table: &[(&str, unsafe extern "C" fn())]) -> Vec<String> {
    let mut v = vec![];
    for (n, _) in table {
        let Some(n) = n.strip_suffix("__drop") else { continue };
        let c = n.rsplit("__").next().unwrap();
        let (kind, ty) = c.split_once('_').unwrap_or((c, ""));
        if which == 0 && n.starts_with("tp_client__contract__properties__") && ["Keyframe", "State", "StateId", "StateHandle"].contains(&kind) && !ty.is_empty() && !n.contains("RVec") {
            v.push(format!("{c}.cs"))
        }
        if which == 1 && n.starts_with("rsharp__Box_") {
            v.push(format!("R{c}.cs"))
        }
    }
    v.sort();
    v.dedup();
    v
}
fn same(a: &Option<Dir>, b: &Option<Dir>) -> Option<String> {
    let (e, f) = (Dir::new(), Dir::new());
    let (a, b) = (a.as_ref().unwrap_or(&e), b.as_ref().unwrap_or(&f));
    a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k)).cloned()
}
const NAMES: [&str; 2] = ["cs_codegen", "rsharp_codegen"];
/// States of a file: missing, right, too long, empty, something else of the same length.
const FILE: [&str; 5] = ["missing", "right", "longer", "empty", "different"];
fn file(right: &[u8], s: usize) -> Option<Vec<u8>> {
    match s {
        0 => None,
        1 => Some(right.to_vec()),
        2 => Some([right, b"\n// more\n".repeat(400).as_slice()].concat()),
        3 => Some(vec![]),
        _ => Some(right.iter().map(|b| b ^ 1).collect()),
    }
}
const OPS: [&str; 8] = ["run", "run -f", "run -f, ended when a file gets longer than 0 bytes", "run -f, ended when a file gets longer than 512 bytes", "run -f, ended when a file gets longer than 1024 bytes", "a template is missing", "a template cannot be parsed", "a template uses what there is not"];
/// What a file may hold from earlier; `other` is what another file should hold.
const OLD: [&str; 24] = [
    "one byte short", "one byte long", "with another last byte", "with another first byte", "with another byte in the middle", "the first line, then other text of the same length",
    "the first half", "the second half", "with CRLF", "with a byte order mark", "with blanks at line ends", "in capitals", "what another file should hold", "twice what it should be", "one line only",
    "100 bytes", "512 bytes", "1000 bytes", "1200 bytes", "2000 bytes", "4096 bytes", "70000 bytes", "different, from the future", "different, from long ago",
];
fn old(right: &[u8], other: &[u8], k: usize) -> Vec<u8> {
    let n = right.len();
    let flip = |i: usize| {
        let mut v = right.to_vec();
        v[i] ^= 1;
        v
    };
    let line = right.iter().position(|b| *b == b'\n').map_or(n, |i| i + 1);
    let text = String::from_utf8_lossy(right).to_string();
    let size = |k: usize| (0..k).map(|i| if i % 40 == 39 { b'\n' } else { b'x' }).collect();
    match k {
        0 => right[..n - 1].to_vec(),
        1 => [right, b"\n"].concat(),
        2 => flip(n - 1),
        3 => flip(0),
        4 => flip(n / 2),
        5 => [&right[..line], vec![b'/'; n - line].as_slice()].concat(),
        6 => right[..n / 2].to_vec(),
        7 => right[n / 2..].to_vec(),
        8 => text.replace('\n', "\r\n").into_bytes(),
        9 => [b"\xef\xbb\xbf", right].concat(),
        10 => text.replace('\n', "  \n").into_bytes(),
        11 => text.to_uppercase().into_bytes(),
        12 => other.to_vec(),
        13 => [right, right].concat(),
        14 => b"//\n".to_vec(),
        15..=21 => size([100, 512, 1000, 1200, 2000, 4096, 70000][k - 15]),
        _ => flip(n / 3),
    }
}
/// Gives everything in a directory the time `t`.
fn date(dir: &Path, t: i64) {
    extern "C" {
        fn utimes(path: *const std::os::raw::c_char, times: *const [i64; 4]) -> std::os::raw::c_int;
    }
    for e in std::fs::read_dir(dir).expect("HARNESS").filter_map(|e| e.ok()) {
        let p = std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(e.path().as_os_str())).unwrap();
        assert_eq!(unsafe { utimes(p.as_ptr(), &[t, 0, t, 0]) }, 0, "HARNESS")
    }
}
/// Things that are not the generator's, each with its parts.
const STRANGE: [&[(&str, Option<&str>)]; 13] = [
    &[("Mine.cs", Some("class Mine { }"))],
    &[("empty", None)],
    &[("full", None), ("full/Mine.cs", Some("x")), ("full/deep", None), ("full/deep/State_U8.cs", Some("y"))],
    &[(".hidden", Some("h"))],
    &[(".git", None), (".git/config", Some("c"))],
    &[("Empty.cs", Some(""))],
    &[("State_U8.cs.meta", Some("guid: 1"))],
    &[("State_Old.cs", Some("class State_Old { }")), ("RBox_Old.cs", Some("class RBox_Old { }"))],
    &[("state_u8.cs", Some("lower"))],
    &[("Mine.cs~", Some("backup")), ("#Mine.cs#", Some("backup"))],
    &[("no extension", Some("n"))],
    &[("caf\u{e9}\u{ff}.cs", Some("bytes that are not text in the name"))],
    &[("generated", None), ("wrapped", None), ("wrapped/State_U8.cs", Some("z"))],
];
/// One operation on one directory.
fn one(ch: &mut Ch, g: &Gen, w: usize, op: usize, state: &Option<Dir>, right: &Dir, what: &str) -> Res {
    let t = g.templates(w);
    let broken = if op >= 5 { Some(t[ch.pick(t.len())].clone()) } else { None };
    let old = broken.as_ref().map(|b| std::fs::read(b).expect("HARNESS"));
    if let (Some(b), Some(o)) = (&broken, &old) {
        ch.log(|| format!("template: {}", b.file_name().unwrap().to_string_lossy()));
        match op {
            5 => std::fs::remove_file(b).expect("HARNESS"),
            6 => std::fs::write(b, [o.as_slice(), b"\n{{#if x}}\n"].concat()).expect("HARNESS"),
            _ => std::fs::write(b, [o.as_slice(), b"\n{{no_such_thing}}\n"].concat()).expect("HARNESS"),
        }
    }
    let ok = match op {
        0 => g.run(w, false).0,
        2..=4 => g.run_limited(w, op - 2),
        _ => g.run(w, true).0,
    };
    if let (Some(b), Some(o)) = (&broken, &old) {
        std::fs::write(b, o).expect("HARNESS")
    }
    let after = read(&g.out(w));
    let full = {
        let mut d = state.clone().unwrap_or_default();
        d.extend(right.clone());
        Some(d)
    };
    let empty = state.as_ref().map_or(true, |d| d.is_empty());
    ch.outcome(mcx::hash_of(&(op, ok, same(&after, &full).is_none())));
    let refused = op == 0 && !empty || op == 5 || op == 6;
    if refused {
        ensure!(!ok, "exit", "{} after {what}: it does not fail", OPS[op]);
        if let Some(f) = same(&after, state) {
            return mcx::viol("refused", format!("{} after {what}: it fails and changes {f}", OPS[op]));
        }
    } else if op < 2 {
        ensure!(ok, "exit", "{} after {what}: it fails", OPS[op]);
        if let Some(f) = same(&after, &full) {
            return mcx::viol("content", format!("{} after {what}: {f} is not what it should be", OPS[op]));
        }
    } else {
        // it ended early, or had to: what it was to make can be made afterwards, and nothing else is lost
        ensure!(op != 7 || !ok, "exit", "{} after {what}: it does not fail", OPS[op]);
        ensure!(!ok || same(&after, &full).is_none(), "exit", "{} after {what}: it does not fail", OPS[op]);
        let (ok, err) = g.run(w, true);
        ensure!(ok, "recovery", "{} after {what}: a run with -f afterwards fails: {err}", OPS[op]);
        if let Some(f) = same(&read(&g.out(w)), &full) {
            return mcx::viol("recovery", format!("{} after {what}: {f} is not what it should be even after a run with -f", OPS[op]));
        }
    }
    Ok(())
}
pub fn explore(ctx: &Ctx, table: &[(&str, unsafe extern "C" fn())]) {
    let pool = Pool::new();
    // what each generator makes in an empty place
    let mut right: Vec<Dir> = vec![];
    for w in 0..2 {
        right.push(pool.with(|g| {
            write(&g.out(w), &None);
            g.run(w, false);
            read(&g.out(w)).unwrap_or_default()
        }))
    }
    ctx.note("files generated", right[0].len() + right[1].len());
    ctx.explore("what is generated", 1, "both generators, from nothing, from an empty directory, and twice: which files there are, and what they declare", |ch: &mut Ch| -> Res {
        let (w, how) = (ch.pick(2), ch.pick(3));
        ch.step();
        ch.log(|| format!("{} in {}", NAMES[w], ["no directory", "an empty directory", "its own output, with -f"][how]));
        pool.with(|g| {
            write(&g.out(w), &[None, Some(Dir::new()), Some(right[w].clone())][how]);
            let (ok, err) = g.run(w, how == 2);
            ensure!(ok, "fails", "{} fails: {err}", NAMES[w]);
            let got = read(&g.out(w)).unwrap_or_default();
            let names: Vec<String> = got.keys().cloned().collect();
            let want = expected(w, table);
            for n in &want {
                ensure!(names.contains(n), format!("missing:{n}"), "{} does not generate {n}", NAMES[w])
            }
            for n in &names {
                ensure!(want.contains(n), format!("more:{n}"), "{} generates {n}, and Rust has no such thing", NAMES[w])
            }
            for (n, c) in &got {
                let c = String::from_utf8_lossy(c.as_ref().unwrap()).to_string();
                let class = n.trim_end_matches(".cs");
                let words: Vec<&str> = c.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect();
                ensure!(words.windows(2).any(|w| w[0] == "class" && w[1] == class), format!("class:{n}"), "{n} does not declare {class}");
                for (a, b) in [('{', '}'), ('(', ')')] {
                    ensure!(c.matches(a).count() == c.matches(b).count(), format!("brackets:{n}"), "{n}: {a} and {b} do not match")
                }
                ensure!(!c.contains("{{") && !c.contains("&lt;") && !c.contains("&gt;") && !c.contains("&amp;"), format!("raw:{n}"), "{n} has parts of a template in it")
            }
            ensure!(same(&Some(got), &Some(right[w].clone())).is_none(), "history", "the result differs from run to run");
            ch.state((w * 3 + how) as u64);
            Ok(())
        })
    });
    for w in 0..2 {
        let names: Vec<&String> = right[w].keys().collect();
        if names.len() < 2 {
            continue;
        }
        let (n, thorough) = (names.len(), ctx.by(false, true));
        ctx.explore(&format!("{}: directories", NAMES[w]), 2, "every operation on every directory: there is none, or two files (first and last; thorough: any and its neighbour) are missing, right, longer, empty or different, the others missing, right or different, with or without a foreign file", |ch: &mut Ch| -> Res {
            let op = ch.pick(OPS.len());
            let base = ch.pick(4);
            let (mut state, mut what) = (None, "no directory".to_string());
            if base < 3 {
                let (x, y) = if thorough {
                    let x = ch.pick(n);
                    (x, (x + 1) % n)
                } else {
                    (0, n - 1)
                };
                let (a, b, foreign) = (ch.pick(5), ch.pick(5), ch.flip());
                let mut d = Dir::new();
                for (i, k) in names.iter().enumerate() {
                    let s = if i == x { a } else if i == y { b } else { [0, 1, 4][base] };
                    if let Some(c) = file(right[w][*k].as_ref().unwrap(), s) {
                        d.insert(k.to_string(), Some(c));
                    }
                }
                if foreign {
                    d.insert("Mine.cs".into(), Some(b"class Mine { }".to_vec()));
                    d.insert("mine".into(), None);
                }
                what = format!("{} {}, {} {}, the others {}{}", names[x], FILE[a], names[y], FILE[b], ["missing", "right", "different"][base], if foreign { ", foreign files" } else { "" });
                state = Some(d)
            }
            ch.step();
            ch.state(mcx::hash_of(&(w, &what)));
            ch.log(|| format!("{what}; {}", OPS[op]));
            pool.with(|g| {
                write(&g.out(w), &state);
                one(ch, g, w, op, &state, &right[w], &what)?;
                Ok(())
            })
        });
        let deep = ctx.by(2, 3);
        ctx.explore(&format!("{}: foreign things", NAMES[w]), 2, &format!("every operation, with up to {deep} of {} foreign things (files of many names, hidden, empty, like those of the generator, directories with or without contents), the own files missing, right or different", STRANGE.len()), |ch: &mut Ch| -> Res {
            let op = ch.pick(OPS.len());
            let base = ch.pick(3);
            let mut d = Dir::new();
            let mut from = 0;
            let mut there = vec![];
            for _ in 0..deep {
                let i = from + ch.pick(STRANGE.len() + 1 - from);
                if i == STRANGE.len() {
                    break;
                }
                there.push(STRANGE[i][0].0);
                d.extend(STRANGE[i].iter().map(|(n, c)| (n.to_string(), c.map(|c| c.as_bytes().to_vec()))));
                from = i + 1
            }
            for k in &names {
                if let Some(c) = file(right[w][*k].as_ref().unwrap(), [0, 1, 4][base]) {
                    d.insert(k.to_string(), Some(c));
                }
            }
            let what = format!("{there:?}, the own files {}", ["missing", "right", "different"][base]);
            ch.step();
            ch.state(mcx::hash_of(&(w, &what)));
            ch.log(|| format!("{what}; {}", OPS[op]));
            pool.with(|g| {
                let d = Some(d);
                write(&g.out(w), &d);
                one(ch, g, w, op, &d, &right[w], &what)
            })
        });
        ctx.explore(&format!("{}: old contents", NAMES[w]), 1, &format!("run -f where the first file, the last, all, or all but the first hold one of {} old contents and the others are right or missing, and where each file holds another of them", OLD.len()), |ch: &mut Ch| -> Res {
            let k = ch.pick(OLD.len());
            let which = ch.pick(5);
            let gone = ch.flip();
            let mut d = Dir::new();
            for (i, n) in names.iter().enumerate() {
                let c = right[w][*n].as_ref().unwrap();
                let other = right[w][names[(i + 1) % names.len()]].as_ref().unwrap();
                let is = match which {
                    0 => i == 0,
                    1 => i + 1 == names.len(),
                    2 => true,
                    3 => i > 0,
                    _ => true,
                };
                let k = if which == 4 { (k + i) % OLD.len() } else { k };
                if is {
                    d.insert(n.to_string(), Some(old(c, other, k)));
                } else if !gone {
                    d.insert(n.to_string(), Some(c.clone()));
                }
            }
            let what = format!("{}: {}, the others {}", ["the first file", "the last file", "all files", "all files but the first", "each file something else, the first"][which], OLD[k], if gone { "missing" } else { "right" });
            ch.step();
            ch.state(mcx::hash_of(&(w, &what)));
            ch.log(|| what.clone());
            pool.with(|g| {
                let d = Some(d);
                write(&g.out(w), &d);
                match k {
                    22 => date(&g.out(w), 4_000_000_000),
                    23 => date(&g.out(w), 1_000_000),
                    _ => {}
                }
                one(ch, g, w, 1, &d, &right[w], &what)
            })
        });
        ctx.explore(&format!("{}: a file that cannot be written", NAMES[w]), 1, "for each file: it cannot be made; then it can", |ch: &mut Ch| -> Res {
            let i = ch.pick(n);
            let before = ch.pick(2);
            ch.step();
            ch.state(mcx::hash_of(&(w, i, before)));
            ch.log(|| format!("there is a directory called {}, the other files are {}", names[i], ["missing", "different"][before]));
            pool.with(|g| {
                let mut d = Dir::new();
                if before == 1 {
                    d.extend(names.iter().map(|k| (k.to_string(), file(right[w][*k].as_ref().unwrap(), 4))))
                }
                d.insert(names[i].to_string(), None);
                write(&g.out(w), &Some(d));
                let (ok, _) = g.run(w, true);
                ensure!(!ok, "exit", "{} cannot be made, and the generator does not fail", names[i]);
                std::fs::remove_dir(g.out(w).join(names[i])).expect("HARNESS");
                let (ok, err) = g.run(w, true);
                ensure!(ok, "recovery", "when {} can be made again, a run with -f fails: {err}", names[i]);
                if let Some(f) = same(&read(&g.out(w)), &Some(right[w].clone())) {
                    return mcx::viol("recovery", format!("when {} can be made again, {f} is not what it should be after a run with -f", names[i]));
                }
                Ok(())
            })
        });
    }
    for g in pool.free.into_inner().unwrap() {
        let _ = std::fs::remove_dir_all(&g.root);
    }
}
