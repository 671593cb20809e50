//! Text crosses the border unharmed, and what is not text is refused (C22).
use crate::border::Meter;
use crate::ffi::*;
use mcx::alloc::take_fault;
use mcx::{catch, ensure, fnv, Ch, Ctx, Res};

/// Bytes at which the decoding of UTF-8 branches, and their neighbours.
const B: [u8; 32] = [
    0x00, 0x01, 0x41, 0x7E, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x91, 0x9F, 0xA0, 0xA1, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF,
];
const U: [u16; 20] = [
    0x0000, 0x0041, 0x007F, 0x0080, 0x00FF, 0x07FF, 0x0800, 0xD7FF, 0xD800, 0xD801, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01, 0xDFFE, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF,
];
/// Our reading of the standard: the scalar values that these bytes encode, if any.
pub fn dec8(b: &[u8]) -> Option<Vec<u32>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let x = b[i] as u32;
        let (n, min, mut c) = match x {
            0..=0x7F => (0, 0, x),
            0xC0..=0xDF => (1, 0x80, x & 0x1F),
            0xE0..=0xEF => (2, 0x800, x & 0xF),
            0xF0..=0xF7 => (3, 0x10000, x & 7),
            _ => return None,
        };
        for k in 1..=n {
            let y = *b.get(i + k)? as u32;
            if y >> 6 != 2 {
                return None;
            }
            c = c << 6 | y & 0x3F
        }
        if c < min || c > 0x10FFFF || (0xD800..0xE000).contains(&c) {
            return None;
        }
        v.push(c);
        i += n + 1
    }
    Some(v)
}
pub fn enc8(v: &[u32]) -> Vec<u8> {
    let mut o = vec![];
    for &c in v {
        let t = |s: u32| (0x80 | c >> s & 0x3F) as u8;
        match c {
            0..=0x7F => o.push(c as u8),
            0x80..=0x7FF => o.extend([(0xC0 | c >> 6) as u8, t(0)]),
            0x800..=0xFFFF => o.extend([(0xE0 | c >> 12) as u8, t(6), t(0)]),
            _ => o.extend([(0xF0 | c >> 18) as u8, t(12), t(6), t(0)]),
        }
    }
    o
}
pub fn dec16(u: &[u16]) -> Option<Vec<u32>> {
    let mut v = vec![];
    let mut i = 0;
    while i < u.len() {
        let x = u[i] as u32;
        if (0xD800..0xDC00).contains(&x) {
            let y = *u.get(i + 1)? as u32;
            if !(0xDC00..0xE000).contains(&y) {
                return None;
            }
            v.push(0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00));
            i += 2
        } else if (0xDC00..0xE000).contains(&x) {
            return None;
        } else {
            v.push(x);
            i += 1
        }
    }
    Some(v)
}
fn enc16(v: &[u32]) -> Vec<u16> {
    let mut o = vec![];
    for &c in v {
        if c < 0x10000 {
            o.push(c as u16)
        } else {
            o.push((0xD800 + (c - 0x10000 >> 10)) as u16);
            o.push((0xDC00 + (c - 0x10000 & 0x3FF)) as u16)
        }
    }
    o
}
/// The empty slice as C# passes it may have any address.
fn slice<T>(s: &[T]) -> CSlice<T> {
    CSlice { ptr: s.as_ptr(), len: s.len() }
}
/// A copy is made of what was given, reads as `want`, and is released.
fn holds<T: Copy + std::fmt::LowerHex + std::fmt::Debug>(make: unsafe extern "C" fn(CSlice<T>) -> P, input: &[T], want: &[u8], scribble: T) -> Res {
    let mut m = Meter::default();
    let mut source = input.to_vec();
    let s = m.c(|| unsafe { make(slice(&source)) });
    // the copy is independent of the source
    source.fill(scribble);
    drop(source);
    let (a, b) = unsafe { (rsharp__String__value(s), rsharp__String__value(s)) };
    let same = a.len == want.len() && unsafe { std::slice::from_raw_parts(a.ptr, a.len) } == want;
    let got = if same { vec![] } else { unsafe { std::slice::from_raw_parts(a.ptr, a.len) }.to_vec() };
    let stable = (a.ptr, a.len) == (b.ptr, b.len);
    m.c(|| unsafe { rsharp__String__drop(s) });
    ensure!(same, "text", "{input:x?} arrives as the bytes {got:x?}, expected {want:x?}");
    ensure!(stable, "text", "reading {input:x?} twice gives different texts");
    ensure!(m.bytes == 0 && m.blocks == 0, "leak", "{} bytes remain after the text {input:x?} is released", m.bytes);
    Ok(())
}
pub fn one8(b: &[u8]) -> Res {
    match dec8(b) {
        Some(_) => holds(rsharp__String__copy_utf8, b, b, b'x'),
        None => {
            let f = rsharp::string::String__copy_utf8;
            let r = catch(|| f(b.into()));
            ensure!(r.is_err(), "refuse8", "the bytes {b:x?}, which are not UTF-8, are accepted as {:x?}", r.unwrap().inner.as_bytes());
            Ok(())
        }
    }
}
pub fn one16(u: &[u16]) -> Res {
    match dec16(u) {
        Some(v) => holds(rsharp__String__copy_utf16, u, &enc8(&v), 0x78),
        None => {
            let f = rsharp::string::String__copy_utf16;
            let r = catch(|| f(u.into()));
            ensure!(r.is_err(), "refuse16", "the units {u:x?}, which are not UTF-16, are accepted as {:x?}", r.unwrap().inner.as_bytes());
            Ok(())
        }
    }
}
fn scalar(i: u32) -> u32 {
    if i < 0xD800 {
        i
    } else {
        i + 0x800
    }
}
const N_SCALARS: u32 = 0x110000 - 0x800;

fn tally(ch: &mut Ch, key: &[u64], n: u64) {
    ch.steps(n);
    if ch.fresh() {
        let h = key.iter().fold(9, |h, x| fnv(h, *x));
        ch.state(h);
        ch.outcome(h);
    }
}
pub fn text(ctx: &Ctx) {
    take_fault();
    let _ = catch(|| rsharp::string::String__copy_utf8([0xFFu8].as_slice().into()));
    let _ = catch(|| rsharp::string::String__copy_utf16([0xD800u16].as_slice().into()));
    // every character
    ctx.explore("characters", 1, "all 1,112,064 Unicode scalar values, as UTF-8 and as UTF-16, alone and between two others", |ch: &mut Ch| {
        let page = ch.pick(N_SCALARS as usize / 256) as u32;
        ch.log(|| format!("scalar values {:x}..", scalar(page * 256)));
        for i in 0..256 {
            let c = scalar(page * 256 + i);
            for v in [vec![c], vec![0x10000, c, 0xE9]] {
                let (b, u) = (enc8(&v), enc16(&v));
                holds(rsharp__String__copy_utf8, &b, &b, b'x')?;
                holds(rsharp__String__copy_utf16, &u, &b, 0x78)?;
            }
        }
        tally(ch, &[1, page as u64], 1024);
        faults()
    });
    // short sequences of bytes
    let full = ctx.by(2, 3);
    ctx.explore("bytes", 2, &format!("all sequences of up to {full} bytes"), move |ch: &mut Ch| {
        let n = 1 + ch.pick(full);
        let mut b: Vec<u8> = (1..n).map(|_| ch.pick(256) as u8).collect();
        ch.log(|| format!("bytes {b:x?} and a last one"));
        b.push(0);
        for x in 0..=255 {
            *b.last_mut().unwrap() = x;
            one8(&b)?
        }
        tally(ch, &b.iter().map(|x| *x as u64).collect::<Vec<_>>(), 256);
        faults()
    });
    let n8 = ctx.by(4, 5);
    ctx.explore("byte classes", 2, &format!("all sequences of 3 to {n8} bytes from 32 at which decoding branches"), move |ch: &mut Ch| {
        let n = 3 + ch.pick(n8 - 2);
        let mut b: Vec<u8> = (1..n).map(|_| ch.of(&B)).collect();
        ch.log(|| format!("bytes {b:x?} and a last one"));
        b.push(0);
        for x in B {
            *b.last_mut().unwrap() = x;
            one8(&b)?
        }
        tally(ch, &b.iter().map(|x| *x as u64).collect::<Vec<_>>(), B.len() as u64);
        faults()
    });
    ctx.explore("units", 2, "all single UTF-16 units, and all pairs of a surrogate (2048) with any of 20 units on either side, every high surrogate with every low one, and every surrogate with each 31st other one", |ch: &mut Ch| {
        let mode = ch.pick(2);
        let hi = ch.pick(if mode == 0 { 256 } else { 2048 }) as u16;
        ch.log(|| format!("mode {mode}, {hi:x}"));
        if mode == 0 {
            for lo in 0..256 {
                one16(&[hi << 8 | lo])?
            }
        } else {
            let s = 0xD800 + hi;
            for y in 0..2048u16 {
                let pair = [s, 0xD800 + y];
                // pairs that are not text: every 31st
                if dec16(&pair).is_some() || y % 31 == 0 {
                    one16(&pair)?
                }
            }
            for y in U {
                one16(&[s, y])?;
                one16(&[y, s])?;
            }
        }
        tally(ch, &[mode as u64, hi as u64], if mode == 0 { 256 } else { 2088 });
        faults()
    });
    let n16 = ctx.by(4, 5);
    ctx.explore("unit classes", 2, &format!("all sequences of up to {n16} units from 20 at which decoding branches"), move |ch: &mut Ch| {
        let n = ch.pick(n16 + 1);
        let u: Vec<u16> = (0..n).map(|_| ch.of(&U)).collect();
        ch.log(|| format!("units {u:x?}"));
        tally(ch, &u.iter().map(|x| *x as u64).collect::<Vec<_>>(), 1);
        one16(&u)?;
        faults()
    });
    let n = ctx.by(300, 3000);
    ctx.explore("lengths", 2, &format!("texts of every length up to {n} characters, of 1 to 4 bytes each"), move |ch: &mut Ch| {
        let len = ch.pick(n + 1);
        let c = ch.of(&[0x41u32, 0, 0xE9, 0xFEFF, 0x1F600]);
        ch.log(|| format!("{len} times {c:x}"));
        let v = vec![c; len];
        let (b, u) = (enc8(&v), enc16(&v));
        tally(ch, &[len as u64, c as u64], 2);
        holds(rsharp__String__copy_utf8, &b, &b, b'x')?;
        holds(rsharp__String__copy_utf16, &u, &b, 0x78)?;
        faults()
    });
    const N: [usize; 12] = [511, 513, 1023, 1025, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 140_000];
    ctx.explore("huge", 2, &format!("texts of {N:?} characters, of 1 to 4 bytes each, with another character at the start, in the middle, at the end or nowhere, and the same texts with a flaw there"), move |ch: &mut Ch| {
        let len = ch.of(&N);
        let c = ch.of(&[0x41u32, 0, 0xE9, 0xFEFF, 0x1F600]);
        let at = [None, Some(0), Some(len / 2), Some(len - 1)][ch.pick(4)];
        ch.log(|| format!("{len} times {c:x}, {at:?}"));
        let mut v = vec![c; len];
        if let Some(at) = at {
            v[at] = 0x20AC
        }
        let (b, u) = (enc8(&v), enc16(&v));
        tally(ch, &[len as u64, c as u64, at.map_or(9, |a| a as u64)], 4);
        let brief = |r: Res, what: &str| r.map_err(|mut e| {
            e.msg = format!("{len} times {c:x}, {at:?} replaced, {what}: {}", e.msg.chars().rev().take(80).collect::<Vec<_>>().into_iter().rev().collect::<std::string::String>());
            e
        });
        brief(holds(rsharp__String__copy_utf8, &b, &b, b'x'), "UTF-8")?;
        brief(holds(rsharp__String__copy_utf16, &u, &b, 0x78), "UTF-16")?;
        if let Some(at) = at {
            let (mut b, mut u) = (b, u);
            let i = enc8(&v[..at]).len();
            b[i] = 0xFF;
            let i = enc16(&v[..at]).len();
            u[i] = 0xDC00;
            brief(one8(&b), "UTF-8 with a flaw")?;
            brief(one16(&u), "UTF-16 with a flaw")?;
        }
        faults()
    });
}
fn faults() -> Res {
    Meter::default().faultless("text")
}
