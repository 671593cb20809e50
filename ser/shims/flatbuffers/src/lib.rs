//! The part of `flatbuffers` 22 that /repo uses, written from the format's description: little-endian
//! scalars, tables with vtables, vectors, strings, a verifier for tables, unions, vectors and texts.
use std::fmt;
use std::marker::PhantomData;

pub type UOffsetT = u32;
pub type SOffsetT = i32;
pub type VOffsetT = u16;
pub const SIZE_UOFFSET: usize = 4;
pub const FILE_IDENTIFIER_LENGTH: usize = 4;

// ---- reading ----

pub trait Follow<'a> {
    type Inner;
    fn follow(buf: &'a [u8], loc: usize) -> Self::Inner;
}
/// A scalar
pub trait Scalar: Copy + PartialEq {
    const SIZE: usize;
    fn put(self, to: &mut [u8]);
    fn take(from: &[u8]) -> Self;
}
macro_rules! scalars { ($($t:ty),+) => { $(
    impl Scalar for $t {
        const SIZE: usize = std::mem::size_of::<$t>();
        fn put(self, to: &mut [u8]) {
            to[..Self::SIZE].copy_from_slice(&self.to_le_bytes())
        }
        fn take(from: &[u8]) -> Self {
            Self::from_le_bytes(from[..Self::SIZE].try_into().unwrap())
        }
    }
    impl<'a> Follow<'a> for $t {
        type Inner = $t;
        fn follow(buf: &'a [u8], loc: usize) -> $t {
            <$t>::take(&buf[loc..])
        }
    }
    impl Push for $t {
        type Output = $t;
        const WIDTH: usize = std::mem::size_of::<$t>();
        fn push(&self, dst: &mut [u8], _rest: usize) {
            self.put(dst)
        }
    }
    impl Verifiable for $t {
        fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
            v.in_buffer::<$t>(pos)
        }
    }
)+ } }
scalars!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);
impl Scalar for bool {
    const SIZE: usize = 1;
    fn put(self, to: &mut [u8]) {
        to[0] = self as u8
    }
    fn take(from: &[u8]) -> Self {
        from[0] != 0
    }
}
impl<'a> Follow<'a> for bool {
    type Inner = bool;
    fn follow(buf: &'a [u8], loc: usize) -> bool {
        buf[loc] != 0
    }
}
impl Push for bool {
    type Output = bool;
    const WIDTH: usize = 1;
    fn push(&self, dst: &mut [u8], _rest: usize) {
        self.put(dst)
    }
}
impl Verifiable for bool {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
        v.in_buffer::<u8>(pos)
    }
}
fn u32_at(buf: &[u8], loc: usize) -> usize {
    u32::take(&buf[loc..]) as usize
}
#[derive(Debug, Clone, Copy)]
pub struct ForwardsUOffset<T>(PhantomData<T>);
impl<'a, T: Follow<'a>> Follow<'a> for ForwardsUOffset<T> {
    type Inner = T::Inner;
    fn follow(buf: &'a [u8], loc: usize) -> T::Inner {
        T::follow(buf, loc + u32_at(buf, loc))
    }
}
impl<'a> Follow<'a> for &'a str {
    type Inner = &'a str;
    fn follow(buf: &'a [u8], loc: usize) -> &'a str {
        let n = u32_at(buf, loc);
        std::str::from_utf8(&buf[loc + 4..loc + 4 + n]).expect("a verified text")
    }
}
pub struct Vector<'a, T>(&'a [u8], usize, PhantomData<T>);
impl<'a, T> Clone for Vector<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T> Copy for Vector<'a, T> {}
impl<'a, T> Follow<'a> for Vector<'a, T> {
    type Inner = Vector<'a, T>;
    fn follow(buf: &'a [u8], loc: usize) -> Self {
        Vector(buf, loc, PhantomData)
    }
}
/// How far apart items lie in a vector
pub trait Stride {
    const STRIDE: usize;
}
impl<T> Stride for ForwardsUOffset<T> {
    const STRIDE: usize = 4;
}
impl<T: Scalar> Stride for T {
    const STRIDE: usize = T::SIZE;
}
impl<'a, T: Follow<'a> + 'a> Vector<'a, T> {
    pub fn len(&self) -> usize {
        u32_at(self.0, self.1)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<'a, T: Follow<'a> + Stride + 'a> Vector<'a, T> {
    pub fn get(&self, idx: usize) -> T::Inner {
        assert!(idx < self.len());
        T::follow(self.0, self.1 + 4 + T::STRIDE * idx)
    }
    pub fn iter(&self) -> VectorIter<'a, T> {
        VectorIter { v: *self, i: 0, n: self.len() }
    }
}
pub struct VectorIter<'a, T> {
    v: Vector<'a, T>,
    i: usize,
    n: usize,
}
impl<'a, T: Follow<'a> + Stride + 'a> Iterator for VectorIter<'a, T> {
    type Item = T::Inner;
    fn next(&mut self) -> Option<T::Inner> {
        (self.i < self.n).then(|| {
            self.i += 1;
            self.v.get(self.i - 1)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.n - self.i, Some(self.n - self.i))
    }
}
impl<'a, T: Follow<'a> + Stride + 'a> ExactSizeIterator for VectorIter<'a, T> {}
impl<'a, T: Follow<'a> + Stride + 'a> DoubleEndedIterator for VectorIter<'a, T> {
    fn next_back(&mut self) -> Option<T::Inner> {
        (self.i < self.n).then(|| {
            self.n -= 1;
            self.v.get(self.n)
        })
    }
}
impl<'a, T: Follow<'a> + Stride + 'a> IntoIterator for Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}
impl<'a, 'b, T: Follow<'a> + Stride + 'a> IntoIterator for &'b Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}
impl<'a, T: Follow<'a> + Stride + 'a> fmt::Debug for Vector<'a, T>
where
    T::Inner: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Table<'a> {
    pub buf: &'a [u8],
    pub loc: usize,
}
impl<'a> Table<'a> {
    pub fn new(buf: &'a [u8], loc: usize) -> Self {
        Table { buf, loc }
    }
    fn field(&self, slot: VOffsetT) -> Option<usize> {
        let vt = (self.loc as i64 - i32::take(&self.buf[self.loc..]) as i64) as usize;
        let size = u16::take(&self.buf[vt..]);
        if slot >= size {
            return None;
        }
        match u16::take(&self.buf[vt + slot as usize..]) {
            0 => None,
            o => Some(self.loc + o as usize),
        }
    }
    pub fn get<T: Follow<'a> + 'a>(&self, slot: VOffsetT, default: Option<T::Inner>) -> Option<T::Inner> {
        match self.field(slot) {
            Some(p) => Some(T::follow(self.buf, p)),
            None => default,
        }
    }
}
impl<'a> Follow<'a> for Table<'a> {
    type Inner = Table<'a>;
    fn follow(buf: &'a [u8], loc: usize) -> Self {
        Table { buf, loc }
    }
}

// ---- verifying ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum InvalidFlatbuffer {
    MissingRequiredField { required: &'static str },
    InconsistentUnion { field: &'static str, field_type: &'static str },
    Utf8Error { at: usize },
    MissingNullTerminator { at: usize },
    Unaligned { position: usize },
    RangeOutOfBounds { at: usize, len: usize },
    SignedOffsetOutOfBounds { position: usize },
    TooManyTables,
    ApparentSizeTooLarge,
    DepthLimitReached,
}
impl fmt::Display for InvalidFlatbuffer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for InvalidFlatbuffer {}
type Check = Result<(), InvalidFlatbuffer>;

pub trait Verifiable {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Check;
}
pub struct Verifier<'b> {
    buf: &'b [u8],
    depth: usize,
    tables: usize,
    apparent: usize,
}
impl<'b> Verifier<'b> {
    fn range(&mut self, at: usize, len: usize) -> Check {
        let end = at.saturating_add(len);
        if end > self.buf.len() {
            return Err(InvalidFlatbuffer::RangeOutOfBounds { at, len });
        }
        self.apparent += len;
        if self.apparent > 1 << 31 {
            return Err(InvalidFlatbuffer::ApparentSizeTooLarge);
        }
        Ok(())
    }
    pub fn in_buffer<T: Scalar>(&mut self, pos: usize) -> Check {
        if pos % T::SIZE != 0 {
            return Err(InvalidFlatbuffer::Unaligned { position: pos });
        }
        self.range(pos, T::SIZE)
    }
    fn uoffset(&mut self, pos: usize) -> Result<usize, InvalidFlatbuffer> {
        self.in_buffer::<u32>(pos)?;
        Ok(pos.saturating_add(u32_at(self.buf, pos)))
    }
    pub fn visit_table<'v>(&'v mut self, pos: usize) -> Result<TableVerifier<'v, 'b>, InvalidFlatbuffer> {
        self.in_buffer::<i32>(pos)?;
        let vt = pos as i64 - i32::take(&self.buf[pos..]) as i64;
        if vt < 0 || vt as usize >= self.buf.len() {
            return Err(InvalidFlatbuffer::SignedOffsetOutOfBounds { position: pos });
        }
        let vt = vt as usize;
        self.in_buffer::<u16>(vt)?;
        let len = u16::take(&self.buf[vt..]) as usize;
        if vt.saturating_add(len) % 2 != 0 {
            return Err(InvalidFlatbuffer::Unaligned { position: vt + len });
        }
        self.range(vt, len)?;
        self.depth += 1;
        self.tables += 1;
        if self.depth > 64 {
            return Err(InvalidFlatbuffer::DepthLimitReached);
        }
        if self.tables > 1_000_000 {
            return Err(InvalidFlatbuffer::TooManyTables);
        }
        Ok(TableVerifier { pos, vt, len, v: self })
    }
}
pub struct TableVerifier<'v, 'b> {
    pos: usize,
    vt: usize,
    len: usize,
    v: &'v mut Verifier<'b>,
}
impl<'v, 'b> TableVerifier<'v, 'b> {
    fn deref(&mut self, slot: VOffsetT) -> Result<Option<usize>, InvalidFlatbuffer> {
        if slot as usize >= self.len {
            return Ok(None);
        }
        let at = self.vt.saturating_add(slot as usize);
        self.v.in_buffer::<u16>(at)?;
        match u16::take(&self.v.buf[at..]) {
            0 => Ok(None),
            o => Ok(Some(self.pos.saturating_add(o as usize))),
        }
    }
    pub fn visit_field<T: Verifiable>(mut self, name: &'static str, slot: VOffsetT, required: bool) -> Result<Self, InvalidFlatbuffer> {
        match self.deref(slot)? {
            Some(p) => {
                T::run_verifier(self.v, p)?;
                Ok(self)
            }
            None if required => Err(InvalidFlatbuffer::MissingRequiredField { required: name }),
            None => Ok(self),
        }
    }
    pub fn visit_union<Key: Scalar + Into<u8> + Verifiable>(
        mut self,
        key_name: &'static str,
        key_slot: VOffsetT,
        name: &'static str,
        slot: VOffsetT,
        required: bool,
        check: impl FnOnce(u8, &mut Verifier, usize) -> Check,
    ) -> Result<Self, InvalidFlatbuffer> {
        match (self.deref(key_slot)?, self.deref(slot)?) {
            (None, None) if required => Err(InvalidFlatbuffer::MissingRequiredField { required: name }),
            (None, None) => Ok(self),
            (Some(k), Some(p)) => {
                Key::run_verifier(self.v, k)?;
                let key = Key::take(&self.v.buf[k..]).into();
                check(key, self.v, p)?;
                Ok(self)
            }
            _ => Err(InvalidFlatbuffer::InconsistentUnion { field: name, field_type: key_name }),
        }
    }
    pub fn finish(self) {
        self.v.depth -= 1
    }
}
impl<T: Verifiable> Verifiable for ForwardsUOffset<T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Check {
        let to = v.uoffset(pos)?;
        T::run_verifier(v, to)
    }
}
impl<'a> Verifiable for &'a str {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Check {
        v.in_buffer::<u32>(pos)?;
        let n = u32_at(v.buf, pos);
        v.range(pos + 4, n)?;
        if std::str::from_utf8(&v.buf[pos + 4..pos + 4 + n]).is_err() {
            return Err(InvalidFlatbuffer::Utf8Error { at: pos });
        }
        if v.buf.get(pos + 4 + n) != Some(&0) {
            return Err(InvalidFlatbuffer::MissingNullTerminator { at: pos });
        }
        Ok(())
    }
}
impl<'a, T: Verifiable + Stride> Verifiable for Vector<'a, T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Check {
        v.in_buffer::<u32>(pos)?;
        let n = u32_at(v.buf, pos);
        v.range(pos + 4, n.saturating_mul(T::STRIDE))?;
        for i in 0..n {
            T::run_verifier(v, pos + 4 + i * T::STRIDE)?
        }
        Ok(())
    }
}
pub fn root<'b, T: Follow<'b> + Verifiable + 'b>(data: &'b [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    let mut v = Verifier { buf: data, depth: 0, tables: 0, apparent: 0 };
    <ForwardsUOffset<T>>::run_verifier(&mut v, 0)?;
    Ok(<ForwardsUOffset<T>>::follow(data, 0))
}
pub fn buffer_has_identifier(data: &[u8], ident: &str, size_prefixed: bool) -> bool {
    let at = if size_prefixed { 8 } else { 4 };
    data.get(at..at + 4) == Some(ident.as_bytes())
}

// ---- writing ----

/// Something that is written into a buffer
pub trait Push: Sized {
    type Output;
    const WIDTH: usize;
    /// `rest`: how many bytes from the start of `dst` to the end of the buffer
    fn push(&self, dst: &mut [u8], rest: usize);
}
#[derive(Debug)]
pub struct WIPOffset<T>(UOffsetT, PhantomData<T>);
impl<T> Copy for WIPOffset<T> {}
impl<T> Clone for WIPOffset<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> PartialEq for WIPOffset<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
#[derive(Debug, Clone, Copy)]
pub struct UnionWIPOffset;
#[derive(Debug, Clone, Copy)]
pub struct TableUnfinishedWIPOffset;
#[derive(Debug, Clone, Copy)]
pub struct TableFinishedWIPOffset;
impl<T> WIPOffset<T> {
    pub fn new(o: UOffsetT) -> Self {
        WIPOffset(o, PhantomData)
    }
    pub fn value(self) -> UOffsetT {
        self.0
    }
    pub fn as_union_value(&self) -> WIPOffset<UnionWIPOffset> {
        WIPOffset::new(self.0)
    }
}
impl<T> Push for WIPOffset<T> {
    type Output = ForwardsUOffset<T>;
    const WIDTH: usize = 4;
    fn push(&self, dst: &mut [u8], rest: usize) {
        // counted from the end of the buffer, so a later thing cannot refer to an earlier place
        let n = (rest as u32).checked_sub(self.0).expect("an offset to something that is not written yet");
        n.put(dst)
    }
}
#[derive(Debug, Clone, Default)]
pub struct FlatBufferBuilder<'fbb> {
    /// the buffer from its end backwards
    back: Vec<u8>,
    align: usize,
    slots: Vec<(VOffsetT, u32)>,
    nested: bool,
    finished: bool,
    data: Vec<u8>,
    vtables: Vec<u32>,
    _of: PhantomData<&'fbb ()>,
}
impl<'fbb> FlatBufferBuilder<'fbb> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_size: usize) -> Self {
        Self::default()
    }
    pub fn new_with_capacity(size: usize) -> Self {
        Self::with_capacity(size)
    }
    pub fn reset(&mut self) {
        *self = Self::default()
    }
    fn used(&self) -> usize {
        self.back.len()
    }
    /// Pads so that after `len` more bytes the buffer is aligned to `to`.
    fn pad(&mut self, len: usize, to: usize) {
        self.align = self.align.max(to);
        while (self.used() + len) % to != 0 {
            self.back.push(0)
        }
    }
    fn raw(&mut self, bytes: &[u8]) {
        self.back.extend(bytes.iter().rev())
    }
    pub fn push<P: Push>(&mut self, x: P) -> WIPOffset<P::Output> {
        self.pad(P::WIDTH, P::WIDTH);
        let mut b = [0u8; 8];
        x.push(&mut b, self.used() + P::WIDTH);
        self.raw(&b[..P::WIDTH]);
        WIPOffset::new(self.used() as u32)
    }
    pub fn start_table(&mut self) -> WIPOffset<TableUnfinishedWIPOffset> {
        assert!(!self.nested && !self.finished, "a table within a table");
        self.nested = true;
        WIPOffset::new(self.used() as u32)
    }
    pub fn push_slot<X: Push + PartialEq>(&mut self, slot: VOffsetT, x: X, default: X) {
        if x != default {
            self.push_slot_always(slot, x)
        }
    }
    pub fn push_slot_always<X: Push>(&mut self, slot: VOffsetT, x: X) {
        assert!(self.nested, "a field outside of a table");
        let at = self.push(x).value();
        self.slots.push((slot, at))
    }
    pub fn end_table(&mut self, start: WIPOffset<TableUnfinishedWIPOffset>) -> WIPOffset<TableFinishedWIPOffset> {
        assert!(self.nested);
        // the place of the offset to the vtable
        let table = self.push(0i32).value();
        let n = self.slots.iter().map(|s| s.0 as usize + 2).max().unwrap_or(4);
        let mut vt = vec![0u8; n];
        (n as u16).put(&mut vt);
        ((table - start.value()) as u16).put(&mut vt[2..]);
        for (slot, at) in &self.slots {
            ((table - at) as u16).put(&mut vt[*slot as usize..]);
        }
        let same = self.vtables.iter().copied().find(|o| {
            let o = *o as usize;
            let have: Vec<u8> = self.back[..o].iter().rev().take(n).copied().collect();
            have == vt
        });
        let vt_at = same.unwrap_or_else(|| {
            self.pad(n, 2);
            self.raw(&vt);
            let at = self.used() as u32;
            self.vtables.push(at);
            at
        });
        let mut b = [0u8; 4];
        (vt_at as i32 - table as i32).put(&mut b);
        for (i, c) in b.iter().enumerate() {
            self.back[table as usize - 1 - i] = *c
        }
        self.slots.clear();
        self.nested = false;
        WIPOffset::new(table)
    }
    pub fn create_string<'a: 'b, 'b>(&'a mut self, s: &'b str) -> WIPOffset<&'fbb str> {
        assert!(!self.nested, "a text within a table");
        self.pad(s.len() + 1 + 4, 4);
        // the padding belongs behind the text
        self.raw(&[0]);
        self.raw(s.as_bytes());
        self.push(s.len() as u32);
        WIPOffset::new(self.used() as u32)
    }
    pub fn create_vector<'a: 'b, 'b, T: Push + Copy + 'b>(&'a mut self, items: &'b [T]) -> WIPOffset<Vector<'fbb, T::Output>> {
        self.create_vector_from_iter(items.iter().copied())
    }
    pub fn create_vector_from_iter<T: Push + Copy>(&mut self, items: impl ExactSizeIterator<Item = T> + DoubleEndedIterator) -> WIPOffset<Vector<'fbb, T::Output>> {
        assert!(!self.nested, "a vector within a table");
        let n = items.len();
        self.pad(n * T::WIDTH, 4.max(T::WIDTH));
        for x in items.rev() {
            self.push(x);
        }
        self.pad(0, 4);
        self.push(n as u32);
        WIPOffset::new(self.used() as u32)
    }
    pub fn finish<T>(&mut self, root: WIPOffset<T>, ident: Option<&str>) {
        assert!(!self.nested && !self.finished, "finished twice, or within a table");
        let head = 4 + ident.map_or(0, |_| FILE_IDENTIFIER_LENGTH);
        let align = self.align.max(4);
        self.pad(head, align);
        if let Some(i) = ident {
            assert_eq!(i.len(), FILE_IDENTIFIER_LENGTH);
            self.raw(i.as_bytes())
        }
        self.push(root);
        self.finished = true;
        self.data = self.back.iter().rev().copied().collect();
    }
    pub fn finish_minimal<T>(&mut self, root: WIPOffset<T>) {
        self.finish(root, None)
    }
    pub fn finished_data(&self) -> &[u8] {
        assert!(self.finished, "not finished");
        &self.data
    }
}
