//! What calls across the border allocate and free.
use mcx::alloc::{live, take_fault, Fault};
use mcx::{ensure, Res};

/// Sums up what calls across the border allocate and free.
#[derive(Default)]
pub struct Meter {
    pub bytes: i64,
    pub blocks: i64,
}
impl Meter {
    pub fn c<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let a = live();
        let r = f();
        let b = live();
        self.bytes += b.0 - a.0;
        self.blocks += b.1 - a.1;
        r
    }
    /// Nothing is left and nothing was misused.
    pub fn settled(&self, what: &str) -> Res {
        self.faultless(what)?;
        ensure!(self.bytes == 0 && self.blocks == 0, "leak", "{what}: after releasing everything {} bytes in {} blocks are still allocated", self.bytes, self.blocks);
        Ok(())
    }
    pub fn faultless(&self, what: &str) -> Res {
        let f = take_fault();
        ensure!(f == Fault::None, "memory", "{what}: {f:?}");
        Ok(())
    }
}
