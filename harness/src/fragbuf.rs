//! Input buffers whose segmentation, and nothing else, varies.
use bytes::Buf;

/// `data[pos..]` presented as segments ending at `cuts` (ascending absolute offsets) and at the end.
pub struct FragBuf<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub cuts: &'a [usize],
    /// one byte per segment
    pub single: bool,
    pub reads: usize,
    pub on_access: Option<fn()>,
    pub on_advance: Option<fn()>,
}
impl<'a> FragBuf<'a> {
    pub fn new(data: &'a [u8], cuts: &'a [usize]) -> Self {
        FragBuf { data, pos: 0, cuts, single: false, reads: 0, on_access: None, on_advance: None }
    }
    pub fn bytewise(data: &'a [u8]) -> Self {
        FragBuf { data, pos: 0, cuts: &[], single: true, reads: 0, on_access: None, on_advance: None }
    }
}
impl Buf for FragBuf<'_> {
    fn remaining(&self) -> usize {
        if let Some(f) = self.on_access {
            f();
        }
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        if self.single {
            let e = (self.pos + 1).min(self.data.len());
            return &self.data[self.pos..e];
        }
        let e = self.cuts.get(self.cuts.partition_point(|c| *c <= self.pos)).copied().unwrap_or(self.data.len());
        &self.data[self.pos..e.min(self.data.len())]
    }
    fn advance(&mut self, n: usize) {
        if let Some(f) = self.on_access {
            f();
        }
        if let Some(f) = self.on_advance {
            f();
        }
        assert!(n <= self.data.len() - self.pos, "advance past the end of the input");
        self.pos += n;
        self.reads += 1;
    }
}
