//! Buffers used as decode sources.

use std::cell::Cell;

use mabo::Buf;

/// Contiguous source with a deterministic budget of buffer operations, so that a decoder that
/// never finishes is reported instead of hanging the check.
pub struct FuelBuf<'a> {
    data: &'a [u8],
    fuel: Cell<u64>,
}

impl<'a> FuelBuf<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self { data, fuel: Cell::new(20_000 + 400 * data.len() as u64) }
    }

    fn burn(&self) {
        let f = self.fuel.get();
        assert!(f > 0, "decoding does not terminate: operation budget of the buffer exhausted");
        self.fuel.set(f - 1);
    }
}

impl Buf for FuelBuf<'_> {
    fn remaining(&self) -> usize {
        self.burn();
        self.data.len()
    }
    fn chunk(&self) -> &[u8] {
        self.burn();
        self.data
    }
    fn advance(&mut self, cnt: usize) {
        self.burn();
        assert!(cnt <= self.data.len(), "advanced past the end of the buffer");
        self.data = &self.data[cnt..];
    }
}

/// The same bytes, delivered in several chunks.
pub struct ChunkBuf<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: Vec<usize>,
    fuel: Cell<u64>,
}

impl<'a> ChunkBuf<'a> {
    pub fn new(data: &'a [u8], mut cuts: Vec<usize>) -> Self {
        cuts.sort_unstable();
        Self { data, pos: 0, cuts, fuel: Cell::new(20_000 + 400 * data.len() as u64) }
    }

    fn burn(&self) {
        let f = self.fuel.get();
        assert!(f > 0, "decoding does not terminate: operation budget of the buffer exhausted");
        self.fuel.set(f - 1);
    }
}

impl Buf for ChunkBuf<'_> {
    fn remaining(&self) -> usize {
        self.burn();
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        self.burn();
        let end = self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.data.len()).min(self.data.len());
        &self.data[self.pos..end]
    }
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.remaining(), "advanced past the end of the buffer");
        self.pos += cnt;
    }
}
