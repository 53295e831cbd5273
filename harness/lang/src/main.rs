//! Properties of the schema language: parser, compiler, documentation, metadata, projects.

mod compile;
mod conv;
mod doc;
mod json;
mod md;
mod meta;
mod parse;
mod project;

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    process::ExitCode,
};

/// Counts what the current thread allocates, as a measure of work that is the same on every run.
struct Counting;

thread_local! {
    static ALLOCATIONS: Cell<u64> = const { Cell::new(0) };
}

// SAFETY: hands everything to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCATIONS.try_with(|n| n.set(n.get() + 1));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCATIONS.try_with(|n| n.set(n.get() + 1));
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

pub fn allocations<T>(f: impl FnOnce() -> T) -> (u64, T) {
    let before = ALLOCATIONS.with(Cell::get);
    let r = f();
    (ALLOCATIONS.with(Cell::get) - before, r)
}

fn main() -> ExitCode {
    if let Some(n) = std::env::var("LANG_DEEP").ok().and_then(|n| n.parse().ok()) {
        parse::deep_child(n);
    }
    pbt::main_with(|id| match id {
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" => parse::check(id),
        "C01" | "C02" | "C03" | "C04" => compile::check(id),
        "C05" => json::check(id),
        "M01" => meta::check(id),
        "J01" => project::check(id),
        "D01" | "D02" => doc::check(id),
        _ => None,
    })
}
