//! Small property-based testing engine used by every check in /verif.
//!
//! A case is a pure function of a *choice sequence*: generators draw bounded integers from a
//! [`Src`], which records them. A failing case is shrunk by editing its recorded choice sequence
//! (deleting blocks, zeroing blocks, minimising single choices) and replaying it, so every
//! generator built on `Src` shrinks and replays without extra code.

mod run;
mod src;

pub use run::{Case, Check, CheckOpts, Fail, Ret, Tier, known, known_ids, main_with, no_panic, quiet_panics, root};
pub use src::Src;

/// Build a [`Fail`] from format arguments.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail::new(format!($($t)*))) };
}

/// Return a [`Fail`] unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($t:tt)*) => { if !$cond { return Err($crate::Fail::new(format!($($t)*))); } };
}
