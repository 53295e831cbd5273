//! Schema kit: models of schemas and values, their generators and reference semantics. Nothing
//! here depends on the code under test.

pub mod defects;
pub mod gen_;
pub mod large;
pub mod model;
pub mod render;
pub mod refs;
pub mod valid;
pub mod wire;
