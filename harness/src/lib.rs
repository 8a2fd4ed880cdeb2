//! Property-based checks of stun_codec: see /verif/DESIGN.md.
pub mod alloc;
pub mod dict;
pub mod engine;
pub mod gen;
pub mod hash;
pub mod mirirun;
pub mod model;
pub mod probe;
pub mod props;
pub mod sets;
pub mod src;
