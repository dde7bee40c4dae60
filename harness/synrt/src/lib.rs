//! What generated code depends on, so that it is built once.
pub use rowan;
pub use token;
