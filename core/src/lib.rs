//! What the checkers of tp_client's core share: the property types and the contracts of any shape.
pub mod types;
pub mod world;
