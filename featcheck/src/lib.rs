//! Builds the library in a chosen feature set.
pub use email_parser;
