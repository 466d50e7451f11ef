//! Harnesses executed symbolically over the real rgb-std code.

#[macro_use]
pub mod sx;
pub mod access;
pub mod amount;
pub mod invoice;
pub mod compose;
pub mod extend;
pub mod flow;
pub mod face;
pub mod history;
pub mod issue;
pub mod kit;
pub mod store;
pub mod file;
pub mod list;
pub mod merge;
pub mod state;
pub mod transfer;
pub mod world;

#[cfg(feature = "native")]
pub fn entries() -> Vec<(&'static str, fn())> { [access::ENTRIES, file::ENTRIES, list::ENTRIES, extend::ENTRIES, amount::ENTRIES, invoice::ENTRIES, compose::ENTRIES, state::ENTRIES, transfer::ENTRIES, merge::ENTRIES, issue::ENTRIES, face::ENTRIES, history::ENTRIES, kit::ENTRIES, store::ENTRIES].concat() }
