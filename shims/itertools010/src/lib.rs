//! Stand-in for itertools 0.10: version 0.9, which is in the offline cache.
pub use real::*;
