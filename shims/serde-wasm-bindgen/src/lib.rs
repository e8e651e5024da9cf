//! Empty stand-in: declared but not used by the repository.
