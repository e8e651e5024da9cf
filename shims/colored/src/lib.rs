//! Empty stand-in: only used by the repository under its "profile" feature.
