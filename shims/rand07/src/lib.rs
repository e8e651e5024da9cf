//! Empty stand-in: the repository declares rand 0.7 but only uses rand_core.
