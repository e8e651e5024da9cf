//! Empty stand-in (dev-dependency of the repository, never built here).
