// Pulls in the crate under analysis as a dependency, with every feature on.
pub use papaya as _papaya;
