//! Stand-in: only the re-export of core that the wallet uses
pub use core as _core;
