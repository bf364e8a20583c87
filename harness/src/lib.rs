//! Drivers that execute scripts against the radius crate and record what it does as traces.
pub mod clock;
pub mod dict_driver;
pub mod exec;
pub mod logs;
pub mod net;
pub mod ports;
pub mod tap;
pub mod util;

/// The module tree that the generated dictionary driver drives.
pub mod dictroot {
    pub use radius::core::*;
}
