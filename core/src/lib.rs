//! Shared machinery: exhaustive explorer, virtual OS, independent DNS reference codec.
pub mod alloc;
pub mod conform;
pub mod corpus;
pub mod explore;
pub mod logcap;
pub mod refdns;
pub mod util;
pub mod world;

pub use explore::{Cx, Scenario, Tier};
