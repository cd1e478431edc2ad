//! Shared machinery of the runtime monitors: choice source, worker protocol, node oracle client,
//! panic capture and program generators.
pub mod gen_exec;
pub mod gen_scope;
pub mod gen_syn;
pub mod gen_ts;
pub mod gen_tsx;
pub mod node;
pub mod src;
pub mod stall;
pub mod worker;
pub use node::Node;
pub use serde_json::{json, Value};
pub use src::Src;
pub use worker::{catch, hash64, run, Ctx, Outcome};
