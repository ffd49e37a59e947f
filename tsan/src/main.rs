//! The P04 workloads alone, to be built with ThreadSanitizer.
#![allow(dead_code, unused_imports)]
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
#[path = "../../harness/src/w_num.rs"]
mod w_num;
#[path = "../../harness/src/w_thr.rs"]
mod w_thr;
#[path = "../../harness/src/entry.rs"]
mod entry;

const PROPS: &[&crate::core::Prop] = &[&w_num::P04];

fn main() {
    entry::main(PROPS)
}
