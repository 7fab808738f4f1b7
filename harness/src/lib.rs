#![allow(static_mut_refs)]
#[path = "../../build/gen/entry/main.rs"]
#[allow(dead_code, unused_imports)]
pub mod m;
pub mod vp;
pub mod world;
pub mod smoke;
pub mod scen;
pub mod inp;
pub mod robust;
pub mod conf;
pub mod der;
pub mod val;
pub mod ca;
pub mod full;
include!("../../build/gen/entries.rs");
