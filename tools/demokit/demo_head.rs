#[path = "rt.rs"]
mod rt;
#[path = "lab.rs"]
mod lab;
use lab::*;
