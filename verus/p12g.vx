//@ # P12: the Rust types which are generated for C types.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include tokens.vxi
//@ include typegen.vxi
}
fn main() {}
