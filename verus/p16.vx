//@ # P16: the code of string and character literals denotes their contents.
use vstd::prelude::*;
verus! {
//@ include ast.vxi
//@ include tokens.vxi
//@ include enc.vxi
//@ include strgen.vxi
}
fn main() {}
