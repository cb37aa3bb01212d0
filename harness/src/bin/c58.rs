//! C58: Hexagon memory copies and register save/restore stubs; the machinery is that of C26.
#[path = "c26.rs"]
mod c26;

fn main() {
    c26::go("C58", false)
}
