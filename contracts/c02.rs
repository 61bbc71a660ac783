//@include dump.rs
