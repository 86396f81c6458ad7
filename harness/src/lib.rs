#![allow(dead_code)]
#[macro_use]
pub mod sym;
pub mod util;
pub mod gravity;
pub mod effects;
pub mod gr;
pub mod universe;
pub mod compose;
pub mod evolution;
pub mod integ;
pub mod persist;
pub mod program;
pub mod wh;
pub mod frame;

pub const TABLES: &[&[(&str, fn())]] = &[gravity::ALL, effects::ALL, gr::ALL, universe::ALL, compose::ALL, evolution::ALL, integ::ALL, persist::ALL, program::ALL, wh::ALL, frame::ALL];
/// the command-line program itself
pub mod cli { #![allow(unused_imports)] include!("/repo/src/main.rs"); pub fn run() { main() } }
