//! The property harnesses. Compiled twice: against the symbolic rewriting of the crate (`sym_engine`), where every
//! `real` is a solver variable and every `check` a solver query, and against the crate itself, where a model found by
//! the solver is replayed.
#![allow(unused_imports, dead_code, unused_variables)]
#[cfg_attr(feature = "sym_engine", path = "rt_sym.rs")]
#[cfg_attr(not(feature = "sym_engine"), path = "rt_real.rs")]
mod rt;
mod kit;
mod props;

fn main() { rt::main(props::registry()); }
