//! The properties, each an executable check over one generated case.

pub mod cli;
pub mod core;
pub mod exts;
pub mod fuzz;
pub mod layout;
pub mod reflect;
pub mod refs;
pub mod rels;
pub mod slots;
pub mod structure;
pub mod sys;
pub mod values;

use crate::runner::Prop;

pub static ALL: &[Prop] = &[core::P01, core::P02, fuzz::P03, fuzz::P04, fuzz::P05, fuzz::P06, values::P07, values::P08, values::P09, values::P10, refs::P11, rels::P12, rels::P13, layout::P14, layout::P15, refs::P16, exts::P17, exts::P18, exts::P19, exts::P20, structure::P21, structure::P22, cli::P23, cli::P24, cli::P25, sys::P26, sys::P27, layout::P28];
