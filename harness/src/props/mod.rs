use crate::ctx::Prop;

pub mod util;
pub mod scan;
pub mod parse;
pub mod file;
pub mod fault;
pub mod live;
pub mod cli;
pub mod progress;
pub mod shell;
pub mod mixed;
pub mod ident;
pub mod sync;
pub mod work;
pub mod settings;

pub const ALL: &[&Prop] = &[
    &scan::C01, &scan::C02, &scan::C03, &scan::C04, &scan::C05,
    &parse::C06, &parse::C07, &parse::C08, &parse::C09, &parse::C10, &parse::C11, &parse::C12,
    &file::C13, &file::C14, &parse::C15, &parse::C23,
    &fault::C16, &fault::C17, &live::C18, &live::C19, &live::C20, &cli::C21,
    &progress::C24, &shell::C25, &mixed::C26, &ident::C27, &sync::C28, &work::C29, &settings::C30,
];

pub fn stress(_args: &[&str]) -> i32 { 2 }
