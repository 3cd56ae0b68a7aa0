pub use crate::gen::*;
pub use crate::model::*;
pub use crate::orch::*;
pub use crate::rng::*;
pub use crate::sess::*;
pub use crate::subj::*;
pub use crate::vt::*;
pub use crate::{bail, ensure};
#[allow(unused_imports)]
pub use std::time::{Duration, Instant};

mod edit;
pub mod hist;
pub mod life;
mod lines;
mod notice;
mod output;
mod pipe;
mod san;
mod screen;
mod stderr;
pub mod vt52;
pub use screen::*;

pub fn find(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => output::c01(),
        "C03" => output::c03(),
        "C02" => screen::c02(),
        "C04" => edit::c04(),
        "C05" => edit::c05(),
        "C06" => edit::c06(),
        "C07" => edit::c07(),
        "C20" => edit::c20(),
        "C08" => hist::c08(),
        "C09" => hist::c09(),
        "C10" => notice::c10(),
        "C11" => notice::c11(),
        "C12" => pipe::c12(),
        "C13" => life::c13(),
        "C14" => life::c14(),
        "C15" => pipe::c15(),
        "C16" => life::c16(),
        "C17" => lines::c17(),
        "C18" => lines::c18(),
        "C19" => lines::c19(),
        "C21" => vt52::c21(),
        "C22" => stderr::c22(),
        "C23" => life::c23(),
        "C24" => san::c24(),
        _ => return None,
    })
}
