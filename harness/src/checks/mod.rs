mod bloom;
pub mod codecs;
mod columns;
mod contain;
mod copies;
mod encoding;
pub mod far;
pub mod files;
mod foreign;
pub mod index;
mod iters;
pub mod limits;
mod malformed;
mod meta;
mod pages;
pub mod schema;
pub mod stats;
use crate::engine::Space;

pub struct Def {
    pub spaces: Vec<Space>,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}
pub fn spaces(prop: &str, thorough: bool) -> Def {
    match prop {
        "C01" => files::roundtrip(thorough),
        "C02" => files::async_equiv(thorough),
        "C03" => files::io_faults(thorough),
        "C04" => files::crash(thorough),
        "C05" => files::protocol(thorough),
        "C06" => index::indexes(thorough),
        "C07" => index::algebra(thorough),
        "C08" => index::filtered(thorough),
        "C09" => encoding::hybrid(thorough),
        "C10" => encoding::bitpacking(thorough),
        "C11" => encoding::delta(thorough),
        "C12" => encoding::byte_arrays(thorough),
        "C13" => encoding::varints(thorough),
        "C15" => schema::schemas(thorough),
        "C14" => stats::statistics(thorough),
        "C16" => codecs::codecs_(thorough),
        "C17" => malformed::malformed(thorough),
        "C18" => bloom::blooms(thorough),
        "C19" => pages::deserialization(thorough),
        "C20" => columns::iteration(thorough),
        "C21" => meta::metadata(thorough),
        "C28" => copies::copies(thorough),
        "C27" => foreign::foreign(thorough),
        "C26" => contain::containment(thorough),
        "C25" => iters::iterators(thorough),
        "C24" => limits::limits(thorough),
        "C23" => codecs::buffers(thorough),
        "C22" => stats::types(thorough),
        _ => Def { spaces: vec![], rule: "", assumptions: vec![] },
    }
}
