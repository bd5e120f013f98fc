pub mod foreign;
pub mod hostile;
pub mod image;
pub mod meta;
pub mod par;
pub mod reader;
pub mod rules;
use crate::CaseFn;

/// Per-process caches of the checks.
#[derive(Default)]
pub struct Store {
    pub corpus: Option<Vec<Vec<u8>>>,
    /// first outcome of the pictures C23 decodes again and again
    pub first: std::collections::BTreeMap<u64, crate::mon::Out>,
}

pub const CHECKS: &[(&str, CaseFn)] = &[
    ("C03", image::c03),
    ("C04", image::c04),
    ("C05", image::c05),
    ("C06", image::c06),
    ("C07", image::c07),
    ("C08", image::c08),
    ("C09", image::c09),
    ("C01", hostile::c01),
    ("C02", hostile::c02),
    ("C16", hostile::c16),
    ("C17", hostile::c17),
    ("C20", hostile::c20),
    ("C12", reader::c12),
    ("C13", reader::c13),
    ("C14", meta::c14),
    ("C15", meta::c15),
    ("C18", rules::c18),
    ("C19", rules::c19),
    ("C21", rules::c21),
    ("C22", rules::c22),
    ("C10", par::c10),
    ("C11", par::c11),
    ("C23", par::c23),
    ("C02X", foreign::c02x),
    ("C11X", foreign::c11x),
];

pub fn find(id: &str) -> Option<CaseFn> {
    CHECKS.iter().find(|c| c.0 == id).map(|c| c.1)
}
