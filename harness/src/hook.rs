//! Observation of private state through the hooks of the crate under test
//! (`--cfg algeo_verif`).  Without them the observations are missing, and only
//! what needs them is inconclusive.

use algeo::core::num::*;
use algeo::linalg::algorithm::RowEquivalentForm;
use algeo::linalg::cone::Cone;
use algeo::linalg::mat::Mat;

pub const NONE: &str = "the hooks are not available in this build";

/// (p, b, original)
#[cfg(algeo_verif)]
pub fn parts<F: Field, const E: bool, const R: bool>(f: &RowEquivalentForm<F, E, R>) -> Option<(Mat<F>, Mat<F>, Mat<F>)> {
    let (p, b, o) = f.verif_parts();
    Some((p.clone(), b.clone(), o.clone()))
}
#[cfg(not(algeo_verif))]
pub fn parts<F: Field, const E: bool, const R: bool>(_: &RowEquivalentForm<F, E, R>) -> Option<(Mat<F>, Mat<F>, Mat<F>)> {
    None
}

pub struct ConeParts<F: Field> {
    pub generators: Vec<Mat<F>>,
    pub orth: Vec<Mat<F>>,
    pub ambient: usize,
    pub dim: usize,
    /// normal and generators
    pub facets: Vec<(Mat<F>, Vec<Mat<F>>)>,
}
#[cfg(algeo_verif)]
pub fn cone<F: Field>(c: &Cone<F>) -> Option<ConeParts<F>> {
    let (g, o, a, d) = c.verif_parts();
    Some(ConeParts { generators: g.to_vec(), orth: o.to_vec(), ambient: a, dim: d, facets: c.verif_facets().into_iter().map(|(n, g)| (n.clone(), g.to_vec())).collect() })
}
#[cfg(not(algeo_verif))]
pub fn cone<F: Field>(_: &Cone<F>) -> Option<ConeParts<F>> {
    None
}
