pub mod cone;
pub mod groebner;
pub mod linalg;
pub mod mat;
pub mod mdeg;
pub mod num;
pub mod poly;
pub mod sane;
pub mod scale;
pub mod show;
pub mod util;

use crate::rt::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(num::props());
    v.extend(mdeg::props());
    v.extend(poly::props());
    v.extend(show::props());
    v.extend(sane::props());
    v.extend(groebner::props());
    v.extend(mat::props());
    v.extend(linalg::props());
    v.extend(cone::props());
    v.extend(util::props());
    v
}
