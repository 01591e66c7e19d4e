use crate::runner::Scenario;
pub mod algebra;
pub mod circ;
pub mod gadgets;
pub mod gates;
pub mod curve;
pub mod cusp;
pub mod sums;
pub mod perm;
pub mod rescue;
pub mod recur;
pub mod mul;
pub mod hash;
pub mod codec;
#[cfg(feature = "hooks")]
pub mod ipa;
#[cfg(feature = "hooks")]
pub mod proto;
#[cfg(feature = "hooks")]
pub mod lookup;
pub fn all() -> Vec<Scenario> {
    let mut v = vec![];
    v.extend(curve::all());
    v.extend(sums::all());
    v.extend(algebra::all());
    v.extend(gadgets::all());
    v.extend(gates::all());
    v.extend(perm::all());
    v.extend(rescue::all());
    v.extend(recur::all());
    v.extend(mul::all());
    v.extend(hash::all());
    v.extend(codec::all());
    #[cfg(feature = "hooks")]
    v.extend(ipa::all());
    #[cfg(feature = "hooks")]
    v.extend(proto::all());
    #[cfg(feature = "hooks")]
    v.extend(lookup::all());
    v
}
#[macro_export]
macro_rules! scenario {
    ($m:ty, $prop:expr, $tier:expr, $name:ident, $about:expr) => {
        crate::runner::Scenario {
            name: stringify!($name),
            prop: $prop,
            tier: $tier,
            about: $about,
            run: $name,
            init: crate::runner::init_for::<$m>,
            panics_ok: false,
        }
    };
}
