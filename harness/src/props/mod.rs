use crate::runner::Prop;

#[cfg(all(feature = "inner", feature = "set-default"))]
pub mod blocks;
pub mod crash;
pub mod dec;
pub mod enc;
#[cfg(not(feature = "set-alloc"))]
pub mod io;
#[cfg(feature = "inner")]
pub mod model;
pub mod paths;
pub mod peer;
pub mod ser;
#[cfg(feature = "set-default")]
pub mod tools;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(enc::props());
    v.extend(dec::props());
    #[cfg(feature = "inner")]
    v.extend(model::props());
    #[cfg(not(feature = "set-alloc"))]
    v.extend(io::props());
    v.extend(paths::props());
    v.extend(crash::props());
    v.extend(ser::props());
    v.extend(peer::props());
    #[cfg(feature = "set-default")]
    v.extend(tools::props());
    #[cfg(all(feature = "inner", feature = "set-default"))]
    v.extend(blocks::props());
    v
}
