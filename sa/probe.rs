
/// instantiations of the exported macros, so that their expansions are analysed like ordinary functions
#[doc(hidden)]
pub mod zz_probe {
    use crate::TryReserveError;
    use alloc::string::String;
    #[cfg(feature = "unstable")]
    use alloc::vec::Vec;

    #[cfg(feature = "unstable")]
    pub fn vec_list<T>(a: T, b: T, c: T) -> Result<Vec<T>, TryReserveError> {
        crate::try_vec![a, b, c]
    }

    #[cfg(feature = "unstable")]
    pub fn vec_list_trailing<T>(a: T, b: T) -> Result<Vec<T>, TryReserveError> {
        crate::try_vec![a, b,]
    }

    #[cfg(feature = "unstable")]
    pub fn vec_empty<T>() -> Result<Vec<T>, TryReserveError> {
        crate::try_vec![]
    }

    #[cfg(feature = "unstable")]
    pub fn vec_elem<T: crate::TryClone>(v: T, n: usize) -> Result<Vec<T>, TryReserveError> {
        crate::try_vec![v; n]
    }

    pub fn format_one<T: core::fmt::Display>(n: usize, v: T) -> Result<String, TryReserveError> {
        crate::tryformat!(n, "{}", v)
    }
}
