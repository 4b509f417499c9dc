//! Stand-in for the field types of `stwo-prover` (the submodule is absent from this sandbox).
//! Semantics follow starkware-libs/stwo rev ab57a1c: M31 is the integers modulo 2^31 - 1 and
//! QM31 its degree-4 extension.  This crate is part of the trusted base of every check.
pub mod core {
    pub mod fields {
        pub mod cm31 {
            use super::m31::M31;
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
            pub struct CM31(pub M31, pub M31);
            impl std::ops::Add for CM31 {
                type Output = Self;
                fn add(self, r: Self) -> Self {
                    Self(self.0 + r.0, self.1 + r.1)
                }
            }
            impl num_traits::Zero for CM31 {
                fn zero() -> Self {
                    Self::default()
                }
                fn is_zero(&self) -> bool {
                    self.0 .0 == 0 && self.1 .0 == 0
                }
            }
        }
        pub mod m31;
        pub mod qm31;
    }
}
