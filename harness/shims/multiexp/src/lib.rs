//! Stand-in for multiexp 0.2 (not in the offline cache): the sum of the scalar multiples.
pub fn multiexp<G: group::Group>(pairs: &[(G::Scalar, G)]) -> G { let mut r = G::identity(); for (s, p) in pairs { r += *p * *s; } r }
