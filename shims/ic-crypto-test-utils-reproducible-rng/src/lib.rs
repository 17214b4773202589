use rand::rngs::StdRng;
use rand::SeedableRng;
pub type ReproducibleRng = StdRng;
pub fn reproducible_rng() -> StdRng {
    StdRng::seed_from_u64(42)
}
