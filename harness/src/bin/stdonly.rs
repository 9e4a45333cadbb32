//! What only the build with std offers: compiles or not.
#[cfg(feature = "std")]
fn main() {
    use miniserde::{json, Deserialize, Serialize};
    use std::collections::HashMap;
    fn is_error<E: std::error::Error + Send + Sync + Copy + std::fmt::Debug + std::fmt::Display + 'static>(e: E) -> Box<dyn std::error::Error + Send + Sync> {
        e.into()
    }
    fn both<T: Serialize + Deserialize>() {}
    both::<HashMap<String, u8>>();
    both::<HashMap<i8, Vec<Option<HashMap<u64, bool, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>>>>>();
    let e = json::from_str::<u8>("x").unwrap_err();
    println!("{} {:?} {}", e, e, is_error(e));
}
#[cfg(not(feature = "std"))]
fn main() {}
