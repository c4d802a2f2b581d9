#[cfg(vs_native)]
fn main() { vs::replay_main(maps::TABLES) }
#[cfg(not(vs_native))]
fn main() {}
