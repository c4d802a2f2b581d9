#[cfg(vs_native)]
fn main() { vs::replay_main(mac::TABLES) }
#[cfg(not(vs_native))]
fn main() {}
