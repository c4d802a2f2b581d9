mod exec;
mod expr;
mod ll;
mod mem;
mod par;
mod solver;

fn main() {
    // deep expression recursion needs a large stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(|| par::main()).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
