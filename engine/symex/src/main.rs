mod cfg;
mod exec;
mod expr;
mod intrin;
mod intsmt;
mod ir;
mod mem;
mod z3;

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(4usize << 30)
        .spawn(exec::main)
        .unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
