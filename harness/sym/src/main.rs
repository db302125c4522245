fn main() {
    let i = std::env::args().count();
    hx::HARNESSES[i].1();
}
