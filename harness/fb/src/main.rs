mod builder;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    builder::main()
}
