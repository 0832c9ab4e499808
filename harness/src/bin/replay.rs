#[global_allocator]
static A: harness::replay::Limited = harness::replay::Limited;
fn main() {
    harness::replay::main()
}
