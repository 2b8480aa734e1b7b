fn main() {
    symrt::native::main(ns::TABLE)
}
