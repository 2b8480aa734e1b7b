fn main() {
    symrt::native::main(codec::TABLE)
}
