fn main() {
    symrt::native::main(zone::TABLE)
}
