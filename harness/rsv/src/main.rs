fn main() {
    symrt::native::main(rsv::TABLE)
}
