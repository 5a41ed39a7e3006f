fn main() {
    ebi::verif_native::main();
}
