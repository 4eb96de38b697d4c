fn main() {
    std::process::exit(toon_verif::runner::run_main(toon_verif::props::all));
}
