## main.rs
@fn cli::main
@requires
    spec_cli::clap_checks(),
    lenient() || spec_cli::returns(),
@ensures
    spec_cli::given_value() is Some,
    spec_cli::printed(old(world).out@, final(world).out@),
@may lenient()
@start
    proof { spec_cli::lemma_words(); }
