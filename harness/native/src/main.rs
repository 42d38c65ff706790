mod audio;
mod redact;
mod simnet;

fn main() {
    let args = vpcommon::Args::parse();
    vpcommon::quiet_panics();
    match args.driver.as_str() {
        "audio" => audio::main(&args),
        "redact" => redact::main(&args),
        "simnet" => simnet::main(&args),
        o => panic!("unknown driver {o}"),
    }
}
