mod actor;
mod assets;
mod base16;
mod calls;
mod crypto;
mod endorse;
mod group;
mod http;
mod keys;
mod proto;
mod rings;
mod sfu;
mod signaling;
mod sync;

fn main() {
    let args = vpcommon::Args::parse();
    if std::env::var_os("VP_LOUD").is_none() {
        vpcommon::quiet_panics();
    }
    match args.driver.as_str() {
        "actor" => actor::main(&args),
        "assets" => assets::main(&args),
        "base16" => base16::main(&args),
        "calls" => calls::main(&args),
        "crypto" => crypto::main(&args),
        "endorse" => endorse::main(&args),
        "group" => group::main(&args),
        "http" => http::main(&args),
        "keys" => keys::main(&args),
        "locks" => sync::locks(&args),
        "events" => sync::events(&args),
        "signaling" => signaling::main(&args),
        "rings" => rings::main(&args),
        "sfu" => sfu::main(&args),
        "protoext" => proto::ext(&args),
        o => panic!("unknown driver {o}"),
    }
}
