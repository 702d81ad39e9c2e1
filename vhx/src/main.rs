//! Monitors of the crates that talk to the outside world: the cloud client, the LCD driver and
//! the terminal.  The supervisor and the models come from the other harness.

#[path = "../../harness/src/con.rs"]
mod con;
#[path = "../../harness/src/mach.rs"]
mod mach;
mod props;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/runner.rs"]
mod runner;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("term") {
        props::child();
        return;
    }
    std::process::exit(runner::main(props::all()));
}
