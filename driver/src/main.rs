mod mini;
mod oracle;
mod props;
mod rng;
mod select;
mod sim;
mod tmpl;
mod world;
mod run;
fn main() {
    std::process::exit(run::main());
}
