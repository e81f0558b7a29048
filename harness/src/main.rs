//! One binary for all properties; see base/src/run.rs for the command line.
mod dirty;
mod drive;
mod props;
mod read;

#[global_allocator]
static GLOBAL: dirty::Dirty = dirty::Dirty;

fn main() {
    std::process::exit(yvbase::run::main_with(props::ALL));
}
