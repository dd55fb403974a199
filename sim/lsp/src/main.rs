mod drive;
mod memory;
mod model;
mod session;
mod workspace;

#[global_allocator]
static COUNTING: simcore::memory::Counting = simcore::memory::Counting;

fn main() {
    simcore::main(&drive::checks());
}
