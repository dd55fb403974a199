mod big;
mod bounded;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c24;
mod common;

#[global_allocator]
static COUNTING: simcore::memory::Counting = simcore::memory::Counting;

fn main() {
    simcore::main(&[c01::check(), c02::check(), c03::check(), c04::check(), c05::check(), c06::check(), c07::check(), c08::check(), c24::check()]);
}
