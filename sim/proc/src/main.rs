mod c14;
mod c15;
mod c16;
mod c17;
mod c21;
mod c22;
mod cli;

fn main() {
    simcore::main(&[c14::check(), c15::check(), c16::check(), c17::check(), c21::check(), c22::check()]);
}
