mod calendar;
mod collections;
mod crdt;
mod describe;
mod numeric;
mod runtime;
mod units;
mod words;

fn main() {
    vcore::main_with(vec![crdt::c08(), crdt::c09(), numeric::c15(), words::c16(), calendar::c17(), units::c18(), describe::c19(), collections::c20(), runtime::c06(), runtime::c07()]);
}
