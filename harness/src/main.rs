//! One property check per id; see /verif/DESIGN.md.

mod aggregate;
mod bridge;
mod calls;
mod compose;
mod deep;
mod exact;
mod derivative;
mod limits;
mod numbers;
mod structure;
mod taylor;

use std::path::Path;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--calls") {
        std::process::exit(calls::child());
    }
    let root = Path::new(env!("CARGO_MANIFEST_DIR")).parent().expect("the directory above the harness");
    let mut props = vec![];
    props.extend(numbers::props());
    props.extend(structure::props());
    props.extend(aggregate::props());
    props.extend(derivative::props());
    props.extend(taylor::props());
    props.extend(limits::props());
    props.extend(compose::props());
    props.extend(deep::props());
    props.extend(exact::props());
    props.extend(calls::props());
    std::process::exit(oracle::runner::main(&props, root));
}
