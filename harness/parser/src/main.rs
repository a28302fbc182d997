#[allow(dead_code)]
#[path = "../../dom/src/deep.rs"]
mod deep;
mod doc;
mod faithful;
#[allow(dead_code)]
#[path = "../../dom/src/hist.rs"]
mod hist;
#[allow(dead_code)]
#[path = "../../dom/src/model.rs"]
mod model;
mod parsed;
mod readers;
#[allow(dead_code)]
#[path = "../../dom/src/real.rs"]
mod real;
mod reject;
#[allow(dead_code)]
#[path = "../../dom/src/world.rs"]
mod world;

fn properties() -> Vec<common::runner::Property> {
    let mut all = faithful::properties();
    all.extend(parsed::properties());
    all.extend(reject::properties());
    all.sort_by_key(|p| p.id);
    all
}

fn main() {
    common::runner::main(properties)
}
