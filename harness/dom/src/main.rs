mod create;
mod deep;
mod dtd;
mod hist;
mod model;
mod names;
mod real;
mod ser;
mod values;
mod world;

fn properties() -> Vec<common::runner::Property> {
    let mut all = hist::properties();
    all.extend(names::properties());
    all.extend(create::properties());
    all.extend(dtd::properties());
    all.extend(real::properties());
    all.extend(ser::properties());
    all.extend(values::properties());
    all.sort_by_key(|p| p.id);
    all
}

fn main() {
    common::runner::main(properties)
}
