use crate::kit::*;
mod c05;
mod c06;
mod doze;

mod finite;
mod impact;
mod links;
mod many;
mod mass;
mod meshes;
mod motion;
mod pairs;
mod scenes;
mod sleep;
mod touch;
mod worlds;

pub fn registry() -> Vec<Harness> {
    let mut v = vec![];
    c05::register(&mut v);
    c06::register(&mut v);
    touch::register(&mut v);
    impact::register(&mut v);
    links::register(&mut v);
    motion::register(&mut v);
    pairs::register(&mut v);
    mass::register(&mut v);
    meshes::register(&mut v);
    meshes::register_build(&mut v);
    sleep::register(&mut v);
    worlds::register(&mut v);
    finite::register(&mut v);
    many::register(&mut v);
    doze::register(&mut v);
    v
}
