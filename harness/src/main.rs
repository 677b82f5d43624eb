#![allow(dead_code, unused_imports)]
mod geo;
mod mesh;
mod props;

fn main() {
    rt::drive(&props::all());
}
