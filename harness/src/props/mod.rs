use rt::Harness;

macro_rules! h {
    ($prop:literal, $name:ident, $tier:expr, [$($r:literal),*], $bounds:expr) => {
        rt::Harness { prop: $prop, name: concat!($prop, "_", stringify!($name)), tier: $tier, run: $name, reach: &[$($r),*], bounds: $bounds, rounding: false, panics: false }
    };
}
pub(crate) use h;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;

pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    v.extend(c01::all());
    v.extend(c02::all());
    v.extend(c03::all());
    v.extend(c04::all());
    v.extend(c05::all());
    v.extend(c06::all());
    v.extend(c07::all());
    v.extend(c08::all());
    v.extend(c09::all());
    v.extend(c10::all());
    v.extend(c11::all());
    v.extend(c12::all());
    v.extend(c13::all());
    v.extend(c14::all());
    v.extend(c15::all());
    v.extend(c16::all());
    v.extend(c17::all());
    v.extend(c18::all());
    v.extend(c19::all());
    v.extend(c20::all());
    v
}
