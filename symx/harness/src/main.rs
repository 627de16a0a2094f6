#[allow(dead_code)]
mod common;
#[allow(dead_code)]
mod drive;
#[allow(dead_code)]
mod ops;
#[allow(dead_code)]
mod induct;
#[allow(dead_code)]
mod srv;
use common::*;

#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;

fn harnesses() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v: Vec<H> = vec![];
    #[cfg(feature = "c01")]
    v.extend(c01::all());
    #[cfg(feature = "c02")]
    v.extend(c02::all());
    #[cfg(feature = "c03")]
    v.extend(c03::all());
    #[cfg(feature = "c04")]
    v.extend(c04::all());
    #[cfg(feature = "c05")]
    v.extend(c05::all());
    #[cfg(feature = "c06")]
    v.extend(c06::all());
    #[cfg(feature = "c07")]
    v.extend(c07::all());
    #[cfg(feature = "c08")]
    v.extend(c08::all());
    #[cfg(feature = "c09")]
    v.extend(c09::all());
    #[cfg(feature = "c10")]
    v.extend(c10::all());
    #[cfg(feature = "c11")]
    v.extend(c11::all());
    #[cfg(feature = "c12")]
    v.extend(c12::all());
    #[cfg(feature = "c13")]
    v.extend(c13::all());
    #[cfg(feature = "c14")]
    v.extend(c14::all());
    #[cfg(feature = "c15")]
    v.extend(c15::all());
    #[cfg(feature = "c16")]
    v.extend(c16::all());
    #[cfg(feature = "c17")]
    v.extend(c17::all());
    #[cfg(feature = "c18")]
    v.extend(c18::all());
    #[cfg(feature = "c19")]
    v.extend(c19::all());
    #[cfg(feature = "c20")]
    v.extend(c20::all());
    #[cfg(feature = "c21")]
    v.extend(c21::all());
    v
}
fn main() {
    common::main(harnesses());
}
