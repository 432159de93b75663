//! Every harness, shared verbatim by the symbolic build (LLVM IR) and the native replay build.
#[macro_use]
#[path = "util.rs"]
pub mod util;
#[cfg(feature = "c01")]
#[path = "c01.rs"]
pub mod c01;
#[cfg(feature = "c02")]
#[path = "c02.rs"]
pub mod c02;
#[cfg(feature = "c03")]
#[path = "c03.rs"]
pub mod c03;
#[cfg(feature = "c04")]
#[path = "c04.rs"]
pub mod c04;
#[cfg(feature = "c05")]
#[path = "c05.rs"]
pub mod c05;
#[cfg(feature = "c06")]
#[path = "c06.rs"]
pub mod c06;
#[cfg(feature = "c07")]
#[path = "c07.rs"]
pub mod c07;
#[cfg(feature = "c08")]
#[path = "c08.rs"]
pub mod c08;
#[cfg(feature = "c09")]
#[path = "c09.rs"]
pub mod c09;
#[cfg(feature = "c10")]
#[path = "c10.rs"]
pub mod c10;
#[cfg(feature = "c11")]
#[path = "c11.rs"]
pub mod c11;
#[cfg(feature = "c12")]
#[path = "c12.rs"]
pub mod c12;
#[cfg(feature = "c13")]
#[path = "c13.rs"]
pub mod c13;
#[cfg(feature = "c14")]
#[path = "c14.rs"]
pub mod c14;
#[cfg(feature = "c15")]
#[path = "c15.rs"]
pub mod c15;
#[cfg(feature = "c16")]
#[path = "c16.rs"]
pub mod c16;
#[cfg(feature = "c17")]
#[path = "c17.rs"]
pub mod c17;
#[cfg(feature = "c18")]
#[path = "c18.rs"]
pub mod c18;
#[cfg(feature = "c19")]
#[path = "c19.rs"]
pub mod c19;
#[cfg(feature = "c20")]
#[path = "c20.rs"]
pub mod c20;
#[cfg(feature = "c21")]
#[path = "c21.rs"]
pub mod c21;
#[cfg(feature = "c22")]
#[path = "c22.rs"]
pub mod c22;
#[cfg(feature = "c23")]
#[path = "c23.rs"]
pub mod c23;
#[cfg(feature = "c24")]
#[path = "c24.rs"]
pub mod c24;

pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = Vec::new();
    #[cfg(feature = "c01")]
    v.extend_from_slice(c01::LIST);
    #[cfg(feature = "c02")]
    v.extend_from_slice(c02::LIST);
    #[cfg(feature = "c03")]
    v.extend_from_slice(c03::LIST);
    #[cfg(feature = "c04")]
    v.extend_from_slice(c04::LIST);
    #[cfg(feature = "c05")]
    v.extend_from_slice(c05::LIST);
    #[cfg(feature = "c06")]
    v.extend_from_slice(c06::LIST);
    #[cfg(feature = "c07")]
    v.extend_from_slice(c07::LIST);
    #[cfg(feature = "c08")]
    v.extend_from_slice(c08::LIST);
    #[cfg(feature = "c09")]
    v.extend_from_slice(c09::LIST);
    #[cfg(feature = "c10")]
    v.extend_from_slice(c10::LIST);
    #[cfg(feature = "c11")]
    v.extend_from_slice(c11::LIST);
    #[cfg(feature = "c12")]
    v.extend_from_slice(c12::LIST);
    #[cfg(feature = "c13")]
    v.extend_from_slice(c13::LIST);
    #[cfg(feature = "c14")]
    v.extend_from_slice(c14::LIST);
    #[cfg(feature = "c15")]
    v.extend_from_slice(c15::LIST);
    #[cfg(feature = "c16")]
    v.extend_from_slice(c16::LIST);
    #[cfg(feature = "c17")]
    v.extend_from_slice(c17::LIST);
    #[cfg(feature = "c18")]
    v.extend_from_slice(c18::LIST);
    #[cfg(feature = "c19")]
    v.extend_from_slice(c19::LIST);
    #[cfg(feature = "c20")]
    v.extend_from_slice(c20::LIST);
    #[cfg(feature = "c21")]
    v.extend_from_slice(c21::LIST);
    #[cfg(feature = "c22")]
    v.extend_from_slice(c22::LIST);
    #[cfg(feature = "c23")]
    v.extend_from_slice(c23::LIST);
    #[cfg(feature = "c24")]
    v.extend_from_slice(c24::LIST);
    v
}
