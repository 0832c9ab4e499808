#![allow(clippy::all)]
pub mod common;
pub mod data;
pub mod file;
pub mod gen_;
pub mod p00;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod p21;
#[cfg(feature = "native")]
pub mod replay;
pub mod spec;
pub mod stubs;
pub mod sx;
