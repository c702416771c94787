#![allow(non_snake_case)]
vp::runtime!();
mod abi;
mod spec;
mod untrusted;
mod storage;
mod text;
mod dispatch;
