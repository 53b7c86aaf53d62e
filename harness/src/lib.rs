//! Specifications of jcreekmore/dmidecode, as programs the analyser reads (they are never run).
#![allow(unused, deprecated)]
pub mod mk;
pub mod models;
pub mod rf;
pub mod rt;
pub mod ly;
pub mod fr;
pub mod hs;
#[macro_use]
pub mod sp;
pub mod en;
