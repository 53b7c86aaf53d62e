//! Every function below is an entry of the analysis.
pub mod dec;
pub mod wk;
pub mod st;
pub mod se;
pub mod tab;
pub mod flags;
pub mod dsp;
pub mod bf;
pub mod dq;
pub mod rd;
pub mod dx;
pub mod sm;
pub mod sk;
pub mod id;
pub mod it;
pub mod us;
pub mod eq;
pub mod eqh;
