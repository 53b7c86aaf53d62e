//! Nothing of its own: the analyser looks at every function of dmidecode as a user's build gets it.
#![no_std]
pub use dmidecode;
