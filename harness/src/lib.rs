#![allow(dead_code)]
pub mod model;
pub mod mpt;
#[cfg(feature = "native")]
pub mod native;
pub mod pairs;
pub mod seq;
pub mod subset;
pub mod sym;
pub mod text;
pub mod wire;
pub mod world;

/// Declares the entry points of a module for the engine (as symbols) and for the replay (by name).
macro_rules! harnesses {
    ($($name:ident = $f:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() {
                $f()
            }
        )*
        pub fn entry(name: &str) -> Option<fn()> {
            match name {
                $(stringify!($name) => Some(|| $name()),)*
                _ => None,
            }
        }
    };
}

macro_rules! modules {
    ($($feature:literal $m:ident;)*) => {
        $(
            #[cfg(feature = $feature)]
            mod $m;
        )*
        pub fn entry(name: &str) -> Option<fn()> {
            $(
                #[cfg(feature = $feature)]
                if let Some(f) = $m::entry(name) {
                    return Some(f);
                }
            )*
            let _ = name;
            None
        }
    };
}
modules! {
    "c01" c01;
    "c02" c02;
    "c03" c03;
    "c04" c04;
    "c05" c05;
    "c06" c06;
    "c07" c07;
    "c08" c08;
    "c09" c09;
    "c10" c10;
    "c11" c11;
    "c12" c12;
    "c13" c13;
    "c14" c14;
    "c15" c15;
    "c16" c16;
    "c17" c17;
    "c18" c18;
    "c19" c19;
    "c20" c20;
    "c21" c21;
    "c22" c22;
    "c23" c23;
    "c24" c24;
    "c25" c25;
    "c26" c26;
    "c27" c27;
    "c28" c28;
    "c29" c29;
    "c30" c30;
}
