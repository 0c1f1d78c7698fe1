#![allow(dead_code, unused_imports, unused_macros, static_mut_refs)]

/// Declares proof harnesses. Under Kani each is a `#[kani::proof]`, natively a plain function which replays or
/// searches for a counterexample. Each ends in a reachability cover, so a contradictory assumption is noticed.
/// `#[utf8]` and `#[io]` select the stubs of standard-library functions described in `stubs.rs`; `#[bounded]` marks
/// those which do not cover their whole domain (e.g. only some lengths of a container), `#[native]` those which are
/// merely executed, because the verifier cannot follow them, and `#[known]` those which show a known finding.
macro_rules! harnesses {
    ($($(#[$m:ident])* [$unwind:literal] $name:ident $body:block)*) => {
        $(
            harness! { $(#[$m])* [$unwind] $name $body }
        )*

        #[cfg(not(kani))]
        pub const LIST: &[(&str, &[&str], fn())] = &[$( (concat!(module_path!(), "::", stringify!($name)), &[$(stringify!($m)),*], $name) ),*];
    }
}

macro_rules! harness {
    (@ $(#[$a:meta])* [$unwind:literal] $name:ident $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        $(#[$a])*
        pub fn $name() {
            let () = $body;
            crate::nd::end();
        }
    };
    (@ $(#[$a:meta])* #bounded $($rest:tt)*) => { harness! { @ $(#[$a])* $($rest)* } };
    (@ $(#[$a:meta])* #utf8 $($rest:tt)*) => {
        harness! { @ $(#[$a])* #[cfg_attr(kani, kani::stub(core::str::from_utf8, crate::stubs::from_utf8))] $($rest)* }
    };
    (@ $(#[$a:meta])* #io $($rest:tt)*) => {
        harness! { @ $(#[$a])* #[cfg_attr(kani, kani::stub(std::io::Error::kind, crate::stubs::io_error_kind))] $($rest)* }
    };
    (@ #known $($rest:tt)*) => { harness! { @ #native $($rest)* } };
    (@ #native [$unwind:literal] $name:ident $body:block) => {
        pub fn $name() {
            #[cfg(not(kani))]
            let () = $body;
        }
    };
    ($(#[$m:ident])* [$unwind:literal] $name:ident $body:block) => {
        harness! { @ $(# $m)* [$unwind] $name $body }
    };
}

pub mod nd;
#[macro_use]
pub mod util;
pub mod ctx;
pub mod stubs;
#[macro_use]
pub mod io;
pub mod spec;
pub mod program;
pub mod derived;
#[macro_use]
pub mod types;
#[macro_use]
pub mod zoo;
#[macro_use]
pub mod inputs;
#[cfg(not(kani))]
#[macro_use]
pub mod sweep;
/// Modules without any harnesses.
macro_rules! none_of {
    ($($name:ident)*) => { $( pub mod $name { harnesses! {} } )* };
}

/// `"feature": module, module::submodule, ...;` - everything named contains harnesses.
macro_rules! properties {
    ($($feature:literal: $module:ident $(, $($sub:ident)::+)*;)*) => {
        $(
            #[cfg(feature = $feature)]
            pub mod $module;
        )*

        #[cfg(not(kani))]
        pub fn harnesses() -> Vec<(&'static str, &'static [&'static str], fn())> {
            #[allow(unused_mut)]
            let mut list: Vec<(&'static str, &'static [&'static str], fn())> = Vec::new();
            $(
                #[cfg(feature = $feature)]
                {
                    list.extend_from_slice($module::LIST);
                    $(list.extend_from_slice($($sub)::+::LIST);)*
                }
            )*
            list
        }
    }
}

properties! {
    "c01": c01, c01::partial, c01::swept, c01::swept_zoo;
    "c02": c02, c02::swept, c02::swept_zoo;
    "c03": c03, c03::sinks, c03::swept, c03::swept_zoo;
    "c04": c04, c04::hostile, c04::readers, c04::swept, c04::swept_zoo;
    "c05": c05, c05::derived, c05::smallest, c05::smallest::short, c05::swept, c05::swept_zoo;
    "c06": c06;
    "c07": c07, c07::growing, c07::empty, c07::histories;
    "c08": c08, c08::reader, c08::api, c08::continued, c08::swept;
    "c09": c09, c09::mixed, c09::readers;
    "c10": c10, c10::tags, c10::lengths, c10::containers, c10::prescribed, c10::constants, c10::utf8;
    "c11": c11, c11::swaps, c11::read_native, c11::read_swapped, c11::write_native, c11::write_swapped, c11::read_native_more, c11::read_swapped_more, c11::write_native_more, c11::write_swapped_more, c11::swept;
    "c12": c12, c12::swept, c12::swept_zoo, c12::swept_drops;
    "c13": c13, c13::variants, c13::swept_zoo;
    "c14": c14;
    "c15": c15, c15::errors, c15::files, c15::swept, c15::swept_zoo;
    "c16": c16, c16::time, c16::ordered::v1, c16::ordered::v2;
}
