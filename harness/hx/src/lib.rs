//! Harnesses.  The same code is (1) compiled to LLVM IR and executed
//! symbolically by symx and (2) compiled natively for replaying
//! counterexamples.
pub mod gen;
pub mod h_api;
pub mod h_long;
pub mod h_match;
pub mod h_misc;
pub mod h_print;
pub mod h_raw;
pub mod h_set;
pub mod h_rx;
pub mod h_smoke;
pub mod h_text;
pub mod h_unary;
pub mod rt;
pub mod spec;

macro_rules! reg {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub static HARNESSES: &[(&str, extern "C" fn())] = &[ $((stringify!($f), $m::$f)),* ];
    };
}
reg!(
    h_smoke::h_smoke,
    h_match::h_match,
    h_raw::h_deriv,
    h_raw::h_flags,
    h_raw::h_empty,
    h_raw::h_fuel,
    h_raw::h_next_raw,
    h_raw::h_lookraw,
    h_raw::h_pref,
    h_raw::h_costs,
    h_raw::h_pref_finding,
    h_set::h_bytesets,
    h_set::h_nary,
    h_set::h_trie,
    h_rx::h_dead,
    h_rx::h_next,
    h_rx::h_history,
    h_rx::h_shared,
    h_rx::h_busy,
    h_rx::h_limited,
    h_rx::h_bounded,
    h_rx::h_plenty,
    h_rx::h_look,
    h_rx::h_dfa,
    h_rx::h_dfabig,
    h_rx::h_contain,
    h_text::h_utf8,
    h_text::h_utf8r,
    h_text::h_syntax,
    h_text::h_opts,
    h_text::h_json,
    h_text::h_jsonset,
    h_text::h_jsonerr,
    h_misc::h_cons,
    h_misc::h_conslong,
    h_misc::h_alpha,
    h_misc::h_manysets,
    h_misc::h_multi,
    h_misc::h_builder,
    h_misc::h_forced,
    h_misc::h_nblattice,
    h_misc::h_big,
    h_misc::h_finite,
    h_misc::h_mapast,
    h_misc::h_deep,
    h_misc::h_count,
    h_print::h_print,
    h_api::h_api,
    h_unary::h_unary,
    h_unary::h_front,
    h_long::h_long,
);
