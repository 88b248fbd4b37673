//! C22: dimension arithmetic at the type level.
use h_constraint::{pairs, No2, P2};
use mon::Cx;

fn main() {
    let mut cx = Cx::new("C22", "every ordered pair of dimensions 0..=12 and every arithmetic relation; non-trivial: the relation is defined or required for the pair");
    macro_rules! probe {
        ($m:literal, $n:literal) => {{
            let (m, n): (usize, usize) = ($m, $n);
            let obs = (P2::<$m, $n>::ADD, P2::<$m, $n>::SUB, P2::<$m, $n>::MUL);
            let any = (P2::<$m, $n>::ADD_ANY, P2::<$m, $n>::SUB_ANY, P2::<$m, $n>::MUL_ANY);
            let in_range = (1..=4).contains(&m) && (1..=4).contains(&n);
            let desc = move || format!("dims ({}, {}): add={:?} sub={:?} mul={:?}", m, n, obs.0, obs.1, obs.2);
            cx.case("pair", [m as u64, n as u64], in_range || any.0 || any.1 || any.2, desc, |cx| {
                // defined => value exact
                cx.ok("sum-exact", !any.0 || obs.0 == Some(m + n), desc);
                cx.ok("difference-exact", !any.1 || (m >= n && obs.1 == Some(m - n)), desc);
                cx.ok("product-exact", !any.2 || obs.2 == Some(m * n), desc);
                if in_range {
                    cx.ok("sum-defined", any.0, desc);
                    cx.ok("product-defined", any.2, desc);
                    if m >= n { cx.ok("difference-defined", any.1, desc); }
                }
                if m < n { cx.ok("negative-difference-undefined", !any.1, desc); }
            });
        }};
    }
    pairs!(probe, [0 1 2 3 4 5 6 7 8 9 10 11 12], [0 1 2 3 4 5 6 7 8 9 10 11 12]);
    cx.require(&["sum-exact", "sum-defined", "difference-defined", "negative-difference-undefined"]);
    cx.assume("dimensions above 12 are not probed");
    cx.finish();
}
