//! C23: dimension ordering and equality relations.
use h_constraint::{pairs, No2, P2};
use mon::Cx;

fn main() {
    let mut cx = Cx::new("C23", "every ordered pair of dimensions 0..=12; non-trivial: all (each pair decides both relations)");
    macro_rules! probe {
        ($m:literal, $n:literal) => {{
            let (m, n): (usize, usize) = ($m, $n);
            let (lt, eq, rep) = (P2::<$m, $n>::LT, P2::<$m, $n>::EQ_ANY, P2::<$m, $n>::EQ);
            let desc = move || format!("dims ({}, {}): less-than={} equal={} representative={:?}", m, n, lt, eq, rep);
            cx.case("pair", [m as u64, n as u64], true, desc, |cx| {
                cx.ok("less-than-sound", !lt || m < n, desc);
                if m < n && n <= 4 { cx.ok("less-than-complete", lt, desc); }
                cx.ok("equal-iff-same", eq == (m == n), desc);
                if eq { cx.ok("representative", rep == Some(m), desc); }
            });
        }};
    }
    pairs!(probe, [0 1 2 3 4 5 6 7 8 9 10 11 12], [0 1 2 3 4 5 6 7 8 9 10 11 12]);
    cx.require(&["less-than-sound", "less-than-complete", "equal-iff-same", "representative"]);
    cx.assume("dimensions above 12 are not probed");
    cx.finish();
}
