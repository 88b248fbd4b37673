//! C01 workload: run under Miri (see miri.sh). The judge of a case is the interpreter, which stops at the first
//! undefined behaviour; the value checks made along the way only show that the views were really used.
use h_core::views::*;
use h_core::*;
use num_traits::{NumCast, ToPrimitive};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Cast targets without a valid all-zero bit pattern.
#[derive(Copy, Clone, PartialEq, Debug)]
struct NzNum(std::num::NonZeroU32);
impl ToPrimitive for NzNum { fn to_i64(&self) -> Option<i64> { Some(self.0.get() as i64) } fn to_u64(&self) -> Option<u64> { Some(self.0.get() as u64) } }
impl NumCast for NzNum { fn from<T: ToPrimitive>(n: T) -> Option<Self> { std::num::NonZeroU32::new(n.to_u32()?).map(NzNum) } }
#[derive(Clone, PartialEq, Debug)]
struct Boxed(Box<i64>);
impl ToPrimitive for Boxed { fn to_i64(&self) -> Option<i64> { Some(*self.0) } fn to_u64(&self) -> Option<u64> { u64::try_from(*self.0).ok() } }
impl NumCast for Boxed { fn from<T: ToPrimitive>(n: T) -> Option<Self> { n.to_i64().map(|v| Boxed(Box::new(v))) } }

/// Counts live values; dropping an invalid or already dropped one is caught by the interpreter (and by the count).
#[derive(Debug)]
struct Live(Rc<Cell<i64>>, Box<u8>);
impl Live { fn new(n: &Rc<Cell<i64>>, v: u8) -> Live { n.set(n.get() + 1); Live(n.clone(), Box::new(v)) } }
impl Drop for Live { fn drop(&mut self) { self.0.set(self.0.get() - 1); std::hint::black_box(*self.1); } }

trait Mapped { const K: usize; fn owned(a: &[u8]) -> Vec<String>; fn boxed(a: &[u8]) -> Vec<u8>; fn partial(a: &[u8], n: &Rc<Cell<i64>>, stop: usize) -> bool; fn casts(a: &[u8]) -> Vec<(bool, bool, Vec<u32>, Vec<i64>)>; }
macro_rules! mapped { ($($T:ty, $k:expr, |$a:ident| $mk:expr, |$m:ident| $slice:expr;)*) => { $( impl Mapped for $T {
    const K: usize = $k;
    fn owned($a: &[u8]) -> Vec<String> { let v: $T = $mk; let mut i = 0; let $m = v.map(|x| { i += 1; format!("{}-{}", x, i) }); let out = $slice.to_vec(); out.iter().map(|s| s.split('-').next().unwrap().to_string()).collect() }
    fn boxed($a: &[u8]) -> Vec<u8> { let v: $T = $mk; let $m = v.map(|x| Box::new(x)); $slice.iter().map(|b| **b).collect() }
    fn partial($a: &[u8], n: &Rc<Cell<i64>>, stop: usize) -> bool {
        let v: $T = $mk;
        let mut i = 0;
        catch_unwind(AssertUnwindSafe(|| { let $m = v.map(|x| { if i == stop { panic!("stop"); } i += 1; Live::new(n, x) }); std::hint::black_box($slice.len()); })).is_ok()
    }
    fn casts($a: &[u8]) -> Vec<(bool, bool, Vec<u32>, Vec<i64>)> {
        let v: $T = $mk;
        let some = $a[..<Self as Mapped>::K].iter().all(|x| *x != 0);
        let n = v.try_cast::<NzNum>();
        let b = v.try_cast::<Boxed>();
        vec![(some, n.is_some(), n.map(|$m| $slice.iter().map(|x| x.0.get()).collect()).unwrap_or_default(), b.map(|$m| $slice.iter().map(|x| *x.0).collect()).unwrap_or_default())]
    }
} )* } }
macro_rules! vectors { ($($n:literal)*) => { mapped! { $( Vector<u8, $n>, $n, |a| Vector::<u8, $n>::from(std::array::from_fn::<u8, $n, _>(|i| a[i])), |m| m.as_slice(); )* } } }
macro_rules! points { ($($n:literal)*) => { mapped! { $( Point<u8, $n>, $n, |a| Point::<u8, $n>::from(std::array::from_fn::<u8, $n, _>(|i| a[i])), |m| m.as_slice(); )* } } }
macro_rules! matrices { ($($r:literal $c:literal)*) => { mapped! { $( Matrix<u8, $r, $c>, $r * $c, |a| Matrix::<u8, $r, $c>::from(std::array::from_fn::<[u8; $r], $c, _>(|c| std::array::from_fn(|r| a[c * $r + r]))), |m| AsRef::<[[_; $r]; $c]>::as_ref(&m).as_flattened(); )* } } }
vectors! { 1 2 3 4 5 8 }
points! { 1 2 3 5 }
matrices! { 1 1 1 2 1 3 1 4 2 2 2 3 2 4 3 2 3 3 3 4 4 2 4 3 4 4 2 1 3 1 4 1 5 5 }
mapped! { Quaternion<u8>, 4, |a| Quaternion::new(a[0], a[1], a[2], a[3]), |m| m.as_slice(); Complex<u8>, 2, |a| Complex::new(a[0], a[1]), |m| m.as_slice(); }

fn mapping<T: Mapped>(cx: &mut Cx, name: &str, cases: usize) {
    for _ in 0..cases {
        let z = cx.rng.below(4);
        let a: Vec<u8> = (0..25).map(|i| if z == 0 && i % 3 == 1 { 0 } else { cx.rng.u64() as u8 | 1 }).collect();
        cx.case(name, a.iter().map(|x| *x as u64), true, || format!("{} {:?}", name, a), |cx| {
            let k = T::K;
            cx.ok("map:string", T::owned(&a) == a[..k].iter().map(|x| x.to_string()).collect::<Vec<_>>(), || format!("{}", name));
            cx.ok("map:box", T::boxed(&a) == a[..k], || name.to_string());
            for stop in 0..=k {
                let n = Rc::new(Cell::new(0));
                let ok = T::partial(&a, &n, stop);
                cx.ok("map:panicking", ok == (stop == k), || name.to_string());
                cx.ok("map:every-value-dropped-once", n.get() == 0, || format!("{} stop {} leaves {}", name, stop, n.get()));
            }
            for (some, is, nz, bx) in T::casts(&a) {
                cx.ok("cast:nonzero", some == is && (!some || nz == a[..k].iter().map(|x| *x as u32).collect::<Vec<_>>()), || name.to_string());
                cx.ok("cast:boxed", bx == a[..k].iter().map(|x| *x as i64).collect::<Vec<_>>(), || name.to_string());
            }
        });
    }
}
fn maps(cx: &mut Cx, cases: usize) {
    macro_rules! go { ($($T:ty),* $(,)?) => { $( mapping::<$T>(cx, stringify!($T), cases); )* } }
    go!(Vector<u8, 1>, Vector<u8, 2>, Vector<u8, 3>, Vector<u8, 4>, Vector<u8, 5>, Vector<u8, 8>, Point<u8, 1>, Point<u8, 2>, Point<u8, 3>, Point<u8, 5>, Matrix<u8, 1, 1>, Matrix<u8, 1, 2>, Matrix<u8, 1, 3>, Matrix<u8, 1, 4>, Matrix<u8, 2, 2>,
        Matrix<u8, 2, 3>, Matrix<u8, 2, 4>, Matrix<u8, 3, 2>, Matrix<u8, 3, 3>, Matrix<u8, 3, 4>, Matrix<u8, 4, 2>, Matrix<u8, 4, 3>, Matrix<u8, 4, 4>, Matrix<u8, 2, 1>, Matrix<u8, 3, 1>, Matrix<u8, 4, 1>, Matrix<u8, 5, 5>, Quaternion<u8>, Complex<u8>);
}
/// Rows, columns and transposed construction for shapes without named components.
fn shapes<E: El>(cx: &mut Cx) {
    macro_rules! sh { ($($r:literal $c:literal)*) => { $( {
        let a: [[E; $r]; $c] = std::array::from_fn(|_| std::array::from_fn(|_| E::el(&mut cx.rng)));
        let tag = format!("shape {}x{} of {}", $r, $c, E::NAME);
        cx.case(&tag, [0], true, || format!("{:?}", a), |cx| {
            let m = Matrix::<E, $r, $c>::from(a);
            let rows: [Vector<E, $c>; $r] = std::array::from_fn(|r| m.row(r));
            let cols: [Vector<E, $r>; $c] = std::array::from_fn(|c| m.column(c));
            cx.ok("shape:rows", Matrix::from_rows(&rows) == m && Matrix::from_columns(&cols) == m, || tag.clone());
            let mut n = m;
            let s: &mut [[E; $r]; $c] = n.as_mut();
            s.reverse();
            s[0].reverse();
            let p = n.as_mut_ptr();
            for i in 0..$r * $c { unsafe { *p.add(i) = a[i / $r][i % $r]; } }
            cx.ok("shape:pointer", n == m, || tag.clone());
            for i in 0..$c { for j in 0..$c { n.swap_columns(i, j); } }
            for i in 0..$r { for j in 0..$r { n.swap_rows(i, j); } }
            for c in 0..$c { for r in 0..$r { n.swap((c, r), ($c - 1 - c, $r - 1 - r)); } }
            cx.ok("shape:swaps", AsRef::<[[E; $r]; $c]>::as_ref(&n).as_flattened().len() == $r * $c, || tag.clone());
        });
    } )* } }
    sh!(1 1  2 1  3 1  4 1  5 1  1 5  5 5  6 2  2 6  1 2  3 3  4 4  2 3  3 4);
}
/// Disjoint borrows out of one view, views nested in views, swaps through views.
fn borrows<E: El>(cx: &mut Cx) {
    let a: [E; 16] = std::array::from_fn(|_| E::el(&mut cx.rng));
    let tag = format!("borrows of {}", E::NAME);
    cx.case(&tag, [0], true, || format!("{:?}", a), |cx| {
        let mut v = Vector4::new(a[0], a[1], a[2], a[3]);
        { let f = &mut *v; let (x, w) = (&mut f.x, &mut f.w); std::mem::swap(x, w); let (y, z) = (&mut f.y, &mut f.z); std::mem::swap(y, z); }
        { let (l, r) = v[..].split_at_mut(2); l.swap_with_slice(r); }
        { let s: &mut [E; 4] = v.as_mut(); let [p, q, ..] = s; std::mem::swap(p, q); }
        { let t: &mut (E, E, E, E) = v.as_mut(); let (p, _, _, q) = t; std::mem::swap(p, q); }
        cx.ok("borrow:vector", v.as_slice().iter().all(|e| a[..4].contains(e)), || tag.clone());
        let mut p = Point3::new(a[0], a[1], a[2]);
        { let f = &mut *p; std::mem::swap(&mut f.x, &mut f.z); }
        { for e in p[1..].iter_mut() { *e = a[5]; } for e in p[..1].iter_mut() { *e = a[6]; } }
        cx.ok("borrow:point", p[..] == [a[6], a[5], a[5]], || tag.clone());
        let mut m = Matrix4x4::<E>::from(a);
        { let f = &mut *m; std::mem::swap(&mut f.c0r0, &mut f.c3r3); std::mem::swap(&mut f.c1r2, &mut f.c2r1); }
        { let cols: &mut [Vector<E, 4>; 4] = m.as_mut(); let (l, r) = cols.split_at_mut(2); std::mem::swap(&mut l[0], &mut r[1]); let (x, y) = (&mut l[1], &mut r[0]); std::mem::swap(&mut x.w, &mut y.x); x[1..].reverse(); }
        { let c = &mut m[2]; let f = &mut **c; std::mem::swap(&mut f.x, &mut f.w); }
        { let flat: &mut [E; 16] = m.as_mut(); flat.rotate_left(3); for ch in flat.chunks_mut(5) { ch.reverse(); } }
        cx.ok("borrow:matrix", m.as_slice().iter().all(|e| a.contains(e)), || tag.clone());
        let mut q = Quaternion::new(a[0], a[1], a[2], a[3]);
        { let f = &mut *q; let (s, v) = (&mut f.s, &mut f.v); std::mem::swap(s, &mut v.z); let g = &mut **v; std::mem::swap(&mut g.x, &mut g.y); v[1..].reverse(); }
        { let t: &mut (E, E, E, E) = q.as_mut(); std::mem::swap(&mut t.0, &mut t.3); }
        cx.ok("borrow:quaternion", q.as_slice().iter().all(|e| a[..4].contains(e)), || tag.clone());
        // shared views of one value overlapping in time
        let (x, s, t, arr) = (&v.x, &v[1..3], AsRef::<(E, E, E, E)>::as_ref(&v), AsRef::<[E; 4]>::as_ref(&v));
        let (pv, dv) = (v.as_ptr(), &*v);
        cx.ok("borrow:shared", unsafe { *pv.add(3) } == dv.w && t.3 == arr[3] && s[0] == dv.y && *x == t.0 && unsafe { *pv } == *x, || tag.clone());
        // values behind a box, a vector of values, and inside larger objects
        let mut heap = vec![Matrix2x3::<E>::new(a[0], a[1], a[2], a[3], a[4], a[5]); 3];
        for (i, h) in heap.iter_mut().enumerate() { h.c2r1 = a[6 + i]; h[0][1] = a[10]; let r = h.row(1); h[(0, 0)] = r[2]; }
        let b = Box::new(heap[2]);
        let view: &[E; 6] = (*b).as_ref();
        cx.ok("borrow:heap", view[5] == a[8] && view[1] == a[10] && view[0] == a[8], || format!("{:?}", view));
    });
}
fn main() {
    let section = std::env::args().nth(1).unwrap_or_else(|| "list".into());
    if section == "list" { println!("f64 u8 i128 nonzero reference padded enum wide unit bool char numeric maps others"); return; }
    let mut c = Cx::new("C01", "");
    let cx = &mut c;
    let k = if cx.thorough { 6 } else { 1 };
    macro_rules! el { ($t:ty) => {{ element::<$t>(cx, k, 11); for _ in 0..k { shapes::<$t>(cx); borrows::<$t>(cx); } }} }
    match section.as_str() {
        "f64" => el!(f64),
        "u8" => el!(u8),
        "i128" => el!(i128),
        "nonzero" => el!(Nz),
        "reference" => el!(&'static str),
        "padded" => el!(Pad),
        "enum" => el!(Tag),
        "wide" => el!(Wide),
        "unit" => el!(()),
        "bool" => el!(bool),
        "char" => el!(char),
        "numeric" => { numeric::<f32>(cx, k); numeric::<u8>(cx, k); numeric::<i64>(cx, k); numeric::<u128>(cx, k); floating::<f64>(cx, k); }
        "maps" => maps(cx, k),
        _ => {}
    }
    c.finish();
}
