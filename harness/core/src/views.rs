//! All views of a value, for C02 (what they show) and, under Miri, for C01 (how they get there).
use crate::*;
use std::fmt::Debug;

/// An element type: nothing is required of it but being copied and compared.
pub trait El: Copy + PartialEq + Debug + 'static { const NAME: &'static str; fn el(r: &mut Rng) -> Self; }
macro_rules! els { ($($t:ident $n:literal |$r:ident| $e:expr;)*) => { $( impl El for $t { const NAME: &'static str = $n; fn el($r: &mut Rng) -> Self { $e } } )* } }
els! { f64 "f64" |r| r.int(-1_000_000, 1_000_000) as f64 / 8.0; f32 "f32" |r| r.int(-100_000, 100_000) as f32 / 4.0; u8 "u8" |r| r.u64() as u8; u16 "u16" |r| r.u64() as u16; u32 "u32" |r| r.u64() as u32; u64 "u64" |r| r.u64(); usize "usize" |r| r.u64() as usize; u128 "u128" |r| r.u128();
    i8 "i8" |r| r.u64() as i8; i16 "i16" |r| r.u64() as i16; i32 "i32" |r| r.u64() as i32; i64 "i64" |r| r.u64() as i64; isize "isize" |r| r.u64() as isize; i128 "i128" |r| r.u128() as i128; bool "bool" |r| r.bool(); char "char" |r| (b'a' + r.below(26) as u8) as char; }
/// No all-zero value.
pub type Nz = std::num::NonZeroU16;
impl El for Nz { const NAME: &'static str = "nonzero"; fn el(r: &mut Rng) -> Self { Nz::new(r.u64() as u16 | 1).unwrap() } }
/// A reference: no all-zero value, and provenance to keep.
impl El for &'static str { const NAME: &'static str = "reference"; fn el(r: &mut Rng) -> Self { ["one", "two", "three", "four", "five", "six", "seven", "eight"][r.below(8)] } }
/// Padding inside.
#[derive(Copy, Clone, PartialEq, Debug)]
#[repr(C)]
pub struct Pad(pub u8, pub u32);
impl El for Pad { const NAME: &'static str = "padded"; fn el(r: &mut Rng) -> Self { Pad(r.u64() as u8, r.u64() as u32) } }
/// An enumeration without a zero discriminant.
#[derive(Copy, Clone, PartialEq, Debug)]
#[repr(u8)]
pub enum Tag { A = 3, B = 5, C = 7 }
impl El for Tag { const NAME: &'static str = "enum"; fn el(r: &mut Rng) -> Self { [Tag::A, Tag::B, Tag::C][r.below(3)] } }
/// A large alignment and size.
#[derive(Copy, Clone, PartialEq, Debug)]
#[repr(align(32))]
pub struct Wide(pub [u32; 9]);
impl El for Wide { const NAME: &'static str = "wide"; fn el(r: &mut Rng) -> Self { Wide(std::array::from_fn(|_| r.u64() as u32)) } }
impl El for () { const NAME: &'static str = "unit"; fn el(_: &mut Rng) -> Self {} }

pub trait Viewed<E: El>: Copy + PartialEq + Debug {
    const K: usize;
    const W: usize;
    fn name() -> &'static str;
    /// Every owned conversion from components in storage order.
    fn built(a: &[E]) -> Vec<(&'static str, Self)>;
    /// Every borrowed conversion, read back.
    fn borrowed(a: &[E]) -> Vec<(&'static str, Vec<E>)>;
    /// Every reading view in storage order; all views are alive at once.
    fn reads(&self) -> Vec<(&'static str, Vec<E>)>;
    /// Writes component `i` through mutable view `w`.
    fn write(&mut self, w: usize, i: usize, e: E) -> &'static str;
    /// Reads that are out of range and must panic.
    fn outside(&self) -> Vec<(&'static str, Box<dyn FnOnce() + '_>)>;
    /// Writes that are out of range and must panic.
    fn outside_mut(&mut self, e: E, which: usize) -> Option<&'static str>;
}
fn take<E: Copy, const N: usize>(a: &[E]) -> [E; N] { std::array::from_fn(|i| a[i]) }
/// Every range form over an indexable value.
macro_rules! range_reads { ($s:expr, $n:expr) => {{
    let mut v: Vec<(&'static str, Vec<E>)> = vec![("index", (0..$n).map(|i| $s[i]).collect()), ("range-full", $s[..].to_vec()), ("range", $s[0..$n].to_vec()), ("range-to", $s[..$n].to_vec()), ("range-from", $s[0..].to_vec())];
    for k in 0..=$n {
        v.push(("split-range", [&$s[..k], &$s[k..]].concat()));
        v.push(("inner-range", [&$s[0..k], &$s[k..$n]].concat()));
        if !cfg!(miri) { for j in k..=$n { v.push(("sub-range", [&$s[..k], &$s[k..j], &$s[j..]].concat())); } }
    }
    v
}}; }
macro_rules! range_outside { ($s:expr, $n:expr) => {{
    let s = $s;
    let v: Vec<(&'static str, Box<dyn FnOnce() + '_>)> = vec![
        ("index-past-end", Box::new(move || { std::hint::black_box(s[$n]); })), ("index-far", Box::new(move || { std::hint::black_box(s[usize::MAX]); })),
        ("range-past-end", Box::new(move || { std::hint::black_box(&s[0..$n + 1]); })), ("range-to-past-end", Box::new(move || { std::hint::black_box(&s[..$n + 1]); })),
        ("range-from-past-end", Box::new(move || { std::hint::black_box(&s[$n + 1..]); })), ("range-reversed", Box::new(move || { let (a, b) = (1, 0); std::hint::black_box(&s[a..b]); }))];
    v
}}; }
macro_rules! range_write { ($s:expr, $w:expr, $i:expr, $e:expr, $n:expr) => { match $w {
    0 => { $s[$i] = $e; "index" }
    1 => { $s[..][$i] = $e; "range-full" }
    2 => { $s[$i..$n][0] = $e; "range" }
    3 => { $s[..$i + 1][$i] = $e; "range-to" }
    4 => { $s[$i..][0] = $e; "range-from" }
    5 => { unsafe { *$s.as_mut_ptr().add($i) = $e; } "pointer" }
    _ => { let (a, b) = $s[..].split_at_mut($i); b[0] = $e; std::hint::black_box(a); "split" }
} }; }
macro_rules! range_outside_mut { ($s:expr, $e:expr, $which:expr, $n:expr) => { match $which {
    0 => { $s[$n] = $e; Some("index-past-end") }
    1 => { $s[0..$n + 1][0] = $e; Some("range-past-end") }
    2 => { $s[..$n + 1][0] = $e; Some("range-to-past-end") }
    3 => { std::hint::black_box(&mut $s[$n + 1..]); Some("range-from-past-end") }
    4 => { let (a, b) = (1, 0); std::hint::black_box(&mut $s[a..b]); Some("range-reversed") }
    _ => None,
} }; }
fn ptr_reads<E: Copy>(p: *const E, n: usize) -> Vec<E> { (0..n).map(|i| unsafe { *p.add(i) }).collect() }

macro_rules! tup { ($a:expr, [$($x:ident $i:tt),*]) => { ($($a[$i],)*) }; }
/// Forms only vectors, or only points, have.
macro_rules! only {
    (Vector, reads, $s:expr, $n:literal, $v:expr, [$($x:ident $i:tt),*], $Tup:ty) => {{
        let t: &$Tup = $s.as_ref();
        let a: &[[E; $n]; 1] = $s.as_ref();
        $v.push(("as-ref-tuple", vec![$(t.$i),*]));
        $v.push(("as-ref-nested", a[0].to_vec()));
    }};
    (Point, reads, $s:expr, $n:literal, $v:expr, [$($x:ident $i:tt),*], $Tup:ty) => { $v.push(("reborrow", (&$s)[..].to_vec())) };
    (Vector, write, $s:expr, $n:literal, $w:expr, $k:expr, $e:expr, [$($x:ident $i:tt),*], $Tup:ty) => { match $w {
        0 => { let t: &mut $Tup = $s.as_mut(); match $k { $($i => t.$i = $e,)* _ => unreachable!() } "as-mut-tuple" }
        _ => { let a: &mut [[E; $n]; 1] = $s.as_mut(); a[0][$k] = $e; "as-mut-nested" }
    } };
    (Point, write, $s:expr, $n:literal, $w:expr, $k:expr, $e:expr, [$($x:ident $i:tt),*], $Tup:ty) => {{ let a: &mut [E; $n] = $s.as_mut(); a[$k..][0] = $e; "as-mut-array" }};
    (Vector, built, $a:expr, $n:literal, $T:ident, $v:expr) => {};
    (Point, built, $a:expr, $n:literal, $T:ident, $v:expr) => {};
}
macro_rules! tuple_like { ($G:ident, $T:ident, $n:literal, [$($x:ident $i:tt),*], [$($E:ident)*]) => {
    impl<E: El> Viewed<E> for $T<E> {
        const K: usize = $n;
        const W: usize = 11;
        fn name() -> &'static str { stringify!($T) }
        fn built(a: &[E]) -> Vec<(&'static str, Self)> {
            let (arr, t) = (take::<E, $n>(a), tup!(a, [$($x $i),*]));
            let mut v = vec![("new", $T::new($(a[$i]),*)), ("from-array", $T::<E>::from(arr)), ("from-array-ref", $T::<E>::from(&arr)), ("from-tuple", $T::<E>::from(t)), ("from-tuple-ref", $T::<E>::from(&t)),
                ("array-into", arr.into()), ("default-then-written", { let mut s = $T::from_fill(a[0]); $( s.$x = a[$i]; )* s })];
            only!($G, built, a, $n, $T, v);
            let _ = &mut v;
            v
        }
        fn borrowed(a: &[E]) -> Vec<(&'static str, Vec<E>)> {
            let (arr, t) = (take::<E, $n>(a), tup!(a, [$($x $i),*]));
            let (p, q): (&$T<E>, &$T<E>) = ((&arr).into(), (&t).into());
            vec![("borrowed-array", p[..].to_vec()), ("borrowed-array-fields", vec![$(p.$x),*]), ("borrowed-tuple", q[..].to_vec()), ("borrowed-tuple-fields", vec![$(q.$x),*]), ("borrowed-slice", q.as_slice().to_vec())]
        }
        fn reads(&self) -> Vec<(&'static str, Vec<E>)> {
            let f = &**self;
            let s = self.as_slice();
            let a: &[E; $n] = self.as_ref();
            let mut v = range_reads!(self, $n);
            v.push(("fields", vec![$(self.$x),*]));
            v.push(("coords", vec![$(f.$x),*]));
            v.push(("slice", s.to_vec()));
            v.push(("as-ref-array", a.to_vec()));
            v.push(("pointer", ptr_reads(self.as_ptr(), $n)));
            let c = *self;
            v.push(("copy", c[..].to_vec()));
            only!($G, reads, self, $n, v, [$($x $i),*], ($($E,)*));
            v
        }
        fn write(&mut self, w: usize, i: usize, e: E) -> &'static str {
            match w {
                0..=6 => range_write!(self, w, i, e, $n),
                7 => { match i { $($i => self.$x = e,)* _ => unreachable!() } "fields" }
                8 => { let a: &mut [E; $n] = self.as_mut(); a[i] = e; "as-mut-array" }
                _ => only!($G, write, self, $n, w - 9, i, e, [$($x $i),*], ($($E,)*)),
            }
        }
        fn outside(&self) -> Vec<(&'static str, Box<dyn FnOnce() + '_>)> { range_outside!(self, $n) }
        fn outside_mut(&mut self, e: E, which: usize) -> Option<&'static str> { range_outside_mut!(self, e, which, $n) }
    }
}; }
macro_rules! swizzles { ($T:ident, [$($w:ident [$($i:tt)*]),*]) => {
    impl<E: El> Swizzled<E> for $T<E> {
        fn swizzles(&self) -> Vec<(&'static str, Vec<E>, &'static [usize])> { vec![$( (stringify!($w), self.$w()[..].to_vec(), &[$($i),*]) ),*] }
    }
}; }
pub trait Swizzled<E: El>: Viewed<E> { fn swizzles(&self) -> Vec<(&'static str, Vec<E>, &'static [usize])>; }

macro_rules! matrix_named { ($r:literal, $c:literal, $n:literal, [$($x:ident $i:tt),*]) => {
    impl<E: El> Viewed<E> for Matrix<E, $r, $c> {
        const K: usize = $n;
        const W: usize = 9;
        fn name() -> &'static str { concat!("Matrix", $r, "x", $c) }
        fn built(a: &[E]) -> Vec<(&'static str, Self)> {
            let cols: [[E; $r]; $c] = std::array::from_fn(|c| std::array::from_fn(|r| a[c * $r + r]));
            let rows: [Vector<E, $c>; $r] = std::array::from_fn(|r| Vector::<E, $c>::from(std::array::from_fn::<E, $c, _>(|c| a[c * $r + r])));
            let vcols: [Vector<E, $r>; $c] = cols.map(|c| Vector::<E, $r>::from(c));
            vec![("new", Matrix::<E, $r, $c>::new($(a[$i]),*)), ("from-nested", Matrix::<E, $r, $c>::from(cols)), ("from-flat", Matrix::<E, $r, $c>::from(take::<E, $n>(a))),
                ("from-columns", Matrix::<E, $r, $c>::from_columns(&vcols)), ("from-rows", Matrix::<E, $r, $c>::from_rows(&rows)), ("filled-then-written", { let mut m = Matrix::<E, $r, $c>::from_fill(a[0]); $( m.$x = a[$i]; )* m })]
        }
        fn borrowed(a: &[E]) -> Vec<(&'static str, Vec<E>)> {
            let flat = take::<E, $n>(a);
            let cols: [[E; $r]; $c] = std::array::from_fn(|c| std::array::from_fn(|r| a[c * $r + r]));
            let vcols: [Vector<E, $r>; $c] = cols.map(|c| Vector::<E, $r>::from(c));
            let (p, q, s): (&Matrix<E, $r, $c>, &Matrix<E, $r, $c>, &Matrix<E, $r, $c>) = ((&flat).into(), (&cols).into(), (&vcols).into());
            vec![("borrowed-flat", p.as_slice().to_vec()), ("borrowed-nested", q.as_slice().to_vec()), ("borrowed-columns", s.as_slice().to_vec()),
                ("borrowed-flat-fields", vec![$(p.$x),*]), ("borrowed-nested-fields", vec![$(q.$x),*]), ("borrowed-columns-fields", vec![$(s.$x),*])]
        }
        fn reads(&self) -> Vec<(&'static str, Vec<E>)> {
            let f = &**self;
            let s = self.as_slice();
            let nested: &[[E; $r]; $c] = self.as_ref();
            let cols: &[Vector<E, $r>; $c] = self.as_ref();
            let flat: &[E; $n] = self.as_ref();
            let copy = *self;
            let at = |g: &dyn Fn(usize, usize) -> E| (0..$c).flat_map(|c| (0..$r).map(move |r| (c, r))).map(|(c, r)| g(c, r)).collect::<Vec<E>>();
            let rows: Vec<Vector<E, $c>> = (0..$r).map(|r| self.row(r)).collect();
            vec![("fields", vec![$(self.$x),*]), ("coords", vec![$(f.$x),*]), ("slice", s.to_vec()), ("as-ref-nested", nested.concat()), ("as-ref-columns", cols.iter().flat_map(|c| c[..].to_vec()).collect()),
                ("as-ref-flat", flat.to_vec()), ("index-column-row", at(&|c, r| self[c][r])), ("index-pair", at(&|c, r| self[(c, r)])), ("column", (0..$c).flat_map(|c| self.column(c)[..].to_vec()).collect()),
                ("row", at(&|c, r| rows[r][c])), ("pointer", ptr_reads(self.as_ptr(), $n)), ("copy", copy.as_slice().to_vec())]
        }
        fn write(&mut self, w: usize, i: usize, e: E) -> &'static str {
            let (c, r) = (i / $r, i % $r);
            match w {
                0 => { self[c][r] = e; "index-column-row" }
                1 => { self[(c, r)] = e; "index-pair" }
                2 => { match i { $($i => self.$x = e,)* _ => unreachable!() } "fields" }
                3 => { let a: &mut [[E; $r]; $c] = self.as_mut(); a[c][r] = e; "as-mut-nested" }
                4 => { let a: &mut [Vector<E, $r>; $c] = self.as_mut(); a[c][r] = e; "as-mut-columns" }
                5 => { let a: &mut [E; $n] = self.as_mut(); a[i] = e; "as-mut-flat" }
                6 => { unsafe { *self.as_mut_ptr().add(i) = e; } "pointer" }
                7 => { let mut col = self.column(c); col[r] = e; self[c] = col; "column-assign" }
                _ => { let col = &mut self[c]; let part = &mut col[r..]; part[0] = e; "column-range" }
            }
        }
        fn outside(&self) -> Vec<(&'static str, Box<dyn FnOnce() + '_>)> {
            let s = self;
            vec![("column-past-end", Box::new(move || { std::hint::black_box(s[$c]); })), ("row-past-end", Box::new(move || { std::hint::black_box(s[0][$r]); })), ("pair-row-past-end", Box::new(move || { std::hint::black_box(s[(0, $r)]); })),
                ("pair-column-past-end", Box::new(move || { std::hint::black_box(s[($c, 0)]); })), ("pair-far", Box::new(move || { std::hint::black_box(s[(usize::MAX, usize::MAX)]); })),
                ("row-fn-past-end", Box::new(move || { std::hint::black_box(s.row($r)); })), ("column-fn-past-end", Box::new(move || { std::hint::black_box(s.column($c)); }))]
        }
        fn outside_mut(&mut self, e: E, which: usize) -> Option<&'static str> {
            match which {
                0 => { self[$c][0] = e; Some("column-past-end") }
                1 => { self[0][$r] = e; Some("row-past-end") }
                2 => { self[(0, $r)] = e; Some("pair-row-past-end") }
                3 => { self[($c, 0)] = e; Some("pair-column-past-end") }
                4 => { self.swap_rows(0, $r); Some("swap-rows-past-end") }
                5 => { self.swap_columns($c, 0); Some("swap-columns-past-end") }
                6 => { self.swap((0, 0), (0, $r)); Some("swap-past-end") }
                _ => None,
            }
        }
    }
}; }
include!("views_gen.rs");

impl<E: El> Viewed<E> for Quaternion<E> {
    const K: usize = 4;
    const W: usize = 11;
    fn name() -> &'static str { "Quaternion" }
    fn built(a: &[E]) -> Vec<(&'static str, Self)> {
        let (arr, t) = (take::<E, 4>(a), (a[0], a[1], a[2], a[3]));
        vec![("new", Quaternion::new(a[0], a[1], a[2], a[3])), ("from-array", Quaternion::from(arr)), ("from-array-ref", Quaternion::from(&arr)), ("from-tuple", Quaternion::from(t)), ("from-tuple-ref", Quaternion::from(&t)),
            ("from-vector", Quaternion::from_vector(Vector4::from(arr))),
            ("from-parts", Quaternion::from_parts(a[0], Vector3::new(a[1], a[2], a[3])))]
    }
    fn borrowed(a: &[E]) -> Vec<(&'static str, Vec<E>)> {
        let (arr, t) = (take::<E, 4>(a), (a[0], a[1], a[2], a[3]));
        let (p, q): (&Quaternion<E>, &Quaternion<E>) = ((&arr).into(), (&t).into());
        vec![("borrowed-array", p.as_slice().to_vec()), ("borrowed-tuple", q.as_slice().to_vec()), ("borrowed-array-fields", vec![p.s, p.v.x, p.v.y, p.v.z]), ("borrowed-tuple-fields", vec![q.s, q.v.x, q.v.y, q.v.z])]
    }
    fn reads(&self) -> Vec<(&'static str, Vec<E>)> {
        let s = self.as_slice();
        let (a, t): (&[E; 4], &(E, E, E, E)) = (self.as_ref(), self.as_ref());
        let f = &**self;
        let v3 = self.vector();
        vec![("slice", s.to_vec()), ("as-ref-array", a.to_vec()), ("as-ref-tuple", vec![t.0, t.1, t.2, t.3]), ("fields", vec![f.s, f.v[0], f.v[1], f.v[2]]), ("named-vector", vec![self.s, self.v.x, self.v.y, self.v.z]),
            ("scalar-vector", vec![self.scalar(), v3.x, v3.y, v3.z]), ("pointer", ptr_reads(self.as_ptr(), 4))]
    }
    fn write(&mut self, w: usize, i: usize, e: E) -> &'static str {
        match w % 5 {
            0 => { let a: &mut [E; 4] = self.as_mut(); a[i] = e; "as-mut-array" }
            1 => { let t: &mut (E, E, E, E) = self.as_mut(); match i { 0 => t.0 = e, 1 => t.1 = e, 2 => t.2 = e, _ => t.3 = e } "as-mut-tuple" }
            2 => { if i == 0 { self.s = e } else { self.v[i - 1] = e } "fields" }
            3 => { match i { 0 => self.s = e, 1 => self.v.x = e, 2 => self.v.y = e, _ => self.v.z = e } "named-vector" }
            _ => { unsafe { *self.as_mut_ptr().add(i) = e; } "pointer" }
        }
    }
    fn outside(&self) -> Vec<(&'static str, Box<dyn FnOnce() + '_>)> { vec![] }
    fn outside_mut(&mut self, _: E, _: usize) -> Option<&'static str> { None }
}
impl<E: El + SimdScalar> Viewed<E> for Complex<E> {
    const K: usize = 2;
    const W: usize = 3;
    fn name() -> &'static str { "Complex" }
    fn built(a: &[E]) -> Vec<(&'static str, Self)> {
        let (arr, t) = ([a[0], a[1]], (a[0], a[1]));
        vec![("new", Complex::new(a[0], a[1])), ("from-array", Complex::<E>::from(arr)), ("from-array-ref", Complex::<E>::from(&arr)), ("from-tuple", Complex::<E>::from(t)), ("from-tuple-ref", Complex::<E>::from(&t))]
    }
    fn borrowed(a: &[E]) -> Vec<(&'static str, Vec<E>)> {
        let (arr, t) = ([a[0], a[1]], (a[0], a[1]));
        let (p, q): (&Complex<E>, &Complex<E>) = ((&arr).into(), (&t).into());
        vec![("borrowed-array", p.as_slice().to_vec()), ("borrowed-tuple", q.as_slice().to_vec()), ("borrowed-parts", vec![p.real(), q.imaginary()])]
    }
    fn reads(&self) -> Vec<(&'static str, Vec<E>)> {
        let s = self.as_slice();
        let (a, t): (&[E; 2], &(E, E)) = (self.as_ref(), self.as_ref());
        vec![("slice", s.to_vec()), ("as-ref-array", a.to_vec()), ("as-ref-tuple", vec![t.0, t.1]), ("parts", vec![self.real(), self.imaginary()]), ("pointer", ptr_reads(self.as_ptr(), 2))]
    }
    fn write(&mut self, w: usize, i: usize, e: E) -> &'static str {
        match w {
            0 => { let a: &mut [E; 2] = self.as_mut(); a[i] = e; "as-mut-array" }
            1 => { let t: &mut (E, E) = self.as_mut(); if i == 0 { t.0 = e } else { t.1 = e } "as-mut-tuple" }
            _ => { unsafe { *self.as_mut_ptr().add(i) = e; } "pointer" }
        }
    }
    fn outside(&self) -> Vec<(&'static str, Box<dyn FnOnce() + '_>)> { vec![] }
    fn outside_mut(&mut self, _: E, _: usize) -> Option<&'static str> { None }
}

#[cfg(miri)]
pub fn ev(_: &'static str, b: &'static str, c: &'static str) -> &'static str { if c.is_empty() { b } else { c } }
#[cfg(not(miri))]
pub fn ev(a: &str, b: &str, c: &'static str) -> &'static str {
    use std::collections::HashMap;
    thread_local! { static M: std::cell::RefCell<HashMap<String, &'static str>> = Default::default(); }
    let k = format!("{}:{}{}", a, b, c);
    M.with(|m| *m.borrow_mut().entry(k.clone()).or_insert_with(|| Box::leak(k.into_boxed_str())))
}
/// A history of writes through random mutable views; every reading view is compared with the model after each.
pub fn history<E: El, T: Viewed<E>>(cx: &mut Cx, cases: usize, steps: usize) {
    let n = T::name();
    for case in 0..cases {
        let r = &mut cx.rng;
        let mut model: Vec<E> = (0..T::K).map(|_| E::el(r)).collect();
        let key = r.u64();
        let start = model.clone();
        let desc = || format!("{} of {} from {:?}", n, E::NAME, start);
        let tag = format!("{} of {}", n, E::NAME);
        cx.case(&tag, [key], true, desc, |cx| {
            for (view, got) in T::built(&model) {
                cx.ok(ev(n, "built:", view), got.reads()[0].1 == model, || format!("{} reads {:?} want {:?}", view, got.reads()[0], model));
            }
            for (view, got) in T::borrowed(&model) { cx.ok(ev(n, "", view), got == model, || format!("{} reads {:?} want {:?}", view, got, model)); }
            let mut vs = T::built(&model);
            let (_, mut t) = vs.swap_remove(case % vs.len());
            let mut writer = "start";
            for step in 0..=steps {
                let got = t.reads();
                cx.ok(ev(n, "write:", writer), got[0].1 == model, || format!("step {}: written through {}, then reads {:?} want {:?} ({})", step, writer, got[0], model, desc()));
                for (view, got) in got { cx.ok(ev(n, "read:", view), got == model, || format!("step {}: view {} reads {:?} want {:?} ({})", step, view, got, model, desc())); }
                let (w, i) = ((case + step) % T::W, cx.rng.below(T::K));
                let e = E::el(&mut cx.rng);
                writer = t.write(w, i, e);
                model[i] = e;
            }
        });
    }
}
pub fn bounds<E: El, T: Viewed<E>>(cx: &mut Cx, cases: usize) {
    let n = T::name();
    for _ in 0..cases {
        let model: Vec<E> = (0..T::K).map(|_| E::el(&mut cx.rng)).collect();
        let desc = || format!("{} of {} {:?}", n, E::NAME, model);
        let tag = format!("{} of {} out of range", n, E::NAME);
        cx.case(&tag, [cx_key(&model)], true, desc, |cx| {
            let (_, mut t) = T::built(&model).swap_remove(0);
            for (what, f) in t.outside() { cx.panics(ev(n, "outside:", what), desc, f); }
            for which in 0..8 {
                let mut name = None;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| name = t.outside_mut(model[0], which)));
                if r.is_ok() && name.is_none() { continue; }
                cx.ok(ev(n, "outside-mut:", WHICH[which]), r.is_err(), || format!("{:?} was accepted ({})", name, desc()));
                cx.ok(ev(n, "outside-mut:untouched", ""), T::reads(&t)[0].1.len() == T::K, desc);
            }
        });
    }
}
const WHICH: [&str; 8] = ["0", "1", "2", "3", "4", "5", "6", "7"];
fn cx_key<E: Debug>(a: &[E]) -> u64 { mon::hash_bits(format!("{:?}", a).bytes().map(|b| b as u64)) }
pub fn swizzled<E: El, T: Swizzled<E>>(cx: &mut Cx, cases: usize) {
    let n = T::name();
    for _ in 0..cases {
        let model: Vec<E> = (0..T::K).map(|_| E::el(&mut cx.rng)).collect();
        let tag = format!("{} of {} swizzles", n, E::NAME);
        cx.case(&tag, [cx_key(&model)], true, || format!("{} {:?}", n, model), |cx| {
            let (_, t) = T::built(&model).swap_remove(0);
            for (w, got, ix) in t.swizzles() {
                let want: Vec<E> = ix.iter().map(|i| model[*i]).collect();
                cx.ok(ev(n, "swizzle:", w), got == want, || format!("{} of {:?} is {:?} want {:?}", w, model, got, want));
            }
        });
    }
}
/// Everything for one element type.
pub fn element<E: El>(cx: &mut Cx, cases: usize, steps: usize) {
    macro_rules! all { ($($T:ty),*) => { $( history::<E, $T>(cx, cases, steps); bounds::<E, $T>(cx, 1 + cases / 8); )* } }
    all!(Vector1<E>, Vector2<E>, Vector3<E>, Vector4<E>, Point1<E>, Point2<E>, Point3<E>, Matrix<E, 1, 1>, Matrix<E, 2, 2>, Matrix<E, 3, 3>, Matrix<E, 4, 4>, Matrix<E, 1, 2>, Matrix<E, 1, 3>, Matrix<E, 1, 4>, Matrix<E, 2, 3>, Matrix<E, 2, 4>, Matrix<E, 3, 2>, Matrix<E, 3, 4>, Matrix<E, 4, 2>, Matrix<E, 4, 3>, Quaternion<E>);
    macro_rules! sw { ($($T:ty),*) => { $( swizzled::<E, $T>(cx, 1 + cases / 8); )* } }
    sw!(Vector1<E>, Vector2<E>, Vector3<E>, Vector4<E>, Point1<E>, Point2<E>, Point3<E>);
    scalars::<E>(cx, 1 + cases / 8);
}
/// One-component conversions, unit values, higher-dimensional vectors and the owned shortening conversions.
fn scalars<E: El>(cx: &mut Cx, cases: usize) {
    for _ in 0..cases {
        let a: [E; 8] = std::array::from_fn(|_| E::el(&mut cx.rng));
        let desc = || format!("{:?}", a);
        let tag = format!("scalars of {}", E::NAME);
        cx.case(&tag, [cx_key(&a)], true, desc, |cx| {
            let mut v = Vector1::new(a[0]);
            let w: Vector1<E> = a[0].into();
            let p: Point1<E> = a[0].into();
            let s: &E = v.as_ref();
            cx.ok("scalar:vector1", *s == a[0] && w == v && v.to_scalar() == a[0] && p[0] == a[0], desc);
            let s: &mut E = v.as_mut();
            *s = a[1];
            cx.ok("scalar:vector1-mut", v.x == a[1], desc);
            cx.ok("scalar:matrix1x1", Matrix::<E, 1, 1>::new(a[2]).to_scalar() == a[2], desc);
            // long vectors and unnamed shapes keep every generic view
            let mut l = Vector::<E, 7>::from(take::<E, 7>(&a));
            l[5] = a[7];
            l[..][6] = a[0];
            AsMut::<[E; 7]>::as_mut(&mut l)[0] = a[1];
            let want = [a[1], a[1], a[2], a[3], a[4], a[7], a[0]];
            cx.ok("vector7", l.as_slice() == want && ptr_reads(l.as_ptr(), 7) == want && AsRef::<[E; 7]>::as_ref(&l) == &want, desc);
            let mut m = Matrix::<E, 4, 2>::from(a);
            m.swap((0, 1), (1, 3));
            m.swap_rows(0, 2);
            m.swap_columns(0, 1);
            let want = [a[6], a[5], a[4], a[1], a[2], a[7], a[0], a[3]];
            cx.ok("matrix4x2:swaps", m.as_slice() == want, || format!("{:?} want {:?}", m, want));
            let m = Matrix::<E, 2, 1>::from([[a[0], a[1]]]);
            cx.ok("matrix2x1", m[0][0] == a[0] && m[(0, 1)] == a[1] && m.row(1)[0] == a[1] && m.column(0)[..] == [a[0], a[1]], desc);
            let u = Unit::from_value_unchecked(Vector3::new(a[0], a[1], a[2]));
            let inner: &Vector3<E> = u.as_ref();
            cx.ok("unit", inner[..] == a[..3] && u[1] == a[1] && u.y == a[1] && u.as_slice() == &a[..3] && u.into_inner()[..] == a[..3], desc);
            macro_rules! size { ($($x:expr, $r:expr, $c:expr;)*) => { $( let x = $x; cx.ok("size", x.len() == $r * $c && x.shape() == ($r, $c) && x.is_empty() == ($r * $c == 0) && x.as_slice().len() == $r * $c, || format!("len {} shape {:?} empty {} slice {} want {} by {}", x.len(), x.shape(), x.is_empty(), x.as_slice().len(), $r, $c)); )* } }
            size! { Vector::<E, 0>::from([]), 0, 1; Point::<E, 0>::from([]), 0, 1; Vector1::new(a[0]), 1, 1; Vector2::from_fill(a[0]), 2, 1; Vector3::from_fill(a[0]), 3, 1; Vector4::from_fill(a[0]), 4, 1; l, 7, 1;
                Point1::new(a[0]), 1, 1; Point2::from_fill(a[0]), 2, 1; Point3::from_fill(a[0]), 3, 1; Quaternion::from(take::<E, 4>(&a)), 4, 1; Complex::new(a[0], a[1]), 2, 1;
                Matrix1x1::from_fill(a[0]), 1, 1; Matrix2x2::from_fill(a[0]), 2, 2; Matrix3x3::from_fill(a[0]), 3, 3; Matrix4x4::from_fill(a[0]), 4, 4; Matrix1x2::from_fill(a[0]), 1, 2; Matrix1x3::from_fill(a[0]), 1, 3; Matrix1x4::from_fill(a[0]), 1, 4;
                Matrix2x3::from_fill(a[0]), 2, 3; Matrix3x2::from_fill(a[0]), 3, 2; Matrix2x4::from_fill(a[0]), 2, 4; Matrix4x2::from_fill(a[0]), 4, 2; Matrix3x4::from_fill(a[0]), 3, 4; Matrix4x3::from_fill(a[0]), 4, 3; }
            let v3: Vector3<E> = Vector4::new(a[0], a[1], a[2], a[3]).into();
            let v3r: Vector3<E> = (&Vector4::new(a[0], a[1], a[2], a[3])).into();
            cx.ok("vector4-to-vector3", v3[..] == a[..3] && v3r == v3, desc);
        });
    }
}
/// Index forms that need a numeric element type.
pub fn numeric<E: El + SimdScalar>(cx: &mut Cx, cases: usize) {
    history::<E, Complex<E>>(cx, cases, 6);
    for _ in 0..cases {
        let mut m: [E; 4] = std::array::from_fn(|_| E::el(&mut cx.rng));
        let key = cx.rng.u64();
        let tag = format!("numeric of {}", E::NAME);
        let start = m;
        let desc = || format!("{:?}", start);
        cx.case(&tag, [key], true, desc, |cx| {
            let (mut q, mut z) = (Quaternion::from(m), Complex::new(m[0], m[1]));
            let mut c = [m[0], m[1]];
            for w in 0..14 {
                let mut l = range_reads!(q, 4);
                l.push(("slice", q.as_slice().to_vec()));
                for (view, got) in l { cx.ok(ev("Quaternion", "read:", view), got == m, || format!("{} reads {:?} want {:?}", view, got, m)); }
                let mut l = range_reads!(z, 2);
                l.push(("slice", z.as_slice().to_vec()));
                for (view, got) in l { cx.ok(ev("Complex", "read:", view), got == c, || format!("{} reads {:?} want {:?}", view, got, c)); }
                let (i, e) = (cx.rng.below(4), E::el(&mut cx.rng));
                let view = range_write!(q, w % 7, i, e, 4);
                m[i] = e;
                cx.ok(ev("Quaternion", "write:", view), q.as_slice() == m, || format!("{} {:?} want {:?}", view, q, m));
                let view = range_write!(z, w % 7, i % 2, e, 2);
                c[i % 2] = e;
                cx.ok(ev("Complex", "write:", view), z.as_slice() == c, || format!("{} {:?} want {:?}", view, z, c));
            }
            for (what, f) in range_outside!(&q, 4) { cx.panics(ev("Quaternion", "outside:", what), desc, f); }
            for (what, f) in range_outside!(&z, 2) { cx.panics(ev("Complex", "outside:", what), desc, f); }
            for which in 0..5 {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| range_outside_mut!(q, m[0], which, 4)));
                cx.ok(ev("Quaternion", "outside-mut:", WHICH[which]), r.is_err(), desc);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| range_outside_mut!(z, m[0], which, 2)));
                cx.ok(ev("Complex", "outside-mut:", WHICH[which]), r.is_err(), desc);
            }
            let (z1, z2): (Complex<E>, Complex<E>) = (m[0].into(), (&m[0]).into());
            let (p1, p2, p3) = (Point1::new(m[0]), Point2::new(m[0], m[1]), Point3::new(m[0], m[1], m[2]));
            cx.ok("Point:to-vector", p1.to_vector()[..] == m[..1] && p2.to_vector()[..] == m[..2] && p3.to_vector()[..] == m[..3], desc);
            cx.ok("Point:from-vector", Point1::from_vector(&Vector1::new(m[0])) == p1 && Point2::from_vector(&Vector2::new(m[0], m[1])) == p2 && Point3::from_vector(&Vector3::new(m[0], m[1], m[2])) == p3, desc);
            cx.ok("Complex:from-scalar", z1.as_slice() == [m[0], E::zero()] && z2 == z1, desc);
        });
    }
}

/// Conversions that need a floating point element type.
pub fn floating<E: El + cglinalg_numeric::SimdScalarFloat>(cx: &mut Cx, cases: usize) {
    for _ in 0..cases {
        let m: [E; 4] = std::array::from_fn(|_| E::el(&mut cx.rng));
        let key = cx.rng.u64();
        let tag = format!("floating of {}", E::NAME);
        cx.case(&tag, [key], true, || format!("{:?}", m), |cx| {
            let v = Vector4::from(m);
            cx.ok("Quaternion:from-vector4", Quaternion::from(v).as_slice() == m && Quaternion::from(&v).as_slice() == m, || format!("{:?}", m));
        });
    }
}
