//! Runtime observation of which type-level relations hold. The module under test is compiled
//! straight from the repository; each probe reports, for concrete dimensions, whether the trait
//! is implemented and (where there is one) the value of the associated dimension.
#[path = "/repo/crates/cglinalg_core/src/constraint.rs"]
pub mod constraint;
use constraint::*;

pub trait Val { const V: usize; }
impl<const D: usize> Val for Const<D> { const V: usize = D; }

/// Associated dimension that is not a constant dimension at all.
pub struct P2<const M: usize, const N: usize>;
pub struct P4<const A: usize, const B: usize, const C: usize, const D: usize>;

pub trait No2 {
    const LT: bool = false;
    const EQ: Option<usize> = None;
    const EQ_ANY: bool = false;
    const ADD: Option<usize> = None;
    const SUB: Option<usize> = None;
    const MUL: Option<usize> = None;
    const ADD_ANY: bool = false;
    const SUB_ANY: bool = false;
    const MUL_ANY: bool = false;
    const EXTEND: bool = false;
    const CONTRACT: bool = false;
}
impl<const M: usize, const N: usize> No2 for P2<M, N> {}
impl<const M: usize, const N: usize> P2<M, N> where ShapeConstraint: DimLt<Const<M>, Const<N>> { pub const LT: bool = true; }
impl<const M: usize, const N: usize> P2<M, N> where ShapeConstraint: DimEq<Const<M>, Const<N>> { pub const EQ_ANY: bool = true; }
impl<const M: usize, const N: usize, E: Val + Dim> P2<M, N> where ShapeConstraint: DimEq<Const<M>, Const<N>, Representative = E> { pub const EQ: Option<usize> = Some(E::V); }
impl<const M: usize, const N: usize> P2<M, N> where ShapeConstraint: DimAdd<Const<M>, Const<N>> { pub const ADD_ANY: bool = true; }
impl<const M: usize, const N: usize> P2<M, N> where ShapeConstraint: DimSub<Const<M>, Const<N>> { pub const SUB_ANY: bool = true; }
impl<const M: usize, const N: usize> P2<M, N> where ShapeConstraint: DimMul<Const<M>, Const<N>> { pub const MUL_ANY: bool = true; }
impl<const M: usize, const N: usize, O: Val + Dim> P2<M, N> where ShapeConstraint: DimAdd<Const<M>, Const<N>, Output = O> { pub const ADD: Option<usize> = Some(O::V); }
impl<const M: usize, const N: usize, O: Val + Dim> P2<M, N> where ShapeConstraint: DimSub<Const<M>, Const<N>, Output = O> { pub const SUB: Option<usize> = Some(O::V); }
impl<const M: usize, const N: usize, O: Val + Dim> P2<M, N> where ShapeConstraint: DimMul<Const<M>, Const<N>, Output = O> { pub const MUL: Option<usize> = Some(O::V); }
impl<const M: usize, const N: usize> P2<M, N> where ShapeConstraint: CanExtend<Const<M>, Const<N>> { pub const EXTEND: bool = true; }
impl<const M: usize, const N: usize> P2<M, N> where ShapeConstraint: CanContract<Const<M>, Const<N>> { pub const CONTRACT: bool = true; }

pub trait No4 {
    const MULT: bool = false;
    const TMULT: bool = false;
}
impl<const A: usize, const B: usize, const C: usize, const D: usize> No4 for P4<A, B, C, D> {}
impl<const A: usize, const B: usize, const C: usize, const D: usize> P4<A, B, C, D> where ShapeConstraint: CanMultiply<Const<A>, Const<B>, Const<C>, Const<D>> { pub const MULT: bool = true; }
impl<const A: usize, const B: usize, const C: usize, const D: usize> P4<A, B, C, D> where ShapeConstraint: CanTransposeMultiply<Const<A>, Const<B>, Const<C>, Const<D>> { pub const TMULT: bool = true; }

/// Calls `$f!(m n)` for every ordered pair.
#[macro_export]
macro_rules! pairs {
    ($f:ident, [$($m:literal)*], $ns:tt) => { $( $crate::pairs_row!($f, $m, $ns); )* };
}
#[macro_export]
macro_rules! pairs_row {
    ($f:ident, $m:literal, [$($n:literal)*]) => { $( $f!($m, $n); )* };
}
