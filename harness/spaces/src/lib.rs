//! Minimal stand-in for the `spaces` crate (absent from this sandbox): the
//! set-theoretic vocabulary rstat's `support()` methods speak.
use std::fmt::Debug;
use std::marker::PhantomData;

pub trait Space {
    type Value: Debug;
}

pub trait OrderedSpace: Space {
    fn min(&self) -> Option<Self::Value> { self.inf() }
    fn max(&self) -> Option<Self::Value> { self.sup() }
    fn inf(&self) -> Option<Self::Value>;
    fn sup(&self) -> Option<Self::Value>;
}

impl<S: Space, const N: usize> Space for [S; N] {
    type Value = [S::Value; N];
}

/// Bounds of an interval.
pub mod bounds {
    use std::marker::PhantomData;

    pub trait Bound: Copy {
        type Value: Copy + PartialOrd + std::fmt::Debug;
        fn get(&self) -> Option<Self::Value>;
        fn of(v: Option<Self::Value>) -> Self;
        /// Whether the bounding value itself belongs to the set.
        fn inclusive() -> bool;
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Open<T>(pub T);
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Closed<T>(pub T);
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct NoBound<T>(pub PhantomData<T>);

    impl<T: Copy + PartialOrd + std::fmt::Debug> Bound for Open<T> {
        type Value = T;
        fn get(&self) -> Option<T> { Some(self.0) }
        fn of(v: Option<T>) -> Self { Open(v.unwrap()) }
        fn inclusive() -> bool { false }
    }
    impl<T: Copy + PartialOrd + std::fmt::Debug> Bound for Closed<T> {
        type Value = T;
        fn get(&self) -> Option<T> { Some(self.0) }
        fn of(v: Option<T>) -> Self { Closed(v.unwrap()) }
        fn inclusive() -> bool { true }
    }
    impl<T: Copy + PartialOrd + std::fmt::Debug> Bound for NoBound<T> {
        type Value = T;
        fn get(&self) -> Option<T> { None }
        fn of(_: Option<T>) -> Self { NoBound(PhantomData) }
        fn inclusive() -> bool { false }
    }
}

/// Intervals.
pub mod intervals {
    use super::bounds::{self, Bound, NoBound};
    use super::*;

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Interval<L, R = L> {
        pub left: L,
        pub right: R,
    }

    pub type Closed<T> = Interval<bounds::Closed<T>, bounds::Closed<T>>;
    pub type Open<T> = Interval<bounds::Open<T>, bounds::Open<T>>;
    pub type LeftClosed<T> = Interval<bounds::Closed<T>, NoBound<T>>;
    pub type LeftOpen<T> = Interval<bounds::Open<T>, NoBound<T>>;
    pub type RightClosed<T> = Interval<NoBound<T>, bounds::Closed<T>>;
    pub type RightOpen<T> = Interval<NoBound<T>, bounds::Open<T>>;
    pub type Unbounded<T> = Interval<NoBound<T>, NoBound<T>>;

    impl<L: Bound, R: Bound<Value = L::Value>> Space for Interval<L, R> {
        type Value = L::Value;
    }

    impl<L: Bound, R: Bound<Value = L::Value>> OrderedSpace for Interval<L, R> {
        fn inf(&self) -> Option<L::Value> { self.left.get() }
        fn sup(&self) -> Option<L::Value> { self.right.get() }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> Interval<L, R> {
        pub fn contains(&self, x: &L::Value) -> bool {
            let l = match self.left.get() {
                None => true,
                Some(a) => *x > a || (L::inclusive() && *x == a),
            };
            let r = match self.right.get() {
                None => true,
                Some(b) => *x < b || (R::inclusive() && *x == b),
            };
            l && r
        }
    }

    impl<T: PartialOrd> Closed<T> {
        pub fn closed(a: T, b: T) -> Option<Closed<T>> {
            if a <= b { Some(Self::closed_unchecked(a, b)) } else { None }
        }
        pub fn closed_unchecked(a: T, b: T) -> Closed<T> {
            Interval { left: bounds::Closed(a), right: bounds::Closed(b) }
        }
    }
    impl<T: PartialOrd + num_one::ZeroOne> Closed<T> {
        pub fn unit() -> Closed<T> { Self::closed_unchecked(T::zero(), T::one()) }
    }
    impl<T: PartialOrd> Open<T> {
        pub fn open_unchecked(a: T, b: T) -> Open<T> {
            Interval { left: bounds::Open(a), right: bounds::Open(b) }
        }
    }
    impl<T> LeftClosed<T> {
        pub fn left_closed(a: T) -> LeftClosed<T> {
            Interval { left: bounds::Closed(a), right: NoBound(PhantomData) }
        }
    }
    impl<T> LeftOpen<T> {
        pub fn left_open(a: T) -> LeftOpen<T> {
            Interval { left: bounds::Open(a), right: NoBound(PhantomData) }
        }
    }
    impl<T> RightClosed<T> {
        pub fn right_closed(b: T) -> RightClosed<T> {
            Interval { left: NoBound(PhantomData), right: bounds::Closed(b) }
        }
    }
    impl<T> RightOpen<T> {
        pub fn right_open(b: T) -> RightOpen<T> {
            Interval { left: NoBound(PhantomData), right: bounds::Open(b) }
        }
    }
    impl<T> Unbounded<T> {
        pub fn unbounded() -> Unbounded<T> {
            Interval { left: NoBound(PhantomData), right: NoBound(PhantomData) }
        }
    }

    pub mod num_one {
        pub trait ZeroOne {
            fn zero() -> Self;
            fn one() -> Self;
        }
        macro_rules! zo { ($($t:ty: $z:expr, $o:expr);*) => {$(
            impl ZeroOne for $t { fn zero() -> $t { $z } fn one() -> $t { $o } }
        )*} }
        zo!(f64: 0.0, 1.0; f32: 0.0, 1.0; i64: 0, 1; i32: 0, 1; u64: 0, 1; usize: 0, 1);
    }

    impl<L: Bound, R: Bound<Value = L::Value>> ops::Union for Interval<L, R> {
        type Output = Hull<L, R>;
        fn union(self, other: Self) -> Hull<L, R> { Hull(self, other) }
    }

    /// The union of two intervals of one kind, before closing the gap.
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Hull<L, R>(pub Interval<L, R>, pub Interval<L, R>);

    impl<L: Bound, R: Bound<Value = L::Value>> Space for Hull<L, R> {
        type Value = L::Value;
    }

    impl<L: Bound, R: Bound<Value = L::Value>> ops::Closure for Hull<L, R> {
        type Output = Interval<L, R>;
        fn closure(self) -> Interval<L, R> {
            let Hull(a, b) = self;
            let lo = match (a.left.get(), b.left.get()) {
                (Some(x), Some(y)) => Some(if y < x { y } else { x }),
                _ => None,
            };
            let hi = match (a.right.get(), b.right.get()) {
                (Some(x), Some(y)) => Some(if y > x { y } else { x }),
                _ => None,
            };
            Interval { left: L::of(lo), right: R::of(hi) }
        }
    }
}

pub mod real {
    use super::bounds::Bound;
    use super::intervals::*;

    pub type Reals<T> = Unbounded<T>;
    pub type PositiveReals<T> = LeftOpen<T>;
    pub type NonNegativeReals<T> = LeftClosed<T>;
    pub type NegativeReals<T> = RightOpen<T>;
    pub type NonPositiveReals<T> = RightClosed<T>;

    pub fn reals<T>() -> Reals<T>
    where super::bounds::NoBound<T>: Bound<Value = T> {
        Unbounded::unbounded()
    }
    pub fn positive_reals<T: num_one::ZeroOne>() -> PositiveReals<T> {
        LeftOpen::left_open(T::zero())
    }
    pub fn non_negative_reals<T: num_one::ZeroOne>() -> NonNegativeReals<T> {
        LeftClosed::left_closed(T::zero())
    }
}

pub mod discrete {
    use super::intervals::{num_one::ZeroOne, LeftClosed, Unbounded};
    use super::*;

    pub type Integers<T> = Unbounded<T>;
    /// {1, 2, 3, ...}
    pub type Naturals<T> = LeftClosed<T>;
    /// {0, 1, 2, ...}
    pub type NonNegativeIntegers<T> = LeftClosed<T>;

    pub fn integers<T>() -> Integers<T> { Unbounded::unbounded() }
    pub fn naturals<T: ZeroOne>() -> Naturals<T> { LeftClosed::left_closed(T::one()) }
    pub fn non_negative_integers<T: ZeroOne>() -> NonNegativeIntegers<T> {
        LeftClosed::left_closed(T::zero())
    }

    /// {false, true}
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Binary;
    pub fn binary() -> Binary { Binary }
    impl Space for Binary {
        type Value = bool;
    }
    impl OrderedSpace for Binary {
        fn inf(&self) -> Option<bool> { Some(false) }
        fn sup(&self) -> Option<bool> { Some(true) }
    }
    impl ops::Union for Binary {
        type Output = Binary;
        fn union(self, _: Binary) -> Binary { Binary }
    }
    impl ops::Closure for Binary {
        type Output = Binary;
        fn closure(self) -> Binary { Binary }
    }
}

pub mod ops {
    pub trait Closure {
        type Output;
        fn closure(self) -> Self::Output;
    }

    pub trait Union<S = Self>: Sized {
        type Output;
        fn union(self, other: S) -> Self::Output;
        fn union_closure(self, other: S) -> <Self::Output as Closure>::Output
        where Self::Output: Closure {
            self.union(other).closure()
        }
    }
}

#[doc(hidden)]
pub type _Unused = PhantomData<()>;
