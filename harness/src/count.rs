//! A double that counts the comparisons and arithmetic made with it; the memory and
//! the processor time a computation takes.
use std::alloc::{GlobalAlloc, Layout, System};
use num_traits::{Bounded, Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

thread_local!(static OPS: Cell<u64> = const { Cell::new(0) });
thread_local!(static BYTES: Cell<u64> = const { Cell::new(0) });
thread_local!(static FREED: Cell<u64> = const { Cell::new(0) });

/// The system's allocator, counting.
pub struct Counting;

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn add(c: &'static std::thread::LocalKey<Cell<u64>>, n: usize) {
    let _ = c.try_with(|c| c.set(c.get().wrapping_add(n as u64)));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(&BYTES, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(&BYTES, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(&FREED, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(&BYTES, n);
        add(&FREED, l.size());
        System.realloc(p, l, n)
    }
}

/// What a computation took, in this thread.
#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    /// operations on coordinates
    pub ops: u64,
    /// bytes allocated in all, and of these not given back
    pub bytes: u64,
    pub kept: u64,
}
pub fn costs<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let now = || (OPS.with(|c| c.get()), BYTES.with(|c| c.get()), FREED.with(|c| c.get()));
    let a = now();
    let r = f();
    let b = now();
    let (bytes, freed) = (b.1.wrapping_sub(a.1), b.2.wrapping_sub(a.2));
    (r, Cost { ops: b.0 - a.0, bytes, kept: bytes.saturating_sub(freed) })
}

/// Processor time of this thread so far, in seconds.
pub fn cpu() -> f64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    let r = unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) };
    assert_eq!(r, 0, "no processor clock");
    t.sec as f64 + t.nsec as f64 * 1e-9
}

fn tick() {
    OPS.with(|c| c.set(c.get() + 1));
}

/// The result of `f` and the number of operations it made on coordinates (in this thread).
pub fn cost<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let (r, c) = costs(f);
    (r, c.ops)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct K(pub f64);

impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &K) -> bool {
        tick();
        self.0 < o.0
    }
    fn le(&self, o: &K) -> bool {
        tick();
        self.0 <= o.0
    }
    fn gt(&self, o: &K) -> bool {
        tick();
        self.0 > o.0
    }
    fn ge(&self, o: &K) -> bool {
        tick();
        self.0 >= o.0
    }
}

macro_rules! binary {
    ($($tr:ident $f:ident),*) => { $(
        impl $tr for K {
            type Output = K;
            fn $f(self, o: K) -> K {
                tick();
                K($tr::$f(self.0, o.0))
            }
        }
    )* };
}
binary!(Add add, Sub sub, Mul mul, Div div, Rem rem);

impl Neg for K {
    type Output = K;
    fn neg(self) -> K {
        tick();
        K(-self.0)
    }
}
impl Zero for K {
    fn zero() -> K {
        K(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for K {
    fn one() -> K {
        K(1.0)
    }
}
impl Num for K {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<K, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(K)
    }
}
impl ToPrimitive for K {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for K {
    fn from<T: ToPrimitive>(n: T) -> Option<K> {
        n.to_f64().map(K)
    }
}
impl Bounded for K {
    fn min_value() -> K {
        K(f64::MIN)
    }
    fn max_value() -> K {
        K(f64::MAX)
    }
}
impl Signed for K {
    fn abs(&self) -> K {
        K(self.0.abs())
    }
    fn abs_sub(&self, o: &K) -> K {
        K((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> K {
        K(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0.0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0.0
    }
}
impl std::iter::Sum for K {
    fn sum<I: Iterator<Item = K>>(it: I) -> K {
        it.fold(K(0.0), |a, b| a + b)
    }
}

macro_rules! float {
    (consts $($c:ident)*; tests $($p:ident)*; unary $($u:ident)*; binary $($b:ident)*) => {
        impl Float for K {
            $( fn $c() -> K { K(<f64 as Float>::$c()) } )*
            $( fn $p(self) -> bool { <f64 as Float>::$p(self.0) } )*
            $( fn $u(self) -> K { tick(); K(<f64 as Float>::$u(self.0)) } )*
            $( fn $b(self, o: K) -> K { tick(); K(<f64 as Float>::$b(self.0, o.0)) } )*
            fn classify(self) -> FpCategory { self.0.classify() }
            fn mul_add(self, a: K, b: K) -> K { tick(); K(<f64 as Float>::mul_add(self.0, a.0, b.0)) }
            fn powi(self, n: i32) -> K { tick(); K(<f64 as Float>::powi(self.0, n)) }
            fn sin_cos(self) -> (K, K) { tick(); (K(self.0.sin()), K(self.0.cos())) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
        }
    };
}
float!(
    consts infinity neg_infinity nan neg_zero min_value max_value min_positive_value epsilon;
    tests is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative;
    unary floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt
        sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
    binary max min powf log abs_sub hypot atan2
);
