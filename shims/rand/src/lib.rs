//! Random numbers as the checks see them: every draw is any value of its range.
#[cfg(vp)]
extern "C" {
    fn vp_f64(lo: f64, hi: f64) -> f64;
    fn vp_range(lo: u64, hi: u64) -> u64;
}
#[cfg(not(vp))]
unsafe fn vp_f64(lo: f64, _hi: f64) -> f64 {
    lo
}
#[cfg(not(vp))]
unsafe fn vp_range(lo: u64, _hi: u64) -> u64 {
    lo
}

pub mod distributions {
    pub struct Standard;
    pub mod uniform {
        pub trait SampleRange<T> {
            fn draw(self) -> T;
        }
        impl SampleRange<f64> for core::ops::Range<f64> {
            fn draw(self) -> f64 {
                unsafe { crate::vp_f64(self.start, self.end) }
            }
        }
        impl SampleRange<f64> for core::ops::RangeInclusive<f64> {
            fn draw(self) -> f64 {
                unsafe { crate::vp_f64(*self.start(), *self.end()) }
            }
        }
        macro_rules! ints {
            ($($t:ty),*) => { $(
                impl SampleRange<$t> for core::ops::Range<$t> {
                    fn draw(self) -> $t {
                        assert!(self.start < self.end);
                        let n = (self.end - self.start - 1) as u64;
                        self.start + unsafe { crate::vp_range(0, n) } as $t
                    }
                }
                impl SampleRange<$t> for core::ops::RangeInclusive<$t> {
                    fn draw(self) -> $t {
                        let n = (*self.end() - *self.start()) as u64;
                        *self.start() + unsafe { crate::vp_range(0, n) } as $t
                    }
                }
            )* };
        }
        ints!(u8, u16, u32, u64, usize, i32, i64);
    }
}

pub trait Draw {
    fn any() -> Self;
}
impl Draw for f64 {
    fn any() -> f64 {
        unsafe { vp_f64(0.0, 1.0) }
    }
}
impl Draw for bool {
    fn any() -> bool {
        unsafe { vp_range(0, 1) == 1 }
    }
}
impl Draw for u64 {
    fn any() -> u64 {
        unsafe { vp_range(0, u64::MAX) }
    }
}
impl Draw for u32 {
    fn any() -> u32 {
        unsafe { vp_range(0, u32::MAX as u64) as u32 }
    }
}

pub trait RngCore {}
pub trait Rng: RngCore {
    fn gen_range<T, R: distributions::uniform::SampleRange<T>>(&mut self, r: R) -> T {
        r.draw()
    }
    fn gen<T: Draw>(&mut self) -> T {
        T::any()
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        bool::any()
    }
}
impl<T: RngCore> Rng for T {}

pub trait SeedableRng: Sized {
    fn seed_from_u64(seed: u64) -> Self;
    fn from_entropy() -> Self {
        Self::seed_from_u64(0)
    }
}
pub mod rngs {
    #[derive(Clone, Debug)]
    pub struct StdRng(());
    impl super::RngCore for StdRng {}
    impl super::SeedableRng for StdRng {
        fn seed_from_u64(_: u64) -> Self {
            StdRng(())
        }
    }
}
pub mod prelude {
    pub use crate::rngs::StdRng;
    pub use crate::Rng;
    pub use crate::RngCore;
    pub use crate::SeedableRng;
}
