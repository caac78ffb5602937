//! Single threaded stand-in for `lazy_static`.
#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        #[allow(non_camel_case_types)]
        $(#[$a])*
        $v struct $n { _private: () }
        #[allow(dead_code)]
        $v static $n: $n = $n { _private: () };
        impl ::core::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                static mut VALUE: Option<$t> = None;
                #[allow(static_mut_refs)]
                unsafe {
                    if VALUE.is_none() {
                        VALUE = Some($e);
                    }
                    VALUE.as_ref().unwrap()
                }
            }
        }
        $crate::lazy_static!($($rest)*);
    };
    () => {};
}
