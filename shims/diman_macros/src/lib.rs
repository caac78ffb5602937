//! Macros of the `diman` stand-in: `#[dimension]` and `unit_system!`.
use std::collections::BTreeMap;
use std::collections::HashMap;

use proc_macro2::Span;
use proc_macro2::TokenStream;
use quote::quote;
use syn::parse::Parse;
use syn::parse::ParseStream;
use syn::*;

#[proc_macro_attribute]
pub fn dimension(
    _args: proc_macro::TokenStream,
    input: proc_macro::TokenStream,
) -> proc_macro::TokenStream {
    let s: ItemStruct = parse(input).unwrap();
    let name = &s.ident;
    let fields: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    quote! {
        #[derive(::core::marker::ConstParamTy, PartialEq, Eq, Clone, Debug, Copy, Hash)]
        #s
        impl #name {
            pub const fn none() -> Self { Self { #(#fields: 0,)* } }
            pub const fn dimension_mul(self, o: Self) -> Self { Self { #(#fields: self.#fields + o.#fields,)* } }
            pub const fn dimension_div(self, o: Self) -> Self { Self { #(#fields: self.#fields - o.#fields,)* } }
            pub const fn dimension_inv(self) -> Self { Self { #(#fields: -self.#fields,)* } }
            pub const fn dimension_powi(self, e: i32) -> Self { Self { #(#fields: self.#fields * e,)* } }
            pub const fn dimension_sqrt(self) -> Self { Self { #(#fields: self.#fields / 2,)* } }
            pub const fn dimension_cbrt(self) -> Self { Self { #(#fields: self.#fields / 3,)* } }
        }
    }
    .into()
}

#[derive(Clone)]
enum Rhs {
    Dim(BTreeMap<String, i32>),
    Expr(Expr),
}

struct Sys {
    quantity: Ident,
    dimension: Ident,
    defs: Vec<(Ident, Rhs)>,
    units: Vec<(Ident, Expr)>,
    consts: Vec<(Ident, Expr)>,
}

impl Parse for Sys {
    fn parse(input: ParseStream) -> Result<Self> {
        let quantity = input.parse()?;
        input.parse::<Token![,]>()?;
        let dimension = input.parse()?;
        input.parse::<Token![,]>()?;
        let c;
        bracketed!(c in input);
        let (mut defs, mut units, mut consts) = (vec![], vec![], vec![]);
        while !c.is_empty() {
            let kw: Ident = c.parse()?;
            match kw.to_string().as_str() {
                "def" => {
                    let n: Ident = c.parse()?;
                    c.parse::<Token![=]>()?;
                    if c.peek(token::Brace) {
                        let b;
                        braced!(b in c);
                        let mut m = BTreeMap::new();
                        while !b.is_empty() {
                            let f: Ident = b.parse()?;
                            b.parse::<Token![:]>()?;
                            let neg = b.peek(Token![-]);
                            if neg {
                                b.parse::<Token![-]>()?;
                            }
                            let v: LitInt = b.parse()?;
                            let v: i32 = v.base10_parse()?;
                            m.insert(f.to_string(), if neg { -v } else { v });
                            if b.peek(Token![,]) {
                                b.parse::<Token![,]>()?;
                            }
                        }
                        defs.push((n, Rhs::Dim(m)));
                    } else {
                        defs.push((n, Rhs::Expr(c.parse()?)));
                    }
                }
                "unit" => {
                    let n: Ident = if c.peek(token::Paren) {
                        let p;
                        parenthesized!(p in c);
                        let n = p.parse()?;
                        while !p.is_empty() {
                            p.parse::<proc_macro2::TokenTree>()?;
                        }
                        n
                    } else {
                        c.parse()?
                    };
                    c.parse::<Token![=]>()?;
                    units.push((n, c.parse()?));
                }
                "constant" => {
                    let n: Ident = c.parse()?;
                    c.parse::<Token![=]>()?;
                    consts.push((n, c.parse()?));
                }
                x => panic!("unexpected keyword {x}"),
            }
            if c.peek(Token![,]) {
                c.parse::<Token![,]>()?;
            }
        }
        if input.peek(Token![,]) {
            input.parse::<Token![,]>()?;
        }
        Ok(Sys { quantity, dimension, defs, units, consts })
    }
}

type Dim = BTreeMap<String, i32>;

fn comb(a: &Dim, b: &Dim, s: i32) -> Dim {
    let mut r = a.clone();
    for (k, v) in b {
        *r.entry(k.clone()).or_insert(0) += s * v;
    }
    r.retain(|_, v| *v != 0);
    r
}

struct Env {
    defs: HashMap<String, Rhs>,
    vals: HashMap<String, Expr>,
}

impl Env {
    fn dim(&self, n: &str) -> Option<Dim> {
        match self.defs.get(n)? {
            Rhs::Dim(m) => {
                let mut m = m.clone();
                m.retain(|_, v| *v != 0);
                Some(m)
            }
            Rhs::Expr(e) => Some(self.eval(e).0),
        }
    }
    fn eval(&self, e: &Expr) -> (Dim, f64) {
        match e {
            Expr::Paren(p) => self.eval(&p.expr),
            Expr::Group(p) => self.eval(&p.expr),
            Expr::Lit(l) => {
                let v = match &l.lit {
                    Lit::Float(f) => f.base10_parse::<f64>().unwrap(),
                    Lit::Int(i) => i.base10_parse::<f64>().unwrap(),
                    _ => panic!("bad literal"),
                };
                (Dim::new(), v)
            }
            Expr::Path(p) => {
                let n = p.path.get_ident().unwrap().to_string();
                if let Some(d) = self.dim(&n) {
                    (d, 1.0)
                } else if let Some(v) = self.vals.get(&n) {
                    self.eval(v)
                } else {
                    panic!("unknown {n}")
                }
            }
            Expr::Binary(b) => {
                let (l, r) = (self.eval(&b.left), self.eval(&b.right));
                match b.op {
                    BinOp::Mul(_) => (comb(&l.0, &r.0, 1), l.1 * r.1),
                    BinOp::Div(_) => (comb(&l.0, &r.0, -1), l.1 / r.1),
                    _ => panic!("bad op"),
                }
            }
            _ => panic!("bad expression"),
        }
    }
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

#[proc_macro]
pub fn unit_system(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let s: Sys = parse(input).unwrap();
    let env = Env {
        defs: s.defs.iter().map(|(n, r)| (n.to_string(), r.clone())).collect(),
        vals: s
            .units
            .iter()
            .chain(s.consts.iter())
            .map(|(n, e)| (n.to_string(), e.clone()))
            .collect(),
    };
    let q = &s.quantity;
    let dim = &s.dimension;
    let dim_tokens = |d: &Dim| -> TokenStream {
        let f = d.iter().map(|(k, v)| {
            let k = id(k);
            quote! { #k: #v }
        });
        quote! { #dim { #(#f,)* ..#dim::none() } }
    };
    // dimension constants, so that the types only have to name a path
    let mut dimconsts = vec![];
    let mut dimnames: HashMap<Dim, Ident> = HashMap::new();
    let mut name_of = |d: &Dim| -> Ident {
        if let Some(n) = dimnames.get(d) {
            return n.clone();
        }
        let n = id(&format!("DIM_{}", dimnames.len()));
        let t = dim_tokens(d);
        dimconsts.push(quote! { #[doc(hidden)] pub const #n: #dim = #t; });
        dimnames.insert(d.clone(), n.clone());
        n
    };
    let none = name_of(&Dim::new());
    let defs: Vec<(Ident, Ident)> = s
        .defs
        .iter()
        .map(|(n, _)| {
            let d = env.dim(&n.to_string()).unwrap();
            (n.clone(), name_of(&d))
        })
        .collect();
    let def_n: Vec<_> = defs.iter().map(|d| &d.0).collect();
    let def_d: Vec<_> = defs.iter().map(|d| &d.1).collect();
    let mut unit_impls = vec![];
    for (n, e) in &s.units {
        let (d, f) = env.eval(e);
        let d = name_of(&d);
        let inn = id(&format!("in_{n}"));
        unit_impls.push(quote! {
            impl #q<PF64, { #d }> {
                pub const fn #n(v: PF64) -> Self { #q(v * #f) }
                pub fn #inn(self) -> PF64 { self.0 / #f }
            }
            impl #q<glam::DVec2, { #d }> {
                pub fn #n(x: PF64, y: PF64) -> Self { #q(glam::DVec2::new(x, y) * #f) }
                pub fn #inn(self) -> glam::DVec2 { self.0 / #f }
            }
            impl #q<glam::DVec3, { #d }> {
                pub fn #n(x: PF64, y: PF64, z: PF64) -> Self { #q(glam::DVec3::new(x, y, z) * #f) }
                pub fn #inn(self) -> glam::DVec3 { self.0 / #f }
            }
        });
    }
    let mut consts = vec![];
    for (n, e) in &s.consts {
        let (d, f) = env.eval(e);
        let d = name_of(&d);
        consts.push(quote! { pub const #n: #q<PF64, { #d }> = #q(#f); });
    }
    let out = quote! {
        #[doc(hidden)]
        pub type PF64 = ::core::primitive::f64;
        #(#dimconsts)*

        #[derive(Clone, Copy, PartialEq, Default)]
        #[repr(transparent)]
        pub struct #q<S, const D: #dim>(pub(crate) S);

        pub mod f64 { #( pub type #def_n = super::#q<super::PF64, { super::#def_d }>; )* }
        pub mod dvec2 { #( pub type #def_n = super::#q<glam::DVec2, { super::#def_d }>; )* }
        pub mod dvec3 { #( pub type #def_n = super::#q<glam::DVec3, { super::#def_d }>; )* }

        impl<S, const D: #dim> #q<S, D> {
            pub const fn new_unchecked(s: S) -> Self { #q(s) }
        }
        impl<S: Clone + Copy, const D: #dim> #q<S, D> {
            pub fn value_unchecked(self) -> S { self.0 }
            pub fn unwrap_value(self) -> S { self.0 }
        }
        impl<S> #q<S, { #none }> {
            pub fn value(self) -> S { self.0 }
        }
        impl<S> ::core::ops::Deref for #q<S, { #none }> { type Target = S; fn deref(&self) -> &S { &self.0 } }
        impl<S> ::core::ops::DerefMut for #q<S, { #none }> { fn deref_mut(&mut self) -> &mut S { &mut self.0 } }
        impl<S> From<S> for #q<S, { #none }> { fn from(s: S) -> Self { #q(s) } }
        impl From<#q<PF64, { #none }>> for PF64 { fn from(s: #q<PF64, { #none }>) -> Self { s.0 } }

        impl<S: PartialOrd, const D: #dim> PartialOrd for #q<S, D> {
            fn partial_cmp(&self, o: &Self) -> Option<::core::cmp::Ordering> { self.0.partial_cmp(&o.0) }
        }
        impl<S: ::core::fmt::Debug, const D: #dim> ::core::fmt::Debug for #q<S, D> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::fmt::Debug::fmt(&self.0, f) }
        }
        impl<S: ::core::fmt::Display, const D: #dim> ::core::fmt::Display for #q<S, D> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::fmt::Display::fmt(&self.0, f) }
        }

        impl<S: ::core::ops::Add<Output = S>, const D: #dim> ::core::ops::Add for #q<S, D> { type Output = Self; fn add(self, o: Self) -> Self { #q(self.0 + o.0) } }
        impl<S: ::core::ops::Sub<Output = S>, const D: #dim> ::core::ops::Sub for #q<S, D> { type Output = Self; fn sub(self, o: Self) -> Self { #q(self.0 - o.0) } }
        impl<S: ::core::ops::Add<Output = S> + Copy, const D: #dim> ::core::ops::Add<&#q<S, D>> for #q<S, D> { type Output = Self; fn add(self, o: &Self) -> Self { #q(self.0 + o.0) } }
        impl<S: ::core::ops::Sub<Output = S> + Copy, const D: #dim> ::core::ops::Sub<&#q<S, D>> for #q<S, D> { type Output = Self; fn sub(self, o: &Self) -> Self { #q(self.0 - o.0) } }
        impl<S: ::core::ops::Neg<Output = S>, const D: #dim> ::core::ops::Neg for #q<S, D> { type Output = Self; fn neg(self) -> Self { #q(-self.0) } }
        impl<S: ::core::ops::AddAssign, const D: #dim> ::core::ops::AddAssign for #q<S, D> { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
        impl<S: ::core::ops::SubAssign, const D: #dim> ::core::ops::SubAssign for #q<S, D> { fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
        impl<S: ::core::ops::MulAssign<PF64>, const D: #dim> ::core::ops::MulAssign<PF64> for #q<S, D> { fn mul_assign(&mut self, o: PF64) { self.0 *= o } }
        impl<S: ::core::ops::DivAssign<PF64>, const D: #dim> ::core::ops::DivAssign<PF64> for #q<S, D> { fn div_assign(&mut self, o: PF64) { self.0 /= o } }
        impl<S: ::core::ops::MulAssign<PF64>, const D: #dim> ::core::ops::MulAssign<#q<PF64, { #none }>> for #q<S, D> { fn mul_assign(&mut self, o: #q<PF64, { #none }>) { self.0 *= o.0 } }
        impl<S: ::core::ops::DivAssign<PF64>, const D: #dim> ::core::ops::DivAssign<#q<PF64, { #none }>> for #q<S, D> { fn div_assign(&mut self, o: #q<PF64, { #none }>) { self.0 /= o.0 } }
        impl<S: Default + ::core::ops::AddAssign, const D: #dim> ::core::iter::Sum for #q<S, D> {
            fn sum<I: Iterator<Item = Self>>(iter: I) -> Self { let mut t = S::default(); for x in iter { t += x.0; } #q(t) }
        }
        impl<'a, S: Default + ::core::ops::AddAssign + Copy, const D: #dim> ::core::iter::Sum<&'a #q<S, D>> for #q<S, D> {
            fn sum<I: Iterator<Item = &'a Self>>(iter: I) -> Self { let mut t = S::default(); for x in iter { t += x.0; } #q(t) }
        }

        // scalar arithmetic
        impl<SL, SR, const DL: #dim, const DR: #dim> ::core::ops::Mul<#q<SR, DR>> for #q<SL, DL>
        where #q<(), { #dim::dimension_mul(DL, DR) }>:, SL: ::core::ops::Mul<SR>
        { type Output = #q<<SL as ::core::ops::Mul<SR>>::Output, { #dim::dimension_mul(DL, DR) }>; fn mul(self, o: #q<SR, DR>) -> Self::Output { #q(self.0 * o.0) } }
        impl<SL, SR: Copy, const DL: #dim, const DR: #dim> ::core::ops::Mul<&#q<SR, DR>> for #q<SL, DL>
        where #q<(), { #dim::dimension_mul(DL, DR) }>:, SL: ::core::ops::Mul<SR>
        { type Output = #q<<SL as ::core::ops::Mul<SR>>::Output, { #dim::dimension_mul(DL, DR) }>; fn mul(self, o: &#q<SR, DR>) -> Self::Output { #q(self.0 * o.0) } }
        impl<SL, SR, const DL: #dim, const DR: #dim> ::core::ops::Div<#q<SR, DR>> for #q<SL, DL>
        where #q<(), { #dim::dimension_div(DL, DR) }>:, SL: ::core::ops::Div<SR>
        { type Output = #q<<SL as ::core::ops::Div<SR>>::Output, { #dim::dimension_div(DL, DR) }>; fn div(self, o: #q<SR, DR>) -> Self::Output { #q(self.0 / o.0) } }
        impl<SL, SR: Copy, const DL: #dim, const DR: #dim> ::core::ops::Div<&#q<SR, DR>> for #q<SL, DL>
        where #q<(), { #dim::dimension_div(DL, DR) }>:, SL: ::core::ops::Div<SR>
        { type Output = #q<<SL as ::core::ops::Div<SR>>::Output, { #dim::dimension_div(DL, DR) }>; fn div(self, o: &#q<SR, DR>) -> Self::Output { #q(self.0 / o.0) } }
        impl<S: ::core::ops::Mul<PF64, Output = S>, const D: #dim> ::core::ops::Mul<PF64> for #q<S, D> { type Output = Self; fn mul(self, o: PF64) -> Self { #q(self.0 * o) } }
        impl<S: ::core::ops::Div<PF64, Output = S>, const D: #dim> ::core::ops::Div<PF64> for #q<S, D> { type Output = Self; fn div(self, o: PF64) -> Self { #q(self.0 / o) } }
        impl<S, const D: #dim> ::core::ops::Mul<#q<S, D>> for PF64 where PF64: ::core::ops::Mul<S> { type Output = #q<<PF64 as ::core::ops::Mul<S>>::Output, D>; fn mul(self, o: #q<S, D>) -> Self::Output { #q(self * o.0) } }
        impl<const D: #dim> ::core::ops::Div<#q<PF64, D>> for PF64 where #q<(), { #dim::dimension_inv(D) }>: { type Output = #q<PF64, { #dim::dimension_inv(D) }>; fn div(self, o: #q<PF64, D>) -> Self::Output { #q(self / o.0) } }
        impl<const D: #dim> ::core::ops::Mul<#q<PF64, D>> for glam::DVec2 { type Output = #q<glam::DVec2, D>; fn mul(self, o: #q<PF64, D>) -> Self::Output { #q(self * o.0) } }
        impl<const D: #dim> ::core::ops::Mul<#q<PF64, D>> for glam::DVec3 { type Output = #q<glam::DVec3, D>; fn mul(self, o: #q<PF64, D>) -> Self::Output { #q(self * o.0) } }
        impl<const D: #dim> ::core::ops::Mul<glam::DVec2> for #q<PF64, D> { type Output = #q<glam::DVec2, D>; fn mul(self, o: glam::DVec2) -> Self::Output { #q(self.0 * o) } }
        impl<const D: #dim> ::core::ops::Mul<glam::DVec3> for #q<PF64, D> { type Output = #q<glam::DVec3, D>; fn mul(self, o: glam::DVec3) -> Self::Output { #q(self.0 * o) } }
        impl<const D: #dim> ::core::ops::Div<#q<PF64, D>> for glam::DVec2 where #q<(), { #dim::dimension_inv(D) }>: { type Output = #q<glam::DVec2, { #dim::dimension_inv(D) }>; fn div(self, o: #q<PF64, D>) -> Self::Output { #q(self / o.0) } }
        impl<const D: #dim> ::core::ops::Div<#q<PF64, D>> for glam::DVec3 where #q<(), { #dim::dimension_inv(D) }>: { type Output = #q<glam::DVec3, { #dim::dimension_inv(D) }>; fn div(self, o: #q<PF64, D>) -> Self::Output { #q(self / o.0) } }
        impl ::core::ops::Add<PF64> for #q<PF64, { #none }> { type Output = Self; fn add(self, o: PF64) -> Self { #q(self.0 + o) } }
        impl ::core::ops::Sub<PF64> for #q<PF64, { #none }> { type Output = Self; fn sub(self, o: PF64) -> Self { #q(self.0 - o) } }
        impl ::core::ops::Add<#q<PF64, { #none }>> for PF64 { type Output = #q<PF64, { #none }>; fn add(self, o: #q<PF64, { #none }>) -> #q<PF64, { #none }> { #q(self + o.0) } }
        impl ::core::ops::Sub<#q<PF64, { #none }>> for PF64 { type Output = #q<PF64, { #none }>; fn sub(self, o: #q<PF64, { #none }>) -> #q<PF64, { #none }> { #q(self - o.0) } }
        impl ::core::ops::AddAssign<PF64> for #q<PF64, { #none }> { fn add_assign(&mut self, o: PF64) { self.0 += o } }
        impl ::core::ops::SubAssign<PF64> for #q<PF64, { #none }> { fn sub_assign(&mut self, o: PF64) { self.0 -= o } }
        impl PartialEq<PF64> for #q<PF64, { #none }> { fn eq(&self, o: &PF64) -> bool { self.0 == *o } }
        impl PartialOrd<PF64> for #q<PF64, { #none }> { fn partial_cmp(&self, o: &PF64) -> Option<::core::cmp::Ordering> { self.0.partial_cmp(o) } }

        // f64 functions
        impl<const D: #dim> #q<PF64, D> {
            pub const fn zero() -> Self { #q(0.0) }
            pub fn abs(self) -> Self { #q(self.0.abs()) }
            pub fn min<T: Into<Self>>(self, o: T) -> Self { #q(self.0.min(o.into().0)) }
            pub fn max<T: Into<Self>>(self, o: T) -> Self { #q(self.0.max(o.into().0)) }
            pub fn clamp<A: Into<Self>, B: Into<Self>>(self, a: A, b: B) -> Self { #q(self.0.clamp(a.into().0, b.into().0)) }
            pub fn is_positive(self) -> bool { self.0 > 0.0 }
            pub fn is_negative(self) -> bool { self.0 < 0.0 }
            pub fn is_nan(self) -> bool { self.0.is_nan() }
            pub fn is_finite(self) -> bool { self.0.is_finite() }
            pub fn is_infinite(self) -> bool { self.0.is_infinite() }
            pub fn signum(self) -> PF64 { self.0.signum() }
            pub fn powi<const N: i32>(self) -> #q<PF64, { #dim::dimension_powi(D, N) }> where #q<(), { #dim::dimension_powi(D, N) }>: { #q(self.0.powi(N)) }
            pub fn squared(self) -> #q<PF64, { #dim::dimension_powi(D, 2) }> where #q<(), { #dim::dimension_powi(D, 2) }>: { #q(self.0.powi(2)) }
            pub fn cubed(self) -> #q<PF64, { #dim::dimension_powi(D, 3) }> where #q<(), { #dim::dimension_powi(D, 3) }>: { #q(self.0.powi(3)) }
            pub fn sqrt(self) -> #q<PF64, { #dim::dimension_sqrt(D) }> where #q<(), { #dim::dimension_sqrt(D) }>: { #q(self.0.sqrt()) }
            pub fn cbrt(self) -> #q<PF64, { #dim::dimension_cbrt(D) }> where #q<(), { #dim::dimension_cbrt(D) }>: { #q(self.0.cbrt()) }
        }
        impl #q<PF64, { #none }> {
            pub fn exp(self) -> Self { #q(self.0.exp()) }
            pub fn ln(self) -> Self { #q(self.0.ln()) }
            pub fn log2(self) -> Self { #q(self.0.log2()) }
            pub fn log10(self) -> Self { #q(self.0.log10()) }
            pub fn ceil(self) -> Self { #q(self.0.ceil()) }
        }
        // vector functions
        impl<const D: #dim> #q<glam::DVec2, D> {
            pub fn new(x: #q<PF64, D>, y: #q<PF64, D>) -> Self { #q(glam::DVec2::new(x.0, y.0)) }
            pub fn new_x(x: #q<PF64, D>) -> Self { #q(glam::DVec2::new(x.0, 0.0)) }
            pub fn new_y(y: #q<PF64, D>) -> Self { #q(glam::DVec2::new(0.0, y.0)) }
            pub fn min(self, o: Self) -> Self { #q(self.0.min(o.0)) }
            pub fn max(self, o: Self) -> Self { #q(self.0.max(o.0)) }
            pub fn zero() -> Self { #q(glam::DVec2::ZERO) }
            pub fn x(&self) -> #q<PF64, D> { #q(self.0.x) }
            pub fn y(&self) -> #q<PF64, D> { #q(self.0.y) }
            pub fn set_x(&mut self, x: #q<PF64, D>) { self.0.x = x.0 }
            pub fn set_y(&mut self, x: #q<PF64, D>) { self.0.y = x.0 }
            pub fn abs(self) -> Self { #q(self.0.abs()) }
            pub fn length(&self) -> #q<PF64, D> { #q(self.0.length()) }
            pub fn length_squared(&self) -> #q<PF64, { #dim::dimension_powi(D, 2) }> where #q<(), { #dim::dimension_powi(D, 2) }>: { #q(self.0.length_squared()) }
            pub fn distance(&self, o: &Self) -> #q<PF64, D> { #q(self.0.distance(o.0)) }
            pub fn distance_squared(&self, o: &Self) -> #q<PF64, { #dim::dimension_powi(D, 2) }> where #q<(), { #dim::dimension_powi(D, 2) }>: { #q(self.0.distance_squared(o.0)) }
            pub fn normalize(&self) -> #q<glam::DVec2, { #none }> { #q(self.0.normalize()) }
            pub fn dot<const D2: #dim>(self, o: #q<glam::DVec2, D2>) -> #q<PF64, { #dim::dimension_mul(D, D2) }> where #q<(), { #dim::dimension_mul(D, D2) }>: { #q(self.0.dot(o.0)) }
            pub fn in_units(self) -> glam::DVec2 { self.0 }
        }
        impl<const D: #dim> #q<glam::DVec3, D> {
            pub fn new(x: #q<PF64, D>, y: #q<PF64, D>, z: #q<PF64, D>) -> Self { #q(glam::DVec3::new(x.0, y.0, z.0)) }
            pub fn new_x(x: #q<PF64, D>) -> Self { #q(glam::DVec3::new(x.0, 0.0, 0.0)) }
            pub fn new_y(y: #q<PF64, D>) -> Self { #q(glam::DVec3::new(0.0, y.0, 0.0)) }
            pub fn new_z(z: #q<PF64, D>) -> Self { #q(glam::DVec3::new(0.0, 0.0, z.0)) }
            pub fn min(self, o: Self) -> Self { #q(self.0.min(o.0)) }
            pub fn max(self, o: Self) -> Self { #q(self.0.max(o.0)) }
            pub fn zero() -> Self { #q(glam::DVec3::ZERO) }
            pub fn x(&self) -> #q<PF64, D> { #q(self.0.x) }
            pub fn y(&self) -> #q<PF64, D> { #q(self.0.y) }
            pub fn z(&self) -> #q<PF64, D> { #q(self.0.z) }
            pub fn set_x(&mut self, x: #q<PF64, D>) { self.0.x = x.0 }
            pub fn set_y(&mut self, x: #q<PF64, D>) { self.0.y = x.0 }
            pub fn set_z(&mut self, x: #q<PF64, D>) { self.0.z = x.0 }
            pub fn abs(self) -> Self { #q(self.0.abs()) }
            pub fn length(&self) -> #q<PF64, D> { #q(self.0.length()) }
            pub fn length_squared(&self) -> #q<PF64, { #dim::dimension_powi(D, 2) }> where #q<(), { #dim::dimension_powi(D, 2) }>: { #q(self.0.length_squared()) }
            pub fn distance(&self, o: &Self) -> #q<PF64, D> { #q(self.0.distance(o.0)) }
            pub fn distance_squared(&self, o: &Self) -> #q<PF64, { #dim::dimension_powi(D, 2) }> where #q<(), { #dim::dimension_powi(D, 2) }>: { #q(self.0.distance_squared(o.0)) }
            pub fn normalize(&self) -> #q<glam::DVec3, { #none }> { #q(self.0.normalize()) }
            pub fn dot<const D2: #dim>(self, o: #q<glam::DVec3, D2>) -> #q<PF64, { #dim::dimension_mul(D, D2) }> where #q<(), { #dim::dimension_mul(D, D2) }>: { #q(self.0.dot(o.0)) }
            pub fn cross<const D2: #dim>(self, o: #q<glam::DVec3, D2>) -> #q<glam::DVec3, { #dim::dimension_mul(D, D2) }> where #q<(), { #dim::dimension_mul(D, D2) }>: { #q(self.0.cross(o.0)) }
            pub fn in_units(self) -> glam::DVec3 { self.0 }
        }

        #(#unit_impls)*
        #(#consts)*

        impl<S, const D: #dim> serde::Serialize for #q<S, D> {
            fn serialize<Z: serde::Serializer>(&self, _z: Z) -> ::core::result::Result<Z::Ok, Z::Error> { unimplemented!() }
        }
        impl<'de, S, const D: #dim> serde::Deserialize<'de> for #q<S, D> {
            fn deserialize<Z: serde::Deserializer<'de>>(_z: Z) -> ::core::result::Result<Self, Z::Error> { unimplemented!() }
        }
        // diman transfers a quantity like its storage: all of its bytes
        unsafe impl<S: 'static, const D: #dim> mpi::traits::Equivalence for #q<S, D> {
            type Out = mpi::datatype::UserDatatype;
            fn equivalent_datatype() -> Self::Out { mpi::datatype::UserDatatype(mpi::datatype::TypeMap::dense(::core::mem::size_of::<S>())) }
        }
        unsafe impl<S: 'static, const D: #dim> hdf5::H5Type for #q<S, D> {}
    };
    out.into()
}
