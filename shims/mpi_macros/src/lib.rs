//! `#[derive(Equivalence)]` of the MPI model: a structured datatype over all fields.
use quote::quote;
use syn::*;

#[proc_macro_derive(Equivalence)]
pub fn equivalence(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: DeriveInput = parse(input).unwrap();
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let Data::Struct(s) = &d.data else { panic!("Equivalence: struct expected") };
    let mut parts = vec![];
    for (i, f) in s.fields.iter().enumerate() {
        let ty = &f.ty;
        let m = match &f.ident {
            Some(n) => quote!(#n),
            None => {
                let i = Index::from(i);
                quote!(#i)
            }
        };
        parts.push(quote! {
            __t.add(::core::mem::offset_of!(Self, #m), &<#ty as ::mpi::traits::Equivalence>::equivalent_datatype().type_map());
        });
    }
    quote! {
        unsafe impl #ig ::mpi::traits::Equivalence for #name #tg #wc {
            type Out = ::mpi::datatype::UserDatatype;
            fn equivalent_datatype() -> Self::Out {
                #[allow(unused_imports)]
                use ::mpi::datatype::TypeMapped as _;
                #[allow(unused_mut)]
                let mut __t = ::mpi::datatype::TypeMap::empty();
                #(#parts)*
                ::mpi::datatype::UserDatatype(__t)
            }
        }
    }
    .into()
}
