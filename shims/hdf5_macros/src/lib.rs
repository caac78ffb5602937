use quote::quote;
use syn::*;
#[proc_macro_derive(H5Type)]
pub fn h5(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: DeriveInput = parse(i).unwrap();
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    quote! { unsafe impl #ig ::hdf5::H5Type for #name #tg #wc {} }.into()
}
