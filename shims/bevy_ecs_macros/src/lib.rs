use quote::quote;
use syn::*;

fn marker(input: proc_macro::TokenStream, path: &str) -> proc_macro::TokenStream {
    let d: DeriveInput = parse(input).unwrap();
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let p: Path = parse_str(path).unwrap();
    quote! { impl #ig #p for #name #tg #wc {} }.into()
}

#[proc_macro_derive(Component, attributes(component))]
pub fn component(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    marker(i, "::bevy_ecs::component::Component")
}
#[proc_macro_derive(Resource)]
pub fn resource(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    marker(i, "::bevy_ecs::system::Resource")
}
#[proc_macro_derive(Bundle, attributes(bundle))]
pub fn bundle(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: DeriveInput = parse(i).unwrap();
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let fields: Vec<_> = match &d.data {
        Data::Struct(s) => s.fields.iter().enumerate().map(|(i, f)| match &f.ident {
            Some(n) => quote! { self.#n },
            None => { let i = Index::from(i); quote! { self.#i } }
        }).collect(),
        _ => vec![],
    };
    quote! { impl #ig ::bevy_ecs::bundle::Bundle for #name #tg #wc {
        fn put(self, row: &mut ::bevy_ecs::store::Row) { #( ::bevy_ecs::bundle::Bundle::put(#fields, row); )* }
    } }.into()
}
#[proc_macro_derive(StageLabel)]
pub fn stage_label(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    marker(i, "::bevy_ecs::schedule::StageLabel")
}
#[proc_macro_derive(SystemLabel)]
pub fn system_label(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    marker(i, "::bevy_ecs::schedule::SystemLabel")
}
