//! vptool items FILE...: the items of Rust files, with their places, as JSON.
use quote::ToTokens;
use serde_json::json;
use serde_json::Value;
use syn::spanned::Spanned;
use syn::*;

fn norm(t: proc_macro2::TokenStream) -> String {
    t.to_string().split_whitespace().collect::<Vec<_>>().join(" ")
}

fn place<T: Spanned>(t: &T, attrs: &[Attribute]) -> Value {
    let s = t.span();
    let (mut a, b) = (s.start(), s.end());
    for at in attrs {
        let p = at.span().start();
        if (p.line, p.column) < (a.line, a.column) {
            a = p;
        }
    }
    json!([a.line, a.column, b.line, b.column])
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(a.meta.to_token_stream());
        s == "cfg (test)" || s == "test"
    })
}

fn attrs_of(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Union(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn item(i: &Item) -> Value {
    let attrs = attrs_of(i);
    let (kind, name): (&str, String) = match i {
        Item::Const(x) => ("const", x.ident.to_string()),
        Item::Enum(x) => ("enum", x.ident.to_string()),
        Item::Fn(x) => ("fn", x.sig.ident.to_string()),
        Item::Impl(x) => {
            let tr = x.trait_.as_ref().map(|t| norm(t.1.to_token_stream()) + " for ").unwrap_or_default();
            ("impl", format!("{}{}", tr, norm(x.self_ty.to_token_stream())))
        }
        Item::Macro(x) => (
            "macro",
            match &x.ident {
                Some(n) => n.to_string(),
                None => norm(x.mac.to_token_stream()).chars().take(80).collect(),
            },
        ),
        Item::Mod(x) => ("mod", x.ident.to_string()),
        Item::Static(x) => ("static", x.ident.to_string()),
        Item::Struct(x) => ("struct", x.ident.to_string()),
        Item::Trait(x) => ("trait", x.ident.to_string()),
        Item::Type(x) => ("type", x.ident.to_string()),
        Item::Use(x) => ("use", norm(x.tree.to_token_stream()).replace(' ', "")),
        o => ("other", norm(o.to_token_stream()).chars().take(60).collect()),
    };
    let mut children = vec![];
    let mut whole = false;
    match i {
        Item::Mod(m) => {
            if let Some((_, c)) = &m.content {
                children = c.iter().map(item).collect();
            }
        }
        Item::Impl(x) => {
            whole = x.trait_.is_some();
            for c in &x.items {
                let (n, a) = match c {
                    ImplItem::Fn(f) => (f.sig.ident.to_string(), &f.attrs[..]),
                    ImplItem::Const(f) => (f.ident.to_string(), &f.attrs[..]),
                    ImplItem::Type(f) => (f.ident.to_string(), &f.attrs[..]),
                    _ => (String::new(), &[][..]),
                };
                children.push(json!({"kind": "method", "name": n, "at": place(c, a), "test": is_test(a), "whole": false, "children": []}));
            }
        }
        _ => {}
    }
    json!({"kind": kind, "name": name, "at": place(i, attrs), "test": is_test(attrs), "whole": whole,
           "children": children})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut out = serde_json::Map::new();
    for f in &a[1..] {
        let s = std::fs::read_to_string(f).unwrap();
        match parse_file(&s) {
            Ok(p) => {
                out.insert(f.clone(), Value::Array(p.items.iter().map(item).collect()));
            }
            Err(e) => {
                eprintln!("{f}: {e}");
                std::process::exit(1);
            }
        }
    }
    println!("{}", Value::Object(out));
}
