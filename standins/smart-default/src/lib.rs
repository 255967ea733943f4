//! Stand-in for smart-default 0.6: `#[derive(SmartDefault)]` with `#[default]` on enum variants and
//! `#[default]` / `#[default(expr)]` on fields.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields};

fn default_attr(attrs: &[Attribute]) -> Option<Option<Expr>> {
    attrs.iter().find(|a| a.path.is_ident("default")).map(|a| {
        if a.tokens.is_empty() {
            None
        } else {
            Some(a.parse_args::<Expr>().expect("#[default(...)]: unsupported form"))
        }
    })
}
fn body(fields: &Fields) -> proc_macro2::TokenStream {
    let val = |attrs: &[Attribute]| match default_attr(attrs) {
        Some(Some(e)) => quote!(#e),
        _ => quote!(::core::default::Default::default()),
    };
    match fields {
        Fields::Unit => quote!(),
        Fields::Unnamed(u) => {
            let v = u.unnamed.iter().map(|f| val(&f.attrs));
            quote!((#(#v),*))
        }
        Fields::Named(n) => {
            let v = n.named.iter().map(|f| {
                let (i, v) = (&f.ident, val(&f.attrs));
                quote!(#i: #v)
            });
            quote!({#(#v),*})
        }
    }
}
#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn derive(input: TokenStream) -> TokenStream {
    let i = parse_macro_input!(input as DeriveInput);
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let b = match &i.data {
        Data::Struct(s) => {
            let b = body(&s.fields);
            quote!(#name #b)
        }
        Data::Enum(e) => {
            let v = e.variants.iter().find(|v| default_attr(&v.attrs).is_some()).expect("no #[default] variant");
            let (vi, b) = (&v.ident, body(&v.fields));
            quote!(#name::#vi #b)
        }
        _ => panic!("unions are not supported"),
    };
    quote!(impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #b } }).into()
}
