use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn derive(input: TokenStream) -> TokenStream {
    let i = parse_macro_input!(input as DeriveInput);
    let name = &i.ident;
    let Data::Enum(e) = &i.data else { panic!("EnumString is for enums") };
    let arms = e.variants.iter().map(|v| {
        let id = &v.ident;
        let s = id.to_string();
        quote!(#s => ::core::result::Result::Ok(#name::#id))
    });
    quote!(
        impl ::core::str::FromStr for #name {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, ::strum::ParseError> {
                match s { #(#arms,)* _ => ::core::result::Result::Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl<'a> ::core::convert::TryFrom<&'a str> for #name {
            type Error = ::strum::ParseError;
            fn try_from(s: &'a str) -> ::core::result::Result<Self, ::strum::ParseError> {
                ::core::str::FromStr::from_str(s)
            }
        }
    ).into()
}
