//! Stand-in for #[wasm_bindgen]: exports stay as they are, imports go to values and functions
//! that the stand-in library keeps.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;

/// The options in `#[wasm_bindgen(...)]`: names, and names with values.
#[derive(Default)]
struct Opts {
    flags: Vec<String>,
    js_name: Option<String>,
    module: Option<String>,
}
fn opts(ts: proc_macro2::TokenStream) -> Opts {
    let mut o = Opts::default();
    let toks: Vec<_> = ts.into_iter().collect();
    for item in toks.split(|t| t.to_string() == ",") {
        let Some(n) = item.first() else { continue };
        let n = n.to_string();
        if n == "js_name" {
            o.js_name = item.get(2).map(|v| v.to_string().trim_matches('"').to_string());
        }
        if n == "module" {
            o.module = item.get(2).map(|v| v.to_string().trim_matches('"').to_string());
        }
        o.flags.push(n);
    }
    o
}
fn attr_opts(attrs: &[Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("wasm_bindgen")) {
        if let Meta::List(l) = &a.meta {
            let n = opts(l.tokens.clone());
            o.flags.extend(n.flags);
            o.js_name = n.js_name.or(o.js_name);
        }
    }
    o
}

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    match parse::<Item>(item.clone()) {
        Ok(Item::ForeignMod(m)) => imports(opts(attr.into()).module.unwrap_or_default(), m).into(),
        Ok(Item::Fn(f)) => export(opts(attr.into()), f).into(),
        Ok(Item::Struct(s)) => {
            let n = &s.ident;
            quote!(#s impl From<#n> for ::wasm_bindgen::JsValue { fn from(v: #n) -> Self { ::wasm_bindgen::JsValue::native(v) } } impl ::wasm_bindgen::IntoJs for #n { fn into_js(self) -> ::wasm_bindgen::JsValue { self.into() } }).into()
        }
        _ => item,
    }
}

fn imports(module: String, m: ItemForeignMod) -> proc_macro2::TokenStream {
    let mut out = proc_macro2::TokenStream::new();
    for i in m.items {
        match i {
            ForeignItem::Type(t) => {
                let (v, n) = (&t.vis, &t.ident);
                out.extend(quote! {
                    #[derive(Clone, Debug)]
                    #v struct #n { obj: ::wasm_bindgen::JsValue }
                    impl From<::wasm_bindgen::JsValue> for #n { fn from(obj: ::wasm_bindgen::JsValue) -> Self { Self { obj } } }
                    impl From<#n> for ::wasm_bindgen::JsValue { fn from(v: #n) -> Self { v.obj } }
                    impl AsRef<::wasm_bindgen::JsValue> for #n { fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.obj } }
                    impl ::wasm_bindgen::FromJs for #n { fn from_js(obj: ::wasm_bindgen::JsValue) -> Self { Self { obj } } }
                });
            }
            ForeignItem::Fn(f) => {
                let o = attr_opts(&f.attrs);
                let (v, name) = (&f.vis, &f.sig.ident);
                let js = o.js_name.clone().unwrap_or_else(|| name.to_string().trim_start_matches("r#").to_string());
                let args: Vec<_> = f.sig.inputs.iter().map(|a| match a {
                    FnArg::Typed(t) => t.clone(),
                    _ => panic!("self"),
                }).collect();
                let names: Vec<_> = (0..args.len()).map(|i| format_ident!("arg{}", i)).collect();
                let has = |s: &str| o.flags.iter().any(|f| f == s);
                let ret = match &f.sig.output {
                    ReturnType::Default => quote!(()),
                    ReturnType::Type(_, t) => quote!(#t),
                };
                let asy = f.sig.asyncness;
                if has("method") {
                    let this = match &*args[0].ty {
                        Type::Reference(r) => &r.elem,
                        t => panic!("{}", quote!(#t)),
                    };
                    let tys: Vec<_> = args[1..].iter().map(|a| &a.ty).collect();
                    let names = &names[1..];
                    let call = if has("getter") {
                        quote!(::wasm_bindgen::get(&self.obj, #js))
                    } else {
                        quote!(::wasm_bindgen::call(&self.obj, #js, vec![#(::wasm_bindgen::IntoJs::into_js(#names)),*]))
                    };
                    out.extend(quote!(impl #this { #v fn #name(&self, #(#names: #tys),*) -> #ret { ::wasm_bindgen::FromJs::from_js(#call) } }));
                } else {
                    let tys: Vec<_> = args.iter().map(|a| &a.ty).collect();
                    let call = quote!(::wasm_bindgen::import(#module, #js, vec![#(::wasm_bindgen::IntoJs::into_js(#names)),*]));
                    let call = if asy.is_some() { quote!({ let f = #call; ::wasm_bindgen::give_way().await; f }) } else { call };
                    let body = if has("catch") {
                        quote!(#call.map(::wasm_bindgen::FromJs::from_js))
                    } else {
                        quote!(::wasm_bindgen::FromJs::from_js(#call.unwrap_or_else(|e| panic!("{} threw {:?}", #js, e))))
                    };
                    out.extend(quote!(#v #asy fn #name(#(#names: #tys),*) -> #ret { #body }));
                }
            }
            _ => {}
        }
    }
    out
}

/// The function as it is, and an entry in the table of what JavaScript sees.
fn export(o: Opts, f: ItemFn) -> proc_macro2::TokenStream {
    let name = &f.sig.ident;
    let js = o.js_name.unwrap_or_else(|| name.to_string());
    let key = format!("{}::{js}", std::env::var("CARGO_PKG_NAME").unwrap());
    let (n, tys): (Vec<_>, Vec<_>) = f.sig.inputs.iter().enumerate().map(|(i, a)| match a {
        FnArg::Typed(t) => (i, &t.ty),
        _ => panic!("self"),
    }).unzip();
    let wait = f.sig.asyncness.map(|_| quote!(.await));
    quote! {
        #f
        const _: () = {
            fn call(args: Vec<::wasm_bindgen::JsValue>) -> ::wasm_bindgen::Promise {
                Box::pin(async move { ::wasm_bindgen::Ret::ret(#name(#(<#tys as ::wasm_bindgen::FromJs>::from_js(args.get(#n).cloned().unwrap_or_default())),*) #wait) })
            }
            extern "C" fn enter() { ::wasm_bindgen::enter(#key, call) }
            #[used]
            #[link_section = ".init_array"]
            static ENTER: extern "C" fn() = enter;
        };
    }
}
