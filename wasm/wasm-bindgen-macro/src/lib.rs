//! Stand-in for the attribute of wasm-bindgen: keeps the items, for calling them natively
use proc_macro::TokenStream;
use quote::quote;
use syn::{Fields, ImplItem, Item};

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, input: TokenStream) -> TokenStream {
    let own = |a: &syn::Attribute| a.path().segments.last().map_or(false, |s| s.ident == "wasm_bindgen");
    match syn::parse_macro_input!(input as Item) {
        Item::Struct(mut s) => {
            for f in s.fields.iter_mut() {
                f.attrs.retain(|a| !own(a));
            }
            s.attrs.retain(|a| !own(a));
            let n = &s.ident;
            let name = n.to_string();
            quote! {
                #s
                impl ::std::convert::From<#n> for ::wasm_bindgen::JsValue {
                    fn from(x: #n) -> Self {
                        ::wasm_bindgen::JsValue::of_class(#name, ::std::boxed::Box::new(x))
                    }
                }
                impl ::wasm_bindgen::convert::FromWasmAbi for #n {
                    type Abi = u32;
                    unsafe fn from_abi(abi: u32) -> Self {
                        ::wasm_bindgen::take_class(abi)
                    }
                }
            }
        }
        Item::Enum(mut e) => {
            let strings = e.variants.iter().any(|v| matches!(&v.discriminant, Some((_, syn::Expr::Lit(l))) if matches!(l.lit, syn::Lit::Str(_))));
            if strings {
                for v in e.variants.iter_mut() {
                    v.discriminant = None;
                }
                e.variants.push(syn::Variant { attrs: vec![], ident: quote::format_ident!("__Invalid"), fields: Fields::Unit, discriminant: None });
            }
            quote! { #[derive(Clone, Copy, Debug, PartialEq, Eq)] #e }
        }
        Item::Impl(mut i) => {
            i.attrs.retain(|a| !own(a));
            for x in i.items.iter_mut() {
                if let ImplItem::Fn(f) = x {
                    f.attrs.retain(|a| !own(a));
                    for p in f.sig.inputs.iter_mut() {
                        if let syn::FnArg::Typed(t) = p {
                            t.attrs.retain(|a| !own(a));
                        }
                    }
                }
            }
            quote! { #i }
        }
        x => quote! { #x },
    }
    .into()
}
