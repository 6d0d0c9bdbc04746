//! `#[derive(Fail)]` with `#[fail(display = "...", args...)]` on an enum or a struct.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields};

fn display(attrs: &[Attribute]) -> Option<proc_macro2::TokenStream> {
    for a in attrs {
        if a.path().is_ident("fail") {
            let t: proc_macro2::TokenStream = a.parse_args().ok()?;
            let mut it = t.into_iter();
            let (k, _eq) = (it.next()?, it.next()?);
            if k.to_string() == "display" {
                return Some(it.collect());
            }
        }
    }
    None
}
fn names(f: &Fields) -> (proc_macro2::TokenStream, proc_macro2::TokenStream) {
    match f {
        Fields::Named(n) => {
            let v: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            (quote!({ #(#v,)* }), quote!(#(let _ = &#v;)*))
        }
        Fields::Unnamed(u) => {
            let v: Vec<_> = (0..u.unnamed.len()).map(|i| quote::format_ident!("_{}", i)).collect();
            (quote!(( #(#v,)* )), quote!(#(let _ = &#v;)*))
        }
        Fields::Unit => (quote!(), quote!()),
    }
}

#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let arms: Vec<_> = match &d.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let id = &v.ident;
                let (pat, touch) = names(&v.fields);
                let w = display(&v.attrs).map(|t| quote!(write!(f, #t))).unwrap_or(quote!(f.write_str(stringify!(#id))));
                quote!(#name::#id #pat => { #touch #w })
            })
            .collect(),
        Data::Struct(s) => {
            let (pat, touch) = names(&s.fields);
            let w = display(&d.attrs).map(|t| quote!(write!(f, #t))).unwrap_or(quote!(f.write_str(stringify!(#name))));
            vec![quote!(#name #pat => { #touch #w })]
        }
        Data::Union(_) => vec![],
    };
    quote! {
        impl #ig ::std::fmt::Display for #name #tg #wc {
            #[allow(unused_variables)]
            fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                match self { #(#arms)* }
            }
        }
        impl #ig ::failure::Fail for #name #tg #wc {}
    }
    .into()
}
