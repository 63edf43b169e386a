//! Async functions in traits, boxed; the crate itself is not available offline.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_macro_input, parse_quote, Block, Item, Lifetime, ReturnType, Signature, TypeReference};

/// Names the lifetime of every reference.
struct Name;

impl VisitMut for Name {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime.get_or_insert_with(|| Lifetime::new("'f", proc_macro2::Span::call_site()));
        visit_mut::visit_type_reference_mut(self, t);
    }

    fn visit_receiver_mut(&mut self, r: &mut syn::Receiver) {
        if let Some((_, l)) = &mut r.reference {
            *l = Some(Lifetime::new("'f", proc_macro2::Span::call_site()));
        }
        visit_mut::visit_receiver_mut(self, r);
    }
}

fn boxed(sig: &mut Signature, body: Option<&mut Block>) {
    if sig.asyncness.take().is_none() {
        return;
    }
    for i in sig.inputs.iter_mut() {
        Name.visit_fn_arg_mut(i);
    }
    let out = match &sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => t.to_token_stream(),
    };
    sig.generics.params.insert(0, parse_quote!('f));
    sig.output = parse_quote!(-> ::std::pin::Pin<Box<dyn ::std::future::Future<Output = #out> + Send + 'f>>);
    if let Some(b) = body {
        *b = parse_quote!({ Box::pin(async move #b) });
    }
}

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(item as Item);
    match &mut item {
        Item::Trait(t) => {
            for i in &mut t.items {
                if let syn::TraitItem::Fn(f) = i {
                    boxed(&mut f.sig, f.default.as_mut());
                }
            }
        }
        Item::Impl(t) => {
            for i in &mut t.items {
                if let syn::ImplItem::Fn(f) = i {
                    boxed(&mut f.sig, Some(&mut f.block));
                }
            }
        }
        _ => {}
    }
    item.into_token_stream().into()
}
