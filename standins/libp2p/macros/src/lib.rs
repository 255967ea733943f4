//! Stand-in for #[derive(NetworkBehaviour)] with event_process = true.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(NetworkBehaviour, attributes(behaviour))]
pub fn derive(input: TokenStream) -> TokenStream {
    let s: syn::ItemStruct = syn::parse(input).unwrap();
    let n = &s.ident;
    let (f, t): (Vec<_>, Vec<_>) = s.fields.iter().map(|f| (f.ident.clone().unwrap(), f.ty.clone())).unzip();
    quote! {
        impl ::libp2p::swarm::NetworkBehaviour for #n {
            fn poll_behaviour(&mut self, cx: &mut ::std::task::Context<'_>) {
                #(while let ::std::task::Poll::Ready(e) = <#t as ::libp2p::swarm::Part>::poll_part(&mut self.#f, cx) {
                    ::libp2p::swarm::NetworkBehaviourEventProcess::inject_event(self, e)
                })*
            }
        }
    }
    .into()
}
