//! Stand-in for `ssz_rs_derive`: containers as structs with named fields, `#[ssz(transparent)]` enums of containers.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn wrap(input: &DeriveInput, tr: Ts, body: Ts) -> Ts {
    let name = &input.ident;
    let (a, b, c) = input.generics.split_for_impl();
    quote!(impl #a #tr for #name #b #c { #body })
}

enum Shape {
    Container(Vec<syn::Ident>, Vec<syn::Type>),
    Transparent(Vec<syn::Ident>, Vec<syn::Type>),
}
fn shape(input: &DeriveInput) -> Shape {
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => Shape::Container(
                f.named.iter().map(|f| f.ident.clone().unwrap()).collect(),
                f.named.iter().map(|f| f.ty.clone()).collect(),
            ),
            _ => panic!("only named fields"),
        },
        Data::Enum(e) => Shape::Transparent(
            e.variants.iter().map(|v| v.ident.clone()).collect(),
            e.variants.iter().map(|v| v.fields.iter().next().expect("one field").ty.clone()).collect(),
        ),
        _ => panic!("unions are not supported"),
    }
}

fn serializable(input: &DeriveInput) -> Ts {
    let out = match shape(input) {
        Shape::Container(f, t) => [
            wrap(input, quote!(::ssz_rs::SszSized), quote! {
                fn is_variable_size() -> bool { false #(|| <#t as ::ssz_rs::SszSized>::is_variable_size())* }
                fn size_hint() -> usize { 0 #(+ if <#t as ::ssz_rs::SszSized>::is_variable_size() { 4 } else { <#t as ::ssz_rs::SszSized>::size_hint() })* }
            }),
            wrap(input, quote!(::ssz_rs::Serialize), quote! {
                fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, ::ssz_rs::SerializeError> {
                    let mut w = ::ssz_rs::__internal::Writer::default();
                    #(w.part(&self.#f)?;)*
                    Ok(w.finish(buffer))
                }
            }),
            wrap(input, quote!(::ssz_rs::Deserialize), quote! {
                fn deserialize(encoding: &[u8]) -> Result<Self, ::ssz_rs::DeserializeError> {
                    let parts = ::ssz_rs::__internal::split(encoding, &[#((<#t as ::ssz_rs::SszSized>::is_variable_size(), <#t as ::ssz_rs::SszSized>::size_hint())),*])?;
                    let mut parts = parts.into_iter();
                    Ok(Self { #(#f: <#t as ::ssz_rs::Deserialize>::deserialize(parts.next().unwrap())?),* })
                }
            }),
            wrap(input, quote!(::ssz_rs::Serializable), quote!()),
        ],
        Shape::Transparent(v, t) => [
            wrap(input, quote!(::ssz_rs::SszSized), quote! {
                fn is_variable_size() -> bool { true }
                fn size_hint() -> usize { 0 }
            }),
            wrap(input, quote!(::ssz_rs::Serialize), quote! {
                fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, ::ssz_rs::SerializeError> {
                    match self { #(Self::#v(inner) => ::ssz_rs::Serialize::serialize(inner, buffer)),* }
                }
            }),
            wrap(input, quote!(::ssz_rs::Deserialize), quote! {
                fn deserialize(encoding: &[u8]) -> Result<Self, ::ssz_rs::DeserializeError> {
                    #(if let Ok(inner) = <#t as ::ssz_rs::Deserialize>::deserialize(encoding) { return Ok(Self::#v(inner)); })*
                    Err(::ssz_rs::DeserializeError::NoMatchingVariant)
                }
            }),
            wrap(input, quote!(::ssz_rs::Serializable), quote!()),
        ],
    };
    quote!(#(#out)*)
}

fn hash_tree_root(input: &DeriveInput) -> Ts {
    match shape(input) {
        Shape::Container(f, _) => wrap(input, quote!(::ssz_rs::HashTreeRoot), quote! {
            fn tree(&self) -> ::ssz_rs::proofs::Tree { ::ssz_rs::proofs::Tree::container(vec![#(::ssz_rs::HashTreeRoot::tree(&self.#f)),*]) }
        }),
        Shape::Transparent(v, _) => wrap(input, quote!(::ssz_rs::HashTreeRoot), quote! {
            fn tree(&self) -> ::ssz_rs::proofs::Tree { match self { #(Self::#v(inner) => ::ssz_rs::HashTreeRoot::tree(inner)),* } }
        }),
    }
}

fn generalized_indexable(input: &DeriveInput) -> Ts {
    match shape(input) {
        Shape::Container(f, t) => {
            let n = f.len();
            let names = f.iter().map(|f| f.to_string());
            let i = 0..n;
            wrap(input, quote!(::ssz_rs::GeneralizedIndexable), quote! {
                fn chunk_count() -> usize { #n }
                fn compute_generalized_index(parent: ::ssz_rs::GeneralizedIndex, path: ::ssz_rs::Path) -> Result<::ssz_rs::GeneralizedIndex, ::ssz_rs::MerkleizationError> {
                    match path.split_first() {
                        None => Ok(parent),
                        Some((::ssz_rs::PathElement::Field(name), rest)) => match name.as_str() {
                            #(#names => <#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent * (#n).next_power_of_two() + #i, rest),)*
                            _ => Err(::ssz_rs::MerkleizationError::InvalidPathElement(path[0].clone())),
                        },
                        Some((e, _)) => Err(::ssz_rs::MerkleizationError::InvalidPathElement(e.clone())),
                    }
                }
            })
        }
        Shape::Transparent(..) => wrap(input, quote!(::ssz_rs::GeneralizedIndexable), quote! {
            fn chunk_count() -> usize { 1 }
        }),
    }
}

fn prove(input: &DeriveInput) -> Ts {
    wrap(input, quote!(::ssz_rs::Prove), quote!())
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn derive_serializable(i: TokenStream) -> TokenStream {
    serializable(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn derive_hash_tree_root(i: TokenStream) -> TokenStream {
    hash_tree_root(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn derive_generalized_indexable(i: TokenStream) -> TokenStream {
    generalized_indexable(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn derive_prove(i: TokenStream) -> TokenStream {
    prove(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn derive_simple_serialize(i: TokenStream) -> TokenStream {
    let i = parse_macro_input!(i as DeriveInput);
    let parts = [serializable(&i), hash_tree_root(&i), generalized_indexable(&i), prove(&i), wrap(&i, quote!(::ssz_rs::SimpleSerialize), quote!())];
    quote!(#(#parts)*).into()
}
