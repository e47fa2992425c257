//! Stand-in for the `#[serde_as]` attribute of `serde_with`.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::visit_mut::VisitMut;
use syn::{parse_macro_input, parse_quote, Field, Item, Type};

struct Infer;
impl VisitMut for Infer {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Infer(_) = t {
            *t = parse_quote!(::serde_with::Same);
        } else {
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
}

fn field(f: &mut Field) {
    let mut out = vec![];
    for a in std::mem::take(&mut f.attrs) {
        if !a.path().is_ident("serde_as") {
            out.push(a);
            continue;
        }
        let mut ser = None;
        let mut de = None;
        a.parse_nested_meta(|m| {
            let s: syn::LitStr = m.value()?.parse()?;
            let mut t: Type = s.parse()?;
            Infer.visit_type_mut(&mut t);
            let t = t.to_token_stream().to_string();
            if m.path.is_ident("as") {
                ser = Some(t.clone());
                de = Some(t);
            } else if m.path.is_ident("serialize_as") {
                ser = Some(t);
            } else if m.path.is_ident("deserialize_as") {
                de = Some(t);
            }
            Ok(())
        })
        .expect("serde_as attribute");
        if let Some(t) = ser {
            let p = format!("::serde_with::As::<{t}>::serialize");
            out.push(parse_quote!(#[serde(serialize_with = #p)]));
        }
        if let Some(t) = de {
            let p = format!("::serde_with::As::<{t}>::deserialize");
            out.push(parse_quote!(#[serde(deserialize_with = #p)]));
        }
    }
    f.attrs = out;
}

#[proc_macro_attribute]
pub fn serde_as(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(input as Item);
    match &mut item {
        Item::Struct(s) => s.fields.iter_mut().for_each(field),
        Item::Enum(e) => e.variants.iter_mut().for_each(|v| v.fields.iter_mut().for_each(field)),
        _ => {}
    }
    quote!(#item).into()
}
