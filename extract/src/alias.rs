//! Functions and fields that have been given other names.
//!
//! `shape.json`, next to the contracts, lists the functions under contract with the types of their
//! parameters and results, and the fields of structures.  When one of them is gone, and there is exactly
//! one new one of the same type in the same place, it is called by its former name throughout.  This
//! is a renaming of all its occurrences: it is done only if no other function or structure has the new name.
use std::collections::BTreeMap;

use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use serde_json::{json, Value};
use syn::visit_mut::VisitMut;

use crate::{impl_key, join, strip_lifetimes, Context};

#[derive(Default)]
struct Shape {
    /// The place, the name and the form of each structure, enumeration and constant.
    items: Vec<(String, String, String)>,
    /// The place, the name and the type of each function.
    functions: Vec<(String, String, String)>,
    /// The name of each structure, and its fields with their types.
    structures: Vec<(String, Vec<(String, String)>)>,
}

fn text(tokens: &impl ToTokens) -> String {
    strip_lifetimes(&tokens.to_token_stream().to_string().replace(' ', ""))
}

fn signature(sig: &syn::Signature) -> String {
    let inputs: Vec<String> = (sig.inputs.iter())
        .map(|input| match input {
            syn::FnArg::Receiver(r) => text(&r.ty),
            syn::FnArg::Typed(t) => text(&t.ty),
        })
        .collect();
    format!("({}){}", inputs.join(","), text(&sig.output))
}

/// The text of something that may refer to itself.
fn anonymous(tokens: &impl ToTokens, name: &syn::Ident) -> String {
    text(&replaced(tokens.to_token_stream(), &|ident| (ident == name).then(|| format_ident!("Self"))))
}

fn replaced(tokens: TokenStream, rename: &dyn Fn(&syn::Ident) -> Option<syn::Ident>) -> TokenStream {
    (tokens.into_iter())
        .map(|token| match token {
            TokenTree::Group(group) => {
                TokenTree::Group(Group::new(group.delimiter(), replaced(group.stream(), rename)))
            }
            TokenTree::Ident(ident) => TokenTree::Ident(rename(&ident).unwrap_or(ident)),
            token => token,
        })
        .collect()
}

fn collect(module: &str, items: &[syn::Item], shape: &mut Shape) {
    for item in items {
        match item {
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    collect(&join(module, &m.ident.to_string()), items, shape);
                }
            }
            syn::Item::Fn(f) => {
                shape.functions.push((module.to_string(), f.sig.ident.to_string(), signature(&f.sig)));
            }
            syn::Item::Impl(i) => {
                for item in &i.items {
                    if let syn::ImplItem::Fn(f) = item {
                        shape.functions.push((impl_key(module, i), f.sig.ident.to_string(), signature(&f.sig)));
                    }
                }
            }
            syn::Item::Const(c) => {
                shape.items.push((module.to_string(), c.ident.to_string(), format!("const {}", text(&c.ty))));
            }
            syn::Item::Enum(e) => {
                let form = anonymous(&e.variants, &e.ident);
                shape.items.push((module.to_string(), e.ident.to_string(), format!("enum {form}")));
            }
            syn::Item::Struct(s) => {
                let form = anonymous(&s.fields, &s.ident);
                shape.items.push((module.to_string(), s.ident.to_string(), format!("struct {form}")));
                let fields: Vec<_> = (s.fields.iter())
                    .filter_map(|f| Some((f.ident.as_ref()?.to_string(), text(&f.ty))))
                    .collect();
                if !fields.is_empty() {
                    shape.structures.push((join(module, &s.ident.to_string()), fields));
                }
            }
            _ => {}
        }
    }
}

struct Renamer {
    functions: BTreeMap<String, String>,
    fields: BTreeMap<String, String>,
}

impl Renamer {
    fn function(&self, ident: &mut syn::Ident) {
        if let Some(name) = self.functions.get(&ident.to_string()) {
            *ident = format_ident!("{}", name);
        }
    }

    fn member(&self, member: &mut syn::Member) -> bool {
        if let syn::Member::Named(ident) = member {
            if let Some(name) = self.fields.get(&ident.to_string()) {
                *ident = format_ident!("{}", name);
                return true;
            }
        }
        false
    }
}

impl VisitMut for Renamer {
    fn visit_signature_mut(&mut self, sig: &mut syn::Signature) {
        self.function(&mut sig.ident);
        syn::visit_mut::visit_signature_mut(self, sig);
    }

    fn visit_expr_method_call_mut(&mut self, call: &mut syn::ExprMethodCall) {
        self.function(&mut call.method);
        syn::visit_mut::visit_expr_method_call_mut(self, call);
    }

    fn visit_expr_path_mut(&mut self, path: &mut syn::ExprPath) {
        if path.path.segments.len() > 1 {
            self.function(&mut path.path.segments.last_mut().unwrap().ident);
        }
        syn::visit_mut::visit_expr_path_mut(self, path);
    }

    fn visit_expr_call_mut(&mut self, call: &mut syn::ExprCall) {
        if let syn::Expr::Path(path) = &mut *call.func {
            if path.path.segments.len() == 1 {
                self.function(&mut path.path.segments[0].ident);
            }
        }
        syn::visit_mut::visit_expr_call_mut(self, call);
    }

    fn visit_use_name_mut(&mut self, name: &mut syn::UseName) {
        self.function(&mut name.ident);
    }

    fn visit_field_mut(&mut self, field: &mut syn::Field) {
        if let Some(ident) = &mut field.ident {
            if let Some(name) = self.fields.get(&ident.to_string()) {
                *ident = format_ident!("{}", name);
            }
        }
        syn::visit_mut::visit_field_mut(self, field);
    }

    fn visit_expr_field_mut(&mut self, field: &mut syn::ExprField) {
        self.member(&mut field.member);
        syn::visit_mut::visit_expr_field_mut(self, field);
    }

    fn visit_field_value_mut(&mut self, field: &mut syn::FieldValue) {
        if self.member(&mut field.member) {
            field.colon_token = Some(Default::default());
        }
        syn::visit_mut::visit_field_value_mut(self, field);
    }

    fn visit_field_pat_mut(&mut self, field: &mut syn::FieldPat) {
        if self.member(&mut field.member) {
            field.colon_token = Some(Default::default());
        }
        syn::visit_mut::visit_field_pat_mut(self, field);
    }
}

pub fn run(context: &mut Context, directory: &str, items: &mut [syn::Item]) {
    let mut shape = Shape::default();
    collect("", items, &mut shape);
    if let Ok(path) = std::env::var("EXTRACT_SHAPE") {
        let functions: Vec<Value> = (shape.functions.iter())
            .filter(|(place, name, _)| context.contracts.functions.contains_key(&join(place, name)))
            .map(|(place, name, ty)| json!([place, name, ty]))
            .collect();
        let structures: BTreeMap<_, _> = shape.structures.iter().cloned().collect();
        let value = json!({"items": shape.items, "functions": functions, "structures": structures});
        std::fs::write(path, serde_json::to_string_pretty(&value).unwrap() + "\n").expect("write");
    }
    let Ok(before) = std::fs::read_to_string(format!("{directory}/shape.json")) else { return };
    let before: Value = serde_json::from_str(&before).expect("the shape");
    let known: Vec<(String, String, String)> =
        serde_json::from_value(before["items"].clone()).expect("the items");
    let mut renames: BTreeMap<String, String> = Default::default();
    for (place, name, form) in &known {
        if shape.items.iter().any(|i| i.0 == *place && i.1 == *name) {
            continue;
        }
        let candidates: Vec<&String> = (shape.items.iter())
            .filter(|i| i.0 == *place && i.2 == *form && !known.iter().any(|k| k.0 == i.0 && k.1 == i.1))
            .map(|i| &i.1)
            .collect();
        let [other] = candidates[..] else { continue };
        if shape.items.iter().filter(|i| i.1 == *other).count() == 1 {
            renames.insert(other.clone(), name.clone());
        }
    }
    if !renames.is_empty() {
        for item in items.iter_mut() {
            let tokens = replaced(item.to_token_stream(), &|ident| {
                renames.get(&ident.to_string()).map(|name| format_ident!("{}", name))
            });
            *item = syn::parse2(tokens).expect("an item");
        }
        shape = Shape::default();
        collect("", items, &mut shape);
        for _ in 0..renames.len() {
            context.report.rule("structure or constant called by its former name");
        }
    }
    let mut renamer = Renamer { functions: Default::default(), fields: Default::default() };
    let known: Vec<(String, String, String)> =
        serde_json::from_value(before["functions"].clone()).expect("the functions");
    let present = |place: &str, name: &str| shape.functions.iter().any(|f| f.0 == place && f.1 == name);
    for (place, name, ty) in &known {
        if present(place, name) || place.contains(" as ") {
            continue;
        }
        let candidates: Vec<&String> = (shape.functions.iter())
            .filter(|f| f.0 == *place && f.2 == *ty && !known.iter().any(|k| k.0 == f.0 && k.1 == f.1))
            .map(|f| &f.1)
            .collect();
        let [other] = candidates[..] else { continue };
        let free = shape.functions.iter().filter(|f| f.1 == *other).count() == 1
            && !known.iter().any(|k| k.1 == *other);
        if free {
            renamer.functions.insert(other.clone(), name.clone());
        }
    }
    let structures: BTreeMap<String, Vec<(String, String)>> =
        serde_json::from_value(before["structures"].clone()).expect("the structures");
    for (name, fields) in &shape.structures {
        let Some(former) = structures.get(name) else { continue };
        for (old, ty) in former {
            let missing: Vec<&String> = (former.iter())
                .filter(|k| k.1 == *ty && !fields.iter().any(|f| f.0 == k.0))
                .map(|k| &k.0)
                .collect();
            let fresh: Vec<&String> = (fields.iter())
                .filter(|f| f.1 == *ty && !former.iter().any(|k| k.0 == f.0))
                .map(|f| &f.0)
                .collect();
            // In their order, if there are several.
            let Some(at) = missing.iter().position(|name| *name == old) else { continue };
            if missing.len() != fresh.len() {
                continue;
            }
            let other = fresh[at];
            let uses = shape.structures.iter().flat_map(|s| &s.1).filter(|f| f.0 == *other).count();
            if uses == 1 && !renamer.fields.values().any(|o| o == old) {
                renamer.fields.insert(other.clone(), old.clone());
            }
        }
    }
    if renamer.functions.is_empty() && renamer.fields.is_empty() {
        return;
    }
    for item in items {
        renamer.visit_item_mut(item);
    }
    for _ in 0..renamer.functions.len() + renamer.fields.len() {
        context.report.rule("function or field called by its former name");
    }
}
