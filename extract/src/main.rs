//! Mechanical extraction of the Rust crate under verification into a Verus crate.
//!
//! usage: extract EXPANDED.rs PRELUDE_DIR CONTRACTS_DIR OUT.rs REPORT.json
//!
//! EXPANDED.rs is the output of `rustc -Zunpretty=expanded` for the crate, that is, the text the
//! compiler compiles after macro expansion.  Every function body is carried over with the rewrite
//! rules of `rewrite.rs` applied and with the contracts of CONTRACTS_DIR attached.
mod alias;
mod contracts;
mod emit;
mod inline;
mod names;
mod normal;
mod rewrite;

use std::collections::{BTreeMap, BTreeSet};

use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::VisitMut;

pub struct Context {
    pub contracts: contracts::Contracts,
    pub texts: emit::Texts,
    pub report: Report,
    pub derefs: BTreeMap<String, Deref>,
    /// The local variables when the contracts were written, and now.
    pub names: BTreeMap<String, names::Locals>,
    pub locals: BTreeMap<String, names::Locals>,
}

#[derive(Clone, Debug)]
pub struct Deref {
    pub field: syn::Member,
    pub target: String,
}

#[derive(Default)]
pub struct Report {
    pub dropped: Vec<String>,
    pub rules: BTreeMap<String, usize>,
    pub under_contract: Vec<String>,
    pub inlined: Vec<String>,
    pub without_contract: Vec<String>,
    pub unused_contracts: Vec<String>,
    pub structural: Vec<String>,
    pub loops: usize,
    pub split_sites: BTreeMap<String, BTreeSet<(String, String)>>,
}

impl Report {
    pub fn rule(&mut self, name: &str) {
        *self.rules.entry(name.to_string()).or_insert(0) += 1;
    }
}

pub fn path_string(path: &syn::Path) -> String {
    path.to_token_stream().to_string().replace(' ', "")
}

pub fn strip_lifetimes(text: &str) -> String {
    let mut out = String::new();
    let mut chars = text.chars().peekable();
    while let Some(c) = chars.next() {
        if c == '\'' {
            while matches!(chars.peek(), Some(c) if c.is_alphanumeric() || *c == '_') {
                chars.next();
            }
        } else {
            out.push(c);
        }
    }
    out.replace("<>", "").replace("<,", "<")
}

pub fn type_name(ty: &syn::Type) -> String {
    strip_lifetimes(&ty.to_token_stream().to_string().replace(' ', ""))
}

pub fn impl_key(module: &str, item: &syn::ItemImpl) -> String {
    let this = type_name(&item.self_ty);
    match &item.trait_ {
        Some((_, path, _)) => {
            let text = strip_lifetimes(&path_string(path));
            let parts: Vec<&str> = text.split("::").filter(|p| !p.is_empty()).collect();
            let name = if parts.len() >= 2 && !parts.last().unwrap().contains('<') {
                format!("{}::{}", parts[parts.len() - 2], parts[parts.len() - 1])
            } else {
                parts.last().unwrap().to_string()
            };
            format!("{module}::<{this} as {name}>")
        }
        None => format!("{module}::{this}"),
    }
}

fn is_derived(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

fn join(module: &str, name: &str) -> String {
    if module.is_empty() {
        name.to_string()
    } else {
        format!("{module}::{name}")
    }
}

/// Collect the derives and the dereferences of a module tree.
fn survey(
    module: &str,
    items: &[syn::Item],
    derives: &mut BTreeMap<String, BTreeSet<String>>,
    derefs: &mut BTreeMap<String, Deref>,
) {
    for item in items {
        match item {
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    survey(&join(module, &m.ident.to_string()), items, derives, derefs);
                }
            }
            syn::Item::Impl(i) => {
                let this = type_name(&i.self_ty);
                if let Some((_, path, _)) = &i.trait_ {
                    let name = path.segments.last().unwrap().ident.to_string();
                    if is_derived(&i.attrs) {
                        derives.entry(join(module, &this)).or_default().insert(name);
                    } else if name == "Deref" {
                        let mut target = String::new();
                        let mut field = None;
                        for item in &i.items {
                            match item {
                                syn::ImplItem::Type(t) => target = type_name(&t.ty),
                                syn::ImplItem::Fn(f) => {
                                    if let [syn::Stmt::Expr(syn::Expr::Reference(r), None)] =
                                        &f.block.stmts[..]
                                    {
                                        if let syn::Expr::Field(f) = &*r.expr {
                                            field = Some(f.member.clone());
                                        }
                                    }
                                }
                                _ => {}
                            }
                        }
                        if let Some(field) = field {
                            derefs.insert(join(module, &this), Deref { field, target });
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// Give a name to the elided lifetimes of an implementation's trait, for use in contracts.
struct Naming(bool);

impl VisitMut for Naming {
    fn visit_type_reference_mut(&mut self, reference: &mut syn::TypeReference) {
        if reference.lifetime.is_none() {
            reference.lifetime = Some(syn::parse_quote!('vx));
            self.0 = true;
        }
        syn::visit_mut::visit_type_reference_mut(self, reference);
    }
}

struct Extractor<'c> {
    context: &'c mut Context,
    derives: BTreeMap<String, BTreeSet<String>>,
}

impl Extractor<'_> {
    fn items(&mut self, module: &str, items: Vec<syn::Item>) -> Vec<syn::Item> {
        let mut out = vec![];
        for item in items {
            self.item(module, item, &mut out);
        }
        if let Some(text) = self.context.contracts.modules.get(module).cloned() {
            self.context.contracts.used.insert(format!("@mod {module}"));
            let id = self.context.texts.add(&text);
            out.push(syn::Item::Verbatim(quote!(#id)));
        }
        out
    }

    fn item(&mut self, module: &str, item: syn::Item, out: &mut Vec<syn::Item>) {
        match item {
            syn::Item::Mod(mut m) => {
                let name = join(module, &m.ident.to_string());
                if let Some((brace, items)) = m.content.take() {
                    let items = self.items(&name, items);
                    let mut all: Vec<syn::Item> = vec![
                        syn::parse_quote!(use vstd::prelude::*;),
                        syn::parse_quote!(use crate::prelude::*;),
                    ];
                    // The contracts of a module may ask for more.
                    let own = self.context.contracts.modules.get(&name);
                    let text = if own.is_some_and(|t| t.contains("//@broadcast")) {
                        ""
                    } else {
                        "broadcast use crate::prelude::group_abs;"
                    };
                    let id = self.context.texts.add(text);
                    all.push(syn::Item::Verbatim(quote!(#id)));
                    all.extend(items);
                    m.attrs.clear();
                    m.vis = syn::parse_quote!(pub);
                    m.content = Some((brace, all));
                    out.push(syn::Item::Mod(m));
                }
            }
            syn::Item::Use(mut u) => {
                u.attrs.clear();
                let text = u.to_token_stream().to_string().replace(' ', "");
                if text.contains("prelude::rust_") || text.contains("usetypeface::{") {
                    self.context.report.dropped.push(text);
                    return;
                }
                rewrite::UseRewriter.visit_item_use_mut(&mut u);
                out.push(syn::Item::Use(u));
            }
            syn::Item::ExternCrate(_) | syn::Item::Macro(_) => {}
            syn::Item::Struct(mut s) => {
                s.attrs.clear();
                // A struct whose fields are private to its module must be visible to the
                // specifications in other modules; visibility does not affect behaviour.
                for field in s.fields.iter_mut() {
                    field.attrs.clear();
                    field.vis = syn::parse_quote!(pub);
                }
                s.vis = syn::parse_quote!(pub);
                let structural = self.derives(module, &s.ident.to_string(), &mut s.attrs);
                let name = s.ident.clone();
                out.push(syn::Item::Struct(s));
                if structural {
                    out.push(syn::parse_quote!(unsafe impl Structural for #name {}));
                }
            }
            syn::Item::Enum(mut e) => {
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                for variant in e.variants.iter_mut() {
                    variant.attrs.clear();
                }
                let structural = self.derives(module, &e.ident.to_string(), &mut e.attrs);
                let name = e.ident.clone();
                out.push(syn::Item::Enum(e));
                if structural {
                    out.push(syn::parse_quote!(unsafe impl Structural for #name {}));
                }
            }
            syn::Item::Type(mut t) => {
                t.attrs.clear();
                t.vis = syn::parse_quote!(pub);
                out.push(syn::Item::Type(t));
            }
            syn::Item::Const(mut c) => {
                c.attrs.clear();
                c.vis = syn::parse_quote!(pub);
                out.push(syn::Item::Const(c));
            }
            syn::Item::Fn(mut f) => {
                f.attrs.clear();
                f.vis = syn::parse_quote!(pub);
                let key = join(module, &f.sig.ident.to_string());
                if !self.context.contracts.functions.contains_key(&key)
                    && self.context.report.inlined.contains(&key)
                {
                    return;
                }
                let (attrs, sig, block) = (&mut f.attrs, &mut f.sig, &mut *f.block);
                self.function(&key, attrs, sig, block, false);
                out.push(syn::Item::Fn(f));
            }
            syn::Item::Impl(i) => self.implementation(module, i, out),
            other => {
                self.context.report.structural.push(format!(
                    "unsupported item in {module}: {}",
                    other.to_token_stream().to_string().chars().take(60).collect::<String>()
                ));
            }
        }
    }

    fn derives(&mut self, module: &str, name: &str, attrs: &mut Vec<syn::Attribute>) -> bool {
        let mut structural = false;
        let key = join(module, name);
        if let Some(set) = self.derives.get(&key) {
            let mut list: Vec<syn::Ident> = vec![];
            if set.contains("Copy") {
                list.push(format_ident!("Clone"));
                list.push(format_ident!("Copy"));
            }
            if set.contains("Eq") && set.contains("PartialEq") {
                list.push(format_ident!("PartialEq"));
                list.push(format_ident!("Eq"));
                structural = true;
            }
            if set.contains("Hash") {
                list.push(format_ident!("Hash"));
            }
            if !list.is_empty() {
                attrs.push(syn::parse_quote!(#[derive(#(#list),*)]));
            }
        }
        structural
    }

    fn implementation(&mut self, module: &str, mut i: syn::ItemImpl, out: &mut Vec<syn::Item>) {
        let key = impl_key(module, &i);
        let trait_name =
            i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        if is_derived(&i.attrs) && trait_name.as_deref() != Some("Default") {
            self.context.report.dropped.push(format!("derived {key}"));
            return;
        }
        if self.context.contracts.skips.contains(&key) {
            self.context.contracts.used.insert(format!("@skip {key}"));
            self.context.report.dropped.push(format!("skipped {key}"));
            return;
        }
        if matches!(trait_name.as_deref(), Some("Deref") | Some("DerefMut")) {
            self.context.report.dropped.push(format!("dereference {key}"));
            if trait_name.as_deref() == Some("Deref") {
                let this = join(module, &type_name(&i.self_ty));
                if !self.context.derefs.contains_key(&this) {
                    self.context.report.structural.push(format!("unsupported deref {key}"));
                }
            }
            return;
        }
        i.attrs.clear();
        if let Some((_, path, _)) = &mut i.trait_ {
            rewrite::rewrite_trait_path(path);
            let mut naming = Naming(false);
            naming.visit_path_mut(path);
            if naming.0 {
                i.generics.params.insert(0, syn::parse_quote!('vx));
                i.generics.lt_token = Some(Default::default());
                i.generics.gt_token = Some(Default::default());
            }
        }
        let mut items = vec![];
        if let Some(text) = self.context.contracts.implementations.get(&key).cloned() {
            self.context.contracts.used.insert(format!("@implitems {key}"));
            let id = self.context.texts.add(&text);
            items.push(syn::ImplItem::Verbatim(quote!(#id)));
        }
        for item in std::mem::take(&mut i.items) {
            match item {
                syn::ImplItem::Fn(mut f) => {
                    f.attrs.clear();
                    if i.trait_.is_none() {
                        f.vis = syn::parse_quote!(pub);
                    }
                    let key = format!("{key}::{}", f.sig.ident);
                    if !self.context.contracts.functions.contains_key(&key)
                        && self.context.report.inlined.contains(&key)
                    {
                        continue;
                    }
                    for (mut attrs, mut sig, mut block, trust) in self.copies(&key, &f) {
                        std::mem::swap(&mut f.sig, &mut sig);
                        std::mem::swap(&mut f.block, &mut block);
                        std::mem::swap(&mut f.attrs, &mut attrs);
                        self.function(&key, &mut f.attrs, &mut f.sig, &mut f.block, trust);
                        items.push(syn::ImplItem::Fn(f.clone()));
                    }
                }
                syn::ImplItem::Type(mut t) => {
                    t.attrs.clear();
                    if t.ident == "Error" {
                        // The error of a conversion is always that of the crate.
                        continue;
                    }
                    items.push(syn::ImplItem::Type(t));
                }
                other => self.context.report.structural.push(format!(
                    "unsupported impl item in {key}: {}",
                    other.to_token_stream()
                )),
            }
        }
        i.items = items;
        rewrite::PathRewriter.visit_item_impl_mut(&mut i);
        out.push(syn::Item::Impl(i));
    }

    /// A method and the copies of it that are verified in its place, one for each group of arms.
    fn copies(
        &mut self,
        key: &str,
        f: &syn::ImplItemFn,
    ) -> Vec<(Vec<syn::Attribute>, syn::Signature, syn::Block, bool)> {
        let splits = match self.context.contracts.functions.get(key) {
            Some(contract) => contract.splits.clone(),
            None => vec![],
        };
        // The copies for other groups may be left to another run.
        let selected = std::env::var("EXTRACT_GROUPS").ok();
        let mut copies = vec![];
        let mut others: Vec<String> = vec![];
        for (_, names) in splits.iter() {
            others.extend(names.iter().cloned());
        }
        for (i, (group, names)) in splits.iter().enumerate() {
            let mut copy = f.clone();
            copy.sig.ident = format_ident!("{}__{}", f.sig.ident, group);
            let mut pruner =
                contracts::Pruner { names, all: &others, first: i == 0, pruned: 0, kept: 0 };
            pruner.visit_block_mut(&mut copy.block);
            if pruner.kept == 0 {
                self.context.report.structural.push(format!("{key}: no arms for {group}"));
            }
            if selected.as_ref().is_some_and(|s| !s.split(',').any(|g| g == group))
                || trusted(&format!("{key}__{group}"))
            {
                continue;
            }
            copies.push((copy.attrs, copy.sig, copy.block, false));
        }
        let trust = !splits.is_empty();
        let mut block = f.block.clone();
        if trust {
            block.stmts = vec![syn::parse_quote!(vother();)];
        }
        copies.push((f.attrs.clone(), f.sig.clone(), block, trust));
        copies
    }

    fn function(
        &mut self,
        key: &str,
        attrs: &mut Vec<syn::Attribute>,
        sig: &mut syn::Signature,
        block: &mut syn::Block,
        trust: bool,
    ) {
        if trusted(key) {
            block.stmts = vec![syn::parse_quote!(vother();)];
        }
        normal::run(self.context, key, sig, block);
        rewrite::rewrite_function(self.context, key, sig, block);
        let mut contract = match self.context.contracts.functions.get(key).cloned() {
            Some(contract) => {
                self.context.contracts.used.insert(format!("@fn {key}"));
                self.context.report.under_contract.push(key.to_string());
                contract
            }
            None => {
                self.context.report.without_contract.push(key.to_string());
                Default::default()
            }
        };
        contract.trust |= trust || trusted(key);
        if trusted(key) {
            contract.entry.clear();
            contract.tail.clear();
        }
        if !contract.trust {
            names::adapt(self.context, key, &mut contract, sig, block);
        }
        contracts::attach(self.context, key, &contract, attrs, sig, block);
    }
}

/// Whether the verification of a function is given up in this run, as the verifier rejects its text.
fn trusted(key: &str) -> bool {
    std::env::var("EXTRACT_TRUST").is_ok_and(|list| list.split(';').any(|name| name == key))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let source = std::fs::read_to_string(&args[1]).expect("read");
    let file = syn::parse_file(&source).expect("parse the expanded source");
    let contracts = contracts::Contracts::read(&args[3]);
    let mut file = file;
    let mut derives = BTreeMap::new();
    let mut context = Context {
        contracts,
        texts: Default::default(),
        report: Default::default(),
        derefs: Default::default(),
        names: std::fs::read_to_string(format!("{}/names.json", args[3]))
            .map(|text| serde_json::from_str(&text).expect("names"))
            .unwrap_or_default(),
        locals: Default::default(),
    };
    alias::run(&mut context, &args[3], &mut file.items);
    survey("", &file.items, &mut derives, &mut context.derefs);
    let mut items = file.items;
    if std::env::var("EXTRACT_NO_INLINE").is_err() {
        inline::run(&mut context, &mut items);
    }
    let mut extractor = Extractor { context: &mut context, derives };
    let items = extractor.items("", items);
    let forwarders = rewrite::forwarders(&mut context);
    let mut out = String::new();
    // What holds of variables that a loop does not change is known in it.
    out.push_str("#![verifier::loop_isolation(false)]\n");
    out.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_camel_case_types, unused_must_use, unused_comparisons, unreachable_code)]\n");
    let mut files: Vec<_> = std::fs::read_dir(&args[2])
        .expect("prelude")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false))
        .collect();
    files.sort();
    for path in files {
        out.push_str(&format!("// ---- {}\n", path.file_name().unwrap().to_string_lossy()));
        out.push_str(&std::fs::read_to_string(path).unwrap());
    }
    out.push_str("verus! {\n// ---- extracted\npub use crate::prelude::*;\n");
    for item in &items {
        emit::emit(&context.texts, item.to_token_stream(), &mut out);
    }
    out.push_str(&forwarders);
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&args[4], out).expect("write");

    let report = &mut context.report;
    report.unused_contracts = context.contracts.unused();
    if let Ok(path) = std::env::var("EXTRACT_NAMES") {
        let text = serde_json::to_string_pretty(&context.locals).unwrap();
        std::fs::write(path, text + "\n").expect("write");
    }
    let report = &context.report;
    let json = serde_json::json!({
        "dropped": report.dropped,
        "rules": report.rules,
        "under_contract": report.under_contract,
        "inlined": report.inlined,
        "without_contract": report.without_contract,
        "unused_contracts": report.unused_contracts,
        "structural": report.structural,
        "loops": report.loops,
    });
    std::fs::write(&args[5], serde_json::to_string_pretty(&json).unwrap()).expect("write");
}
