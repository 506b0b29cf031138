//! The rewrite rules of the extraction.  Every rule replaces a construct that the verifier does not
//! accept by one of the same meaning; each application is counted in the report.
use std::collections::BTreeMap;

use quote::ToTokens;
use syn::visit_mut::VisitMut;

use crate::Context;

fn segments(path: &syn::Path) -> Vec<String> {
    path.segments.iter().map(|s| s.ident.to_string()).collect()
}

/// `std::…`, `::typeface::…` and `::alloc::…` paths.
pub fn rewrite_path(path: &mut syn::Path) {
    let names = segments(path);
    let names: Vec<&str> = names.iter().map(String::as_str).collect();
    let drop = |path: &mut syn::Path, count: usize, prefix: &[&str]| {
        let rest: Vec<_> = path.segments.iter().skip(count).cloned().collect();
        let mut segments: syn::punctuated::Punctuated<syn::PathSegment, syn::Token![::]> =
            Default::default();
        for name in prefix {
            segments.push(syn::PathSegment::from(quote::format_ident!("{}", name)));
        }
        for segment in rest {
            segments.push(segment);
        }
        path.leading_colon = None;
        path.segments = segments;
    };
    match &names[..] {
        ["std", "io", ..] => drop(path, 2, &["crate", "io"]),
        ["typeface", ..] => drop(path, 1, &["crate"]),
        ["alloc", "vec", "Vec", ..] => drop(path, 2, &[]),
        ["std", "cmp", ..] => drop(path, 2, &["core", "cmp"]),
        ["alloc", "boxed", "Box", ..] => drop(path, 2, &[]),
        _ => {}
    }
}

pub fn rewrite_trait_path(path: &mut syn::Path) {
    rewrite_path(path);
    let last = path.segments.last_mut().unwrap();
    match last.ident.to_string().as_str() {
        "TryFrom" => last.ident = quote::format_ident!("VTryFrom"),
        "From" => last.ident = quote::format_ident!("VFrom"),
        _ => {}
    }
}

pub struct PathRewriter;

impl VisitMut for PathRewriter {
    fn visit_path_mut(&mut self, path: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, path);
        rewrite_path(path);
    }
}

pub struct UseRewriter;

impl VisitMut for UseRewriter {
    fn visit_item_use_mut(&mut self, item: &mut syn::ItemUse) {
        let text = item.tree.to_token_stream().to_string().replace(' ', "");
        let replaced = if let Some(rest) = text.strip_prefix("std::io::") {
            Some(format!("crate::io::{rest}"))
        } else if let Some(rest) = text.strip_prefix("typeface::") {
            Some(format!("crate::{rest}"))
        } else {
            None
        };
        if let Some(text) = replaced {
            item.leading_colon = None;
            item.tree = syn::parse_str(&text).expect("use");
        }
    }
}

pub fn last_name(expr: &syn::Expr) -> Option<(Vec<String>, &syn::ExprPath)> {
    match expr {
        syn::Expr::Path(p) => Some((segments(&p.path), p)),
        _ => None,
    }
}

fn is_path(expr: &syn::Expr, tail: &[&str]) -> bool {
    match last_name(expr) {
        Some((names, _)) => {
            names.len() >= tail.len()
                && names[names.len() - tail.len()..].iter().zip(tail).all(|(a, b)| a == b)
        }
        _ => false,
    }
}

fn call<'e>(expr: &'e syn::Expr, tail: &[&str]) -> Option<&'e syn::ExprCall> {
    match expr {
        syn::Expr::Call(c) if is_path(&c.func, tail) => Some(c),
        _ => None,
    }
}

fn strip(expr: &syn::Expr) -> &syn::Expr {
    match expr {
        syn::Expr::Paren(e) => strip(&e.expr),
        syn::Expr::Group(e) => strip(&e.expr),
        e => e,
    }
}

fn referent(expr: &syn::Expr) -> Option<&syn::Expr> {
    match strip(expr) {
        syn::Expr::Reference(r) => Some(&r.expr),
        _ => None,
    }
}

struct Rewriter<'c> {
    context: &'c mut Context,
    this: String,
    module: String,
    lifted: Vec<(String, syn::ItemFn)>,
    temporaries: usize,
}

/// Resolve the name of a type that occurs in the target of a dereference.
fn resolve(context: &Context, name: &str) -> Option<String> {
    let last = name.rsplit("::").next().unwrap();
    context.derefs.keys().find(|k| k.rsplit("::").next().unwrap() == last).cloned()
}

/// The chain of fields from a type with dereferences to the final target.
fn chain(context: &Context, this: &str) -> Option<(Vec<syn::Member>, String)> {
    let mut fields = vec![];
    let mut current = this.to_string();
    loop {
        let deref = context.derefs.get(&current)?;
        fields.push(deref.field.clone());
        match resolve(context, &deref.target) {
            Some(next) => current = next,
            None => return Some((fields, deref.target.clone())),
        }
    }
}

impl Rewriter<'_> {
    fn rule(&mut self, name: &str) {
        self.context.report.rule(name);
    }

    fn fresh(&mut self) -> usize {
        self.temporaries += 1;
        self.temporaries - 1
    }

    fn option_closure(&mut self, method: &syn::ExprMethodCall) -> Option<syn::Expr> {
        let name = method.method.to_string();
        if name == "then_some" && method.args.len() == 1 {
            let (receiver, value) = (&method.receiver, &method.args[0]);
            return Some(syn::parse_quote!({ let vx_m = #receiver; let vx_o = #value; if vx_m { Some(vx_o) } else { None } }));
        }
        if name == "or" && method.args.len() == 1 && !resulting(&method.receiver) {
            let (receiver, value) = (&method.receiver, &method.args[0]);
            return Some(syn::parse_quote!({
                let vx_m = #receiver;
                let vx_o = #value;
                match vx_m { Some(vx_x) => Some(vx_x), None => vx_o }
            }));
        }
        if name == "map_or_else" && method.args.len() == 2 && !resulting(&method.receiver) {
            if let (syn::Expr::Closure(o), syn::Expr::Closure(c)) = (&method.args[0], &method.args[1]) {
                if o.inputs.is_empty() && !leaves(&o.body) && !leaves(&c.body) {
                    let (receiver, other, pattern, body) = (&method.receiver, &o.body, c.inputs.first(), &c.body);
                    return Some(syn::parse_quote!(match #receiver { Some(#pattern) => #body, None => #other }));
                }
            }
        }
        if name == "map_or" && method.args.len() == 2 {
            if let syn::Expr::Closure(c) = &method.args[1] {
                if leaves(&c.body) {
                    return None;
                }
                let (receiver, other, pattern, body) = (&method.receiver, &method.args[0], c.inputs.first(), &c.body);
                return Some(syn::parse_quote!({
                    let vx_m = #receiver;
                    let vx_o = #other;
                    match vx_m { Some(#pattern) => #body, None => vx_o }
                }));
            }
        }
        let closure = match method.args.first() {
            Some(syn::Expr::Closure(c)) if method.args.len() == 1 => c.clone(),
            // The name of a function.
            Some(syn::Expr::Path(p))
                if method.args.len() == 1 && matches!(name.as_str(), "map" | "and_then" | "map_err" | "is_some_and") =>
            {
                syn::parse_quote!(|vx_x| #p(vx_x))
            }
            _ => return None,
        };
        let (receiver, body) = (&method.receiver, &closure.body);
        if leaves(body) {
            // It would leave the function rather than the closure.
            return None;
        }
        if name == "then" && closure.inputs.is_empty() {
            return Some(syn::parse_quote!(if #receiver { Some(#body) } else { None }));
        }
        if resulting(receiver) {
            let pattern = closure.inputs.first();
            match name.as_str() {
                "map" => return Some(syn::parse_quote!(match #receiver { Ok(#pattern) => Ok(#body), Err(vx_e) => Err(vx_e) })),
                "and_then" => return Some(syn::parse_quote!(match #receiver { Ok(#pattern) => #body, Err(vx_e) => Err(vx_e) })),
                "map_err" => {}
                _ => return None,
            }
        }
        let pattern = closure.inputs.first();
        let expr: syn::Expr = match name.as_str() {
            "map" => syn::parse_quote!(match #receiver { Some(#pattern) => Some(#body), None => None }),
            "and_then" => syn::parse_quote!(match #receiver { Some(#pattern) => #body, None => None }),
            "filter" => {
                let bound: syn::Stmt = match pattern {
                    Some(syn::Pat::Reference(r)) => {
                        let pattern = &r.pat;
                        syn::parse_quote!(let #pattern = vx_x;)
                    }
                    _ => syn::parse_quote!(let #pattern = &vx_x;),
                };
                syn::parse_quote!(match #receiver {
                    Some(vx_x) => { let vx_keep = { #bound #body }; if vx_keep { Some(vx_x) } else { None } }
                    None => None
                })
            }
            "map_or" => return None,
            "ok_or_else" => syn::parse_quote!(match #receiver { Some(vx_x) => Ok(vx_x), None => Err(#body) }),
            "unwrap_or_else" if closure.inputs.is_empty() => {
                syn::parse_quote!(match #receiver { Some(vx_x) => vx_x, None => #body })
            }
            "map_err" => syn::parse_quote!(match #receiver { Ok(vx_x) => Ok(vx_x), Err(#pattern) => Err(#body) }),
            "is_some_and" => syn::parse_quote!(match #receiver { Some(#pattern) => #body, None => false }),
            "is_none_or" => syn::parse_quote!(match #receiver { Some(#pattern) => #body, None => true }),
            "or_else" if closure.inputs.is_empty() => {
                syn::parse_quote!(match #receiver { Some(vx_x) => Some(vx_x), None => #body })
            }
            _ => return None,
        };
        Some(expr)
    }

    /// `Some([a, b, ..])` with the slice bound, its elements, and the condition on its length.
    fn some_slice(&mut self, pattern: &mut syn::Pat) -> Option<(Vec<syn::Stmt>, syn::Expr)> {
        let syn::Pat::TupleStruct(t) = pattern else { return None };
        if t.elems.len() != 1 || !t.path.is_ident("Some") {
            return None;
        }
        let (slice, by_value) = match &t.elems[0] {
            syn::Pat::Slice(s) => (s.clone(), false),
            syn::Pat::Reference(r) => match &*r.pat {
                syn::Pat::Slice(s) => (s.clone(), true),
                _ => return None,
            },
            _ => return None,
        };
        let (mut bound, mut open): (Vec<syn::Stmt>, bool) = (vec![], false);
        let count = slice.elems.len();
        for (i, element) in slice.elems.iter().enumerate() {
            match element {
                syn::Pat::Rest(_) if i + 1 == count => open = true,
                syn::Pat::Wild(_) => {}
                syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() && by_value => {
                    bound.push(syn::parse_quote!(let #p = vx_s[#i];))
                }
                syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => {
                    bound.push(syn::parse_quote!(let #p = &vx_s[#i];))
                }
                syn::Pat::Reference(r) if !by_value => match &*r.pat {
                    syn::Pat::Ident(p) if p.subpat.is_none() => bound.push(syn::parse_quote!(let #p = vx_s[#i];)),
                    _ => return None,
                },
                _ => return None,
            }
        }
        let least = if open { count - 1 } else { count };
        t.elems[0] = syn::parse_quote!(vx_s);
        self.context.report.rule("slice pattern");
        Some((bound, if open { syn::parse_quote!(vx_s.len() >= #least) } else { syn::parse_quote!(vx_s.len() == #least) }))
    }

    /// `Some(&x)` with the reference bound, and what it refers to bound after.
    fn dereferenced(&mut self, pattern: &mut syn::Pat) -> Vec<syn::Stmt> {
        struct References(Vec<syn::Ident>);
        impl VisitMut for References {
            fn visit_pat_mut(&mut self, pattern: &mut syn::Pat) {
                if let syn::Pat::Reference(r) = pattern {
                    if let syn::Pat::Ident(p) = &*r.pat {
                        if p.by_ref.is_none() && p.subpat.is_none() && p.mutability.is_none() {
                            self.0.push(p.ident.clone());
                            *pattern = (*r.pat).clone();
                            return;
                        }
                    }
                }
                syn::visit_mut::visit_pat_mut(self, pattern);
            }
        }
        if matches!(pattern, syn::Pat::Reference(_) | syn::Pat::Or(_)) {
            return vec![];
        }
        let mut references = References(vec![]);
        references.visit_pat_mut(pattern);
        if !references.0.is_empty() {
            self.context.report.rule("reference pattern");
        }
        references.0.iter().map(|name| syn::parse_quote!(let #name = *#name;)).collect()
    }

    /// `let [a, b]: [T; 2] = e;` with the elements taken by their places.
    fn slice_pattern(&mut self, local: &mut syn::Local) {
        let (pattern, ty) = match &local.pat {
            syn::Pat::Type(t) => match &*t.pat {
                syn::Pat::Slice(s) => (s.clone(), Some(t.ty.clone())),
                _ => return,
            },
            syn::Pat::Slice(s) => (s.clone(), None),
            _ => return,
        };
        let mut names: Vec<syn::Pat> = vec![];
        let mut values: Vec<syn::Expr> = vec![];
        for (i, element) in pattern.elems.iter().enumerate() {
            match element {
                syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => {
                    names.push(element.clone());
                    values.push(syn::parse_quote!(vx_e[#i]));
                }
                syn::Pat::Wild(_) => {}
                _ => return,
            }
        }
        let Some(init) = &mut local.init else { return };
        if init.diverge.is_some() {
            return;
        }
        let value = &init.expr;
        let bound: syn::Stmt = match ty {
            Some(ty) => syn::parse_quote!(let vx_e: #ty = #value;),
            None => syn::parse_quote!(let vx_e = #value;),
        };
        *init.expr = syn::parse_quote!({ #bound (#(#values,)*) });
        local.pat = syn::parse_quote!((#(#names,)*));
        self.context.report.rule("slice pattern");
    }

    /// A loop over something other than a range of numbers.
    fn for_loop(&mut self, e: &syn::ExprForLoop) -> Option<syn::Expr> {
        let over = strip(&e.expr);
        if matches!(over, syn::Expr::Range(_)) {
            return None;
        }
        let (pattern, body, label) = (&e.pat, &e.body, &e.label);
        let statements = &body.stmts;
        if let syn::Expr::MethodCall(m) = over {
            let name = m.method.to_string();
            if name == "enumerate" {
                let inner = strip(&m.receiver);
                let source: syn::Expr = match inner {
                    syn::Expr::MethodCall(i) if i.method == "iter" => (*i.receiver).clone(),
                    _ => return None,
                };
                let (index, value) = match &**pattern {
                    syn::Pat::Tuple(t) if t.elems.len() == 2 => (&t.elems[0], &t.elems[1]),
                    _ => return None,
                };
                self.rule("for-enumerate to while");
                return Some(syn::parse_quote!({
                    let vx_s = &#source;
                    let mut vx_i: usize = 0;
                    #label while vx_i < vx_s.len() {
                        let #index = vx_i;
                        let #value = &vx_s[vx_i];
                        vx_i += 1;
                        #(#statements)*
                    }
                }));
            }
            if name == "iter" {
                let source = &m.receiver;
                self.rule("for-iter to while");
                return Some(syn::parse_quote!({
                    let vx_s = &#source;
                    let mut vx_i: usize = 0;
                    #label while vx_i < vx_s.len() {
                        let #pattern = &vx_s[vx_i];
                        vx_i += 1;
                        #(#statements)*
                    }
                }));
            }
            if name == "zip" || name == "rev" || name == "map" || name == "windows" {
                return None;
            }
        }
        if let syn::Expr::Reference(r) = over {
            let source = &r.expr;
            self.rule("for-reference to while");
            return Some(syn::parse_quote!({
                let vx_s = &#source;
                let mut vx_i: usize = 0;
                #label while vx_i < vx_s.len() {
                    let #pattern = &vx_s[vx_i];
                    vx_i += 1;
                    #(#statements)*
                }
            }));
        }
        self.rule("for-value to while");
        Some(syn::parse_quote!({
            let mut vx_s = #over;
            #label while vx_s.len() > 0 {
                let #pattern = vx_s.remove(0);
                #(#statements)*
            }
        }))
    }
}

/// Replace each `Err(e)?` by `return Err(e)`, each panic by `vpanic()` and so on.
impl VisitMut for Rewriter<'_> {
    fn visit_path_mut(&mut self, path: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, path);
        rewrite_path(path);
    }

    fn visit_block_mut(&mut self, block: &mut syn::Block) {
        // Local macros are expanded already, and attributes have no effect on behaviour.
        block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Macro(_)) | syn::Stmt::Macro(_)));
        // A function without captured state that is nested in a block is inlined at its call.
        let mut functions: BTreeMap<String, syn::ItemFn> = BTreeMap::new();
        let mut constants: Vec<syn::Stmt> = vec![];
        block.stmts.retain(|s| match s {
            syn::Stmt::Item(syn::Item::Fn(f)) => {
                functions.insert(f.sig.ident.to_string(), f.clone());
                false
            }
            _ => true,
        });
        for statement in block.stmts.iter_mut() {
            if let syn::Stmt::Item(syn::Item::Const(c)) = statement {
                let (name, ty, value) = (&c.ident, &c.ty, &c.expr);
                if let (Some(slice), Some(array)) = (
                    match &**ty {
                        syn::Type::Reference(r) => match &*r.elem {
                            syn::Type::Slice(s) => Some(s.elem.clone()),
                            _ => None,
                        },
                        _ => None,
                    },
                    referent(value),
                ) {
                    let statement: syn::Stmt =
                        syn::parse_quote!(let #name: &'static [#slice] = &#array;);
                    constants.push(statement);
                } else {
                    constants.push(syn::parse_quote!(let #name: #ty = #value;));
                }
            }
        }
        if !constants.is_empty() {
            self.rule("local constant to binding");
            let mut index = 0;
            for statement in block.stmts.iter_mut() {
                if matches!(statement, syn::Stmt::Item(syn::Item::Const(_))) {
                    *statement = constants[index].clone();
                    index += 1;
                }
            }
        }
        for statement in block.stmts.iter_mut() {
            if let syn::Stmt::Item(syn::Item::Use(u)) = statement {
                u.attrs.clear();
                UseRewriter.visit_item_use_mut(u);
            }
        }
        let depth = self.lifted.len();
        for (name, function) in functions {
            self.lifted.push((name, function));
        }
        syn::visit_mut::visit_block_mut(self, block);
        self.lifted.truncate(depth);
    }

    fn visit_stmt_mut(&mut self, statement: &mut syn::Stmt) {
        syn::visit_mut::visit_stmt_mut(self, statement);
        if let syn::Stmt::Expr(expr, semicolon) = statement {
            if semicolon.is_some() {
                // mem::forget(mem::replace(&mut a, b)) and mem::replace(&mut a, b)
                let inner = match call(expr, &["mem", "forget"]).or(call(expr, &["mem", "drop"])) {
                    Some(c) => c.args.first().unwrap().clone(),
                    None => expr.clone(),
                };
                if let Some(c) = call(&inner, &["vreplace"]) {
                    if let Some(place) = referent(&c.args[0]) {
                        let value = &c.args[1];
                        let place = place.clone();
                        *expr = syn::parse_quote!(#place = #value);
                        self.context.report.rule("mem::replace statement to assignment");
                    }
                }
            }
        }
    }

    fn visit_local_mut(&mut self, local: &mut syn::Local) {
        local.attrs.clear();
        self.slice_pattern(local);
        syn::visit_mut::visit_local_mut(self, local);
    }

    fn visit_arm_mut(&mut self, arm: &mut syn::Arm) {
        arm.attrs.clear();
        if let Some((bound, guard)) = self.some_slice(&mut arm.pat) {
            let guard: syn::Expr = match &arm.guard {
                Some((_, other)) => syn::parse_quote!(#guard && { #(#bound)* #other }),
                None => guard,
            };
            arm.guard = Some((Default::default(), Box::new(guard)));
            let body = &arm.body;
            *arm.body = syn::parse_quote!({ #(#bound)* #body });
        }
        let bound = self.dereferenced(&mut arm.pat);
        if !bound.is_empty() {
            if let Some((_, guard)) = &mut arm.guard {
                **guard = syn::parse_quote!({ #(#bound)* #guard });
            }
            let body = &arm.body;
            *arm.body = syn::parse_quote!({ #(#bound)* #body });
        }
        syn::visit_mut::visit_arm_mut(self, arm);
    }

    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        if let syn::Expr::If(e) = expr {
            if let syn::Expr::Let(l) = &mut *e.cond {
                let mut bound = self.dereferenced(&mut l.pat);
                if !bound.is_empty() {
                    bound.append(&mut e.then_branch.stmts);
                    e.then_branch.stmts = bound;
                }
            }
        }
        // `Err(std::io::Error::new(kind, message))`: the message is dropped.
        if let Some(c) = call(expr, &["Error", "new"]).filter(|c| c.args.len() == 2) {
            let kind = c.args[0].clone();
            *expr = syn::parse_quote!(crate::io::Error::new(#kind));
            self.rule("error message dropped");
            syn::visit_mut::visit_expr_mut(self, expr);
            return;
        }
        if let Some(c) = call(expr, &["Error", "from"]).filter(|c| c.args.len() == 1) {
            let kind = c.args[0].clone();
            *expr = syn::parse_quote!(crate::io::Error::new(#kind));
            self.rule("error from its kind");
            syn::visit_mut::visit_expr_mut(self, expr);
            return;
        }
        if call(expr, &["Error", "other"]).is_some() {
            *expr = syn::parse_quote!(crate::io::Error::new(crate::io::ErrorKind::Other));
            self.rule("error message dropped");
            return;
        }
        // Calls of nested functions.
        if let syn::Expr::Try(t) = expr {
            if let syn::Expr::Call(c) = &*t.expr {
                if let syn::Expr::Path(p) = &*c.func {
                    if let Some(name) = p.path.get_ident() {
                        let found = self.lifted.iter().rev().find(|(n, _)| name == n).cloned();
                        if let Some((_, function)) = found {
                            let arguments: Vec<syn::Expr> = c.args.iter().cloned().collect();
                            match crate::inline::expand(&function.sig, &function.block, None, &arguments, true, &Default::default()) {
                                Some(value) => {
                                    *expr = value;
                                    self.rule("nested function inlined");
                                }
                                None => self
                                    .context
                                    .report
                                    .structural
                                    .push(format!("cannot inline the nested function {name}")),
                            }
                        }
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, expr);
        if let syn::Expr::Macro(m) = expr {
            self.context.report.structural.push(format!("macro {}", m.to_token_stream()));
            return;
        }
        let replaced: Option<syn::Expr> = match expr {
            syn::Expr::Group(g) => Some((*g.expr).clone()),
            syn::Expr::Try(t) => match strip(&t.expr) {
                syn::Expr::Call(c) if is_path(&c.func, &["Err"]) && c.args.len() == 1 => {
                    let error = &c.args[0];
                    self.context.report.rule("Err(e)? to return Err(e)");
                    Some(syn::parse_quote!(return Err(#error)))
                }
                _ => None,
            },
            syn::Expr::Unary(u) => match u.op {
                syn::UnOp::Neg(_) => match strip(&u.expr) {
                    syn::Expr::Lit(_) => None,
                    operand => {
                        self.context.report.rule("negation to VNeg");
                        Some(syn::parse_quote!(VNeg::vneg(#operand)))
                    }
                },
                syn::UnOp::Not(_) => match strip(&u.expr) {
                    syn::Expr::Lit(l) if l.to_token_stream().to_string() == "0" => {
                        self.context.report.rule("!0 to usize::MAX");
                        Some(syn::parse_quote!(usize::MAX))
                    }
                    _ => None,
                },
                _ => None,
            },
            syn::Expr::Call(c) => {
                let names = last_name(&c.func).map(|(n, _)| n).unwrap_or_default();
                let names: Vec<&str> = names.iter().map(String::as_str).collect();
                if names.contains(&"panicking") || names.contains(&"begin_panic") {
                    self.context.report.rule("panic to vpanic");
                    Some(syn::parse_quote!(vpanic()))
                } else {
                    match &names[..] {
                        [.., "mem", "take"] => {
                            self.context.report.rule("mem::take to VTake");
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(VTake::vtake(#argument)))
                        }
                        [.., "mem", "replace"] => {
                            let (a, b) = (&c.args[0], &c.args[1]);
                            Some(syn::parse_quote!(vreplace(#a, #b)))
                        }
                        [.., "mem", "drop"] | ["drop"] => {
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(vdrop(#argument)))
                        }
                        [.., number @ ("u8" | "i8" | "u16" | "i16" | "u32" | "i32"), "from_be_bytes"] => {
                            let name = quote::format_ident!("{number}_from_be_bytes");
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(#name(#argument)))
                        }
                        [.., "String", "new"] => Some(syn::parse_quote!(string_empty())),
                        [.., "String", "from_utf8"] => {
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(string_from_utf8(#argument)))
                        }
                        [.., "must_use"] => Some(c.args[0].clone()),
                        [.., "TryFrom", "try_from"] => {
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(VTryFrom::v_try_from(#argument)))
                        }
                        ["StringID", "try_from"] | ["u16", "try_from"] => {
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(<u16 as VTryFrom<_>>::v_try_from(#argument)))
                        }
                        [number @ ("u16" | "u32" | "u64" | "usize" | "i16" | "i32" | "i64" | "f32"), "from"] if c.args.len() == 1 => {
                            let name = quote::format_ident!("{number}");
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(<#name as VFrom<_>>::v_from(#argument)))
                        }
                        _ => None,
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("collect", 0) => match strip(&m.receiver) {
                        syn::Expr::MethodCall(d) if d.method == "drain" => {
                            match d.args.first().map(strip) {
                                Some(syn::Expr::Range(r)) if r.end.is_none() && r.start.is_some() => {
                                    let (vector, start) = (&d.receiver, &r.start);
                                    self.context.report.rule("drain(a..).collect()");
                                    Some(syn::parse_quote!(vec_drain_from(&mut #vector, #start)))
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    },
                    ("into_owned", 0) => match call(strip(&m.receiver), &["String", "from_utf8_lossy"]) {
                        Some(c) => {
                            let argument = &c.args[0];
                            Some(syn::parse_quote!(string_from_utf8_lossy(#argument)))
                        }
                        None => None,
                    },
                    ("to_string", 0) | ("to_owned", 0) => {
                        let receiver = &m.receiver;
                        Some(syn::parse_quote!(str_to_string(#receiver)))
                    }
                    ("try_into", 0) => {
                        let receiver = &m.receiver;
                        Some(syn::parse_quote!(VTryInto::v_try_into(#receiver)))
                    }
                    ("into", 0) => {
                        let receiver = &m.receiver;
                        Some(syn::parse_quote!(VInto::v_into(#receiver)))
                    }
                    ("first" | "last", 0) => {
                        let receiver = &m.receiver;
                        let function = quote::format_ident!("v{name}");
                        Some(syn::parse_quote!(#function(&#receiver)))
                    }
                    ("swap", 2) => {
                        let (receiver, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                        Some(syn::parse_quote!(vswap(&mut #receiver, #a, #b)))
                    }
                    ("rotate_right" | "rotate_left", 1) => match strip(&m.receiver) {
                        syn::Expr::Index(i) => match strip(&i.index) {
                            syn::Expr::Range(r) if r.end.is_none() && r.start.is_some() => {
                                let (vector, start, by) = (&i.expr, &r.start, &m.args[0]);
                                let function = quote::format_ident!("v{name}");
                                self.context.report.rule("rotation of the end of a vector");
                                Some(syn::parse_quote!(#function(&mut #vector, #start, #by)))
                            }
                            _ => None,
                        },
                        _ => None,
                    },
                    ("copied" | "cloned", 0) => {
                        let receiver = &m.receiver;
                        Some(syn::parse_quote!(vcopied(#receiver)))
                    }
                    ("parse", 0) => {
                        let receiver = &m.receiver;
                        self.context.report.rule("parse to parse_f32");
                        Some(syn::parse_quote!(parse_f32(&#receiver)))
                    }
                    ("cmp", 1) => {
                        let receiver = &m.receiver;
                        let argument = &m.args[0];
                        Some(syn::parse_quote!(VCmp::vcmp(&#receiver, #argument)))
                    }
                    _ => self.option_closure(m).map(|e| {
                        self.context.report.rule("closure to match");
                        e
                    }),
                }
            }
            syn::Expr::ForLoop(e) => {
                if matches!(&*e.pat, syn::Pat::Wild(_)) {
                    *e.pat = syn::parse_quote!(vx_n);
                }
                let e = e.clone();
                self.for_loop(&e)
            }
            syn::Expr::While(e) => match &*e.cond {
                syn::Expr::Let(l) => {
                    let (pattern, scrutinee, body, label) = (&l.pat, &l.expr, &e.body, &e.label);
                    self.context.report.rule("while-let to loop");
                    Some(syn::parse_quote!(#label loop { match #scrutinee { #pattern => #body, _ => break, } }))
                }
                _ => None,
            },
            syn::Expr::Index(i) => match strip(&i.expr) {
                syn::Expr::Path(p) if p.path.is_ident("self") => {
                    chain(self.context, &self.this).map(|(fields, _)| {
                        let index = &i.index;
                        syn::parse_quote!(self #(.#fields)* [#index])
                    })
                }
                _ => None,
            },
            syn::Expr::Field(f) => {
                let name = match &f.member {
                    syn::Member::Named(n) => n.to_string(),
                    _ => String::new(),
                };
                let index = self.module == "compact1::index" || self.module.is_empty();
                let base = strip(&f.base);
                let direct = matches!(base, syn::Expr::Field(b) if matches!(b.member, syn::Member::Unnamed(_)));
                if matches!(name.as_str(), "count" | "offset_size" | "offsets" | "data")
                    && !index
                    && !direct
                    && !(name == "offset_size" && !is_self(base))
                {
                    self.context.report.rule("field through a dereference");
                    let member = &f.member;
                    let base = &f.base;
                    Some(syn::parse_quote!(#base.0.#member))
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(replaced) = replaced {
            *expr = replaced;
        }
        if let syn::Expr::MethodCall(m) = expr {
            // Arguments that may leave the function are evaluated ahead of the call.
            if matches!(&*m.receiver, syn::Expr::Path(_)) && m.args.iter().any(leaves) {
                let names: Vec<syn::Ident> =
                    (0..m.args.len()).map(|i| quote::format_ident!("vx_h{}", i)).collect();
                let values: Vec<syn::Expr> = m.args.iter().cloned().collect();
                let mut call = m.clone();
                call.args = syn::parse_quote!(#(#names),*);
                self.context.report.rule("argument evaluated ahead of the call");
                *expr = syn::parse_quote!({ #(let #names = #values;)* #call });
            }
        }
        if let syn::Expr::Match(m) = expr {
            if m.arms.iter().any(|a| a.guard.is_some() && m.arms.iter().any(|a| leaves(&a.body))) {
                self.context.report.rule("guard to condition");
                let scrutinee = &m.expr;
                let inner = without_guards(&m.arms.iter().cloned().collect::<Vec<_>>(), false);
                *expr = syn::parse_quote!({ let vx_m = #scrutinee; #inner });
            }
        }
        clear_attributes(expr);
        let _ = self.fresh();
    }
}

/// Whether the evaluation of an expression may leave the function.
fn leaves(expr: &syn::Expr) -> bool {
    struct Search(bool);
    impl VisitMut for Search {
        fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
            match expr {
                syn::Expr::Return(_) | syn::Expr::Try(_) => self.0 = true,
                syn::Expr::Closure(_) => {}
                _ => syn::visit_mut::visit_expr_mut(self, expr),
            }
        }
    }
    let mut search = Search(false);
    search.visit_expr_mut(&mut expr.clone());
    search.0
}

/// `match vx_m` with each guard turned into a condition, on whose failure the later arms follow.
fn without_guards(arms: &[syn::Arm], rest: bool) -> syn::Expr {
    let mut result: Vec<syn::Arm> = vec![];
    let mut i = 0;
    while i < arms.len() {
        let mut arm = arms[i].clone();
        if let Some((_, guard)) = arm.guard.take() {
            let body = &arm.body;
            let pattern = arm.pat.to_token_stream().to_string();
            // The next arms for the same pattern take over what has been bound.
            let mut next = i + 1;
            let mut bodies = vec![];
            let mut complete = false;
            while next < arms.len() && arms[next].pat.to_token_stream().to_string() == pattern && !complete {
                bodies.push((arms[next].guard.as_ref().map(|g| g.1.clone()), arms[next].body.clone()));
                complete = arms[next].guard.is_none();
                next += 1;
            }
            let mut other: syn::Expr = if complete {
                let (_, body) = bodies.pop().unwrap();
                syn::parse_quote!({ #body })
            } else {
                let rest = without_guards(&arms[next..], true);
                syn::parse_quote!({ #rest })
            };
            for (guard, body) in bodies.into_iter().rev() {
                let guard = guard.unwrap();
                other = syn::parse_quote!({ if #guard { #body } else #other });
            }
            arm.body = syn::parse_quote!(if #guard { #body } else #other);
            i = next;
        } else {
            i += 1;
        }
        arm.comma = Some(Default::default());
        result.push(arm);
    }
    if rest && !result.iter().any(|a| matches!(a.pat, syn::Pat::Wild(_))) {
        // What has not been matched before cannot be anything else.
        result.push(syn::parse_quote!(_ => vpanic(),));
    }
    syn::parse_quote!(match vx_m { #(#result)* })
}

/// Whether an expression is known to be a result rather than an option.
fn resulting(expr: &syn::Expr) -> bool {
    match strip(expr) {
        syn::Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "take" => m.args.len() > 0 || m.turbofish.is_some() || is_tape(&m.receiver),
            "take_given" | "take_bytes" | "peek" | "jump" | "map_err" | "ok_or" | "ok_or_else" | "try_into" => true,
            "map" | "and_then" => resulting(&m.receiver),
            _ => false,
        },
        syn::Expr::Call(c) => is_path(&c.func, &["try_from"]) || is_path(&c.func, &["v_try_from"]) || is_path(&c.func, &["v_try_into"]),
        // What the rules above make of the former.
        syn::Expr::Match(m) => m.arms.iter().any(|a| a.pat.to_token_stream().to_string() == "Err (vx_e)"),
        _ => false,
    }
}

fn is_tape(expr: &syn::Expr) -> bool {
    let name = strip(expr).to_token_stream().to_string();
    name == "tape" || name.ends_with(". tape") || name.ends_with("routine")
}

fn is_self(expr: &syn::Expr) -> bool {
    matches!(expr, syn::Expr::Path(p) if p.path.is_ident("self"))
}

fn clear_attributes(expr: &mut syn::Expr) {
    match expr {
        syn::Expr::Call(e) => e.attrs.clear(),
        syn::Expr::MethodCall(e) => e.attrs.clear(),
        syn::Expr::Match(e) => e.attrs.clear(),
        syn::Expr::Block(e) => e.attrs.clear(),
        syn::Expr::If(e) => e.attrs.clear(),
        syn::Expr::Assign(e) => e.attrs.clear(),
        syn::Expr::Macro(e) => e.attrs.clear(),
        syn::Expr::Lit(e) => e.attrs.clear(),
        syn::Expr::Return(e) => e.attrs.clear(),
        syn::Expr::ForLoop(e) => e.attrs.clear(),
        syn::Expr::While(e) => e.attrs.clear(),
        syn::Expr::Loop(e) => e.attrs.clear(),
        syn::Expr::Binary(e) => e.attrs.clear(),
        _ => {}
    }
}

pub fn rewrite_function(
    context: &mut Context,
    key: &str,
    sig: &mut syn::Signature,
    block: &mut syn::Block,
) {
    let this = key.rsplit_once("::").map(|(a, _)| a.to_string()).unwrap_or_default();
    let module = match this.split_once("::<") {
        Some((module, _)) => module.to_string(),
        None => this
            .rsplit_once("::")
            .map(|(a, b)| {
                if b.chars().next().map(char::is_uppercase).unwrap_or(false) {
                    a.to_string()
                } else {
                    this.clone()
                }
            })
            .unwrap_or(this.clone()),
    };
    for input in sig.inputs.iter_mut() {
        match input {
            syn::FnArg::Typed(t) => t.attrs.clear(),
            syn::FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
    match sig.ident.to_string().as_str() {
        "try_from" if key.contains("TryFrom") => sig.ident = quote::format_ident!("v_try_from"),
        "from" if key.contains(" as From<") => sig.ident = quote::format_ident!("v_from"),
        _ => {}
    }
    // Destructured parameters become a parameter and a binding.
    let mut statements: Vec<syn::Stmt> = vec![];
    for (i, input) in sig.inputs.iter_mut().enumerate() {
        if let syn::FnArg::Typed(t) = input {
            match &*t.pat {
                syn::Pat::Ident(_) => {}
                syn::Pat::Wild(_) => {
                    let name = quote::format_ident!("vx_p{}", i);
                    *t.pat = syn::parse_quote!(#name);
                }
                pattern => {
                    let name = quote::format_ident!("vx_p{}", i);
                    statements.push(syn::parse_quote!(let #pattern = #name;));
                    *t.pat = syn::parse_quote!(#name);
                    context.report.rule("destructured parameter");
                }
            }
        }
    }
    let mut rewriter = Rewriter { context, this, module, lifted: vec![], temporaries: 0 };
    rewriter.visit_signature_mut(sig);
    rewriter.visit_block_mut(block);
    statements.append(&mut block.stmts);
    block.stmts = statements;
}

/// Inherent methods that stand for those reached through `Deref`.
pub fn forwarders(context: &mut Context) -> String {
    let mut out = String::new();
    let names: Vec<String> = context.derefs.keys().cloned().collect();
    for this in &names {
        let Some((fields, target)) = chain(context, this) else { continue };
        let path: String =
            fields.iter().map(|f| format!(".{}", f.to_token_stream())).collect::<String>();
        let last = this.rsplit("::").next().unwrap();
        if target == "[Vec<u8>]" {
            // `get` of a wrapper may be an inherent method that takes precedence.
            out.push_str(&format!(
                "impl crate::{this} {{\n//@fn {this}::(deref)len\npub fn len(&self) -> (r: usize) ensures r == self{path}@.len() {{ self{path}.len() }}\n}}\n"
            ));
            if last == "Index" {
                out.push_str(&format!(
                    "impl crate::{this} {{\n//@fn {this}::(deref)get\npub fn get(&self, i: usize) -> (r: Option<&Vec<u8>>) ensures r == (if i < self{path}@.len() {{ Some(&self{path}@[i as int]) }} else {{ None }}) {{ if i < self{path}.len() {{ Some(&self{path}[i]) }} else {{ None }} }}\n}}\n"
                ));
            }
        } else if target.starts_with("HashMap<") || target.contains("Cursor<") {
            let name = format!("(deref){last}");
            if let Some(text) = context.contracts.modules.get(&name) {
                out.push_str(text);
                context.contracts.used.insert(format!("@mod {name}"));
            }
        }
    }
    out
}
