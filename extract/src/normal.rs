//! Different ways of writing the same loops, brought to one form.
//!
//! - `let x = S.map(|p| e).collect::<Result<Vec<_>>>()?` and the like become a loop that pushes
//! - `let mut i = a; while i < b { ..; i += 1; }` becomes `for i in a..b { .. }`
//! - `loop { if c { break; } .. }` becomes `while !c { .. }`
//! - `let x = loop { .. break v; .. };` becomes a loop that sets the variable
//! - `for w in x.windows(2)`, `for (a, b) in x.iter().zip(x.iter().skip(1))` and the like become a loop over indices
//! - `for _ in 0..=n` becomes `for _ in 0..(n + 1)` in `usize`
//! - loops over `0..x.len()` and over `x.iter()` become that one of the two for which the contract is
//! - a match over patterns of slices becomes conditions on the length
//! - loops at the end of a function are left by returning, if that is what the contract is for
use quote::{format_ident, ToTokens};
use syn::visit_mut::VisitMut;

use crate::inline::unwrap_tail;
use crate::Context;

struct Normal<'c> {
    context: &'c mut Context,
    /// Whether the function returns a result.
    fallible: bool,
    /// Whether the contract of the function is for loops over elements or over indices.
    elements: bool,
    indices: bool,
    /// Whether the contract is for loops in the arms of a match over the order of two numbers, and
    /// the function has no such match.
    orders: bool,
    field: Option<syn::Ident>,
    fresh: usize,
}

/// What of an expression can be found anywhere in it, except in nested functions.
struct Search<'f> {
    found: bool,
    test: &'f dyn Fn(&syn::Expr) -> bool,
    /// Do not look into nested loops and closures.
    shallow: bool,
}

impl VisitMut for Search<'_> {
    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        if (self.test)(expr) {
            self.found = true;
        }
        if self.shallow
            && matches!(
                expr,
                syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Closure(_)
            )
        {
            return;
        }
        syn::visit_mut::visit_expr_mut(self, expr);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

fn has(block: &syn::Block, shallow: bool, test: &dyn Fn(&syn::Expr) -> bool) -> bool {
    let mut block = block.clone();
    let mut search = Search { found: false, test, shallow };
    search.visit_block_mut(&mut block);
    search.found
}

fn has_expr(expr: &syn::Expr, test: &dyn Fn(&syn::Expr) -> bool) -> bool {
    let mut expr = expr.clone();
    let mut search = Search { found: false, test, shallow: false };
    search.visit_expr_mut(&mut expr);
    search.found
}

fn strip(expr: &syn::Expr) -> &syn::Expr {
    match expr {
        syn::Expr::Paren(p) => strip(&p.expr),
        syn::Expr::Group(g) => strip(&g.expr),
        _ => expr,
    }
}

fn is_name(expr: &syn::Expr, name: &syn::Ident) -> bool {
    matches!(strip(expr), syn::Expr::Path(p) if p.path.is_ident(name))
}

fn mentions(text: &impl ToTokens, name: &syn::Ident) -> bool {
    fn search(stream: proc_macro2::TokenStream, name: &syn::Ident) -> bool {
        stream.into_iter().any(|token| match token {
            proc_macro2::TokenTree::Ident(i) => i == *name,
            proc_macro2::TokenTree::Group(g) => search(g.stream(), name),
            _ => false,
        })
    }
    search(text.to_token_stream(), name)
}

fn last(path: &syn::Path) -> String {
    path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// Whether a type is a vector (`Some(false)`), or a result with one (`Some(true)`).
fn collection(ty: &syn::Type) -> Option<bool> {
    match ty {
        syn::Type::Path(p) => match last(&p.path).as_str() {
            "Vec" => Some(false),
            "Result" => {
                let text = p.to_token_stream().to_string().replace(' ', "");
                (text.contains("Vec<") || text.contains("<_")).then_some(true)
            }
            _ => None,
        },
        _ => None,
    }
}

struct Chain {
    base: syn::Expr,
    maps: Vec<syn::Expr>,
    fallible: bool,
}

/// A chain of iterators with a call of `collect` at its end.
fn chain(expr: &syn::Expr, ty: Option<&syn::Type>, tried: bool, fallback: Option<bool>) -> Option<Chain> {
    let syn::Expr::MethodCall(collect) = strip(expr) else { return None };
    if collect.method != "collect" || !collect.args.is_empty() {
        return None;
    }
    let fallible = match &collect.turbofish {
        Some(generics) => match generics.args.first() {
            Some(syn::GenericArgument::Type(ty)) => collection(ty)?,
            _ => return None,
        },
        None => match ty {
            Some(ty) if !tried => collection(ty)?,
            _ if tried => true,
            _ => fallback?,
        },
    };
    let mut maps = vec![];
    let mut current = strip(&collect.receiver);
    while let syn::Expr::MethodCall(m) = current {
        if m.method == "map" && m.args.len() == 1 {
            maps.insert(0, m.args[0].clone());
            current = strip(&m.receiver);
        } else {
            break;
        }
    }
    let base = match current {
        syn::Expr::Range(_) => current.clone(),
        syn::Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
            "iter" | "enumerate" => current.clone(),
            "into_iter" => (*m.receiver).clone(),
            _ => return None,
        },
        _ => return None,
    };
    (!maps.is_empty()).then_some(Chain { base, maps, fallible })
}

/// What an expression goes through the elements of.
fn whole(expr: &syn::Expr) -> Option<syn::Expr> {
    let source = match strip(expr) {
        syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => strip(&m.receiver),
        syn::Expr::Reference(r) if r.mutability.is_none() => strip(&r.expr),
        _ => return None,
    };
    matches!(source, syn::Expr::Path(_) | syn::Expr::Field(_)).then(|| source.clone())
}

/// What an expression goes through the elements of, but for the first one.
fn tail(expr: &syn::Expr) -> Option<syn::Expr> {
    let sliced = |expr: &syn::Expr| match strip(expr) {
        syn::Expr::Index(i) => match strip(&i.index) {
            syn::Expr::Range(r) if r.end.is_none() => {
                (r.start.as_ref()?.to_token_stream().to_string() == "1").then(|| (*i.expr).clone())
            }
            _ => None,
        },
        _ => None,
    };
    match strip(expr) {
        syn::Expr::Reference(r) if r.mutability.is_none() => sliced(&r.expr),
        syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => sliced(&m.receiver),
        syn::Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 => {
            (m.args[0].to_token_stream().to_string() == "1").then(|| whole(&m.receiver))?
        }
        _ => None,
    }
}

/// The statement that binds a pattern to an element.
fn element<'p>(
    pattern: &'p syn::Pat,
    source: &'p syn::Expr,
    ahead: usize,
) -> impl Fn(&syn::Ident) -> syn::Stmt + 'p {
    move |index| {
        let place: syn::Expr = match ahead {
            0 => syn::parse_quote!(#source[#index]),
            _ => syn::parse_quote!(#source[#index + 1]),
        };
        match pattern {
            syn::Pat::Reference(r) => {
                let pattern = &r.pat;
                syn::parse_quote!(let #pattern = #place;)
            }
            _ => syn::parse_quote!(let #pattern = &#place;),
        }
    }
}

impl Normal<'_> {
    fn rule(&mut self, name: &str) {
        self.context.report.rule(name);
    }

    fn name(&mut self) -> syn::Ident {
        self.fresh += 1;
        match self.fresh {
            1 => format_ident!("vx_k"),
            n => format_ident!("vx_k{}", n),
        }
    }

    /// The loop for a chain, which pushes to a vector.
    fn pushes(&mut self, chain: &Chain, vector: &syn::Ident) -> Option<syn::Expr> {
        let mut pattern: Option<syn::Pat> = None;
        let mut statements: Vec<syn::Stmt> = vec![];
        let mut value: Option<syn::Expr> = None;
        for (i, map) in chain.maps.iter().enumerate() {
            let (input, body): (syn::Pat, syn::Expr) = match map {
                syn::Expr::Closure(c) if c.inputs.len() == 1 => (c.inputs[0].clone(), (*c.body).clone()),
                syn::Expr::Path(p) => {
                    let name = self.name();
                    (syn::parse_quote!(#name), syn::parse_quote!(#p(#name)))
                }
                _ => return None,
            };
            if has_expr(&body, &|e| matches!(e, syn::Expr::Return(_))) {
                return None;
            }
            let tries = has_expr(&body, &|e| matches!(e, syn::Expr::Try(_)));
            if tries && (!chain.fallible || i + 1 < chain.maps.len()) {
                return None;
            }
            match value.take() {
                Some(value) => statements.push(syn::parse_quote!(let #input = #value;)),
                None => pattern = Some(input),
            }
            value = Some(body);
        }
        let pattern = match pattern? {
            syn::Pat::Type(t) => *t.pat,
            other => other,
        };
        let mut value = value?;
        if chain.fallible {
            value = unwrap_tail(&value);
        }
        let base = &chain.base;
        Some(syn::parse_quote!(for #pattern in #base { #(#statements)* #vector.push(#value); }))
    }

    fn vector(&mut self, chain: &Chain, vector: &syn::Ident) -> Option<Vec<syn::Stmt>> {
        let body = self.pushes(chain, vector)?;
        self.rule("collected iterator to loop");
        Some(vec![syn::parse_quote!(let mut #vector = Vec::new();), syn::Stmt::Expr(body, Some(Default::default()))])
    }

    /// `let x = loop { .. break v; .. };` as a loop that sets the variable.
    fn set(&mut self, local: &syn::Local) -> Option<Vec<syn::Stmt>> {
        let mut value = strip(&local.init.as_ref()?.expr);
        let mut front = vec![];
        while let syn::Expr::Block(b) = value {
            let (syn::Stmt::Expr(last, None), before) = b.block.stmts.split_last()? else { return None };
            if b.label.is_some() || !b.attrs.is_empty() {
                return None;
            }
            front.extend(before.iter().cloned());
            value = strip(last);
        }
        let syn::Expr::Loop(l) = value else { return None };
        let (pattern, ty) = match &local.pat {
            syn::Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
            other => (other, None),
        };
        let syn::Pat::Ident(pattern) = pattern else { return None };
        if l.label.is_some() {
            return None;
        }
        struct Breaks<'n>(&'n syn::Ident, usize, bool);
        impl VisitMut for Breaks<'_> {
            fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
                match expr {
                    syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Closure(_) => return,
                    syn::Expr::Break(b) => match &b.expr {
                        Some(value) if b.label.is_none() => {
                            let name = self.0;
                            *expr = syn::parse_quote!({ #name = #value; break; });
                            self.1 += 1;
                            return;
                        }
                        _ => self.2 = true,
                    },
                    _ => {}
                }
                syn::visit_mut::visit_expr_mut(self, expr);
            }
            fn visit_item_mut(&mut self, _: &mut syn::Item) {}
        }
        let mut body = l.body.clone();
        // A variable of this name within the loop is another one.
        let names = std::collections::BTreeSet::from([pattern.ident.to_string()]);
        crate::inline::Renamer(&names).visit_block_mut(&mut body);
        if front.iter().any(|s| matches!(s, syn::Stmt::Item(_) | syn::Stmt::Macro(_))) {
            return None;
        }
        // So is one ahead of the loop.
        let mut bound = crate::inline::Bound(Default::default());
        front.iter_mut().for_each(|s| bound.visit_stmt_mut(s));
        if bound.0.contains(&pattern.ident.to_string()) {
            return None;
        }
        let mut breaks = Breaks(&pattern.ident, 0, false);
        breaks.visit_block_mut(&mut body);
        if breaks.1 == 0 || breaks.2 {
            return None;
        }
        let name = &pattern.ident;
        let declared: syn::Stmt = match ty {
            Some(ty) => syn::parse_quote!(let mut #name: #ty;),
            None => syn::parse_quote!(let mut #name;),
        };
        self.rule("loop with a value");
        let end: syn::Expr = syn::parse_quote!(loop #body);
        if front.is_empty() {
            return Some(vec![declared, syn::Stmt::Expr(end, Some(Default::default()))]);
        }
        Some(vec![declared, syn::Stmt::Expr(syn::parse_quote!({ #(#front)* #end }), Some(Default::default()))])
    }

    /// Statements in place of one, if it collects an iterator.
    fn statement(&mut self, statement: &syn::Stmt, tail: bool) -> Option<Vec<syn::Stmt>> {
        match statement {
            syn::Stmt::Local(local) => {
                let init = local.init.as_ref()?;
                if init.diverge.is_some() {
                    return None;
                }
                if let Some(statements) = self.set(local) {
                    return Some(statements);
                }
                let (pattern, ty) = match &local.pat {
                    syn::Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                    other => (other, None),
                };
                let syn::Pat::Ident(pattern) = pattern else { return None };
                let (expr, tried) = match strip(&init.expr) {
                    syn::Expr::Try(t) => (&*t.expr, true),
                    other => (other, false),
                };
                let chain = chain(expr, ty, tried, None)?;
                if chain.fallible != tried {
                    return None;
                }
                self.vector(&chain, &pattern.ident)
            }
            syn::Stmt::Expr(expr, None) if tail => {
                let (expr, wrapped) = match strip(expr) {
                    syn::Expr::Call(c)
                        if c.args.len() == 1 && matches!(&*c.func, syn::Expr::Path(p) if last(&p.path) == "Ok") =>
                    {
                        (strip(&c.args[0]), true)
                    }
                    other => (other, false),
                };
                let (expr, tried) = match expr {
                    syn::Expr::Try(t) => (strip(&t.expr), true),
                    other => (other, false),
                };
                let fallback = if wrapped { Some(false) } else if self.fallible { Some(true) } else { None };
                let chain = chain(expr, None, tried, fallback)?;
                if chain.fallible && !tried && (wrapped || !self.fallible) {
                    return None;
                }
                let name = format_ident!("vx_v");
                let mut statements = self.vector(&chain, &name)?;
                let value: syn::Expr =
                    if wrapped || (chain.fallible && !tried) { syn::parse_quote!(Ok(#name)) } else { syn::parse_quote!(#name) };
                statements.push(syn::Stmt::Expr(value, None));
                Some(statements)
            }
            _ => None,
        }
    }

    /// `let mut x = s[0]; for y in &s[1..] { ..; x = y; }` in the statements of a block.
    fn previous(&mut self, statements: &mut Vec<syn::Stmt>) {
        for k in 1..statements.len() {
            let syn::Stmt::Expr(syn::Expr::ForLoop(f), _) = &statements[k] else { continue };
            let Some(source) = tail(&f.expr) else { continue };
            let syn::Stmt::Local(local) = &statements[k - 1] else { continue };
            let (syn::Pat::Ident(pattern), Some(init)) = (&local.pat, &local.init) else { continue };
            let name = &pattern.ident;
            let text = strip(&init.expr).to_token_stream().to_string();
            if text != quote::quote!(#source[0]).to_string() || pattern.mutability.is_none() {
                continue;
            }
            let (other, by_value) = match &*f.pat {
                syn::Pat::Reference(r) => (&*r.pat, true),
                other => (other, false),
            };
            let syn::Pat::Ident(other) = other else { continue };
            let Some((syn::Stmt::Expr(syn::Expr::Assign(a), _), body)) = f.body.stmts.split_last() else { continue };
            let moved = match strip(&a.right) {
                syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && !by_value => is_name(&u.expr, &other.ident),
                value => by_value && is_name(value, &other.ident),
            };
            let rest = syn::Block { brace_token: Default::default(), stmts: body.to_vec() };
            let odd = has(&rest, false, &|e| match e {
                syn::Expr::Assign(a) => mentions(&a.left, name),
                syn::Expr::Continue(_) => true,
                syn::Expr::Reference(r) => r.mutability.is_some() && mentions(&r.expr, name),
                _ => false,
            });
            if !is_name(&a.left, name) || !moved || odd || statements[k + 1..].iter().any(|s| mentions(s, name)) {
                continue;
            }
            let index = self.name();
            let (label, mut first) = (&f.label, pattern.clone());
            first.mutability = None;
            let second = element(&f.pat, &source, 1)(&index);
            let replaced: syn::Expr = syn::parse_quote!(#label for #index in 0..vpairs(#source.len()) {
                let #first = #source[#index];
                #second
                #(#body)*
            });
            statements[k] = syn::Stmt::Expr(replaced, Some(Default::default()));
            statements.remove(k - 1);
            self.rule("pairs to loop over indices");
            return;
        }
    }

    /// `let mut i = a; ..; while i < b { ..; i += 1; }` in the statements of a block.
    fn counted(&mut self, statements: &mut Vec<syn::Stmt>) {
        for k in 0..statements.len() {
            let syn::Stmt::Expr(syn::Expr::While(w), _) = &statements[k] else { continue };
            let syn::Expr::Binary(condition) = strip(&w.cond) else { continue };
            if !matches!(condition.op, syn::BinOp::Lt(_)) {
                continue;
            }
            let name = match strip(&condition.left) {
                syn::Expr::Path(p) => match p.path.get_ident() {
                    Some(name) => name.clone(),
                    None => continue,
                },
                _ => continue,
            };
            let start = (0..k).rev().find_map(|j| match &statements[j] {
                syn::Stmt::Local(l) => {
                    let (pattern, ty) = match &l.pat {
                        syn::Pat::Type(t) => (&*t.pat, Some((*t.ty).clone())),
                        other => (other, None),
                    };
                    match (pattern, &l.init) {
                        (syn::Pat::Ident(p), Some(init)) if p.ident == name && p.mutability.is_some() => {
                            Some((j, (*init.expr).clone(), ty))
                        }
                        _ => None,
                    }
                }
                _ => None,
            });
            let Some((j, first, ty)) = start else { continue };
            if statements[j + 1..k].iter().any(|s| mentions(s, &name))
                || statements[k + 1..].iter().any(|s| mentions(s, &name))
                || !matches!(strip(&first), syn::Expr::Lit(_))
            {
                continue;
            }
            let mut body = w.body.clone();
            let step = match body.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::Binary(b), Some(_))) => {
                    matches!(b.op, syn::BinOp::AddAssign(_))
                        && is_name(&b.left, &name)
                        && strip(&b.right).to_token_stream().to_string() == "1"
                }
                Some(syn::Stmt::Expr(syn::Expr::Assign(a), Some(_))) => {
                    let value = strip(&a.right).to_token_stream().to_string();
                    is_name(&a.left, &name) && value == format!("{name} + 1")
                }
                _ => false,
            };
            if !step {
                continue;
            }
            body.stmts.pop();
            let changes = |body: &syn::Block, name: &syn::Ident| {
                has(body, false, &|e| match e {
                    syn::Expr::Assign(a) => is_name(&a.left, name),
                    syn::Expr::Binary(b) => b.op.to_token_stream().to_string().ends_with('=')
                        && !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_))
                        && is_name(&b.left, name),
                    syn::Expr::Reference(r) => r.mutability.is_some() && mentions(&r.expr, name),
                    _ => false,
                })
            };
            let moves = |body: &syn::Block, name: &syn::Ident| {
                has(body, false, &|e| match e {
                    syn::Expr::MethodCall(m) => {
                        mentions(&m.receiver, name) && m.method != "len" && m.method != "get" && m.method != "is_empty"
                    }
                    syn::Expr::Assign(a) => mentions(&a.left, name),
                    _ => false,
                })
            };
            let limit = strip(&condition.right).clone();
            // The limit must be made of what the body cannot change.
            let simple = !has_expr(&limit, &|e| {
                !matches!(
                    e,
                    syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Cast(_) | syn::Expr::Paren(_) | syn::Expr::Binary(_)
                ) && !matches!(e, syn::Expr::MethodCall(m) if m.method == "len")
            });
            let mut names = vec![];
            collect_names(limit.to_token_stream(), &mut names);
            let fixed = names.iter().all(|name| name != "self" && !changes(&body, name) && !moves(&body, name));
            let leaves = has(&body, true, &|e| matches!(e, syn::Expr::Continue(_)))
                || has(&body, false, &|e| matches!(e, syn::Expr::Continue(c) if c.label.is_some()));
            if !simple || !fixed || changes(&body, &name) || leaves {
                continue;
            }
            let label = &w.label;
            let first: syn::Expr = match ty {
                Some(ty) => syn::parse_quote!((#first as #ty)),
                None => first,
            };
            let inner = &body.stmts;
            let replaced: syn::Expr = syn::parse_quote!(#label for #name in #first..(#limit) { #(#inner)* });
            statements[k] = syn::Stmt::Expr(replaced, Some(Default::default()));
            statements.remove(j);
            self.rule("counting while to for");
            self.counted(statements);
            return;
        }
    }

    /// `let mut x = a; while x >= 2 { x -= 2; .. }` and `let mut x = a; loop { ..; if x < 2 { break; } x -= 2; }`.
    fn countdown(&mut self, statements: &mut Vec<syn::Stmt>) {
        for k in 1..statements.len() {
            let syn::Stmt::Local(local) = &statements[k - 1] else { continue };
            let (syn::Pat::Ident(pattern), Some(init)) = (&local.pat, &local.init) else { continue };
            let (name, first) = (&pattern.ident, strip(&init.expr));
            // What it starts from must be made of what the body cannot change.
            let simple = !has_expr(first, &|e| {
                !matches!(e, syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Paren(_) | syn::Expr::Group(_))
                    && !matches!(e, syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Sub(_) | syn::BinOp::Add(_)))
            });
            if !simple {
                continue;
            }
            let mut sources = vec![];
            collect_names(first.to_token_stream(), &mut sources);
            let from: syn::Expr = match first {
                syn::Expr::Path(_) => first.clone(),
                _ => syn::parse_quote!((#first)),
            };
            // `x -= c`
            let step = |s: Option<&syn::Stmt>| match s {
                Some(syn::Stmt::Expr(syn::Expr::Binary(b), Some(_)))
                    if matches!(b.op, syn::BinOp::SubAssign(_)) && is_name(&b.left, name) =>
                {
                    match strip(&b.right) {
                        syn::Expr::Lit(l) => Some(l.clone()),
                        _ => None,
                    }
                }
                Some(syn::Stmt::Expr(syn::Expr::Assign(a), Some(_))) if is_name(&a.left, name) => match strip(&a.right) {
                    syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Sub(_)) && is_name(&b.left, name) => match strip(&b.right) {
                        syn::Expr::Lit(l) => Some(l.clone()),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            let limit = |e: &syn::Expr, below: bool| match strip(e) {
                syn::Expr::Binary(b)
                    if is_name(&b.left, name)
                        && (below && matches!(b.op, syn::BinOp::Lt(_)) || !below && matches!(b.op, syn::BinOp::Ge(_))) =>
                {
                    Some(strip(&b.right).to_token_stream().to_string())
                }
                _ => None,
            };
            let (body, by, bound, start, label) = match &statements[k] {
                syn::Stmt::Expr(syn::Expr::While(w), _) => {
                    let (Some(by), Some(bound)) = (step(w.body.stmts.first()), limit(&w.cond, false)) else { continue };
                    (w.body.stmts[1..].to_vec(), by, bound, "1", &w.label)
                }
                syn::Stmt::Expr(syn::Expr::Loop(l), _) if l.body.stmts.len() > 1 => {
                    let count = l.body.stmts.len();
                    let Some(by) = step(l.body.stmts.last()) else { continue };
                    let syn::Stmt::Expr(syn::Expr::If(i), _) = &l.body.stmts[count - 2] else { continue };
                    let Some(bound) = limit(&i.cond, true) else { continue };
                    let leaves = match &i.then_branch.stmts[..] {
                        [syn::Stmt::Expr(syn::Expr::Break(b), _)] => b.label.is_none() && b.expr.is_none() && i.else_branch.is_none(),
                        _ => false,
                    };
                    let rest = syn::Block { brace_token: Default::default(), stmts: l.body.stmts[..count - 2].to_vec() };
                    if !leaves || has(&rest, false, &|e| matches!(e, syn::Expr::Break(_) | syn::Expr::Continue(_))) {
                        continue;
                    }
                    (rest.stmts, by, bound, "0", &l.label)
                }
                _ => continue,
            };
            let positive = match &by.lit {
                syn::Lit::Int(n) => n.base10_parse::<u64>().map(|n| n > 0).unwrap_or(false),
                _ => false,
            };
            let rest = syn::Block { brace_token: Default::default(), stmts: body.clone() };
            let changed = |name: &syn::Ident| {
                has(&rest, false, &|e| match e {
                    syn::Expr::Assign(a) => mentions(&a.left, name),
                    syn::Expr::Binary(b) => b.op.to_token_stream().to_string().len() > 1
                        && b.op.to_token_stream().to_string().ends_with('=')
                        && !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_))
                        && mentions(&b.left, name),
                    syn::Expr::Reference(r) => r.mutability.is_some() && mentions(&r.expr, name),
                    _ => false,
                })
            };
            let index = quote::format_ident!("i");
            if !positive
                || bound != by.to_token_stream().to_string()
                || changed(name)
                || sources.iter().any(&changed)
                || rest.stmts.iter().any(|s| mentions(s, &index))
                || statements[k + 1..].iter().any(|s| mentions(s, name))
                || pattern.mutability.is_none()
            {
                continue;
            }
            let start = syn::LitInt::new(start, proc_macro2::Span::call_site());
            let replaced: syn::Expr = syn::parse_quote!(#label for #index in #start..(#from / #by + 1) {
                let #name = #from - #index * #by;
                #(#body)*
            });
            statements[k] = syn::Stmt::Expr(replaced, Some(Default::default()));
            statements.remove(k - 1);
            self.rule("counting down to for");
            return;
        }
    }

    fn range(&mut self, e: &syn::ExprForLoop) -> Option<syn::Expr> {
        let (pattern, body, label) = (&e.pat, &e.body.stmts, &e.label);
        match strip(&e.expr) {
            syn::Expr::Range(r) => {
                let (start, end) = (r.start.as_ref()?, r.end.as_ref()?);
                let zero = strip(start).to_token_stream().to_string();
                let zero = zero == "0" || zero == "0usize";
                if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                    if !zero || !matches!(&**pattern, syn::Pat::Wild(_)) {
                        return None;
                    }
                    self.rule("inclusive range");
                    return Some(syn::parse_quote!(#label for #pattern in 0..VEnd::vend(#end) { #(#body)* }));
                }
                let syn::Expr::MethodCall(m) = strip(end) else { return None };
                if !self.elements || !zero || m.method != "len" || !m.args.is_empty() {
                    return None;
                }
                let syn::Expr::Path(source) = strip(&m.receiver) else { return None };
                self.rule("loop over indices to loop over elements");
                Some(syn::parse_quote!({
                    let vx_s = &#source;
                    let mut vx_i: usize = 0;
                    #label while vx_i < vx_s.len() {
                        let #pattern = vx_i;
                        vx_i += 1;
                        #(#body)*
                    }
                }))
            }
            // x.iter().zip(x.iter().skip(1)) and the like
            syn::Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => {
                let whole = whole(&m.receiver)?;
                if whole.to_token_stream().to_string() != tail(&m.args[0])?.to_token_stream().to_string() {
                    return None;
                }
                let syn::Pat::Tuple(t) = &**pattern else { return None };
                let [one, other] = [t.elems.first()?, t.elems.iter().nth(1)?];
                let (bind_one, bind_other) = (element(one, &whole, 0), element(other, &whole, 1));
                let name = self.name();
                self.rule("pairs to loop over indices");
                let (one, other) = (bind_one(&name), bind_other(&name));
                Some(syn::parse_quote!(#label for #name in 0..vpairs(#whole.len()) { #one #other #(#body)* }))
            }
            syn::Expr::MethodCall(m) if m.method == "windows" && m.args.len() == 1 => {
                if strip(&m.args[0]).to_token_stream().to_string() != "2" || !matches!(&**pattern, syn::Pat::Ident(_)) {
                    return None;
                }
                let source = &m.receiver;
                let name = self.name();
                self.rule("pairs to loop over indices");
                Some(syn::parse_quote!(#label for #name in 0..vpairs(#source.len()) {
                    let #pattern = [#source[#name], #source[#name + 1]];
                    #(#body)*
                }))
            }
            syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && self.indices => {
                let syn::Expr::Path(source) = strip(&m.receiver) else { return None };
                let name = self.name();
                self.rule("loop over elements to loop over indices");
                Some(syn::parse_quote!(#label for #name in 0..#source.len() {
                    let #pattern = &#source[#name];
                    #(#body)*
                }))
            }
            _ => None,
        }
    }

    /// A condition on the order of two numbers.
    fn order(&mut self, e: &syn::ExprIf) -> Option<syn::Expr> {
        let parts = |e: &syn::ExprIf| match strip(&e.cond) {
            syn::Expr::Binary(b) => match b.op {
                syn::BinOp::Gt(_) => Some(((*b.left).clone(), (*b.right).clone(), true)),
                syn::BinOp::Lt(_) => Some(((*b.left).clone(), (*b.right).clone(), false)),
                _ => None,
            },
            _ => None,
        };
        let (left, right, greater) = parts(e)?;
        if !matches!(left, syn::Expr::Path(_)) || !matches!(right, syn::Expr::Path(_) | syn::Expr::Lit(_)) {
            return None;
        }
        let loops = has(&e.then_branch, false, &|e| matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_)));
        let (_, other) = e.else_branch.as_ref()?;
        if !loops {
            return None;
        }
        let one = &e.then_branch;
        let (one_name, other_name): (syn::Path, syn::Path) = if greater {
            (syn::parse_quote!(std::cmp::Ordering::Greater), syn::parse_quote!(std::cmp::Ordering::Less))
        } else {
            (syn::parse_quote!(std::cmp::Ordering::Less), syn::parse_quote!(std::cmp::Ordering::Greater))
        };
        let text = |e: &syn::Expr| e.to_token_stream().to_string();
        let nested = match &**other {
            syn::Expr::If(i) => match parts(i) {
                Some((l, r, g)) if text(&l) == text(&left) && text(&r) == text(&right) && g != greater => {
                    Some((i.then_branch.clone(), i.else_branch.as_ref().map(|e| (*e.1).clone())))
                }
                _ => None,
            },
            _ => None,
        };
        self.rule("condition on an order to match");
        Some(match nested {
            Some((two, rest)) => {
                let rest = rest.unwrap_or(syn::parse_quote!({}));
                syn::parse_quote!(match #left.cmp(&#right) { #one_name => #one #other_name => #two _ => #rest })
            }
            None => syn::parse_quote!(match #left.cmp(&#right) {
                #one_name => #one
                #other_name | std::cmp::Ordering::Equal => #other
            }),
        })
    }

    /// A match over patterns of slices.
    fn slices(&mut self, e: &syn::ExprMatch) -> Option<syn::Expr> {
        if !e.arms.iter().any(|a| matches!(&a.pat, syn::Pat::Slice(_))) {
            return None;
        }
        let mut result: Option<syn::Expr> = None;
        for arm in e.arms.iter().rev() {
            if arm.guard.is_some() {
                return None;
            }
            let body = &arm.body;
            match &arm.pat {
                syn::Pat::Wild(_) => result = Some(syn::parse_quote!({ #body })),
                syn::Pat::Slice(s) => {
                    let open = matches!(s.elems.last(), Some(syn::Pat::Rest(_)));
                    let count = s.elems.len() - open as usize;
                    let mut bindings: Vec<syn::Stmt> = vec![];
                    for (i, element) in s.elems.iter().take(count).enumerate() {
                        match element {
                            syn::Pat::Wild(_) => {}
                            syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => {
                                let name = &p.ident;
                                bindings.push(syn::parse_quote!(let #name = &vx_m[#i];));
                            }
                            _ => return None,
                        }
                    }
                    let other = result.take()?;
                    result = Some(if open {
                        syn::parse_quote!(if vx_m.len() >= #count { #(#bindings)* #body } else { #other })
                    } else {
                        syn::parse_quote!(if vx_m.len() == #count { #(#bindings)* #body } else { #other })
                    });
                }
                _ => return None,
            }
        }
        let (result, scrutinee) = (result?, &e.expr);
        self.rule("slice patterns to conditions");
        Some(syn::parse_quote!({ let vx_m = #scrutinee; #result }))
    }
}

fn collect_names(stream: proc_macro2::TokenStream, names: &mut Vec<syn::Ident>) {
    for token in stream {
        match token {
            proc_macro2::TokenTree::Ident(i) => names.push(i),
            proc_macro2::TokenTree::Group(g) => collect_names(g.stream(), names),
            _ => {}
        }
    }
}

/// `let mut x = e; while c { ..; x = e; } ..` at the end of a function as
/// `loop { let mut x = e; if !c { return ..; } .. }`.
fn primed(context: &mut Context, block: &mut syn::Block) {
    let Some(at) = block.stmts.iter().rposition(|s| matches!(s, syn::Stmt::Expr(syn::Expr::While(_), _))) else {
        return;
    };
    let Some((syn::Stmt::Expr(value, None), front)) = block.stmts[at + 1..].split_last() else { return };
    let syn::Stmt::Expr(syn::Expr::While(w), _) = &block.stmts[at] else { return };
    let Some(syn::Stmt::Local(local)) = at.checked_sub(1).map(|i| &block.stmts[i]) else { return };
    let syn::Pat::Ident(pattern) = &local.pat else { return };
    let Some(init) = local.init.as_ref().filter(|init| init.diverge.is_none()) else { return };
    let Some((syn::Stmt::Expr(syn::Expr::Assign(a), _), body)) = w.body.stmts.split_last() else { return };
    let same = is_name(&a.left, &pattern.ident)
        && a.right.to_token_stream().to_string() == init.expr.to_token_stream().to_string();
    let odd = has(&w.body, false, &|e| {
        matches!(e, syn::Expr::Break(_) | syn::Expr::Continue(_) | syn::Expr::Closure(_))
    });
    if !same || odd || w.label.is_some() || front.len() > 2 || matches!(&*w.cond, syn::Expr::Let(_)) {
        return;
    }
    let condition = &w.cond;
    let replaced: syn::Expr = syn::parse_quote!(loop {
        #local
        if !(#condition) {
            #(#front)*
            return #value;
        }
        #(#body)*
    });
    block.stmts.truncate(at - 1);
    block.stmts.push(syn::Stmt::Expr(replaced, None));
    context.report.rule("loop with its first step before it");
}

/// A loop at the end of a function that is left with a value.
fn valued(context: &mut Context, block: &mut syn::Block) {
    let Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)) = block.stmts.last_mut() else { return };
    struct Breaks(usize);
    impl VisitMut for Breaks {
        fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
            match expr {
                syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Closure(_) => return,
                syn::Expr::Break(b) if b.label.is_none() => {
                    if let Some(value) = &b.expr {
                        let value = value.clone();
                        *expr = syn::parse_quote!(return #value);
                        self.0 += 1;
                    }
                }
                _ => {}
            }
            syn::visit_mut::visit_expr_mut(self, expr);
        }
        fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    }
    let mut breaks = Breaks(0);
    breaks.visit_block_mut(&mut l.body);
    if breaks.0 > 0 {
        context.report.rule("break to return");
    }
}

/// `loop { .. break; .. }` at the end of a function, but for what follows it, as a loop that is left
/// by returning.
fn leave(context: &mut Context, block: &mut syn::Block) {
    let Some(at) = block.stmts.iter().rposition(|s| matches!(s, syn::Stmt::Expr(syn::Expr::Loop(_), _))) else { return };
    let after: Vec<syn::Stmt> = block.stmts[at + 1..].to_vec();
    let Some((syn::Stmt::Expr(value, None), front)) = after.split_last() else { return };
    let syn::Stmt::Expr(syn::Expr::Loop(l), _) = &block.stmts[at] else { return };
    let odd = has(&l.body, false, &|e| {
        matches!(e, syn::Expr::Break(b) if b.label.is_some() || b.expr.is_some()) || matches!(e, syn::Expr::Closure(_))
    });
    if l.label.is_some() || odd || front.len() > 2 {
        return;
    }
    // What follows must mean the same in the loop.
    struct Bound(Vec<syn::Ident>);
    impl VisitMut for Bound {
        fn visit_pat_ident_mut(&mut self, pattern: &mut syn::PatIdent) {
            self.0.push(pattern.ident.clone());
            syn::visit_mut::visit_pat_ident_mut(self, pattern);
        }
    }
    let mut bound = Bound(vec![]);
    bound.visit_block_mut(&mut l.body.clone());
    if bound.0.iter().any(|name| after.iter().any(|s| mentions(s, name))) {
        return;
    }
    struct Breaks<'b>(&'b [syn::Stmt], &'b syn::Expr, usize);
    impl VisitMut for Breaks<'_> {
        fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
            match expr {
                syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Closure(_) => {}
                syn::Expr::Break(_) => {
                    let (front, value) = (self.0, self.1);
                    *expr = if front.is_empty() {
                        syn::parse_quote!(return #value)
                    } else {
                        syn::parse_quote!({ #(#front)* return #value; })
                    };
                    self.2 += 1;
                }
                _ => syn::visit_mut::visit_expr_mut(self, expr),
            }
        }
        fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    }
    let mut body = l.body.clone();
    let mut breaks = Breaks(front, value, 0);
    breaks.visit_block_mut(&mut body);
    if breaks.2 == 0 || breaks.2 > 3 {
        return;
    }
    block.stmts.truncate(at);
    block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(loop #body), None));
    context.report.rule("break to return");
}

impl VisitMut for Normal<'_> {
    fn visit_block_mut(&mut self, block: &mut syn::Block) {
        let outer = std::mem::take(&mut self.field);
        let count = block.stmts.len();
        let mut statements = vec![];
        for (i, statement) in block.stmts.drain(..).enumerate() {
            match self.statement(&statement, i + 1 == count) {
                Some(more) => statements.extend(more),
                None => statements.push(statement),
            }
        }
        self.counted(&mut statements);
        self.previous(&mut statements);
        self.countdown(&mut statements);
        block.stmts = statements;
        syn::visit_mut::visit_block_mut(self, block);
        self.field = outer;
    }

    fn visit_field_value_mut(&mut self, field: &mut syn::FieldValue) {
        let outer = std::mem::take(&mut self.field);
        if let syn::Member::Named(name) = &field.member {
            self.field = Some(name.clone());
        }
        syn::visit_mut::visit_field_value_mut(self, field);
        self.field = outer;
    }

    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        let replaced = match &*expr {
            // A chain within an expression.
            syn::Expr::Try(t) => chain(&t.expr, None, true, None).and_then(|c| {
                let name = self.field.clone().unwrap_or(format_ident!("vx_v"));
                let statements = self.vector(&c, &name).filter(|_| c.fallible)?;
                Some(syn::parse_quote!({ #(#statements)* #name }))
            }),
            syn::Expr::MethodCall(_) => chain(expr, None, false, None).and_then(|c| {
                let name = self.field.clone().unwrap_or(format_ident!("vx_v"));
                let statements = self.vector(&c, &name).filter(|_| !c.fallible)?;
                Some(syn::parse_quote!({ #(#statements)* #name }))
            }),
            syn::Expr::ForLoop(e) => self.range(e),
            syn::Expr::If(e) if self.orders => self.order(e),
            syn::Expr::Match(e) => self.slices(e),
            syn::Expr::Loop(l) => match l.body.stmts.first() {
                Some(syn::Stmt::Expr(syn::Expr::If(i), _)) if i.else_branch.is_none() => {
                    let leaves = i.then_branch.stmts.len() == 1
                        && matches!(&i.then_branch.stmts[0], syn::Stmt::Expr(syn::Expr::Break(b), _)
                            if b.label.is_none() && b.expr.is_none());
                    let rest = syn::Block { brace_token: Default::default(), stmts: l.body.stmts[1..].to_vec() };
                    let others = has(&rest, true, &|e| matches!(e, syn::Expr::Break(_)))
                        || has(&rest, false, &|e| matches!(e, syn::Expr::Break(b) if b.label.is_some()));
                    if leaves && !others && !matches!(&*i.cond, syn::Expr::Let(_)) {
                        let (condition, statements, label) = (&i.cond, &rest.stmts, &l.label);
                        self.rule("loop with a break at its start to while");
                        Some(syn::parse_quote!(#label while !(#condition) { #(#statements)* }))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(replaced) = replaced {
            *expr = replaced;
        }
        syn::visit_mut::visit_expr_mut(self, expr);
    }

    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

pub fn run(context: &mut Context, key: &str, sig: &syn::Signature, block: &mut syn::Block) {
    let fallible = match &sig.output {
        syn::ReturnType::Type(_, ty) => matches!(&**ty, syn::Type::Path(p) if last(&p.path) == "Result"),
        _ => false,
    };
    let (mut elements, mut indices) = (false, false);
    // The contract is for loops that are left by returning only.
    let mut returns = false;
    if let Some(contract) = context.contracts.functions.get(key) {
        returns = contract.sites.iter().any(|((kind, _), _)| kind == "loop")
            && !contract.sites.iter().any(|((kind, name), text)| {
                (kind == "loop" && text.contains("ensures")) || kind == "post_loop" && name.parse::<usize>().is_ok()
            });
        for ((kind, _), text) in &contract.sites {
            if kind == "loop" {
                elements |= text.contains("vx_i");
                indices |= !text.contains("vx_");
            }
        }
    }
    let indices = indices && !elements;
    valued(context, block);
    if returns {
        primed(context, block);
        leave(context, block);
    }
    let orders = context.contracts.functions.get(key).is_some_and(|contract| {
        contract.sites.keys().any(|(kind, name)| kind == "loop" && name.starts_with("Greater."))
    }) && !has(block, false, &|e| matches!(e, syn::Expr::MethodCall(m) if m.method == "cmp"));
    Normal { context, fallible, elements, indices, orders, field: None, fresh: 0 }.visit_block_mut(block);
}
