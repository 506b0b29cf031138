//! Inlining of functions that have no contract of their own: a caller can only be verified against
//! a contract, so a helper without one is verified as a part of each of its callers.
use std::collections::{BTreeMap, BTreeSet};

use quote::quote;
use syn::visit_mut::VisitMut;

use crate::{impl_key, join, Context};

struct Tail {
    failed: bool,
    nested: usize,
}

/// Check that a body has no explicit return other than of an error.
impl VisitMut for Tail {
    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        match expr {
            syn::Expr::Return(r) => {
                let fine = match &r.expr {
                    Some(value) => {
                        matches!(&**value, syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")))
                    }
                    None => false,
                };
                if !fine {
                    self.failed = true;
                }
            }
            syn::Expr::Closure(_) => self.nested += 1,
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, expr);
    }
}

/// Turn the final `Ok(x)` of a body into `x`, and any other final `x` into `x?`.
pub fn unwrap_tail(expr: &syn::Expr) -> syn::Expr {
    match expr {
        syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Ok")) => {
            c.args.first().cloned().unwrap_or(syn::parse_quote!(()))
        }
        syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")) => {
            syn::parse_quote!(return #c)
        }
        syn::Expr::If(i) if i.else_branch.is_some() => {
            let mut i = i.clone();
            unwrap_block(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                **e = unwrap_tail(e);
            }
            syn::Expr::If(i)
        }
        syn::Expr::Match(m) => {
            let mut m = m.clone();
            for arm in m.arms.iter_mut() {
                *arm.body = unwrap_tail(&arm.body);
                arm.comma = Some(Default::default());
            }
            syn::Expr::Match(m)
        }
        syn::Expr::Block(b) => {
            let mut b = b.clone();
            unwrap_block(&mut b.block);
            syn::Expr::Block(b)
        }
        syn::Expr::Return(_) => expr.clone(),
        syn::Expr::Loop(l) => {
            let mut l = l.clone();
            let mut leave = Leave { label: l.label.clone().map(|l| l.name), nested: 0, returns: false, failed: false };
            leave.visit_block_mut(&mut l.body);
            if leave.failed {
                return syn::parse_quote!((#expr)?);
            }
            syn::Expr::Loop(l)
        }
        syn::Expr::Paren(p) => unwrap_tail(&p.expr),
        syn::Expr::Group(g) => unwrap_tail(&g.expr),
        // It does not get there.
        syn::Expr::Try(t) if matches!(unwrap_tail(&t.expr), syn::Expr::Return(_)) => unwrap_tail(&t.expr),
        other => syn::parse_quote!((#other)?),
    }
}

fn unwrap_block(block: &mut syn::Block) {
    if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last_mut() {
        *e = unwrap_tail(e);
    }
}

/// What leaves a final loop: its breaks with the values that `unwrap_tail` makes of them or, of
/// `returns`, its returns as breaks.
struct Leave {
    label: Option<syn::Lifetime>,
    nested: usize,
    returns: bool,
    failed: bool,
}

impl Leave {
    fn nested(&mut self, body: &mut syn::Block) {
        self.nested += 1;
        self.visit_block_mut(body);
        self.nested -= 1;
    }
}

impl VisitMut for Leave {
    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        match expr {
            syn::Expr::Closure(_) | syn::Expr::Async(_) => {}
            syn::Expr::While(e) => {
                self.visit_expr_mut(&mut e.cond);
                self.nested(&mut e.body);
            }
            syn::Expr::ForLoop(e) => {
                self.visit_expr_mut(&mut e.expr);
                self.nested(&mut e.body);
            }
            syn::Expr::Loop(e) => self.nested(&mut e.body),
            syn::Expr::Return(r) if self.returns => match &r.expr {
                Some(value) => {
                    if !error(value) {
                        match &self.label {
                            Some(label) => *expr = syn::parse_quote!(break #label #value),
                            None if self.nested == 0 => *expr = syn::parse_quote!(break #value),
                            None => self.failed = true,
                        }
                    }
                }
                None => self.failed = true,
            },
            syn::Expr::Break(b) => {
                let ours = match (&b.label, &self.label) {
                    (Some(one), Some(other)) => one == other,
                    (Some(_), None) => false,
                    (None, _) => self.nested == 0,
                };
                match &mut b.expr {
                    Some(value) if ours && !self.returns => **value = unwrap_tail(value),
                    Some(value) => self.visit_expr_mut(value),
                    None => {}
                }
            }
            _ => syn::visit_mut::visit_expr_mut(self, expr),
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// Whether a value is an error.
fn error(value: &syn::Expr) -> bool {
    matches!(value, syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")))
}

struct SelfReplacer(syn::Expr);

impl VisitMut for SelfReplacer {
    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        if matches!(expr, syn::Expr::Path(p) if p.path.is_ident("self")) {
            *expr = self.0.clone();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, expr);
    }
}

/// Names of a body that would hide those of its new surroundings, under other names.
pub struct Renamer<'n>(pub &'n BTreeSet<String>);

impl Renamer<'_> {
    fn other(&self, ident: &syn::Ident) -> Option<syn::Ident> {
        self.0.contains(&ident.to_string()).then(|| quote::format_ident!("{}_vh", ident))
    }
}

impl VisitMut for Renamer<'_> {
    fn visit_pat_ident_mut(&mut self, pattern: &mut syn::PatIdent) {
        if let Some(other) = self.other(&pattern.ident) {
            pattern.ident = other;
        }
        syn::visit_mut::visit_pat_ident_mut(self, pattern);
    }

    fn visit_expr_path_mut(&mut self, path: &mut syn::ExprPath) {
        if let Some(other) = path.path.get_ident().and_then(|ident| self.other(ident)) {
            path.path = other.into();
        }
    }

    fn visit_field_value_mut(&mut self, field: &mut syn::FieldValue) {
        field.colon_token = Some(Default::default());
        syn::visit_mut::visit_field_value_mut(self, field);
    }

    fn visit_field_pat_mut(&mut self, field: &mut syn::FieldPat) {
        if let syn::Pat::Ident(pattern) = &*field.pat {
            if field.colon_token.is_none() && self.0.contains(&pattern.ident.to_string()) {
                field.colon_token = Some(Default::default());
            }
        }
        syn::visit_mut::visit_field_pat_mut(self, field);
    }

    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// `Self` in the body of a function that becomes a part of one of another type.
struct Itself<'p>(&'p syn::Path);

impl VisitMut for Itself<'_> {
    fn visit_path_mut(&mut self, path: &mut syn::Path) {
        if path.segments.first().is_some_and(|s| s.ident == "Self") {
            let mut segments = self.0.segments.clone();
            segments.extend(path.segments.iter().skip(1).cloned());
            path.segments = segments;
        }
        syn::visit_mut::visit_path_mut(self, path);
    }
}

/// The names that a body binds.
pub struct Bound(pub BTreeSet<String>);

impl VisitMut for Bound {
    fn visit_pat_ident_mut(&mut self, pattern: &mut syn::PatIdent) {
        self.0.insert(pattern.ident.to_string());
        syn::visit_mut::visit_pat_ident_mut(self, pattern);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// The body of a function as an expression; `fallible` if it stands for a call followed by `?`.
pub fn expand(
    sig: &syn::Signature,
    body: &syn::Block,
    receiver: Option<&syn::Expr>,
    arguments: &[syn::Expr],
    fallible: bool,
    scope: &BTreeSet<String>,
) -> Option<syn::Expr> {
    let mut block = body.clone();
    let mut sig = sig.clone();
    // What the body binds, but for parameters that stand for variables of the same name.
    let mut bound = Bound(Default::default());
    bound.visit_block_mut(&mut block);
    let skipped = receiver.is_some() as usize;
    for (input, argument) in sig.inputs.iter_mut().skip(skipped).zip(arguments) {
        if let syn::FnArg::Typed(t) = input {
            let same = matches!((&*t.pat, argument), (syn::Pat::Ident(p), syn::Expr::Path(a)) if a.path.is_ident(&p.ident) && p.mutability.is_none());
            if !same {
                bound.visit_pat_mut(&mut t.pat);
            }
        }
    }
    let hidden: BTreeSet<String> =
        bound.0.into_iter().filter(|name| name != "self" && scope.contains(name)).collect();
    if !hidden.is_empty() {
        let mut renamer = Renamer(&hidden);
        renamer.visit_block_mut(&mut block);
        for input in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = input {
                renamer.visit_pat_mut(&mut t.pat);
            }
        }
    }
    let sig = &sig;
    let mut check = Tail { failed: false, nested: 0 };
    check.visit_block_mut(&mut block);
    if check.failed {
        block = structured(&block);
        check = Tail { failed: false, nested: 0 };
        check.visit_block_mut(&mut block);
        if check.failed {
            return None;
        }
    }
    if fallible {
        unwrap_block(&mut block);
    } else {
        struct Try(bool);
        impl VisitMut for Try {
            fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
                if matches!(expr, syn::Expr::Try(_) | syn::Expr::Return(_)) {
                    self.0 = true;
                }
                syn::visit_mut::visit_expr_mut(self, expr);
            }
        }
        let mut check = Try(false);
        check.visit_block_mut(&mut block);
        if check.0 {
            return None;
        }
    }
    let mut inputs: Vec<&syn::FnArg> = sig.inputs.iter().collect();
    if let Some(receiver) = receiver {
        if !matches!(inputs.first(), Some(syn::FnArg::Receiver(_))) {
            return None;
        }
        inputs.remove(0);
        SelfReplacer(receiver.clone()).visit_block_mut(&mut block);
    }
    if inputs.len() != arguments.len() {
        return None;
    }
    let generic = sig.generics.type_params().next().is_some();
    let mut patterns: Vec<syn::Pat> = vec![];
    let mut values: Vec<syn::Expr> = vec![];
    let mut types: Vec<syn::Type> = vec![];
    for (input, argument) in inputs.iter().zip(arguments) {
        match input {
            syn::FnArg::Typed(t) => {
                // A parameter that is bound to a variable of the same name needs no binding.
                if let (syn::Pat::Ident(p), syn::Expr::Path(a)) = (&*t.pat, argument) {
                    if a.path.is_ident(&p.ident) && p.mutability.is_none() {
                        continue;
                    }
                }
                patterns.push((*t.pat).clone());
                values.push(argument.clone());
                types.push((*t.ty).clone());
            }
            _ => return None,
        }
    }
    let statements = &block.stmts;
    // The arguments are evaluated in order before any parameter is bound.
    let names: Vec<syn::Ident> =
        (0..values.len()).map(|i| quote::format_ident!("vx_a{}", i)).collect();
    let mut all: Vec<syn::Stmt> = vec![];
    if values.len() == 1 {
        let (p, v, t) = (&patterns[0], &values[0], &types[0]);
        if generic || !primitive(t) {
            all.push(syn::parse_quote!(let #p = #v;));
        } else {
            all.push(syn::parse_quote!(let #p: #t = #v;));
        }
    } else {
        for ((n, v), t) in names.iter().zip(&values).zip(&types) {
            if generic || !primitive(t) {
                all.push(syn::parse_quote!(let #n = #v;));
            } else {
                all.push(syn::parse_quote!(let #n: #t = #v;));
            }
        }
        for (p, n) in patterns.iter().zip(&names) {
            all.push(syn::parse_quote!(let #p = #n;));
        }
    }
    all.extend(statements.iter().cloned());
    Some(syn::parse_quote!({ #(#all)* }))
}

/// Whether an expression is an explicit return of something other than an error.
fn returns(expr: &syn::Expr) -> Option<Option<syn::Expr>> {
    match expr {
        syn::Expr::Return(r) => Some(r.expr.as_ref().map(|e| (**e).clone())),
        syn::Expr::Block(b) if b.label.is_none() => match &b.block.stmts[..] {
            [syn::Stmt::Expr(e, _)] => returns(e),
            _ => None,
        },
        _ => None,
    }
}

/// A block whose last statement returns, with the value in place of the return.
fn returning(block: &syn::Block) -> Option<syn::Block> {
    let (last, front) = block.stmts.split_last()?;
    let syn::Stmt::Expr(last, _) = last else { return None };
    let value = returns(last)?;
    let mut stmts = front.to_vec();
    if let Some(value) = value {
        stmts.push(syn::Stmt::Expr(value, None));
    }
    Some(syn::Block { brace_token: Default::default(), stmts })
}

/// Early returns of a function as choices that the rest of the function is a branch of.
fn structured(block: &syn::Block) -> syn::Block {
    let mut out: Vec<syn::Stmt> = vec![];
    for (i, statement) in block.stmts.iter().enumerate() {
        let rest = || {
            structured(&syn::Block { brace_token: Default::default(), stmts: block.stmts[i + 1..].to_vec() })
        };
        let last = i + 1 == block.stmts.len();
        let replaced: Option<syn::Expr> = match statement {
            // if c { ..; return x; } ..
            syn::Stmt::Expr(syn::Expr::If(e), _) if e.else_branch.is_none() && !last => {
                returning(&e.then_branch).map(|then| {
                    let (condition, then, rest) = (&e.cond, structured(&then), rest());
                    syn::parse_quote!(if #condition #then else #rest)
                })
            }
            syn::Stmt::Local(local) => local.init.as_ref().and_then(|init| match (&init.diverge, &*init.expr) {
                // let p = e else { ..; return x; }; ..
                (Some((_, other)), value) => {
                    let block: syn::Block = match &**other {
                        syn::Expr::Block(b) => b.block.clone(),
                        _ => return None,
                    };
                    let (pattern, other, rest) = (&local.pat, returning(&block)?, rest());
                    Some(syn::parse_quote!(match #value { #pattern => #rest _ => #other }))
                }
                // let x = match e { p => v, q => return x }; ..
                (None, syn::Expr::Match(m)) => {
                    let leaving: Vec<bool> = m.arms.iter().map(|a| returns(&a.body).is_some()).collect();
                    if leaving.iter().filter(|l| !**l).count() != 1 {
                        return None;
                    }
                    let (pattern, rest) = (&local.pat, rest());
                    let statements = &rest.stmts;
                    let mut m = m.clone();
                    for (arm, leaves) in m.arms.iter_mut().zip(leaving) {
                        arm.comma = Some(Default::default());
                        let body = &arm.body;
                        *arm.body = if leaves {
                            match returns(body).unwrap() {
                                Some(value) => value,
                                None => syn::parse_quote!({}),
                            }
                        } else {
                            syn::parse_quote!({ let #pattern = #body; #(#statements)* })
                        };
                    }
                    Some(syn::Expr::Match(m))
                }
                _ => None,
            }),
            // A final return.
            syn::Stmt::Expr(syn::Expr::Return(r), _) if last => r.expr.as_ref().map(|e| (**e).clone()),
            _ => None,
        };
        match replaced {
            Some(expr) => {
                out.push(syn::Stmt::Expr(expr, None));
                break;
            }
            None => out.push(statement.clone()),
        }
    }
    if let Some(syn::Stmt::Expr(last, None)) = out.last_mut() {
        structure(last);
    }
    syn::Block { brace_token: Default::default(), stmts: out }
}

/// The same for the branches of a final expression.
fn structure(expr: &mut syn::Expr) {
    match expr {
        syn::Expr::If(e) if e.else_branch.is_some() => {
            e.then_branch = structured(&e.then_branch);
            structure(&mut e.else_branch.as_mut().unwrap().1);
        }
        syn::Expr::Match(m) => {
            for arm in m.arms.iter_mut() {
                arm.comma = Some(Default::default());
                structure(&mut arm.body);
            }
        }
        syn::Expr::Block(b) if b.label.is_none() => b.block = structured(&b.block),
        syn::Expr::Loop(l) => {
            let mut body = l.body.clone();
            let mut leave = Leave { label: l.label.clone().map(|l| l.name), nested: 0, returns: true, failed: false };
            leave.visit_block_mut(&mut body);
            if !leave.failed {
                l.body = body;
            }
        }
        syn::Expr::Return(r) => {
            if let Some(value) = &r.expr {
                *expr = (**value).clone();
            }
        }
        _ => {}
    }
}

#[derive(Clone)]
struct Candidate {
    /// The type that the function is of.
    this: Option<(String, syn::Path)>,
    sig: syn::Signature,
    block: syn::Block,
    method: bool,
}

struct Inliner<'c> {
    candidates: &'c BTreeMap<String, (String, Candidate)>,
    inlined: BTreeSet<String>,
    failed: Vec<String>,
    changed: bool,
    current: String,
    /// The implementation or the module of the current function.
    place: String,
    module: String,
    /// The names that are bound ahead of the place in the text.
    scope: BTreeSet<String>,
    /// The types of the fields of structures.
    fields: &'c BTreeMap<(String, String), String>,
    /// The functions whose bodies are being looked into, and the one inlined last.
    active: Vec<String>,
    last: String,
}

impl Inliner<'_> {
    fn target<'e>(&self, expr: &'e syn::Expr) -> Option<(String, Option<&'e syn::Expr>, Vec<syn::Expr>)> {
        match expr {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last()?.ident.to_string();
                    let count = p.path.segments.len();
                    let parent = if count > 1 { p.path.segments[count - 2].ident.to_string() } else { String::new() };
                    let exact = match parent.as_str() {
                        "Self" if count == 2 => Some(format!("{}::{name}", self.place)),
                        "" | "self" if count <= 2 => Some(join(&self.module, &name)),
                        _ => None,
                    };
                    let id = exact.filter(|key| self.candidates.contains_key(key)).unwrap_or(name);
                    let (_, candidate) = self.candidates.get(&id)?;
                    let arguments: Vec<_> = c.args.iter().cloned().collect();
                    if candidate.method {
                        return None;
                    }
                    return Some((id, None, arguments));
                }
                None
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let exact = format!("{}::{name}", self.place);
                let own = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                let id = if own && self.candidates.contains_key(&exact) { exact } else { name };
                let ty = self.type_of(&m.receiver);
                let fits = |candidate: &Candidate| match (&ty, &candidate.this) {
                    (Some(ty), Some((_, path))) => path.segments.last().is_some_and(|s| s.ident == ty),
                    // Many types have such a method.
                    _ => !COMMON.contains(&m.method.to_string().as_str()),
                };
                match self.candidates.get(&id) {
                    Some((_, candidate)) if candidate.method && fits(candidate) => {
                        Some((id, Some(&m.receiver), m.args.iter().cloned().collect()))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// The name of the type of an expression, if it is apparent.
    fn type_of(&self, expr: &syn::Expr) -> Option<String> {
        match expr {
            syn::Expr::Path(p) if p.path.is_ident("self") => self.place.rsplit("::").next().map(str::to_string),
            syn::Expr::Field(f) => {
                let base = self.type_of(&f.base)?;
                match &f.member {
                    syn::Member::Named(name) => self.fields.get(&(base, name.to_string())).cloned(),
                    _ => None,
                }
            }
            syn::Expr::Paren(p) => self.type_of(&p.expr),
            syn::Expr::Reference(r) => self.type_of(&r.expr),
            _ => None,
        }
    }

    fn attempt(&mut self, expr: &syn::Expr, fallible: bool) -> Option<syn::Expr> {
        let (name, receiver, arguments) = self.target(expr)?;
        let (key, candidate) = &self.candidates[&name];
        if *key == self.current {
            return None;
        }
        if self.active.contains(key) {
            // A function that calls itself.
            self.failed.push(key.clone());
            return None;
        }
        let mut block = candidate.block.clone();
        if let Some((place, path)) = &candidate.this {
            if *place != self.place {
                Itself(path).visit_block_mut(&mut block);
            }
        }
        match expand(&candidate.sig, &block, receiver, &arguments, fallible, &self.scope) {
            Some(value) => {
                self.inlined.insert(key.clone());
                self.changed = true;
                self.last = key.clone();
                Some(value)
            }
            None => {
                self.failed.push(key.clone());
                None
            }
        }
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_pat_ident_mut(&mut self, pattern: &mut syn::PatIdent) {
        self.scope.insert(pattern.ident.to_string());
        syn::visit_mut::visit_pat_ident_mut(self, pattern);
    }

    fn visit_local_mut(&mut self, local: &mut syn::Local) {
        if let Some(init) = &mut local.init {
            self.visit_local_init_mut(init);
        }
        self.visit_pat_mut(&mut local.pat);
    }

    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        if let syn::Expr::Try(t) = expr {
            if self.target(&t.expr).is_some() {
                // The arguments.
                syn::visit_mut::visit_expr_mut(self, &mut t.expr);
            }
            if let Some(value) = self.attempt(&t.expr, true) {
                *expr = value;
                self.inner(expr);
                return;
            }
        }
        // `return helper(..)` and a final `helper(..)` are handled as `helper(..)?` within `Ok`.
        if let syn::Expr::Return(r) = expr {
            if let Some(value) = &r.expr {
                let mut value = (**value).clone();
                if self.is_fallible(&value) {
                    syn::visit_mut::visit_expr_mut(self, &mut value);
                    if let Some(value) = self.attempt(&value, true) {
                        *expr = syn::parse_quote!(return Ok(#value));
                        self.inner(expr);
                        return;
                    }
                }
            }
        }
        if matches!(expr, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) {
            let mut copy = expr.clone();
            if self.target(&copy).is_some() && !self.is_fallible(&copy) {
                syn::visit_mut::visit_expr_mut(self, &mut copy);
                if let Some(value) = self.attempt(&copy, false) {
                    *expr = value;
                    self.inner(expr);
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, expr);
    }
}

impl Inliner<'_> {
    /// Look into what has been put in the place of a call.
    fn inner(&mut self, expr: &mut syn::Expr) {
        self.active.push(self.last.clone());
        syn::visit_mut::visit_expr_mut(self, expr);
        self.active.pop();
    }

    fn is_fallible(&self, expr: &syn::Expr) -> bool {
        match self.target(expr) {
            Some((name, _, _)) => {
                let (_, candidate) = &self.candidates[&name];
                match &candidate.sig.output {
                    syn::ReturnType::Type(_, ty) => {
                        let text = quote!(#ty).to_string();
                        text.starts_with("Result") || text.contains(":: Result <")
                    }
                    _ => false,
                }
            }
            None => false,
        }
    }

    fn function(&mut self, name: &str, sig: &syn::Signature, block: &mut syn::Block) {
        self.current = name.to_string();
        self.scope.clear();
        for input in sig.inputs.clone().iter_mut() {
            self.visit_fn_arg_mut(input);
        }
        self.visit_block_mut(block);
        // A final call of a helper.
        let result = match &sig.output {
            syn::ReturnType::Type(_, ty) => quote!(#ty).to_string().contains("Result"),
            _ => false,
        };
        if result {
            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last_mut() {
                let copy = e.clone();
                if self.target(&copy).is_some() && self.is_fallible(&copy) {
                    if let Some(value) = self.attempt(&copy, true) {
                        *e = syn::parse_quote!(Ok(#value));
                    }
                }
            }
        }
    }
}

fn collect(
    context: &Context,
    module: &str,
    items: &[syn::Item],
    out: &mut BTreeMap<String, (String, Candidate)>,
    ambiguous: &mut BTreeSet<String>,
) {
    let mut add = |key: String, sig: &syn::Signature, block: &syn::Block, method: bool, this: Option<(String, syn::Path)>| {
        let name = sig.ident.to_string();
        if context.contracts.functions.contains_key(&key) {
            ambiguous.insert(name);
            return;
        }
        let candidate = Candidate { this, sig: sig.clone(), block: block.clone(), method };
        // By its full name, and by its name alone where that is enough.
        out.insert(key.clone(), (key.clone(), candidate.clone()));
        if key == name {
            return;
        }
        if out.insert(name.clone(), (key, candidate)).is_some() {
            ambiguous.insert(name);
        }
    };
    let mut nested = vec![];
    for item in items {
        match item {
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    nested.push((join(module, &m.ident.to_string()), items));
                }
            }
            syn::Item::Fn(f) => {
                add(join(module, &f.sig.ident.to_string()), &f.sig, &f.block, false, None)
            }
            syn::Item::Impl(i) if i.trait_.is_none() => {
                let key = impl_key(module, i);
                let this = match &*i.self_ty {
                    syn::Type::Path(p) if p.qself.is_none() => {
                        let mut path = p.path.clone();
                        for segment in path.segments.iter_mut() {
                            segment.arguments = Default::default();
                        }
                        Some((key.clone(), path))
                    }
                    _ => None,
                };
                for item in &i.items {
                    if let syn::ImplItem::Fn(f) = item {
                        add(
                            format!("{key}::{}", f.sig.ident),
                            &f.sig,
                            &f.block,
                            f.sig.receiver().is_some(),
                            this.clone(),
                        );
                    }
                }
            }
            _ => {}
        }
    }
    for (name, items) in nested {
        collect(context, &name, items, out, ambiguous);
    }
}

fn apply(inliner: &mut Inliner, module: &str, items: &mut [syn::Item]) {
    for item in items {
        match item {
            syn::Item::Mod(m) => {
                let name = join(module, &m.ident.to_string());
                if let Some((_, items)) = &mut m.content {
                    apply(inliner, &name, items);
                }
            }
            syn::Item::Fn(f) => {
                let sig = f.sig.clone();
                inliner.module = module.to_string();
                inliner.place = module.to_string();
                inliner.function(&join(module, &sig.ident.to_string()), &sig, &mut f.block);
            }
            syn::Item::Impl(i) => {
                let key = impl_key(module, i);
                inliner.module = module.to_string();
                // Inherent functions are called through `Self` in the implementations of traits, too.
                inliner.place = join(module, &crate::type_name(&i.self_ty));
                for item in i.items.iter_mut() {
                    if let syn::ImplItem::Fn(f) = item {
                        let sig = f.sig.clone();
                        inliner.function(&format!("{key}::{}", sig.ident), &sig, &mut f.block);
                    }
                }
            }
            _ => {}
        }
    }
}

/// Methods of the types of the standard library and of the tapes.
const COMMON: &[&str] = &[
    "push", "pop", "len", "get", "take", "insert", "remove", "clear", "iter", "first", "last", "next", "read",
    "peek", "jump", "position", "take_given", "take_bytes", "kind", "map", "is_empty", "extend", "append", "drain",
    "swap", "count", "find", "skip", "min", "max", "abs", "sqrt", "into", "split_off", "truncate", "contains",
];

fn structures(items: &[syn::Item], fields: &mut BTreeMap<(String, String), String>) {
    for item in items {
        match item {
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    structures(items, fields);
                }
            }
            syn::Item::Struct(s) => {
                for field in &s.fields {
                    let Some(name) = &field.ident else { continue };
                    let ty = match &field.ty {
                        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                        syn::Type::Reference(_) => Some("&".to_string()),
                        _ => None,
                    };
                    if let Some(ty) = ty {
                        fields.insert((s.ident.to_string(), name.to_string()), ty);
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn run(context: &mut Context, items: &mut Vec<syn::Item>) {
    let mut fields = BTreeMap::new();
    structures(items, &mut fields);
    let mut all_inlined = BTreeSet::new();
    for _ in 0..4 {
        let mut candidates = BTreeMap::new();
        let mut ambiguous = BTreeSet::new();
        collect(context, "", items, &mut candidates, &mut ambiguous);
        for name in ambiguous {
            candidates.remove(&name);
        }
        let mut inliner = Inliner {
            candidates: &candidates,
            inlined: BTreeSet::new(),
            failed: vec![],
            changed: false,
            current: String::new(),
            place: String::new(),
            module: String::new(),
            scope: Default::default(),
            fields: &fields,
            active: vec![],
            last: String::new(),
        };
        apply(&mut inliner, "", items);
        all_inlined.append(&mut inliner.inlined);
        for key in inliner.failed {
            context.report.structural.push(format!("cannot inline {key}"));
        }
        if !inliner.changed {
            break;
        }
    }
    context.report.inlined = all_inlined.into_iter().collect();
    if !context.report.inlined.is_empty() {
        let count = context.report.inlined.len();
        context.report.rules.insert("helper without a contract inlined".to_string(), count);
    }
}

/// A type whose name means the same in every module.
fn primitive(ty: &syn::Type) -> bool {
    matches!(
        quote!(#ty).to_string().as_str(),
        "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "f32" | "bool"
    )
}
