//! Contract files, and the attachment of contracts to extracted functions.
//!
//! A contract file consists of directives, each starting a section that extends to the next one:
//!
//!   @mod PATH           items appended to module PATH
//!   @implitems KEY      items put first into implementation KEY
//!   @skip KEY           implementation KEY is not extracted
//!   @fn KEY             requires/ensures/decreases of function KEY
//!   @ret NAME           the name of the return value
//!   @attr TEXT          an attribute of the function
//!   @trust              the body is not verified (listed in the report)
//!   @entry              text at the start of the body
//!   @tail               text after the final expression has been computed as vx_r
//!   @loop K             invariants and measure of loop K
//!   @pre_loop K, @loop_entry K, @loop_exit K, @post_loop K
//!                       text around or inside the body of loop K
//!   @arm NAME           text at the start of the match arm NAME
//!   @arm_end NAME       text at the end of the match arm NAME (when it is a block without value)
//!   @before_return NAME text before each explicit return in the match arm NAME ("" = outside)
//!   @split NAME: A B C  verify a copy of the function for each group of match arms
//!
//! Loops are numbered within the innermost match arm whose pattern is the name of an enumerator:
//! `RLineTo.0`; outside of such arms they are numbered plainly.
use std::collections::{BTreeMap, BTreeSet};

use quote::{quote, ToTokens};
use syn::visit_mut::VisitMut;

use crate::Context;

#[derive(Clone, Default, Debug)]
pub struct Contract {
    pub spec: String,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub trust: bool,
    pub entry: String,
    pub tail: String,
    pub sites: BTreeMap<(String, String), String>,
    pub splits: Vec<(String, Vec<String>)>,
}

#[derive(Default)]
pub struct Contracts {
    pub functions: BTreeMap<String, Contract>,
    pub implementations: BTreeMap<String, String>,
    pub modules: BTreeMap<String, String>,
    pub skips: BTreeSet<String>,
    pub used: BTreeSet<String>,
    names: BTreeSet<String>,
}

impl Contracts {
    pub fn read(directory: &str) -> Self {
        let mut this = Contracts::default();
        let mut files: Vec<_> = std::fs::read_dir(directory)
            .expect("contracts")
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
            .collect();
        files.sort();
        for path in files {
            this.parse(&std::fs::read_to_string(path).unwrap());
        }
        this
    }

    fn parse(&mut self, text: &str) {
        let mut function = String::new();
        // (directive, argument, text)
        let mut sections: Vec<(String, String, String)> = vec![];
        for line in text.lines() {
            let bare = line.trim_start();
            if bare.starts_with("@") && line.starts_with('@') {
                let mut parts = bare[1..].splitn(2, ' ');
                let name = parts.next().unwrap().to_string();
                let argument = parts.next().unwrap_or("").trim().to_string();
                sections.push((name, argument, String::new()));
            } else if line.starts_with("//#") {
                continue;
            } else if let Some(last) = sections.last_mut() {
                last.2.push_str(line);
                last.2.push('\n');
            }
        }
        for (name, argument, text) in sections {
            match name.as_str() {
                "mod" => {
                    self.names.insert(format!("@mod {argument}"));
                    self.modules.entry(argument).or_default().push_str(&text);
                }
                "implitems" => {
                    for argument in argument.split(" & ") {
                        self.names.insert(format!("@implitems {argument}"));
                        self.implementations.insert(argument.to_string(), text.clone());
                    }
                }
                "skip" => {
                    self.names.insert(format!("@skip {argument}"));
                    self.skips.insert(argument);
                }
                "fn" => {
                    self.names.insert(format!("@fn {argument}"));
                    function = argument.clone();
                    self.functions.entry(argument).or_default().spec = text;
                }
                _ => {
                    let contract = self.functions.get_mut(&function).expect("a function");
                    match name.as_str() {
                        "ret" => {
                            contract.ret = Some(argument);
                            contract.spec.push_str(&text);
                        }
                        "attr" => contract.attrs.push(argument),
                        "trust" => contract.trust = true,
                        "entry" => contract.entry.push_str(&text),
                        "tail" => contract.tail.push_str(&text),
                        "split" => {
                            let (group, arms) = argument.split_once(':').expect("a group");
                            contract.splits.push((
                                group.trim().to_string(),
                                arms.split_whitespace().map(str::to_string).collect(),
                            ));
                        }
                        "loop" | "pre_loop" | "loop_entry" | "loop_exit" | "post_loop" | "arm"
                        | "arm_end" | "before_return" => {
                            for argument in argument.split(',') {
                                contract
                                    .sites
                                    .entry((name.clone(), argument.trim().to_string()))
                                    .or_default()
                                    .push_str(&text);
                            }
                        }
                        other => panic!("unknown directive {other}"),
                    }
                }
            }
        }
    }

    pub fn unused(&self) -> Vec<String> {
        self.names.iter().filter(|n| !self.used.contains(*n)).cloned().collect()
    }
}

/// The name of the enumerator in a pattern.
pub fn arm_names(pattern: &syn::Pat, names: &mut Vec<String>) {
    match pattern {
        syn::Pat::Ident(p) if p.subpat.is_none() => {
            let name = p.ident.to_string();
            if name.chars().next().map(char::is_uppercase).unwrap_or(false) {
                names.push(name);
            }
        }
        syn::Pat::Path(p) => {
            let name = p.path.segments.last().unwrap().ident.to_string();
            if !matches!(name.as_str(), "None") {
                names.push(name);
            }
        }
        syn::Pat::Or(p) => p.cases.iter().for_each(|p| arm_names(p, names)),
        syn::Pat::Paren(p) => arm_names(&p.pat, names),
        _ => {}
    }
}

/// Keep the match arms of a group and end all others.
pub struct Pruner<'c> {
    pub names: &'c [String],
    pub all: &'c [String],
    pub first: bool,
    pub pruned: usize,
    pub kept: usize,
}

impl VisitMut for Pruner<'_> {
    fn visit_expr_match_mut(&mut self, expr: &mut syn::ExprMatch) {
        let names_of = |arm: &syn::Arm| {
            let mut names = vec![];
            arm_names(&arm.pat, &mut names);
            names
        };
        if expr.arms.iter().any(|arm| names_of(arm).iter().any(|name| self.all.contains(name))) {
            for arm in expr.arms.iter_mut() {
                let names = names_of(arm);
                // An operator of no group is kept in the first one, and an arm for all operators
                // in all of them.
                let keep = names.is_empty()
                    || names.iter().any(|name| self.names.contains(name))
                    || (self.first && !names.iter().all(|name| self.all.contains(name)));
                if keep {
                    self.kept += 1;
                } else {
                    self.pruned += 1;
                    *arm.body = syn::parse_quote!({ vother() });
                }
            }
        } else {
            syn::visit_mut::visit_expr_match_mut(self, expr);
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// Whether an arm belongs to another copy of the function.
fn is_other(body: &syn::Expr) -> bool {
    match body {
        syn::Expr::Block(b) => match &b.block.stmts[..] {
            [syn::Stmt::Expr(e, None)] => e.to_token_stream().to_string() == "vother ()",
            _ => false,
        },
        _ => false,
    }
}

struct Attacher<'c> {
    context: &'c mut Context,
    key: String,
    contract: Contract,
    arms: Vec<Vec<String>>,
    counts: BTreeMap<String, usize>,
    used: BTreeSet<(String, String)>,
    nested: usize,
    named: bool,
}

fn verbatim(id: &syn::Ident) -> syn::Stmt {
    syn::Stmt::Expr(syn::Expr::Verbatim(quote!(#id)), Some(Default::default()))
}

impl Attacher<'_> {
    /// The text for a site; the site of an arm with several names may be given under any of them.
    fn lookup(&mut self, kind: &str, names: &[String]) -> Option<String> {
        let mut found = None;
        for name in names {
            let key = (kind.to_string(), name.clone());
            if let Some(text) = self.contract.sites.get(&key) {
                match &found {
                    None => found = Some(text.clone()),
                    Some(other) if other == text => {}
                    _ => self
                        .context
                        .report
                        .structural
                        .push(format!("{}: different texts for @{kind} {}", self.key, names.join(" "))),
                }
                self.used.insert(key);
            }
        }
        found
    }

    fn add(&mut self, text: &str) -> syn::Stmt {
        verbatim(&self.context.texts.add(text))
    }

    fn loop_names(&mut self) -> Vec<String> {
        let arms = self.arms.last().cloned().unwrap_or_default();
        let label = arms.first().cloned().unwrap_or_default();
        let count = self.counts.entry(label).or_insert(0);
        let index = *count;
        *count += 1;
        self.context.report.loops += 1;
        if arms.is_empty() {
            vec![index.to_string()]
        } else {
            arms.iter().map(|name| format!("{name}.{index}")).collect()
        }
    }

    /// Put the text of a loop into its body, and tell whether it says what holds after a break.
    fn body(&mut self, names: &[String], body: &mut syn::Block) -> bool {
        let mut statements = vec![];
        let mut complex = false;
        if let Some(text) = self.lookup("loop", names) {
            complex = text.contains("invariant_except_break") || text.contains("ensures");
            let id = self.context.texts.add_header(&text);
            statements.push(verbatim(&id));
        } else if !self.contract.trust {
            self.context
                .report
                .structural
                .push(format!("{}: loop {} has no invariant", self.key, names[0]));
        }
        if let Some(text) = self.lookup("loop_entry", names) {
            statements.push(self.add(&text));
        }
        statements.append(&mut body.stmts);
        if let Some(text) = self.lookup("loop_exit", names) {
            if let Some(syn::Stmt::Expr(e, semicolon @ None)) = statements.last_mut() {
                if !matches!(e, syn::Expr::Verbatim(_)) {
                    *semicolon = Some(Default::default());
                }
            }
            statements.push(self.add(&text));
        }
        body.stmts = statements;
        complex
    }

    fn around(&mut self, names: &[String], expr: &mut syn::Expr) {
        let pre = self.lookup("pre_loop", names);
        let post = self.lookup("post_loop", names);
        if pre.is_some() || post.is_some() {
            let mut statements: Vec<syn::Stmt> = vec![];
            if let Some(text) = pre {
                statements.push(self.add(&text));
            }
            statements.push(syn::Stmt::Expr(expr.clone(), Some(Default::default())));
            if let Some(text) = post {
                statements.push(self.add(&text));
            }
            *expr = syn::parse_quote!({ #(#statements)* });
        }
    }
}

impl VisitMut for Attacher<'_> {
    fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
        match expr {
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) => {
                let names = self.loop_names();
                self.nested += 1;
                syn::visit_mut::visit_expr_mut(self, expr);
                self.nested -= 1;
                let (attrs, body) = match expr {
                    syn::Expr::ForLoop(e) => (&mut e.attrs, &mut e.body),
                    syn::Expr::While(e) => (&mut e.attrs, &mut e.body),
                    syn::Expr::Loop(e) => (&mut e.attrs, &mut e.body),
                    _ => unreachable!(),
                };
                if self.body(&names, body) {
                    attrs.push(syn::parse_quote!(#[verifier::allow_complex_invariants]));
                }
                self.around(&names, expr);
            }
            syn::Expr::Return(_) => {
                syn::visit_mut::visit_expr_mut(self, expr);
                let mut names = self.arms.last().cloned().unwrap_or_default();
                if names.is_empty() {
                    names.push(String::new());
                }
                let value = match expr {
                    syn::Expr::Return(e) => e.expr.clone(),
                    _ => None,
                };
                if let Some(value) = value {
                    if let syn::Expr::Call(call) = &*value {
                        if call.func.to_token_stream().to_string() == "Err" {
                            return;
                        }
                    }
                    if let Some(text) = self.lookup("before_return", &names) {
                        let proof = self.add(&text);
                        *expr = syn::parse_quote!({ let vx_r = #value; #proof return vx_r; });
                    }
                }
            }
            _ => syn::visit_mut::visit_expr_mut(self, expr),
        }
    }

    fn visit_expr_match_mut(&mut self, expr: &mut syn::ExprMatch) {
        let before = self.named;
        self.named = expr.arms.iter().any(|arm| {
            let mut names = vec![];
            arm_names(&arm.pat, &mut names);
            !names.is_empty()
        });
        syn::visit_mut::visit_expr_match_mut(self, expr);
        self.named = before;
    }

    fn visit_arm_mut(&mut self, arm: &mut syn::Arm) {
        let mut names = vec![];
        arm_names(&arm.pat, &mut names);
        if is_other(&arm.body) {
            return;
        }
        if names.is_empty() && self.named {
            // The arm for all other enumerators.
            names.push("_".to_string());
        }
        if names.is_empty() {
            syn::visit_mut::visit_arm_mut(self, arm);
            return;
        }
        self.arms.push(names.clone());
        syn::visit_mut::visit_arm_mut(self, arm);
        self.arms.pop();
        // "*" stands for all arms of the function's own matches over enumerators.
        let all = if self.arms.is_empty() { vec!["*".to_string()] } else { vec![] };
        let both = |one: Option<String>, other: Option<String>| match (one, other) {
            (Some(one), Some(other)) => Some(one + &other),
            (one, other) => one.or(other),
        };
        // What has been attached to an arm is not attached to the arms of a match within it again.
        let names: Vec<String> = names
            .into_iter()
            .filter(|name| !self.arms.iter().any(|arms| arms.contains(name)))
            .collect();
        let start = both(self.lookup("arm", &all), self.lookup("arm", &names));
        let end = both(self.lookup("arm_end", &names), self.lookup("arm_end", &all));
        let marker = format!("//@arm {} {}", self.key, names.join(" "));
        let mark = self.contract.spec.len() > 0 && self.arms.is_empty();
        if start.is_some() || end.is_some() || (mark && matches!(&*arm.body, syn::Expr::Block(_))) {
            let mut statements = vec![];
            if mark {
                statements.push(self.add(&marker));
            }
            if let Some(text) = start {
                statements.push(self.add(&text));
            }
            let body = &arm.body;
            if end.is_none() {
                statements.push(syn::Stmt::Expr((**body).clone(), None));
            } else {
                statements.push(syn::Stmt::Expr((**body).clone(), Some(Default::default())));
                statements.push(self.add(&end.unwrap()));
            }
            *arm.body = syn::parse_quote!({ #(#statements)* });
        }
    }

    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

pub fn attach(
    context: &mut Context,
    key: &str,
    contract: &Contract,
    attrs: &mut Vec<syn::Attribute>,
    sig: &mut syn::Signature,
    block: &mut syn::Block,
) {
    for text in &contract.attrs {
        let tokens: proc_macro2::TokenStream = text.parse().expect("attribute tokens");
        attrs.push(syn::parse_quote!(#[#tokens]));
    }
    if contract.trust {
        attrs.push(syn::parse_quote!(#[verifier::external_body]));
    }
    let mut attacher = Attacher {
        context,
        key: key.to_string(),
        contract: contract.clone(),
        arms: vec![],
        counts: Default::default(),
        used: Default::default(),
        nested: 0,
        named: false,
    };
    if !contract.trust {
        attacher.visit_block_mut(block);
    }
    let mut used = std::mem::take(&mut attacher.used);
    if !contract.splits.is_empty() {
        let sites = context.report.split_sites.entry(key.to_string()).or_default();
        sites.append(&mut used);
        used = sites.clone();
    }
    // The original of a split function comes after its copies.
    let last = contract.splits.is_empty() || contract.trust;
    let selected = std::env::var("EXTRACT_GROUPS").ok();
    let expected = |site: &str| match &selected {
        Some(selected) if !contract.splits.is_empty() => {
            // Only some of the groups are verified in this run.
            let arm = site.split('.').next().unwrap();
            contract.splits.iter().any(|(group, names)| {
                selected.split(',').any(|g| g == group) && names.iter().any(|name| name == arm)
            })
        }
        _ => true,
    };
    for site in contract.sites.keys().filter(|site| expected(&site.1)) {
        if !used.contains(site) && last && (!contract.trust || !contract.splits.is_empty()) {
            context.report.structural.push(format!("{key}: no site for @{} {}", site.0, site.1));
        }
    }
    if contract.ret.is_some() {
        let name = contract.ret.clone().unwrap();
        let mut text = String::new();
        match &sig.output {
            syn::ReturnType::Default => {}
            syn::ReturnType::Type(_, ty) => {
                crate::emit::emit(&context.texts, ty.to_token_stream(), &mut text);
                let id = context.texts.add(&format!("({name}: {})", text.trim()));
                sig.output = syn::parse_quote!(-> #id);
            }
        }
    }
    let mut statements = vec![];
    let header = format!("//@fn {key}\n{}", contract.spec);
    statements.push(verbatim(&context.texts.add_header(&header)));
    if Bits::within(block) {
        statements.push(verbatim(&context.texts.add("broadcast use crate::std_model::group_bits;")));
    }
    if !contract.entry.is_empty() {
        statements.push(verbatim(&context.texts.add(&contract.entry)));
    }
    statements.append(&mut block.stmts);
    if !contract.tail.is_empty() {
        if let Some(syn::Stmt::Expr(expr, None)) = statements.last() {
            let expr = expr.clone();
            statements.pop();
            statements.push(syn::parse_quote!(let vx_r = #expr;));
            statements.push(verbatim(&context.texts.add(&contract.tail)));
            statements.push(syn::Stmt::Expr(syn::parse_quote!(vx_r), None));
        } else {
            statements.push(verbatim(&context.texts.add(&contract.tail)));
        }
    }
    block.stmts = statements;
}

/// Whether there are shifts or masks, for which the solver is given their meaning in arithmetic.
struct Bits(bool);

impl Bits {
    fn within(block: &syn::Block) -> bool {
        let mut bits = Bits(false);
        syn::visit::Visit::visit_block(&mut bits, block);
        bits.0
    }
}

impl<'ast> syn::visit::Visit<'ast> for Bits {
    fn visit_bin_op(&mut self, op: &'ast syn::BinOp) {
        use syn::BinOp::*;
        self.0 |= matches!(
            op,
            Shl(_) | Shr(_) | BitAnd(_) | BitOr(_) | ShlAssign(_) | ShrAssign(_) | BitAndAssign(_) | BitOrAssign(_)
        );
    }
}
