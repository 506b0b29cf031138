//! The names of local variables that contracts mention.
//!
//! `names.json`, next to the contracts, lists the local variables of each function at the time the
//! contracts were written.  When a name that a contract mentions is no longer bound in the function
//! and another one is bound in its place, the contract is read with the new name.  Only the text of
//! contracts is changed, never that of the code.
use std::collections::{BTreeMap, BTreeSet};

use syn::visit::Visit;

use crate::contracts::{arm_names, Contract};
use crate::Context;

/// The local variables in their order, for each match arm and, under the empty name, outside of all.
pub type Locals = BTreeMap<String, Vec<String>>;

#[derive(Default)]
struct Collector {
    locals: Locals,
    arms: Vec<String>,
    /// What the pattern at hand belongs to: a parameter, a loop.
    kind: &'static str,
}

impl Collector {
    fn add(&mut self, name: String) {
        let text = plain(&name);
        if text.starts_with("vx_") && text != "vx_v" && !text.starts_with("vx_k") {
            return;
        }
        if text.ends_with("_vh") {
            // From a helper.
            return;
        }
        let labels = if self.arms.is_empty() { vec![String::new()] } else { self.arms.clone() };
        for label in labels {
            let list = self.locals.entry(label).or_default();
            if !list.iter().any(|other| plain(other) == plain(&name)) {
                list.push(name.clone());
            }
        }
    }
}

/// A name without its kind.
fn plain(name: &str) -> &str {
    name.split(':').next().unwrap()
}

impl<'a> Visit<'a> for Collector {
    fn visit_pat_ident(&mut self, pattern: &'a syn::PatIdent) {
        let name = pattern.ident.to_string();
        if name != "self" && !name.chars().next().is_some_and(char::is_uppercase) {
            let kind = match self.kind {
                "" if pattern.mutability.is_some() => ":mut",
                kind => kind,
            };
            self.add(name + kind);
        }
        syn::visit::visit_pat_ident(self, pattern);
    }

    fn visit_fn_arg(&mut self, argument: &'a syn::FnArg) {
        self.kind = ":parameter";
        syn::visit::visit_fn_arg(self, argument);
        self.kind = "";
    }

    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.visit_expr(&e.expr);
        self.kind = ":for";
        self.visit_pat(&e.pat);
        self.kind = "";
        self.visit_block(&e.body);
    }

    fn visit_arm(&mut self, arm: &'a syn::Arm) {
        let mut names = vec![];
        arm_names(&arm.pat, &mut names);
        // What is bound so far can be used in the arm.
        let bound = self.arms.last().and_then(|arm| self.locals.get(arm)).cloned().unwrap_or_default();
        let before = self.arms.len();
        for name in names {
            let list = self.locals.entry(name.clone()).or_default();
            let more: Vec<String> =
                bound.iter().filter(|name| !list.iter().any(|other| plain(other) == plain(name))).cloned().collect();
            list.extend(more);
            self.arms.push(name);
        }
        syn::visit::visit_arm(self, arm);
        self.arms.truncate(before);
    }

    fn visit_item(&mut self, _: &'a syn::Item) {}
}

pub fn locals(sig: &syn::Signature, block: &syn::Block) -> Locals {
    let mut collector = Collector::default();
    for input in &sig.inputs {
        collector.visit_fn_arg(input);
    }
    collector.visit_block(block);
    collector.locals
}

/// The names of the first list that are missing in the second one, with what stands in their place.
fn align(before: &[String], after: &[String], mentioned: &BTreeSet<String>) -> BTreeMap<String, String> {
    // The longest common subsequence.
    let (n, m) = (before.len(), after.len());
    let same = |one: &str, other: &str| plain(one) == plain(other);
    let mut table = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            table[i][j] = if same(&before[i], &after[j]) {
                table[i + 1][j + 1] + 1
            } else {
                table[i + 1][j].max(table[i][j + 1])
            };
        }
    }
    let mut map = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    let (mut missing, mut fresh): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let mut leftover: (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let mut segments: Vec<(Vec<&String>, Vec<&String>)> = vec![];
    loop {
        let matched = i < n && j < m && same(&before[i], &after[j]);
        if matched || (i == n && j == m) {
            if missing.len() > fresh.len() {
                // Those that the contract has no need of may be gone.
                missing.retain(|name| mentioned.contains(plain(name)));
            }
            segments.push((std::mem::take(&mut missing), std::mem::take(&mut fresh)));
            if i == n && j == m {
                break;
            }
            i += 1;
            j += 1;
        } else if j == m || (i < n && table[i + 1][j] >= table[i][j + 1]) {
            if !after.iter().any(|name| same(name, &before[i])) {
                missing.push(&before[i]);
            }
            i += 1;
        } else {
            if !before.iter().any(|name| same(name, &after[j])) {
                fresh.push(&after[j]);
            }
            j += 1;
        }
    }
    let mut pair = |missing: &mut Vec<&String>, fresh: &mut Vec<&String>, strict: bool| {
        let mut k = 0;
        while k < missing.len() {
            let kind = missing[k].strip_prefix(plain(missing[k])).unwrap();
            let found = fresh.iter().position(|name| !strict || name.strip_prefix(plain(name)).unwrap() == kind);
            match found {
                Some(at) => {
                    map.insert(plain(missing[k]).to_string(), plain(fresh[at]).to_string());
                    missing.remove(k);
                    fresh.remove(at);
                }
                None => k += 1,
            }
        }
    };
    // Those of the same kind in the same place go together first.
    for (missing, fresh) in segments.iter_mut() {
        pair(missing, fresh, true);
    }
    for (missing, fresh) in segments.iter_mut() {
        pair(missing, fresh, false);
        leftover.0.append(missing);
        leftover.1.append(fresh);
    }
    pair(&mut leftover.0, &mut leftover.1, true);
    pair(&mut leftover.0, &mut leftover.1, false);
    map
}

fn words(text: &str, words: &mut BTreeSet<String>) {
    let text = text.replace("..", " ");
    let mut member = false;
    let mut word = String::new();
    for c in text.chars().chain(" ".chars()) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            if !member {
                words.insert(word.clone());
            }
            member = false;
            word.clear();
        }
        if !c.is_whitespace() {
            member = c == '.';
        }
    }
}

/// Put other names into a text.
fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
    let characters: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < characters.len() {
        let c = characters[i];
        if c.is_alphabetic() || c == '_' {
            let start = i;
            while i < characters.len() && (characters[i].is_alphanumeric() || characters[i] == '_') {
                i += 1;
            }
            let word: String = characters[start..i].iter().collect();
            let before = characters[..start].iter().rev().find(|c| !c.is_whitespace());
            let mut rest = characters[i..].iter().filter(|c| !c.is_whitespace());
            let (next, second) = (rest.next(), rest.next());
            // A member, unless of a range.
            let member = before == Some(&'.') && !characters[..start].ends_with(&['.', '.']);
            let path = (next == Some(&':') && second == Some(&':'))
                || before == Some(&':') && characters[..start].ends_with(&[':', ':']);
            // The name of a field of a structure.
            let field = next == Some(&':') && second != Some(&':') && {
                characters[..start].iter().rev().find(|c| matches!(c, '{' | '(' | '|' | ';')) == Some(&'{')
            };
            match map.get(&word) {
                Some(name) if !member && !path && !field && !(next == Some(&'(') && name.starts_with("vx_o_")) => out.push_str(name),
                _ => out.push_str(&word),
            }
        } else if c.is_numeric() {
            while i < characters.len() && (characters[i].is_alphanumeric() || characters[i] == '_') {
                out.push(characters[i]);
                i += 1;
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn list(locals: &Locals, label: &str) -> Vec<String> {
    let mut names = locals.get("").cloned().unwrap_or_default();
    if !label.is_empty() {
        for name in locals.get(label).into_iter().flatten() {
            if !names.iter().any(|other| plain(other) == plain(name)) {
                names.push(name.clone());
            }
        }
    }
    names
}

/// Adapt a contract to the names that a function has.
pub fn adapt(context: &mut Context, key: &str, contract: &mut Contract, sig: &syn::Signature, block: &syn::Block) {
    let after = locals(sig, block);
    let id = match key.rfind("::") {
        Some(at) => format!("{}::{}", &key[..at], sig.ident),
        None => sig.ident.to_string(),
    };
    context.locals.insert(id.clone(), after.clone());
    let Some(before) = context.names.get(&id).cloned() else { return };
    if before == after {
        return;
    }
    let mut labels: BTreeSet<String> = contract
        .sites
        .keys()
        .map(|(_, name)| name.split('.').next().unwrap().to_string())
        .filter(|name| name.parse::<usize>().is_err() && name != "*")
        .collect();
    labels.insert(String::new());
    let mut renamed = false;
    for label in labels {
        let mut mentioned = BTreeSet::new();
        if label.is_empty() {
            words(&contract.spec, &mut mentioned);
            words(&contract.entry, &mut mentioned);
            words(&contract.tail, &mut mentioned);
        }
        for ((_, name), text) in &contract.sites {
            let site = name.split('.').next().unwrap();
            let site = if site.parse::<usize>().is_ok() || site == "*" { "" } else { site };
            if site == label {
                words(text, &mut mentioned);
            }
        }
        let map = align(&list(&before, &label), &list(&after, &label), &mentioned);
        if map.is_empty() {
            continue;
        }
        // What contracts themselves call by the new names is called otherwise.
        let mut map = map;
        let fresh: Vec<String> = map.values().cloned().collect();
        for name in fresh {
            map.entry(name.clone()).or_insert(format!("vx_o_{name}"));
        }
        let mut change = |text: &mut String| {
            let other = rename(text, &map);
            renamed |= other != *text;
            *text = other;
        };
        if label.is_empty() {
            change(&mut contract.spec);
            change(&mut contract.entry);
            change(&mut contract.tail);
        }
        for ((_, name), text) in contract.sites.iter_mut() {
            let site = name.split('.').next().unwrap();
            let site = if site.parse::<usize>().is_ok() || site == "*" { "" } else { site };
            if site == label {
                change(text);
            }
        }
    }
    if renamed {
        context.report.rule("contract read with other names of variables");
    }
}
