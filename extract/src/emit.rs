//! Printing of token streams, with placeholders replaced by contract text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::format_ident;

#[derive(Default)]
pub struct Texts(Vec<String>);

impl Texts {
    pub fn add(&mut self, text: &str) -> syn::Ident {
        self.0.push(text.to_string());
        format_ident!("__VX_{}", self.0.len() - 1)
    }
    /// A placeholder that, as the first token of a block, is printed before the opening brace.
    pub fn add_header(&mut self, text: &str) -> syn::Ident {
        self.0.push(text.to_string());
        format_ident!("__VH_{}", self.0.len() - 1)
    }
    fn get(&self, token: &TokenTree, prefix: &str) -> Option<&str> {
        if let TokenTree::Ident(ident) = token {
            let name = ident.to_string();
            if let Some(index) = name.strip_prefix(prefix) {
                return Some(&self.0[index.parse::<usize>().unwrap()]);
            }
        }
        None
    }
}

pub fn emit(texts: &Texts, stream: TokenStream, out: &mut String) {
    let mut tokens = stream.into_iter().peekable();
    while let Some(token) = tokens.next() {
        if let Some(text) = texts.get(&token, "__VX_") {
            out.push('\n');
            out.push_str(text);
            out.push('\n');
            if matches!(tokens.peek(), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                tokens.next();
            }
            continue;
        }
        match token {
            TokenTree::Group(group) => {
                let inner = group.stream();
                match group.delimiter() {
                    Delimiter::Brace => {
                        let mut list: Vec<TokenTree> = inner.into_iter().collect();
                        while let Some(text) =
                            list.first().and_then(|t| texts.get(t, "__VH_")).map(str::to_string)
                        {
                            out.push('\n');
                            out.push_str(&text);
                            out.push('\n');
                            list.remove(0);
                            if matches!(list.first(), Some(TokenTree::Punct(p)) if p.as_char() == ';')
                            {
                                list.remove(0);
                            }
                        }
                        out.push_str("{\n");
                        emit(texts, list.into_iter().collect(), out);
                        out.push_str("\n}\n");
                    }
                    Delimiter::Parenthesis => {
                        out.push('(');
                        emit(texts, inner, out);
                        out.push_str(") ");
                    }
                    Delimiter::Bracket => {
                        out.push('[');
                        emit(texts, inner, out);
                        out.push_str("] ");
                    }
                    Delimiter::None => emit(texts, inner, out),
                }
            }
            TokenTree::Punct(punct) => {
                out.push(punct.as_char());
                if punct.as_char() == ';' {
                    out.push('\n');
                } else if punct.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Ident(ident) => {
                out.push_str(&ident.to_string());
                out.push(' ');
            }
            TokenTree::Literal(literal) => {
                out.push_str(&literal.to_string());
                out.push(' ');
            }
        }
    }
}
