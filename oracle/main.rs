//! Runs the derive of /repo (its unmodified modules, linked as a library) on inputs given as JSON lines
//! and reports what it returned, parsed by an independent version of syn.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;
use quote::ToTokens;

/// `__none!(tokens)` in an input stands for the invisible group a macro_rules fragment is passed as.
fn none_groups(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if id == "__none" && p.as_char() == '!' {
                out.push(TokenTree::Group(Group::new(Delimiter::None, none_groups(g.stream()))));
                i += 3;
                continue;
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            out.push(TokenTree::Group(Group::new(g.delimiter(), none_groups(g.stream()))));
        } else {
            out.push(v[i].clone());
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn s(t: impl ToTokens) -> String { t.to_token_stream().to_string() }

fn item(i: &syn3::Item) -> Value {
    use syn3::Item;
    match i {
        Item::Macro(m) => json!({"kind": "macro", "path": s(&m.mac.path), "tokens": m.mac.tokens.to_string()}),
        Item::Impl(im) => {
            let params: Vec<String> = im.generics.params.iter().map(|p| s(p)).collect();
            let wh: Vec<Value> = im.generics.where_clause.iter().flat_map(|w| w.predicates.iter()).map(|p| match p {
                syn3::WherePredicate::Type(t) => json!({"lt": t.lifetimes.as_ref().map(|l| s(l)).unwrap_or_default(), "ty": s(&t.bounded_ty), "bounds": t.bounds.iter().map(|b| s(b)).collect::<Vec<_>>()}),
                syn3::WherePredicate::Lifetime(t) => json!({"lt": "", "ty": s(&t.lifetime), "bounds": t.bounds.iter().map(|b| s(b)).collect::<Vec<_>>()}),
                other => json!({"lt": "?", "ty": s(other), "bounds": []}),
            }).collect();
            let fns: Vec<Value> = im.items.iter().map(|f| match f {
                syn3::ImplItem::Fn(f) => json!({"name": f.sig.ident.to_string(), "sig": s(&f.sig), "body": s(&f.block)}),
                o => json!({"name": "?", "sig": s(o), "body": ""}),
            }).collect();
            json!({"kind": "impl", "trait": im.trait_.as_ref().map(|t| s(&t.0)).unwrap_or_default(), "self": s(&im.self_ty), "params": params, "where": wh,
                   "fns": fns, "attrs": im.attrs.iter().map(|a| s(a)).collect::<Vec<_>>(), "unsafe": im.unsafety.is_some()})
        }
        o => json!({"kind": "other", "tokens": s(o)}),
    }
}

fn one(src: &str, full: bool) -> Value {
    let ts: TokenStream = match src.parse() { Ok(t) => t, Err(_) => return json!({"status": "unlexable"}) };
    let ts = none_groups(ts);
    if syn::parse2::<syn::DeriveInput>(ts.clone()).is_err() { return json!({"status": "unparsable"}); }
    let r = catch_unwind(AssertUnwindSafe(|| timpl::derive_error(ts)));
    let out = match r {
        Ok(o) => o,
        Err(p) => {
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            return json!({"status": "panic", "message": m});
        }
    };
    let text = out.to_string();
    // well-formedness is judged on the tokens (invisible groups kept) and on the printed text
    let file = syn3::parse2::<syn3::File>(out);
    match file {
        Ok(f) => {
            let items: Vec<Value> = f.items.iter().map(item).collect();
            json!({"status": "ok", "items": items, "text": if full { text } else { String::new() }, "printed_ok": true})
        }
        Err(e) => json!({"status": "malformed", "message": e.to_string(), "text": text}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let full = std::env::args().any(|a| a == "--text");
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let v: Value = serde_json::from_str(&line).unwrap();
        let src = v["src"].as_str().unwrap().to_string();
        let (tx, rx) = mpsc::channel();
        // announce first: an abort (stack overflow) is attributed to the announced input
        writeln!(out, "BEGIN {}", v["id"]).unwrap();
        out.flush().unwrap();
        std::thread::Builder::new().stack_size(8 << 20).spawn(move || { let _ = tx.send(one(&src, full)); }).unwrap();
        let r = match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(r) => r,
            Err(mpsc::RecvTimeoutError::Timeout) => { writeln!(out, "{}", json!({"id": v["id"], "status": "hang"})).unwrap(); out.flush().unwrap(); std::process::exit(3); }
            Err(_) => json!({"status": "panic", "message": "thread died"}),
        };
        let mut r = r;
        r["id"] = v["id"].clone();
        writeln!(out, "{}", r).unwrap();
    }
}
