//! weave: mechanical extraction of the real code in /repo/src into one Verus crate.
//! usage: weave <repo_src_dir> <contracts_dir> <prelude.rs> <out.rs> <out.json> [--baseline FILE | --write-baseline FILE]
mod contract;
mod emit;
mod rewrite;
mod tmpl;

use contract::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub struct Diag {
    pub module: String,
    pub func: String,
    pub msg: String,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// drops what stands between `//@ if NAME` and `//@ endif` unless NAME is asked for (line numbers are kept)
fn select(text: &str, with: &std::collections::HashSet<String>) -> String {
    let mut out = String::new();
    let mut skip = false;
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("//@ if ") {
            skip = !with.contains(n.trim());
        } else if l.trim_end() == "//@ endif" {
            skip = false;
        } else if !skip {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

pub fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    out.push(a.into());
                }
                flat(g.stream(), out);
                if !b.is_empty() {
                    out.push(b.into());
                }
            }
            TokenTree::Punct(p) => out.push(p.as_char().to_string()),
            t => out.push(t.to_string()),
        }
    }
}

fn is_ident(s: &str) -> bool {
    let c = s.chars().next().unwrap_or('0');
    (c.is_alphabetic() || c == '_')
        && !matches!(
            s,
            "fn" | "let" | "mut" | "for" | "in" | "while" | "loop" | "match" | "if" | "else" | "return" | "break"
                | "continue" | "self" | "Self" | "pub" | "impl" | "as" | "ref" | "move" | "_" | "true" | "false" | "where" | "const" | "static"
        )
}

/// If `new` is `old` with identifiers consistently renamed, return the (old -> new) map.
fn rename_map(old: &[String], new: &[String]) -> Option<BTreeMap<String, String>> {
    if old.len() != new.len() {
        return None;
    }
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut r: BTreeMap<String, String> = BTreeMap::new();
    for (a, b) in old.iter().zip(new) {
        if is_ident(a) && is_ident(b) {
            if m.entry(a.clone()).or_insert_with(|| b.clone()) != b {
                return None;
            }
            if r.entry(b.clone()).or_insert_with(|| a.clone()) != a {
                return None;
            }
        } else if a != b {
            return None;
        }
    }
    m.retain(|a, b| a != b);
    Some(m)
}

pub fn apply_rename(text: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut cur = String::new();
    let flush = |cur: &mut String, out: &mut String| {
        if let Some(n) = m.get(cur.as_str()) {
            out.push_str(n);
        } else {
            out.push_str(cur);
        }
        cur.clear();
    };
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            flush(&mut cur, &mut out);
            out.push(c);
        }
    }
    flush(&mut cur, &mut out);
    out
}

struct Baseline {
    fns: BTreeMap<String, Vec<String>>,
    trust: BTreeSet<String>,
}

fn read_baseline(p: &str) -> Baseline {
    let mut fns = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(p) {
        let mut key = String::new();
        for l in s.lines() {
            if let Some(k) = l.strip_prefix("@@ ") {
                key = k.to_string();
                fns.insert(key.clone(), vec![]);
            } else if let Some(t) = l.strip_prefix("  ") {
                fns.get_mut(&key).unwrap().push(t.replace("\\n", "\n"));
            }
        }
    }
    Baseline { fns, trust: BTreeSet::new() }
}

pub struct FnInfo {
    pub module: String,
    pub name: String,
    pub kind: String, // contracted | trusted | plain
    pub changed: bool,
    pub renamed: usize,
    pub lost: Vec<String>,
    pub line: (usize, usize),
    pub notes: Vec<String>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, cdir, prelude, out_rs, out_json) = (&args[1], &args[2], &args[3], &args[4], &args[5]);
    let mut baseline = Baseline { fns: BTreeMap::new(), trust: BTreeSet::new() };
    let mut write_baseline: Option<String> = None;
    let mut only: Option<BTreeSet<String>> = None;
    let mut with: std::collections::HashSet<String> = Default::default();
    let mut trust: BTreeSet<String> = BTreeSet::new();
    let mut i = 6;
    while i < args.len() {
        match args[i].as_str() {
            "--baseline" => {
                baseline = read_baseline(&args[i + 1]);
                i += 2;
            }
            "--write-baseline" => {
                write_baseline = Some(args[i + 1].clone());
                i += 2;
            }
            "--only" => {
                only = Some(args[i + 1].split(',').map(|s| s.to_string()).collect());
                i += 2;
            }
            "--with" => {
                with = args[i + 1].split(',').map(|s| s.to_string()).collect();
                i += 2;
            }
            "--trust" => {
                trust = args[i + 1].split(',').map(|s| s.to_string()).collect();
                i += 2;
            }
            o => panic!("bad arg {}", o),
        }
    }

    let mut files: Vec<String> = std::fs::read_dir(cdir)
        .unwrap()
        .map(|e| e.unwrap().path().to_string_lossy().to_string())
        .filter(|p| p.ends_with(".vc"))
        .collect();
    files.sort();
    let mut modules: Vec<ModContract> = vec![];
    for f in &files {
        let text = select(&std::fs::read_to_string(f).unwrap(), &with);
        parse_contract(f, &text, &mut modules);
    }
    // functions the orchestrator found outside the verifier's language: their contract is assumed
    // in this run and they are reported as not proved
    for m in modules.iter_mut() {
        for (n, f) in m.fns.iter_mut() {
            if trust.contains(&format!("{}::{}", m.name, n)) {
                f.opts.push("trusted".into());
                f.opts.push("demoted".into());
            }
        }
    }
    baseline.trust = trust.clone();
    let mut em = emit::Emitter::new();
    let mut infos: Vec<FnInfo> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut new_baseline: Vec<(String, Vec<String>)> = vec![];
    let mut dropped: Vec<String> = vec![];

    em.raw("// GENERATED by /verif/weave from /repo/src -- do not edit\n");
    em.raw(&std::fs::read_to_string(prelude).unwrap());

    for m in &modules {
        if let Some(o) = &only {
            if !o.contains(&m.name) {
                continue;
            }
        }
        em.raw(&format!("\npub mod {} {{\n{}\nverus! {{\n", m.name, m.header));
        em.raw(&m.raw_top);
        if let Some(file) = &m.file {
            let path = format!("{}/{}", src, file);
            let text = match std::fs::read_to_string(&path) {
                Ok(t) => t,
                Err(e) => {
                    errors.push(format!("{}: {}", path, e));
                    em.raw("} }\n");
                    continue;
                }
            };
            let parsed = match syn::parse_file(&text) {
                Ok(f) => f,
                Err(e) => {
                    errors.push(format!("{}: parse error {}", path, e));
                    em.raw("} }\n");
                    continue;
                }
            };
            let parsed = match &m.template {
                None => parsed,
                Some(f) => {
                    let mut d = vec![];
                    let r = tmpl::driver_file(&parsed, f, &m.subst, &mut d);
                    d.sort();
                    d.dedup();
                    dropped.extend(d.into_iter().map(|x| format!("{}: interpolation {}", m.name, x)));
                    match r {
                        Ok(f) => f,
                        Err(e) => {
                            errors.push(e);
                            em.raw("} }\n");
                            continue;
                        }
                    }
                }
            };
            do_module(
                m,
                parsed,
                &mut em,
                &mut infos,
                &mut errors,
                &baseline,
                &mut new_baseline,
                &mut dropped,
            );
        }
        em.raw(&m.raw);
        em.raw("\n} // verus\n}\n");
    }
    em.raw("\nfn main() {}\n");
    std::fs::write(out_rs, &em.out).unwrap();

    if let Some(p) = write_baseline {
        let mut s = String::new();
        for (k, v) in new_baseline {
            let _ = writeln!(s, "@@ {}", k);
            for t in v {
                let _ = writeln!(s, "  {}", t.replace('\n', "\\n"));
            }
        }
        std::fs::write(p, s).unwrap();
    }

    let mut j = String::from("{\n\"functions\": [\n");
    for (k, f) in infos.iter().enumerate() {
        let _ = write!(
            j,
            "{}{{\"module\":{},\"name\":{},\"kind\":{},\"changed\":{},\"renamed\":{},\"lost\":[{}],\"notes\":[{}],\"line\":[{},{}]}}",
            if k > 0 { ",\n" } else { "" },
            jstr(&f.module),
            jstr(&f.name),
            jstr(&f.kind),
            f.changed,
            f.renamed,
            f.lost.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            f.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            f.line.0,
            f.line.1
        );
    }
    let _ = write!(
        j,
        "\n],\n\"errors\": [{}],\n\"dropped\": [{}]\n}}\n",
        errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        dropped.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
    std::fs::write(out_json, j).unwrap();
}

fn has_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => "?".into(),
    }
}

#[allow(clippy::too_many_arguments)]
fn do_module(
    m: &ModContract,
    file: syn::File,
    em: &mut emit::Emitter,
    infos: &mut Vec<FnInfo>,
    errors: &mut Vec<String>,
    baseline: &Baseline,
    new_baseline: &mut Vec<(String, Vec<String>)>,
    dropped: &mut Vec<String>,
) {
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut seen_types: BTreeSet<String> = BTreeSet::new();
    trait_facts(m, &file, errors, baseline, new_baseline);
    for item in file.items {
        match item {
            syn::Item::Struct(mut s) => {
                if has_test_cfg(&s.attrs) {
                    continue;
                }
                let n = s.ident.to_string();
                match m.types.get(&n) {
                    None => dropped.push(format!("{}::{} (type)", m.name, n)),
                    Some(tc) => {
                        seen_types.insert(n);
                        if tc.opts.iter().any(|o| o == "drop") {
                            continue;
                        }
                        emit_struct_clone(&s.attrs, &s.ident, &s.generics, em, tc);
                        if derives(&s.attrs, "Default") && !tc.opts.iter().any(|o| o == "nodefault") {
                            emit_default(&s, em);
                        }
                        s.attrs.clear();
                        s.vis = syn::parse_quote!(pub);
                        match &mut s.fields {
                            syn::Fields::Named(f) => {
                                for x in f.named.iter_mut() {
                                    x.vis = syn::parse_quote!(pub);
                                    x.attrs.clear();
                                    rewrite::rewrite_type(&mut x.ty);
                                }
                            }
                            syn::Fields::Unnamed(f) => {
                                for x in f.unnamed.iter_mut() {
                                    x.vis = syn::parse_quote!(pub);
                                    x.attrs.clear();
                                    rewrite::rewrite_type(&mut x.ty);
                                }
                            }
                            _ => {}
                        }
                        em.raw(&tc.text);
                        em.tokens(s.to_token_stream(), &[]);
                        em.raw("\n");
                    }
                }
            }
            syn::Item::Enum(mut s) => {
                if has_test_cfg(&s.attrs) {
                    continue;
                }
                let n = s.ident.to_string();
                match m.types.get(&n) {
                    None => dropped.push(format!("{}::{} (type)", m.name, n)),
                    Some(tc) => {
                        seen_types.insert(n);
                        if tc.opts.iter().any(|o| o == "drop") {
                            continue;
                        }
                        emit_struct_clone(&s.attrs, &s.ident, &s.generics, em, tc);
                        s.attrs.clear();
                        s.vis = syn::parse_quote!(pub);
                        for v in s.variants.iter_mut() {
                            v.attrs.clear();
                            for f in v.fields.iter_mut() {
                                f.attrs.clear();
                                rewrite::rewrite_type(&mut f.ty);
                            }
                        }
                        em.raw(&tc.text);
                        em.tokens(s.to_token_stream(), &[]);
                        em.raw("\n");
                    }
                }
            }
            syn::Item::Type(mut t) => {
                let n = t.ident.to_string();
                if m.types.contains_key(&n) {
                    seen_types.insert(n);
                    t.vis = syn::parse_quote!(pub);
                    em.tokens(t.to_token_stream(), &[]);
                    em.raw("\n");
                } else {
                    dropped.push(format!("{}::{} (type alias)", m.name, n));
                }
            }
            syn::Item::Fn(f) => {
                if has_test_cfg(&f.attrs) {
                    continue;
                }
                let name = f.sig.ident.to_string();
                do_fn(m, None, name, f.sig, *f.block, None, em, infos, baseline, new_baseline, dropped, &mut seen);
            }
            syn::Item::Impl(im) => {
                if has_test_cfg(&im.attrs) {
                    continue;
                }
                let tn = type_name(&im.self_ty);
                let mut is_iter = false;
                if let Some((_, tr, _)) = &im.trait_ {
                    let trn = tr.segments.last().unwrap().ident.to_string();
                    if trn == "Iterator" {
                        is_iter = true;
                    } else if trn == "Parse" {
                    } else {
                        dropped.push(format!("{}::impl {} for {}", m.name, trn, tn));
                        continue;
                    }
                }
                let mut item_ty: Option<syn::Type> = None;
                for it in &im.items {
                    if let syn::ImplItem::Type(t) = it {
                        if t.ident == "Item" {
                            item_ty = Some(t.ty.clone());
                        }
                    }
                }
                let any = im.items.iter().any(|it| {
                    if let syn::ImplItem::Method(f) = it {
                        m.fns.contains_key(&format!("{}::{}", tn, f.sig.ident)) || m.drops_all_new
                    } else {
                        false
                    }
                });
                let any_new = im.items.iter().any(|it| matches!(it, syn::ImplItem::Method(f) if m.types.contains_key(&tn) && !has_test_cfg(&f.attrs)));
                if !any && !any_new {
                    for it in &im.items {
                        if let syn::ImplItem::Method(f) = it {
                            dropped.push(format!("{}::{}::{}", m.name, tn, f.sig.ident));
                        }
                    }
                    continue;
                }
                // generics of the impl without trait bounds that have no meaning here
                let mut generics = im.generics.clone();
                strip_bounds(&mut generics);
                let (ig, _, _) = generics.split_for_impl();
                let sty = &im.self_ty;
                em.tokens(quote::quote!(impl #ig #sty), &[]);
                em.raw(" {\n");
                for it in im.items {
                    if let syn::ImplItem::Method(f) = it {
                        if has_test_cfg(&f.attrs) {
                            continue;
                        }
                        let name = format!("{}::{}", tn, f.sig.ident);
                        do_fn(
                            m,
                            Some(tn.clone()),
                            name,
                            f.sig,
                            f.block,
                            item_ty.clone(),
                            em,
                            infos,
                            baseline,
                            new_baseline,
                            dropped,
                            &mut seen,
                        );
                    }
                }
                if is_iter {
                    em.raw("pub fn v_into_iter(self) -> (r: Self) ensures r == self { self }\n");
                }
                em.raw("}\n");
            }
            _ => {}
        }
    }
    for k in m.fns.keys() {
        if !seen.contains(k) && !m.fns[k].opts.iter().any(|o| o == "template") {
            errors.push(format!("lost function {}::{}", m.name, k));
        }
    }
    for (k, t) in m.types.iter() {
        if !seen_types.contains(k) && !t.opts.iter().any(|o| o == "optional") {
            errors.push(format!("lost type {}::{}", m.name, k));
        }
    }
}

/// The traits whose derived meaning is assumed (structural copy, comparison, order, hash, default).
const TRUSTED_TRAITS: [&str; 8] = ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Default"];

/// The derived traits of every type under contract are assumptions of the proof: a type that has lost such a
/// derive, or has been given an implementation of its own, no longer has the meaning that was assumed.
fn trait_facts(
    m: &ModContract,
    file: &syn::File,
    errors: &mut Vec<String>,
    baseline: &Baseline,
    new_baseline: &mut Vec<(String, Vec<String>)>,
) {
    let mut facts: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for item in &file.items {
        match item {
            syn::Item::Struct(syn::ItemStruct { attrs, ident, .. }) | syn::Item::Enum(syn::ItemEnum { attrs, ident, .. }) => {
                let n = ident.to_string();
                if m.types.contains_key(&n) && !has_test_cfg(attrs) {
                    let e = facts.entry(n).or_default();
                    for t in TRUSTED_TRAITS {
                        if derives(attrs, t) {
                            e.insert(format!("derive {}", t));
                        }
                    }
                }
            }
            syn::Item::Impl(im) if !has_test_cfg(&im.attrs) => {
                let n = type_name(&im.self_ty);
                if let (Some((_, tr, _)), true) = (&im.trait_, m.types.contains_key(&n)) {
                    let t = tr.segments.last().unwrap().ident.to_string();
                    if TRUSTED_TRAITS.contains(&t.as_str()) || t == "Drop" || t == "Deref" || t == "DerefMut" || t == "Borrow" {
                        facts.entry(n).or_default().insert(format!("impl {}", t));
                    }
                }
            }
            _ => {}
        }
    }
    for (n, f) in facts {
        let key = format!("type {}::{}", m.name, n);
        if let Some(b) = baseline.fns.get(&key) {
            let b: BTreeSet<String> = b.iter().cloned().collect();
            for x in b.difference(&f).filter(|x| x.starts_with("derive ")) {
                errors.push(format!("assumption lost: {}::{} had {}", m.name, n, x));
            }
            for x in f.difference(&b).filter(|x| x.starts_with("impl ")) {
                errors.push(format!("assumption lost: {}::{} has its own {}", m.name, n, x));
            }
        }
        if !f.is_empty() {
            new_baseline.push((key, f.into_iter().collect()));
        }
    }
}

fn derives(attrs: &[syn::Attribute], d: &str) -> bool {
    attrs.iter().any(|a| {
        a.path.is_ident("derive")
            && a.tokens
                .to_string()
                .replace(['(', ')', ',', ' '], "|")
                .split('|')
                .any(|x| x == d)
    })
}

fn strip_bounds(g: &mut syn::Generics) {
    for p in g.params.iter_mut() {
        if let syn::GenericParam::Type(t) = p {
            let keep: Vec<syn::TypeParamBound> = t
                .bounds
                .iter()
                .filter(|b| {
                    let s = b.to_token_stream().to_string();
                    s == "Copy" || s == "Clone"
                })
                .cloned()
                .collect();
            t.bounds.clear();
            for k in keep {
                t.bounds.push(k);
            }
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
}

fn emit_struct_clone(attrs: &[syn::Attribute], id: &syn::Ident, g: &syn::Generics, em: &mut emit::Emitter, tc: &TypeContract) {
    let (ig, tg, _) = g.split_for_impl();
    let copy = derives(attrs, "Copy");
    let eq = derives(attrs, "PartialEq") && !tc.opts.iter().any(|o| o == "noeq");
    let mut d: Vec<&str> = vec![];
    if eq {
        d.extend(["Structural", "PartialEq", "Eq"]);
    }
    if derives(attrs, "Clone") && !tc.opts.iter().any(|o| o == "noclone") {
        // `derive(Clone)` is an external fact: the derived clone is structurally equal.
        let bounds = if g.type_params().count() > 0 {
            let ps: Vec<_> = g.type_params().map(|p| &p.ident).collect();
            quote::quote!(where #(#ps: Clone),*)
        } else {
            quote::quote!()
        };
        em.tokens(quote::quote!(impl #ig Clone for #id #tg #bounds), &[]);
        em.raw(" {\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }\n}\n");
        if copy {
            let ps: Vec<_> = g.type_params().map(|p| &p.ident).collect();
            let bounds = if ps.is_empty() { quote::quote!() } else { quote::quote!(where #(#ps: Copy),*) };
            em.tokens(quote::quote!(impl #ig Copy for #id #tg #bounds {}), &[]);
            em.raw("\n");
        }
    }
    if !d.is_empty() {
        em.raw(&format!("#[derive({})]\n", d.join(", ")));
    }
}

fn emit_default(s: &syn::ItemStruct, em: &mut emit::Emitter) {
    // derive(Default) expanded mechanically: each field is `VDefault::default()`
    let id = &s.ident;
    let (ig, tg, _) = s.generics.split_for_impl();
    em.tokens(quote::quote!(impl #ig VDefault for #id #tg), &[]);
    em.raw(" {\n");
    let fs: Vec<String> = s
        .fields
        .iter()
        .enumerate()
        .map(|(i, f)| f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()))
        .collect();
    em.raw("open spec fn is_default(&self) -> bool { ");
    for f in &fs {
        em.raw(&format!("self.{}.is_default() && ", f));
    }
    em.raw("true }\n");
    em.raw(&format!("fn default() -> (r: Self) {{ {} {{ ", id));
    for f in &fs {
        em.raw(&format!("{}: VDefault::default(), ", f));
    }
    em.raw("} }\n}\n");
}

#[allow(clippy::too_many_arguments)]
fn do_fn(
    m: &ModContract,
    owner: Option<String>,
    name: String,
    mut sig: syn::Signature,
    mut block: syn::Block,
    item_ty: Option<syn::Type>,
    em: &mut emit::Emitter,
    infos: &mut Vec<FnInfo>,
    baseline: &Baseline,
    new_baseline: &mut Vec<(String, Vec<String>)>,
    dropped: &mut Vec<String>,
    seen: &mut BTreeSet<String>,
) {
    rewrite::strip_noops(&mut block);
    let key = format!("{}::{}", m.name, name);
    let mut toks = vec![];
    flat(sig.to_token_stream(), &mut toks);
    flat(block.to_token_stream(), &mut toks);
    let fc = match m.fns.get(&name) {
        Some(f) => {
            if f.opts.iter().any(|o| o == "drop") {
                seen.insert(name);
                return;
            }
            f.clone()
        }
        None => {
            // a function we have no contract for
            let known = baseline.fns.contains_key(&key);
            new_baseline.push((key.clone(), toks.clone()));
            if known || m.ignore_new {
                dropped.push(key);
                return;
            }
            if baseline.fns.is_empty() {
                dropped.push(key);
                return;
            }
            // new helper: emitted without a contract, so callers learn nothing from it
            let mut f = FnContract::default();
            f.opts.push("newhelper".into());
            // one that is outside the verifier's language: its signature only
            if baseline.trust.contains(&key) {
                f.opts.push("trusted".into());
            }
            f
        }
    };
    seen.insert(name.clone());
    let mut info = FnInfo {
        module: m.name.clone(),
        name: name.clone(),
        kind: if fc.opts.iter().any(|o| o == "demoted") {
            "demoted".into()
        } else if fc.opts.iter().any(|o| o == "newhelper") {
            "newhelper".into()
        } else if fc.opts.iter().any(|o| o == "trusted") {
            "trusted".into()
        } else if fc.opts.iter().any(|o| o == "newhelper") {
            "newhelper".into()
        } else {
            "contracted".into()
        },
        changed: false,
        renamed: 0,
        lost: vec![],
        line: (0, 0),
        notes: vec![],
    };
    let mut ren = BTreeMap::new();
    if let Some(b) = baseline.fns.get(&key) {
        if b != &toks {
            info.changed = true;
            if let Some(r) = rename_map(b, &toks) {
                info.renamed = r.len();
                ren = r;
            }
        }
    }
    new_baseline.push((key, toks.clone()));
    let fc = fc.renamed(&ren);

    // signature
    strip_bounds(&mut sig.generics);
    if let Some(t) = &item_ty {
        rewrite::subst_self_item(&mut sig, t);
    }
    let mut rw = rewrite::Rewriter::new(&fc, owner);
    rw.tmpl = m.template.is_some();
    rw.quotes = m.quotes.clone();
    rw.parsers = m.fns.keys().filter_map(|k| k.strip_suffix("::parse")).map(|k| k.to_string()).collect();
    rw.rewrite_sig(&mut sig);
    if !fc.opts.iter().any(|o| o == "trusted") {
        rw.rewrite_fn_block(&mut block);
    }
    info.lost.extend(rw.lost());
    info.notes.extend(rw.notes.clone());
    let start = em.line;
    let ret = fc.ret.clone();
    for a in &fc.attrs {
        em.raw(&format!("{}\n", a));
    }
    if fc.opts.iter().any(|o| o == "trusted") {
        em.raw("#[verifier::external_body]\n");
    } else {
        em.raw("#[verifier::allow_complex_invariants]\n");
    }
    let out_ty: Option<TokenStream> = match (&fc.rettype, &sig.output) {
        (Some(t), _) => Some(t.parse().unwrap()),
        (None, syn::ReturnType::Default) => None,
        (None, syn::ReturnType::Type(_, t)) => Some(t.to_token_stream()),
    };
    sig.output = syn::ReturnType::Default;
    // where clauses go after the return type
    let wc = sig.generics.where_clause.take();
    em.raw("pub ");
    em.tokens(sig.to_token_stream(), &[]);
    if let Some(t) = out_ty {
        em.raw(" -> ");
        if let Some(r) = &ret {
            em.raw(&format!("({}: ", r));
            em.tokens(t, &[]);
            em.raw(")");
        } else {
            em.tokens(t, &[]);
        }
    }
    if let Some(w) = wc {
        em.tokens(w.to_token_stream(), &[]);
    }
    em.raw("\n");
    em.raw(&rw.expand(&fc.spec));
    em.raw("\n");
    if fc.opts.iter().any(|o| o == "trusted") {
        em.raw("{ unimplemented!() }\n");
    } else {
        let texts = rw.texts.clone();
        em.tokens(block.to_token_stream(), &texts);
        em.raw("\n");
    }
    info.line = (start, em.line);
    infos.push(info);
}
