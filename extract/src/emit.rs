//! Prints the extracted crate, weaving in the sidecar contracts.
use std::collections::BTreeMap;
use std::fmt::Write as _;

use proc_macro2::{Delimiter, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::visit_mut::VisitMut;
use syn::{
    parse_quote, Block, FnArg, GenericParam, Generics, ImplItem, Item, ItemImpl, Pat, ReturnType,
    Signature, Stmt, TraitItem, Type, TypeParamBound, WherePredicate,
};

use crate::rewrite::{flat, Rewriter};
use crate::spec::{Entry, Specs};

struct FnInfo {
    key: String,
    start: usize,
    end: usize,
    contracted: bool,
    degraded: bool,
    loops: usize,
    loop_forms: Vec<String>,
    sig: String,
    spec_loops: usize,
    rules: Vec<&'static str>,
    calls: Vec<String>,
    /// closures left after rewriting
    closures: usize,
    external: bool,
}

pub struct Emitter {
    specs: Specs,
    degraded: Vec<String>,
    out: String,
    line: usize,
    fns: Vec<FnInfo>,
    dropped: Vec<String>,
    copy_types: Vec<String>,
    any_copy: Vec<String>,
    root_traits: Vec<String>,
    debug_types: Vec<String>,
    defaults: BTreeMap<String, Vec<syn::TraitItemFn>>,
    /// string literals in the initialisers of constants
    const_strings: BTreeMap<String, Vec<String>>,
    pub canary: bool,
}

/// Text of a type, without spaces and lifetimes.
fn key_of(t: impl ToTokens) -> String {
    fn go(ts: TokenStream, out: &mut String) {
        let mut skip_ident = false;
        for t in ts {
            match t {
                TokenTree::Punct(p) if p.as_char() == '\'' => skip_ident = true,
                TokenTree::Ident(_) if skip_ident => skip_ident = false,
                TokenTree::Ident(i) => {
                    if out.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                        out.push(' ');
                    }
                    out.push_str(&i.to_string());
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    go(g.stream(), out);
                    out.push_str(b);
                }
                t => out.push_str(&t.to_string()),
            }
        }
    }
    let mut s = String::new();
    go(t.to_token_stream(), &mut s);
    s
}

fn trait_key(p: &syn::Path) -> String {
    key_of(p.segments.last().unwrap())
}

fn head(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => key_of(t),
    }
}

fn bound_is_nominal(b: &TypeParamBound) -> bool {
    match b {
        TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            n == "Nominal" || n == "UnsignedInteger"
        }
        _ => false,
    }
}

fn nominal_params(g: &Generics, out: &mut Vec<String>) {
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            if t.bounds.iter().any(bound_is_nominal) {
                out.push(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if t.bounds.iter().any(bound_is_nominal) {
                    out.push(key_of(&t.bounded_ty));
                }
            }
        }
    }
    out.sort();
    out.dedup();
}

fn is_derived(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

impl Emitter {
    pub fn new(specs: Specs, degraded: Vec<String>) -> Self {
        Self {
            canary: false,
            specs,
            degraded,
            out: String::new(),
            line: 1,
            fns: Vec::new(),
            dropped: Vec::new(),
            copy_types: Vec::new(),
            any_copy: Vec::new(),
            root_traits: Vec::new(),
            debug_types: Vec::new(),
            defaults: BTreeMap::new(),
            const_strings: BTreeMap::new(),
        }
    }

    pub fn text(&self) -> &str {
        &self.out
    }

    pub fn map_json(&self) -> String {
        fn q(s: &str) -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        fn list<S: AsRef<str>>(v: &[S]) -> String {
            let v: Vec<String> = v.iter().map(|s| q(s.as_ref())).collect();
            format!("[{}]", v.join(","))
        }
        let mut s = String::from("{\n\"functions\": [\n");
        for (i, f) in self.fns.iter().enumerate() {
            if i > 0 {
                s.push_str(",\n");
            }
            write!(
                s,
                "{{\"key\":{},\"start\":{},\"end\":{},\"contracted\":{},\"degraded\":{},\"external\":{},\"loops\":{},\"loop_forms\":{},\"spec_loops\":{},\"sig\":{},\"rules\":{},\"closures\":{},\"calls\":{}}}",
                q(&f.key), f.start, f.end, f.contracted, f.degraded, f.external, f.loops, q(&f.loop_forms.join(" ")), f.spec_loops, q(&f.sig),
                list(&f.rules), f.closures, list(&f.calls)
            )
            .unwrap();
        }
        write!(
            s,
            "\n],\n\"dropped\": {},\n\"unused_specs\": {}\n}}\n",
            list(&self.dropped),
            list(&self.specs.unused())
        )
        .unwrap();
        s
    }

    fn raw(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }

    fn nl(&mut self) {
        if !self.out.ends_with('\n') {
            self.raw("\n");
        }
    }

    fn toks(&mut self, ts: impl ToTokens) {
        self.ts(ts.to_token_stream(), None, "");
    }

    /// Prints tokens; loop markers are replaced by the loop contracts of `e`.
    fn ts(&mut self, ts: TokenStream, e: Option<&Entry>, subst: &str) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '#' => {
                    let next_is_bracket = |j: usize| {
                        matches!(v.get(j), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket)
                    };
                    if next_is_bracket(i + 1) {
                        i += 2;
                        continue;
                    }
                    if matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '!')
                        && next_is_bracket(i + 2)
                    {
                        i += 3;
                        continue;
                    }
                    self.raw("#");
                }
                TokenTree::Ident(id) if marker(&v, i).is_some() => {
                    let k = marker(&v, i).unwrap();
                    let name = match id.to_string().as_str() {
                        "__vle" => format!("loopend {k}"),
                        "__vlh" => format!("loophead {k}"),
                        "__vla" => format!("loopafter {k}"),
                        "__vbr" => format!("break {k}"),
                        "__vend" => "end".to_string(),
                        _ => String::new(),
                    };
                    if let Some(t) = e.and_then(|e| e.sections.get(&name)) {
                        self.nl();
                        let t = expand(t, subst);
                        self.raw(&t);
                        self.nl();
                    }
                    i += 4;
                    continue;
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if a == "{" {
                        if matches!(inner.first(), Some(TokenTree::Ident(i)) if i == "__vinv") {
                            if let Some(k) = marker(&inner, 0) {
                                self.nl();
                                if let Some(t) =
                                    e.and_then(|e| e.sections.get(&format!("loop {k}")))
                                {
                                    let t = expand(t, subst);
                                    self.raw(&t);
                                }
                                self.nl();
                                self.raw("{\n");
                                if let Some(t) =
                                    e.and_then(|e| e.sections.get(&format!("loopstart {k}")))
                                {
                                    let t = expand(t, subst);
                                    self.raw(&t);
                                }
                                self.ts(inner.into_iter().skip(4).collect(), e, subst);
                                self.nl();
                                self.raw("}\n");
                                i += 1;
                                continue;
                            }
                        }
                        self.raw("{\n");
                        self.ts(g.stream(), e, subst);
                        self.nl();
                        self.raw("}");
                        // keep `} , ` / `} else` / `})` on sensible lines
                        self.raw(" ");
                    } else {
                        self.raw(a);
                        self.ts(g.stream(), e, subst);
                        self.raw(b);
                        self.raw(" ");
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.raw(&c.to_string());
                    if c == ';' {
                        self.raw("\n");
                    } else if p.spacing() == Spacing::Alone {
                        self.raw(" ");
                    }
                }
                t => {
                    let t = t.to_string();
                    self.raw(&t);
                    self.raw(" ");
                }
            }
            i += 1;
        }
    }

    pub fn file(&mut self, f: &syn::File) {
        self.raw("#![allow(warnings)]\n#![feature(allocator_api)]\n#![feature(sized_hierarchy)]\nextern crate alloc;\nuse vstd::prelude::*;\nverus! {\nuse crate::vfw::*;\n");
        self.raw("pub mod vfw {\n");
        let p = self.specs.prelude.clone();
        self.raw(&p);
        self.nl();
        self.raw("}\n");
        self.scan_copy(&f.items);
        self.scan_defaults(&f.items, "crate");
        for _ in 0..3 {
            self.scan_constants(&f.items);
        }
        self.items(&f.items, "crate");
        let t = self.specs.all("mod", "crate");
        self.raw(&t);
        self.nl();
        self.raw("} // verus!\nfn main() {}\n");
    }

    fn scan_constants(&mut self, items: &[Item]) {
        for it in items {
            let (name, init) = match it {
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.scan_constants(items);
                    }
                    continue;
                }
                Item::Const(c) if c.ident != "_" => (c.ident.to_string(), &c.expr),
                Item::Static(c) => (c.ident.to_string(), &c.expr),
                _ => continue,
            };
            let mut rw = Rewriter::default();
            let mut e = (**init).clone();
            rw.visit_expr_mut(&mut e);
            let mut strings = rw.strings;
            self.strings_of_constants(&e.to_token_stream(), &mut strings);
            if !strings.is_empty() {
                self.const_strings.insert(name, strings);
            }
        }
    }

    fn scan_copy(&mut self, items: &[Item]) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.scan_copy(items);
                    }
                }
                Item::Impl(i) if is_derived(&i.attrs) => {
                    if let Some((_, p, _)) = &i.trait_ {
                        if p.segments.last().unwrap().ident == "Copy" {
                            if i.generics.params.is_empty() {
                                self.copy_types.push(head(&i.self_ty));
                            }
                            self.any_copy.push(head(&i.self_ty));
                        }
                        if p.segments.last().unwrap().ident == "Debug" {
                            self.debug_types.push(head(&i.self_ty));
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn scan_defaults(&mut self, items: &[Item], module: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    let name = m.ident.to_string();
                    let path = if module == "crate" {
                        name
                    } else {
                        format!("{module}::{name}")
                    };
                    if let Some((_, items)) = &m.content {
                        self.scan_defaults(items, &path);
                    }
                }
                Item::Trait(t) => {
                    let mut v = vec![];
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            let key = format!("{module}::{}::{}", t.ident, f.sig.ident);
                            if f.default.is_some()
                                && self.specs.find("copydefault", &key).is_some()
                            {
                                v.push(f.clone());
                            }
                        }
                    }
                    self.defaults.insert(t.ident.to_string(), v);
                    if module == "crate" {
                        self.root_traits.push(t.ident.to_string());
                    }
                }
                _ => {}
            }
        }
    }

    /// Is this a method of a trait whose default is verified as a free function?
    fn free_default(&self, impl_key: &str, method: &str) -> bool {
        self.specs.entries.iter().any(|e| {
            e.kind == "freedefault" && {
                let v: Vec<&str> = e.pattern.split("::").collect();
                let n = v.len();
                v[n - 1] == method && impl_key.contains(&format!(" as {}", v[n - 2]))
            }
        })
    }

    fn derives(&mut self, name: &str) {
        let name = name.to_string();
        if self.copy_types.contains(&name) {
            self.raw("#[derive(Clone, Copy)]\n");
        }
        if self.any_copy.contains(&name) && self.debug_types.contains(&name) {
            self.raw("#[derive(Debug)]\n");
        }
    }

    fn items(&mut self, items: &[Item], module: &str) {
        for it in items {
            self.item(it, module);
            self.nl();
        }
    }

    fn drop_item(&mut self, what: String) {
        self.dropped.push(what);
    }

    fn item(&mut self, it: &Item, module: &str) {
        match it {
            Item::Mod(m) => {
                let name = m.ident.to_string();
                let path = if module == "crate" {
                    name.clone()
                } else {
                    format!("{module}::{name}")
                };
                if self.specs.find("drop", &path).is_some() {
                    self.drop_item(path);
                    return;
                }
                let Some((_, items)) = &m.content else { return };
                self.raw(&format!("pub mod {name} {{\nuse crate::vfw::*;\nuse vstd::prelude::*;\nbroadcast use crate::vfw::bits;\n"));
                for t in self.root_traits.clone() {
                    self.raw(&format!("use crate::{t} as _;\n"));
                }
                self.items(items, &path);
                let t = self.specs.all("mod", &path);
                self.raw(&t);
                self.nl();
                self.raw("}\n");
            }
            Item::Use(u) => {
                let s = flat(&u.tree);
                if s.contains("fmt::") || s.contains("MaybeUninit") || s.contains("prelude::") {
                    self.drop_item(format!("{module}: use {s}"));
                    return;
                }
                let (vis, tree) = (&u.vis, &u.tree);
                self.toks(quote!(#vis use #tree;));
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                // a type invariant needs the fields as private as they are
                let private = self.specs.find("private", &format!("{module}::{}", s.ident)).is_some();
                for f in &mut s.fields {
                    if !private {
                        f.vis = parse_quote!(pub);
                    }
                    f.attrs.clear();
                    Rewriter::default().visit_type_mut(&mut f.ty);
                }
                self.derives(&s.ident.to_string());
                self.toks(s);
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in &mut s.variants {
                    v.attrs.clear();
                    for f in &mut v.fields {
                        f.attrs.clear();
                    }
                }
                self.derives(&s.ident.to_string());
                self.toks(s);
            }
            Item::Const(c) if c.ident == "_" => self.const_block(&c.expr, module),
            Item::Const(c) => self.constant("const", &c.ident, &c.ty, &c.expr, module),
            Item::Static(c) => self.constant("static", &c.ident, &c.ty, &c.expr, module),
            Item::Fn(f) => {
                let key = format!("{module}::{}", f.sig.ident);
                if self.specs.find("drop", &key).is_some() {
                    self.drop_item(key);
                    return;
                }
                self.function(&key, true, &f.sig, Some(&f.block), &[], &[], "");
            }
            Item::Trait(t) => self.trait_item(t, module),
            Item::Impl(i) => self.impl_item(i, module, &[]),
            Item::Macro(m) => {
                let n = m.ident.as_ref().map_or(String::new(), ToString::to_string);
                self.drop_item(format!("{module}: macro {n}"));
            }
            Item::ExternCrate(_) => {}
            other => self.drop_item(format!("{module}: {}", flat(other))),
        }
    }

    fn constant(&mut self, kind: &str, name: &Ident, ty: &Type, init: &syn::Expr, module: &str) {
        let key = format!("{module}::{name}");
        let n = name.to_string();
        let short = n.rsplit("__").next().unwrap().to_string();
        let mut rw = Rewriter::default();
        let mut ty = ty.clone();
        rw.visit_type_mut(&mut ty);
        crate::rewrite::static_refs(&mut ty);
        let mut init = init.clone();
        rw.visit_expr_mut(&mut init);
        let e = self.specs.find("const", &key).cloned();
        let start = self.line;
        let mut contracted = false;
        if let Some(e) = e {
            contracted = true;
            self.raw(&format!("pub exec {kind} {name}: "));
            self.toks(&ty);
            self.nl();
            let t = expand(e.sections.get("spec").map_or("", String::as_str), &short);
            self.raw(&t);
            self.raw("{\n");
            let t = expand(e.sections.get("start").map_or("", String::as_str), &short);
            self.raw(&t);
            self.raw("let r = ");
            self.toks(&init);
            self.raw(";\n");
            let t = expand(e.sections.get("end").map_or("", String::as_str), &short);
            self.raw(&t);
            self.raw("r\n}\n");
        } else if kind == "static" {
            self.raw(&format!("pub exec static {name}: "));
            self.toks(&ty);
            self.raw("\nensures true,\n{ ");
            self.toks(&init);
            self.raw("}\n");
        } else {
            self.raw(&format!("pub {kind} {name}: "));
            self.toks(&ty);
            self.raw("= ");
            self.toks(&init);
            self.raw(";\n");
        }
        let end = self.line;
        self.fns.push(FnInfo {
            key,
            start,
            end,
            contracted,
            degraded: false,
            external: false,
            loops: 0,
            loop_forms: vec![],
            sig: String::new(),
            spec_loops: 0,
            rules: vec![],
            calls: vec![],
            closures: 0,
        });
    }

    fn strings_of_constants(&self, ts: &TokenStream, out: &mut Vec<String>) {
        for t in ts.clone() {
            match t {
                TokenTree::Group(g) => self.strings_of_constants(&g.stream(), out),
                TokenTree::Ident(i) => {
                    for s in self.const_strings.get(&i.to_string()).into_iter().flatten() {
                        if !out.contains(s) {
                            out.push(s.clone());
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// `const _: () = { static S: T = ..; impl .. }` is hoisted to module level.
    fn const_block(&mut self, e: &syn::Expr, module: &str) {
        let syn::Expr::Block(b) = e else { return };
        let mut owner = String::new();
        for s in &b.block.stmts {
            if let Stmt::Item(Item::Impl(i)) = s {
                owner = head(&i.self_ty);
            }
        }
        let mut renames = vec![];
        for s in &b.block.stmts {
            if let Stmt::Item(Item::Static(s)) = s {
                let new = format!("{}__{owner}", s.ident);
                renames.push((s.ident.to_string(), new.clone()));
                let id = Ident::new(&new, Span::call_site());
                self.constant("static", &id, &s.ty, &s.expr, module);
            }
            if let Stmt::Item(Item::Const(s)) = s {
                let new = format!("{}__{owner}", s.ident);
                renames.push((s.ident.to_string(), new.clone()));
                let id = Ident::new(&new, Span::call_site());
                self.constant("const", &id, &s.ty, &s.expr, module);
            }
        }
        for s in &b.block.stmts {
            match s {
                Stmt::Item(Item::Impl(i)) => self.impl_item(i, module, &renames),
                Stmt::Item(Item::Static(_) | Item::Const(_)) => {}
                Stmt::Item(i) => self.item(i, module),
                _ => {}
            }
            self.nl();
        }
    }

    fn trait_item(&mut self, t: &syn::ItemTrait, module: &str) {
        let key = format!("{module}::{}", t.ident);
        if self.specs.find("drop", &key).is_some() {
            self.drop_item(key);
            return;
        }
        let (id, g) = (&t.ident, &t.generics);
        let mut sup = t.supertraits.clone();
        if let Some(e) = self.specs.find("supertraits", &key) {
            for l in e.sections.get("").map_or("", String::as_str).lines() {
                if !l.trim().is_empty() {
                    sup.push(syn::parse_str(l.trim()).expect("supertrait"));
                }
            }
        }
        let colon = if sup.is_empty() { quote!() } else { quote!(:) };
        let wh = &g.where_clause;
        self.toks(quote!(pub trait #id #g #colon #sup #wh));
        self.raw("{\n");
        let ghost = self.specs.all("trait", &key);
        self.raw(&ghost);
        self.nl();
        let mut ctx = vec![];
        nominal_params(g, &mut ctx);
        if t.supertraits.iter().any(bound_is_nominal) {
            ctx.push("Self".into());
        }
        let mut free: Vec<(String, syn::TraitItemFn)> = vec![];
        for it in &t.items {
            match it {
                TraitItem::Fn(f) => {
                    let fkey = format!("{key}::{}", f.sig.ident);
                    if self.specs.find("drop", &fkey).is_some() {
                        self.drop_item(fkey);
                        continue;
                    }
                    if f.default.is_some() && self.specs.find("freedefault", &fkey).is_some() {
                        free.push((fkey, f.clone()));
                        continue;
                    }
                    let mut body = f.default.as_ref();
                    if body.is_some() && self.specs.find("copydefault", &fkey).is_some() {
                        body = None;
                    }
                    self.function(&fkey, false, &f.sig, body, &ctx, &[], "");
                }
                TraitItem::Type(ty) => {
                    let akey = format!("{key}::{}", ty.ident);
                    if let Some(e) = self.specs.find("assocbound", &akey) {
                        let b = e.sections.get("").map_or("", String::as_str).trim().to_string();
                        self.raw(&format!("type {}: {b};\n", ty.ident));
                    } else {
                        self.toks(ty);
                    }
                }
                other => self.toks(other),
            }
            self.nl();
        }
        self.raw("}\n");
        // R16: a default method as the free generic function it is
        for (fkey, f) in free {
            let mut sig = f.sig.clone();
            sig.ident = Ident::new(&format!("{}__{}", t.ident, f.sig.ident), Span::call_site());
            let rs = |ts: TokenStream| rename(rename(ts, "Self", "VSelf"), "self", "vself");
            if let Some(FnArg::Receiver(r)) = sig.inputs.first() {
                let ty = &r.ty;
                let ty = rs(quote!(#ty));
                let first: FnArg = syn::parse2(quote!(vself: #ty)).unwrap();
                sig.inputs[0] = first;
            }
            for a in &mut sig.inputs {
                *a = syn::parse2(rs(quote!(#a))).unwrap();
            }
            let out = &sig.output;
            sig.output = syn::parse2(rs(quote!(#out))).unwrap();
            if let Some(w) = &mut sig.generics.where_clause {
                let keep: Vec<WherePredicate> = w
                    .predicates
                    .iter()
                    .filter(|p| flat(p) != "Self:Sized")
                    .map(|p| syn::parse2(rs(quote!(#p))).unwrap())
                    .collect();
                w.predicates = keep.into_iter().collect();
            }
            let (_, tg, tw) = g.split_for_impl();
            sig.generics.params.insert(0, syn::parse2(quote!(VSelf: #id #tg)).unwrap());
            for (i, p) in g.params.iter().enumerate() {
                sig.generics.params.insert(i, p.clone());
            }
            if let Some(tw) = tw {
                let w = sig.generics.make_where_clause();
                for p in &tw.predicates {
                    w.predicates.push(p.clone());
                }
            }
            let body: Block = syn::parse2(rs({
                let b = f.default.as_ref().unwrap();
                quote!(#b)
            }))
            .unwrap();
            let c: Vec<String> = ctx.iter().filter(|c| *c != "Self").cloned().collect();
            self.function(&fkey, true, &sig, Some(&body), &c, &[], "");
            self.nl();
        }
    }

    fn impl_item(&mut self, i: &ItemImpl, module: &str, renames: &[(String, String)]) {
        let self_key = key_of(&i.self_ty);
        let key = match &i.trait_ {
            Some((_, p, _)) => format!("{module}::<{self_key} as {}>", trait_key(p)),
            None => format!("{module}::<{self_key}>"),
        };
        let kept = self.specs.find("keep", &key).is_some();
        if (is_derived(&i.attrs) && !kept) || self.specs.find("drop", &key).is_some() {
            if !is_derived(&i.attrs) {
                self.drop_item(key);
            }
            return;
        }
        let name = head(&i.self_ty);
        let (g, st) = (&i.generics, &i.self_ty);
        let (ig, _, wh) = g.split_for_impl();
        let tr = i.trait_.as_ref().map(|(_, p, _)| quote!(#p for));
        self.toks(quote!(impl #ig #tr #st #wh));
        self.raw("{\n");
        let ghost = self.specs.all("impl", &key);
        let ghost = expand(&ghost, &name);
        self.raw(&ghost);
        self.nl();
        let mut ctx = vec![];
        nominal_params(g, &mut ctx);
        let is_trait = i.trait_.is_some();
        let mut have = vec![];
        for it in &i.items {
            match it {
                ImplItem::Fn(f) => {
                    have.push(f.sig.ident.to_string());
                    let fkey = format!("{key}::{}", f.sig.ident);
                    if self.specs.find("drop", &fkey).is_some() {
                        self.drop_item(fkey);
                        continue;
                    }
                    if is_trait && self.free_default(&key, &f.sig.ident.to_string()) {
                        self.drop_item(format!("override {fkey}"));
                        continue;
                    }
                    self.function(&fkey, !is_trait, &f.sig, Some(&f.block), &ctx, renames, &name);
                    if self
                        .specs
                        .find("fn", &format!("{fkey}#may_panic"))
                        .is_some()
                    {
                        let mut sig = f.sig.clone();
                        sig.ident = Ident::new(
                            &format!("{}__may_panic", f.sig.ident),
                            Span::call_site(),
                        );
                        self.function(
                            &format!("{fkey}#may_panic"),
                            !is_trait,
                            &sig,
                            Some(&f.block),
                            &ctx,
                            renames,
                            &name,
                        );
                    }
                }
                ImplItem::Const(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    if !is_trait {
                        c.vis = parse_quote!(pub);
                    }
                    self.toks(c);
                }
                other => self.toks(other),
            }
            self.nl();
        }
        if let Some((_, p, _)) = &i.trait_ {
            let tn = p.segments.last().unwrap().ident.to_string();
            for f in self.defaults.get(&tn).cloned().unwrap_or_default() {
                if !have.contains(&f.sig.ident.to_string()) {
                    let fkey = format!("{key}::{}", f.sig.ident);
                    self.function(&fkey, false, &f.sig, f.default.as_ref(), &ctx, &[], &name);
                    self.nl();
                }
            }
        }
        self.raw("}\n");
    }

    #[allow(clippy::too_many_arguments)]
    fn function(
        &mut self,
        key: &str,
        make_pub: bool,
        sig: &Signature,
        body: Option<&Block>,
        ctx: &[String],
        renames: &[(String, String)],
        subst: &str,
    ) {
        let e = self.specs.find("fn", key).cloned();
        let external = e.as_ref().is_some_and(|e| e.opts.contains_key("external"));
        let degraded = body.is_some()
            && self
                .degraded
                .iter()
                .any(|d| d == key || key.starts_with(&format!("{d}#")));
        let mut sig = sig.clone();
        let types: Vec<String> = sig
            .inputs
            .iter()
            .map(|a| match a {
                FnArg::Receiver(r) => flat(r),
                FnArg::Typed(t) => flat(&t.ty),
            })
            .collect();
        let signature = format!("({}){}", types.join(", "), flat(&sig.output));
        let mut rw = Rewriter {
            renames: renames.to_vec(),
            ..Default::default()
        };
        if let Some(e) = &e {
            if let Some(b) = e.opts.get("break") {
                let (f, t) = b.split_once(':').unwrap();
                rw.break_calls.push((f.into(), t.into()));
            }
        }
        for e in self.specs.entries.iter().filter(|e| e.kind == "freedefault") {
            let v: Vec<&str> = e.pattern.split("::").collect();
            let n = v.len();
            let path = if v[0] == "crate" { v[..n - 2].join("::") } else { format!("crate::{}", v[..n - 2].join("::")) };
            rw.break_calls.push((v[n - 1].into(), format!("{path}::{}__{}", v[n - 2], v[n - 1])));
        }
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) if r.reference.is_some() => rw.ref_params.push("self".into()),
                FnArg::Typed(t) if matches!(*t.ty, Type::Reference(_)) => {
                    if let Pat::Ident(p) = &*t.pat {
                        rw.ref_params.push(p.ident.to_string());
                    }
                }
                _ => {}
            }
        }
        // parameters: `mut x` becomes a local
        let mut mut_lets: Vec<Stmt> = Vec::new();
        let mut params: Vec<String> = Vec::new();
        for a in &mut sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if r.mutability.is_some() && r.reference.is_none() {
                        r.mutability = None;
                        *r = parse_quote!(self);
                        mut_lets.push(parse_quote!(let mut __self = self;));
                        rw.renames.push(("self".into(), "__self".into()));
                    }
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    rw.visit_type_mut(&mut t.ty);
                    if let Pat::Ident(p) = &mut *t.pat {
                        if p.mutability.is_some() && p.by_ref.is_none() {
                            p.mutability = None;
                            let n = &p.ident;
                            mut_lets.push(parse_quote!(let mut #n = #n;));
                        }
                        params.push(p.ident.to_string());
                    } else {
                        params.push("_".into());
                    }
                }
            }
        }
        let mut noms = ctx.to_vec();
        nominal_params(&sig.generics, &mut noms);
        let mut roles: Vec<(String, String)> = params
            .iter()
            .enumerate()
            .map(|(i, p)| (format!("$p{i}"), p.clone()))
            .collect();
        let mut text: Option<Block> = None;
        if let Some(b) = body {
            collect_roles(b, &params, &mut roles);
            let mut b = b.clone();
            rw.visit_block_mut(&mut b);
            let has_ret = !matches!(sig.output, ReturnType::Default);
            if e.as_ref().is_some_and(|e| e.sections.contains_key("end")) {
                let m: Stmt = parse_quote!(__vend!(0););
                match b.stmts.last() {
                    Some(Stmt::Expr(_, None)) if has_ret => {
                        let at = b.stmts.len() - 1;
                        b.stmts.insert(at, m);
                    }
                    _ => b.stmts.push(m),
                }
            }
            text = Some(b);
        }
        let spec_loops = e
            .as_ref()
            .map_or(0, |e| e.sections.keys().filter(|k| k.starts_with("loop ")).count());
        // role placeholders are resolved in the contract text
        let e = e.map(|mut e| {
            for s in e.sections.values_mut() {
                for (r, v) in &roles {
                    *s = s.replace(r.as_str(), v);
                }
                *s = s.replace("$idx", "__i0");
                // a constant the code does not name needs no clause
                *s = s
                    .lines()
                    .filter(|l| !l.split("$c").skip(1).any(|t| t.starts_with(|c: char| c.is_ascii_digit())))
                    .map(|l| format!("{l}\n"))
                    .collect();
            }
            e
        });

        let closures = text.as_ref().map_or(0, |b| {
            struct Count(usize);
            impl<'a> syn::visit::Visit<'a> for Count {
                fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
                    self.0 += 1;
                    syn::visit::visit_expr_closure(self, c);
                }
            }
            let mut n = Count(0);
            syn::visit::Visit::visit_block(&mut n, b);
            n.0
        });
        let start = self.line;
        if degraded || external {
            self.raw("#[verifier::external_body]\n");
        } else if body.is_some() {
            self.raw("#[verifier::loop_isolation(false)]\n");
            if let Some(e) = &e {
                if let Some(r) = e.opts.get("rlimit") {
                    self.raw(&format!("#[verifier::rlimit({r})]\n"));
                }
                if e.opts.contains_key("spinoff") {
                    self.raw("#[verifier::spinoff_prover]\n");
                }
            }
        }
        if make_pub {
            self.raw("pub ");
        }
        let (c, u, n, inputs) = (&sig.constness, &sig.unsafety, &sig.ident, &sig.inputs);
        let (ig, _, wh) = sig.generics.split_for_impl();
        self.toks(quote!(#c #u fn #n #ig (#inputs)));
        if let ReturnType::Type(_, t) = &sig.output {
            let r = e
                .as_ref()
                .and_then(|e| e.opts.get("ret").cloned())
                .unwrap_or("r".into());
            let is_never = matches!(**t, Type::Never(_));
            self.raw(if is_never { " -> " } else { " -> (" });
            if !is_never {
                self.raw(&r);
                self.raw(": ");
            }
            self.toks(t);
            if !is_never {
                self.raw(")");
            }
        }
        self.toks(wh);
        self.nl();
        if let Some(s) = e.as_ref().and_then(|e| e.sections.get("spec")) {
            let s = expand(s, subst);
            self.raw(&s);
            self.nl();
        }
        match text {
            None => self.raw(";\n"),
            Some(_) if degraded || external => self.raw("{ unimplemented!() }\n"),
            Some(b) => {
                self.raw("{\n");
                for h in e.as_ref().and_then(|e| e.opts.get("hide")).map_or("", |h| h).split(',') {
                    if !h.trim().is_empty() {
                        self.raw(&format!("hide({});\n", h.trim()));
                    }
                }
                let mut p = String::new();
                for t in &noms {
                    write!(p, "{t}::laws(); ").unwrap();
                }
                let mut strings = rw.strings.clone();
                self.strings_of_constants(&b.to_token_stream(), &mut strings);
                for s in &strings {
                    write!(p, "reveal_strlit({s}); ").unwrap();
                }
                if !p.is_empty() {
                    self.raw(&format!("proof {{ {p} }}\n"));
                }
                if let Some(s) = e.as_ref().and_then(|e| e.sections.get("start")) {
                    let s = expand(s, subst);
                    self.raw(&s);
                    self.nl();
                }
                if self.canary {
                    self.raw("proof { assert(false); }\n");
                }
                let mut ts = TokenStream::new();
                for s in &mut_lets {
                    s.to_tokens(&mut ts);
                }
                for s in &b.stmts {
                    s.to_tokens(&mut ts);
                }
                let may_panic = e.as_ref().is_some_and(|e| e.opts.contains_key("may_panic"));
                let ts = if may_panic { rename(ts, "v_panic", "v_may_panic") } else { ts };
                // panics the contract specifies: the condition is an obligation where one is reached
                let ts = if let Some(s) = e.as_ref().and_then(|e| e.sections.get("panics")) {
                    let s = expand(s, subst);
                    self.raw(&format!("let ghost __panics: bool = {};\n", s.trim()));
                    panic_if(ts)
                } else {
                    ts
                };
                self.ts(ts, e.as_ref(), subst);
                self.nl();
                self.raw("}\n");
            }
        }
        let end = self.line;
        if body.is_some() {
            self.fns.push(FnInfo {
                key: key.into(),
                start,
                end,
                contracted: e.is_some(),
                degraded,
                external,
                loops: rw.loops,
                loop_forms: rw.loop_forms,
                sig: signature.clone(),
                spec_loops,
                rules: rw.rules,
                calls: rw.calls,
                closures,
            });
        }
    }
}

fn panic_if(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) if i == "v_panic" => {
                out.push(TokenTree::Ident(Ident::new("v_panic_if", i.span())));
            }
            TokenTree::Group(g) => {
                let after_panic = matches!(out.last(), Some(TokenTree::Ident(i)) if i == "v_panic_if");
                let inner = if after_panic && g.stream().is_empty() {
                    quote::quote!(Ghost(__panics))
                } else {
                    panic_if(g.stream())
                };
                let mut n = proc_macro2::Group::new(g.delimiter(), inner);
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

fn rename(ts: TokenStream, from: &str, to: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == from => TokenTree::Ident(Ident::new(to, i.span())),
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename(g.stream(), from, to));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

fn expand(t: &str, name: &str) -> String {
    t.replace("$Name", name)
}

/// `__vxxx ! ( k ) ;` at position i
fn marker(v: &[TokenTree], i: usize) -> Option<String> {
    let TokenTree::Ident(id) = &v[i] else { return None };
    let id = id.to_string();
    if !["__vinv", "__vle", "__vend", "__vla", "__vlh", "__vbr"].contains(&id.as_str()) {
        return None;
    }
    match (v.get(i + 1), v.get(i + 2)) {
        (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) if p.as_char() == '!' => {
            Some(g.stream().to_string())
        }
        _ => None,
    }
}

/// The number in `T::from(15)` and the like.
fn constant(e: &syn::Expr) -> Option<String> {
    let syn::Expr::Call(c) = e else { return None };
    let syn::Expr::Path(p) = &*c.func else { return None };
    if p.path.segments.last()?.ident != "from" || c.args.len() != 1 {
        return None;
    }
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = &c.args[0] else { return None };
    Some(i.base10_digits().to_string())
}

/// Names of the locals the contracts refer to by role.
fn collect_roles(b: &Block, params: &[String], roles: &mut Vec<(String, String)>) {
    struct V<'a> {
        params: &'a [String],
        roles: &'a mut Vec<(String, String)>,
    }
    impl V<'_> {
        fn add(&mut self, r: &str, v: &str) {
            if !self.roles.iter().any(|(k, _)| k == r) {
                self.roles.push((r.into(), v.into()));
            }
        }
    }
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_local(&mut self, l: &'ast syn::Local) {
            let pat = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(p), Some(init)) = (pat, &l.init) {
                let n = p.ident.to_string();
                let i = flat(&init.expr);
                if p.mutability.is_some() {
                    if i.starts_with("NominalString::") {
                        self.add("$acc", &n);
                    } else if self.params.contains(&i) {
                        self.add("$rem", &n);
                        self.add("$cnt", &n);
                    } else if i == "true" || i == "false" {
                        self.add("$flag", &n);
                    } else if i == "0" || i.starts_with("0usize") {
                        self.add("$idx", &n);
                    }
                } else if let Some(d) = constant(&init.expr) {
                    self.add(&format!("$c{d}"), &n);
                }
            }
            if let Pat::TupleStruct(t) = pat {
                if let (Some(s), Some(Pat::Ident(p))) = (t.path.segments.last(), t.elems.first()) {
                    if s.ident == "Ok" && p.mutability.is_some() {
                        self.add("$okmut", &p.ident.to_string());
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    syn::visit::Visit::visit_block(&mut V { params, roles }, b);
    roles.sort_by_key(|(k, _)| std::cmp::Reverse(k.len()));
}
