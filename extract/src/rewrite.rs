//! The rewriting rules applied to function bodies.  Each is a local desugaring of a construct
//! the verifier does not accept; they are listed one by one in DESIGN.md.
use proc_macro2::{Ident, Span};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::{
    parse_quote, Block, Expr, ExprCall, ExprForLoop, ExprMethodCall, Lit, Pat, Stmt, Type, UnOp,
};

#[derive(Default)]
pub struct Rewriter {
    /// number of source loops met so far
    pub loops: usize,
    /// nesting depth and form of each
    pub loop_forms: Vec<String>,
    /// string literals in the body
    pub strings: Vec<String>,
    /// rewrites applied
    pub rules: Vec<&'static str>,
    /// called functions / methods (last path segment)
    pub calls: Vec<String>,
    /// type annotation of the `let` being initialised (for array::from_fn)
    pub let_ty: Option<Type>,
    /// rename of identifiers (hoisted statics)
    pub renames: Vec<(String, String)>,
    /// call of the trait method that closes a recursion through the trait
    pub break_calls: Vec<(String, String)>,
    /// parameters that are references
    pub ref_params: Vec<String>,
    /// enclosing loops: number and label
    pub loop_stack: Vec<(usize, String)>,
}

fn id_k(k: usize) -> syn::LitInt {
    syn::LitInt::new(&k.to_string(), Span::call_site())
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

pub fn flat(t: impl ToTokens) -> String {
    let mut s = String::new();
    for c in t.to_token_stream().to_string().chars() {
        if !c.is_whitespace() {
            s.push(c);
        }
    }
    s
}

fn last_seg(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn path_segs(e: &Expr) -> Vec<String> {
    match e {
        Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect(),
        _ => vec![],
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

/// Replaces `d.write(..)` and `*s` in the body of a zip loop.
struct ZipBody {
    dest: String,
    src: String,
    place: Expr,
    item: Expr,
}
impl VisitMut for ZipBody {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Some(n) = last_seg(&u.expr) {
                    if n == self.src {
                        *e = self.item.clone();
                        return;
                    }
                    if n == self.dest {
                        *e = self.place.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if last_seg(&m.receiver).as_deref() == Some(&self.dest) {
                m.receiver = Box::new(self.place.clone());
                for a in &mut m.args {
                    self.visit_expr_mut(a);
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Rewriter {
    fn rule(&mut self, r: &'static str) {
        if !self.rules.contains(&r) {
            self.rules.push(r);
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop, k: usize) -> Option<Expr> {
        let i = id(&format!("__i{k}"));
        let arr = id(&format!("__arr{k}"));
        let lo = id(&format!("__lo{k}"));
        let hi = id(&format!("__hi{k}"));
        let src = id(&format!("__src{k}"));
        let kk = proc_macro2::Literal::usize_unsuffixed(k);
        let label = &f.label;
        let pat = &f.pat;
        let body = &f.body.stmts;
        let e = strip_paren(&f.expr);
        // R2: for (d, s) in A[range].iter_mut().zip(B)
        if let Expr::MethodCall(z) = e {
            if z.method == "zip" {
                if let (Expr::MethodCall(im), Pat::Tuple(pt)) = (strip_paren(&z.receiver), &**pat) {
                    if im.method == "iter_mut" && pt.elems.len() == 2 {
                        let (base, from, to) = match strip_paren(&im.receiver) {
                            Expr::Index(ix) => match strip_paren(&ix.index) {
                                Expr::Range(r) => {
                                    if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                                        return None;
                                    }
                                    let base = &*ix.expr;
                                    (
                                        base.clone(),
                                        r.start.clone().map_or(parse_quote!(0usize), |b| *b),
                                        r.end.clone().map_or(parse_quote!(#base.len()), |b| *b),
                                    )
                                }
                                _ => return None,
                            },
                            base => (
                                base.clone(),
                                parse_quote!(0usize),
                                parse_quote!(#base.len()),
                            ),
                        };
                        let name = |p: &Pat| match p {
                            Pat::Ident(i) => Some(i.ident.to_string()),
                            _ => None,
                        };
                        let (d, s) = (name(&pt.elems[0])?, name(&pt.elems[1])?);
                        let mut b = f.body.clone();
                        ZipBody {
                            dest: d,
                            src: s,
                            place: parse_quote!(#base[#lo + #i]),
                            item: parse_quote!(#src[#i]),
                        }
                        .visit_block_mut(&mut b);
                        let stmts = b.stmts;
                        let bsrc = &z.args[0];
                        self.rule("R2 zip loop -> index loop");
                        return Some(parse_quote!({
                            let #lo: usize = #from;
                            let #hi: usize = #to;
                            crate::vfw::v_check_range(#lo, #hi, #base.len());
                            let #src: &[u8] = #bsrc;
                            let mut #i: usize = 0;
                            __vlh!(#kk); #label while #i < #hi - #lo && #i < #src.len() {
                                __vinv!(#kk);
                                #(#stmts)*
                                __vle!(#kk);
                                #i = #i + 1;
                            }
                        }));
                    }
                }
                return None;
            }
        }
        // R3: ranges
        if let Expr::Range(r) = e {
            let from = r.start.as_ref()?;
            if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                return None;
            }
            self.rule("R3 for loop -> index loop");
            return Some(if let Some(to) = &r.end {
                parse_quote!({
                    let mut #i = #from;
                    let #hi = #to;
                    __vlh!(#kk); #label while #i < #hi {
                        __vinv!(#kk);
                        let #pat = #i;
                        #i = #i + 1;
                        #(#body)*
                        __vle!(#kk);
                    }
__vla!(#kk);
                })
            } else {
                parse_quote!({
                    let mut #i = #from;
                    __vlh!(#kk); #label loop {
                        __vinv!(#kk);
                        let #pat = #i;
                        #i = #i + 1;
                        #(#body)*
                        __vle!(#kk);
                    }
__vla!(#kk);
                })
            });
        }
        // R3: arrays and slices
        let (seq, by_ref, enumerate): (Expr, bool, bool) = match e {
            Expr::MethodCall(m) if m.method == "enumerate" => match strip_paren(&m.receiver) {
                Expr::MethodCall(m) if m.method == "iter" => ((*m.receiver).clone(), true, true),
                Expr::MethodCall(m) if m.method == "into_iter" => {
                    ((*m.receiver).clone(), false, true)
                }
                _ => return None,
            },
            Expr::MethodCall(m) if m.method == "iter" => ((*m.receiver).clone(), true, false),
            Expr::MethodCall(m) if m.method == "into_iter" => {
                ((*m.receiver).clone(), false, false)
            }
            Expr::MethodCall(_) => return None,
            Expr::Reference(r) => ((*r.expr).clone(), true, false),
            e => (e.clone(), false, false),
        };
        self.rule("R3 for loop -> index loop");
        let bind: Vec<Stmt> = if enumerate {
            let Pat::Tuple(pt) = &**pat else { return None };
            let (ip, xp) = (&pt.elems[0], &pt.elems[1]);
            if let (true, Pat::Reference(r)) = (by_ref, xp) {
                self.rule("R15 &x pattern -> binding and copy");
                let inner = &r.pat;
                parse_quote!(let #ip = #i; let #inner = #arr[#i];)
            } else if by_ref {
                parse_quote!(let #ip = #i; let #xp = &#arr[#i];)
            } else {
                parse_quote!(let #ip = #i; let #xp = #arr[#i];)
            }
        } else if let (true, Pat::Reference(r)) = (by_ref, &**pat) {
            // The elements are copied, as the pattern requires them to be `Copy`.
            self.rule("R15 &x pattern -> binding and copy");
            let inner = &r.pat;
            parse_quote!(let #inner = #arr[#i];)
        } else if by_ref {
            parse_quote!(let #pat = &#arr[#i];)
        } else {
            parse_quote!(let #pat = #arr[#i];)
        };
        let init: Expr = if by_ref { parse_quote!(&#seq) } else { seq };
        Some(parse_quote!({
            let #arr = #init;
            let mut #i: usize = 0;
            __vlh!(#kk); #label while #i < #arr.len() {
                __vinv!(#kk);
                #(#bind)*
                #i = #i + 1;
                #(#body)*
                __vle!(#kk);
            }
__vla!(#kk);
        }))
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let recv = &m.receiver;
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("copy_within", 2) => {
                let Expr::Range(r) = strip_paren(&m.args[0]) else { return None };
                if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                    return None;
                }
                let lo = r.start.clone().map_or(parse_quote!(0usize), |b| *b);
                let hi: Expr = r.end.clone().map_or(parse_quote!(#recv.len()), |b| *b);
                let d = &m.args[1];
                self.rule("R1 copy_within -> contracted copy");
                Some(parse_quote!({
                    let __lo = #lo;
                    let __hi = #hi;
                    let __dest = #d;
                    crate::vfw::v_copy_within(&mut #recv, __lo, __hi, __dest)
                }))
            }
            ("encode_utf8", 1) => {
                let b = &m.args[0];
                self.rule("R9 char::encode_utf8 -> contracted call");
                Some(parse_quote!(crate::vfw::v_encode_utf8(#recv, #b)))
            }
            ("map_err", 1) => {
                let arg = strip_paren(&m.args[0]);
                self.rule("R5 map_err -> match");
                match arg {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let b = &c.body;
                        Some(parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
                    }
                    Expr::Path(p) => Some(
                        parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(__e) => Err(#p(__e)) }),
                    ),
                    _ => None,
                }
            }
            ("as_ptr", 0) => {
                self.rule("R8 raw pointer -> contracted pointer");
                Some(parse_quote!(crate::vfw::VAsPtr::v_as_ptr(&#recv)))
            }
            ("as_mut_ptr", 0) => {
                self.rule("R8 raw pointer -> contracted pointer");
                Some(parse_quote!(crate::vfw::v_as_mut_ptr(&mut #recv)))
            }
            ("copy_from" | "copy_from_nonoverlapping", 2) => {
                self.rule("R8 raw pointer -> contracted pointer");
                let args = m.args.iter();
                Some(hoist(parse_quote!(#recv.copy_from(#(#args),*))))
            }
            ("cast", 0) => {
                self.rule("R8 raw pointer -> contracted pointer");
                Some(parse_quote!(#recv.cast()))
            }
            (n, _) => {
                let (_, to) = self.break_calls.iter().find(|(f, _)| f == n)?.clone();
                let to: Expr = syn::parse_str(&to).unwrap();
                let args = m.args.iter();
                self.rule("R14 default method call -> call of the default as a function");
                let by_ref = last_seg(recv).is_some_and(|r| self.ref_params.contains(&r))
                    || matches!(strip_paren(recv), Expr::Reference(_));
                Some(if by_ref {
                    parse_quote!(#to(#recv, #(#args),*))
                } else {
                    parse_quote!(#to(&#recv, #(#args),*))
                })
            }
        }
    }

    fn call(&mut self, c: &ExprCall) -> Option<Expr> {
        let segs = path_segs(&c.func);
        let s: Vec<&str> = segs.iter().map(String::as_str).collect();
        if s.contains(&"panicking") {
            self.rule("R6 panic -> call whose precondition is false");
            return Some(parse_quote!(crate::vfw::v_panic()));
        }
        let args: Vec<&Expr> = c.args.iter().collect();
        match s.as_slice() {
            [.., "slice", f @ ("from_raw_parts" | "from_raw_parts_mut")] => {
                let mutable = f.ends_with("mut");
                let f = id(&format!("v_{f}"));
                self.rule("R8 raw pointer -> contracted pointer");
                let e = parse_quote!(crate::vfw::#f(#(#args),*));
                Some(if mutable { hoist(e) } else { e })
            }
            [.., "str", f @ ("from_utf8_unchecked" | "from_utf8_unchecked_mut")] => {
                let f = id(&format!("v_{f}"));
                Some(parse_quote!(crate::vfw::#f(#(#args),*)))
            }
            ["String", "from"] => {
                self.rule("R13 String::from(&str) -> contracted call");
                Some(parse_quote!(crate::vfw::v_string_from(#(#args),*)))
            }
            ["array", "from_fn"] | ["core", "array", "from_fn"] | ["std", "array", "from_fn"] => {
                let Some(Type::Array(at)) = &self.let_ty else { return None };
                let (ty, n) = (&at.elem, &at.len);
                let Expr::Closure(cl) = strip_paren(args[0]) else { return None };
                let p = &cl.inputs[0];
                let b = &cl.body;
                let k = self.loops;
                self.loops += 1;
                self.loop_forms.push(format!("{}from_fn", self.loop_stack.len()));
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                let i = id(&format!("__i{k}"));
                let v = id(&format!("__vec{k}"));
                let r: Expr = parse_quote!({
                    let mut #v: crate::vfw::Vec<#ty> = crate::vfw::Vec::new();
                    let mut #i: usize = 0;
                    while #i < #n {
                        __vinv!(#kk);
                        let #p = #i;
                        #i = #i + 1;
                        let __x: #ty = #b;
                        #v.push(__x);
                    }
                    crate::vfw::v_to_array::<_, #n>(#v)
                });
                self.rule("R11 array::from_fn -> loop");
                Some(r)
            }
            _ => None,
        }
    }
}

impl VisitMut for Rewriter {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // R15 in `let` and `let ... else`
        let mut out: Vec<Stmt> = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            let mut lets = vec![];
            if let Stmt::Local(l) = &mut s {
                unref(&mut l.pat, &mut lets);
            }
            if !lets.is_empty() {
                self.rule("R15 &x pattern -> binding and copy");
            }
            out.push(s);
            out.extend(lets);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        let ty = match &l.pat {
            Pat::Type(t) => Some((*t.ty).clone()),
            _ => None,
        };
        let old = std::mem::replace(&mut self.let_ty, ty);
        visit_mut::visit_local_mut(self, l);
        self.let_ty = old;
    }

    fn visit_item_const_mut(&mut self, c: &mut syn::ItemConst) {
        visit_mut::visit_item_const_mut(self, c);
        static_refs(&mut c.ty);
    }

    fn visit_item_static_mut(&mut self, c: &mut syn::ItemStatic) {
        visit_mut::visit_item_static_mut(self, c);
        static_refs(&mut c.ty);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() == 1 {
            for (from, to) in &self.renames {
                if p.segments[0].ident == from.as_str() {
                    p.segments[0].ident = id(to);
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if flat(&*p) == "MaybeUninit<u8>" {
                *t = parse_quote!(MaybeUninit);
                self.rule("R7 MaybeUninit<u8> -> contracted type");
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // R18 loop { if c { break; } .. } -> while !c { .. }
        if let Some(w) = guarded_loop(e) {
            self.rule("R18 loop { if c { break; } .. } -> while !c { .. }");
            *e = w;
        }
        // loops are numbered in source order, before their bodies
        let k = self.loops;
        let form = match e {
            Expr::ForLoop(_) => "for",
            Expr::While(_) => "while",
            Expr::Loop(_) => "loop",
            _ => "",
        };
        if !form.is_empty() {
            self.loop_forms.push(format!("{}{form}", self.loop_stack.len()));
        }
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.loops += 1,
            Expr::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    let v = s.token().to_string();
                    if !self.strings.contains(&v) {
                        self.strings.push(v);
                    }
                }
            }
            Expr::MethodCall(m) => self.calls.push(m.method.to_string()),
            Expr::Call(c) => {
                if let Some(n) = last_seg(&c.func) {
                    self.calls.push(n);
                }
            }
            _ => {}
        }
        // R17 a guarded arm before an empty `_ => {}`: the guard becomes an `if` in the arm
        if let Expr::Match(x) = e {
            let n = x.arms.len();
            if n >= 2
                && matches!(x.arms[n - 1].pat, Pat::Wild(_))
                && x.arms[n - 1].guard.is_none()
                && matches!(&*x.arms[n - 1].body, Expr::Block(b) if b.block.stmts.is_empty())
            {
                if let Some((_, g)) = x.arms[n - 2].guard.take() {
                    self.rule("R17 match guard before `_ => {}` -> if");
                    let b = &x.arms[n - 2].body;
                    x.arms[n - 2].body = parse_quote!(if #g { #b } else {});
                }
            }
        }
        // R15 reference patterns
        match e {
            Expr::If(x) => {
                let mut lets = vec![];
                if let Expr::Let(l) = &mut *x.cond {
                    unref(&mut l.pat, &mut lets);
                }
                if !lets.is_empty() {
                    self.rule("R15 &x pattern -> binding and copy");
                    x.then_branch.stmts.splice(0..0, lets);
                }
            }
            Expr::While(x) => {
                let mut lets = vec![];
                if let Expr::Let(l) = &mut *x.cond {
                    unref(&mut l.pat, &mut lets);
                }
                if !lets.is_empty() {
                    self.rule("R15 &x pattern -> binding and copy");
                    x.body.stmts.splice(0..0, lets);
                }
            }
            Expr::Match(x) => {
                for arm in &mut x.arms {
                    let mut lets = vec![];
                    if arm.guard.is_none() {
                        unref(&mut arm.pat, &mut lets);
                    }
                    if !lets.is_empty() {
                        let b = &arm.body;
                        self.rule("R15 &x pattern -> binding and copy");
                        arm.body = parse_quote!({ #(#lets)* #b });
                    }
                }
            }
            _ => {}
        }
        // R10 before the children are visited: &**x, &*x, (**x)
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Unary(u) = strip_paren(&r.expr) {
                    if matches!(u.op, UnOp::Deref(_)) {
                        let inner = match strip_paren(&u.expr) {
                            Expr::Unary(u2) if matches!(u2.op, UnOp::Deref(_)) => &u2.expr,
                            _ => &u.expr,
                        };
                        let inner = inner.clone();
                        self.rule("R10 &**x -> x.deref()");
                        *e = parse_quote!(#inner.deref());
                    }
                }
            }
        }
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Unary(u2) = strip_paren(&u.expr) {
                    if matches!(u2.op, UnOp::Deref(_)) {
                        let inner = u2.expr.clone();
                        self.rule("R10 &**x -> x.deref()");
                        *e = parse_quote!(#inner.deref());
                    }
                }
            }
        }
        let label = match e {
            Expr::ForLoop(l) => Some(&l.label),
            Expr::While(l) => Some(&l.label),
            Expr::Loop(l) => Some(&l.label),
            _ => None,
        };
        let is_loop = label.is_some();
        if let Some(l) = label {
            let l = l.as_ref().map_or(String::new(), |l| l.name.ident.to_string());
            self.loop_stack.push((k, l));
        }
        visit_mut::visit_expr_mut(self, e);
        if is_loop {
            self.loop_stack.pop();
        }
        let new = match e {
            Expr::Break(b) if b.expr.is_none() => {
                let l = b.label.as_ref().map_or(String::new(), |l| l.ident.to_string());
                let at = self.loop_stack.iter().rev().find(|(_, n)| l.is_empty() || *n == l);
                at.map(|(k, _)| {
                    let kk = id_k(*k);
                    parse_quote!({ __vbr!(#kk); #b })
                })
            }
            Expr::ForLoop(f) => self.for_loop(f, k),
            Expr::While(w) => {
                mark(&mut w.body, k);
                let kk = id_k(k);
                Some(parse_quote!({ __vlh!(#kk); #w __vla!(#kk); }))
            }
            Expr::Loop(w) => {
                mark(&mut w.body, k);
                None
            }
            Expr::Try(t) => {
                let x = &t.expr;
                self.rule("R4 `?` -> match");
                Some(parse_quote!(
                    (match #x { Ok(__v) => __v, Err(__e) => return Err(From::from(__e)) })
                ))
            }
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// Evaluates the arguments along a pointer chain before the pointer is taken.
fn hoist(mut e: Expr) -> Expr {
    fn go(e: &mut Expr, lets: &mut Vec<Stmt>) {
        let is_base = |e: &Expr| flat(e).starts_with("crate::vfw::v_as_mut_ptr(");
        match e {
            Expr::MethodCall(m) => {
                go(&mut m.receiver, lets);
                for a in &mut m.args {
                    let n = id(&format!("__a{}", lets.len()));
                    lets.push(parse_quote!(let #n = #a;));
                    *a = parse_quote!(#n);
                }
            }
            Expr::Call(c) => {
                if flat(&c.func).ends_with("v_as_mut_ptr") {
                    return;
                }
                for a in &mut c.args {
                    if matches!(a, Expr::MethodCall(_)) && (is_base(a)) {
                        go(a, lets);
                        continue;
                    }
                    let n = id(&format!("__a{}", lets.len()));
                    lets.push(parse_quote!(let #n = #a;));
                    *a = parse_quote!(#n);
                }
            }
            _ => {}
        }
    }
    let mut lets = vec![];
    go(&mut e, &mut lets);
    if lets.is_empty() {
        return e;
    }
    parse_quote!({ #(#lets)* #e })
}

/// The elided lifetimes in the type of a constant are `'static`.
pub fn static_refs(t: &mut Type) {
    struct V;
    impl VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            if r.lifetime.is_none() {
                r.lifetime = Some(syn::Lifetime::new("'static", Span::call_site()));
            }
            visit_mut::visit_type_reference_mut(self, r);
        }
        fn visit_type_bare_fn_mut(&mut self, _: &mut syn::TypeBareFn) {}
    }
    V.visit_type_mut(t);
}

/// `loop { if c { break; } rest }` is `while !c { rest }`.
fn guarded_loop(e: &Expr) -> Option<Expr> {
    let Expr::Loop(l) = e else { return None };
    let (first, rest) = l.body.stmts.split_first()?;
    let Stmt::Expr(Expr::If(i), _) = first else { return None };
    if i.else_branch.is_some() || matches!(&*i.cond, Expr::Let(_)) {
        return None;
    }
    let [Stmt::Expr(Expr::Break(b), _)] = i.then_branch.stmts.as_slice() else { return None };
    if b.expr.is_some() || (b.label.is_some() && b.label != l.label.as_ref().map(|x| x.name.clone())) {
        return None;
    }
    let (label, c) = (&l.label, &i.cond);
    let not: Expr = match strip_paren(c) {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => (*u.expr).clone(),
        c => parse_quote!(!(#c)),
    };
    Some(parse_quote!(#label while #not { #(#rest)* }))
}

/// Replaces `&x` by `__ref_x` and collects `let x = *__ref_x;`.
fn unref(p: &mut Pat, lets: &mut Vec<Stmt>) {
    struct V<'a>(&'a mut Vec<Stmt>);
    impl VisitMut for V<'_> {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                if let (Pat::Ident(i), None) = (&*r.pat, &r.mutability) {
                    let (n, m) = (&i.ident, &i.mutability);
                    let t = id(&format!("__ref_{n}"));
                    self.0.push(parse_quote!(let #m #n = *#t;));
                    *p = parse_quote!(#t);
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    V(lets).visit_pat_mut(p);
}

fn mark(b: &mut Block, k: usize) {
    let kk = proc_macro2::Literal::usize_unsuffixed(k);
    // a unit tail expression becomes a statement
    let stmts = &b.stmts;
    let mut out: Vec<Stmt> = Vec::new();
    out.push(parse_quote!(__vinv!(#kk);));
    for s in stmts {
        out.push(match s {
            Stmt::Expr(e, None)
                if !matches!(
                    e,
                    Expr::If(_)
                        | Expr::Match(_)
                        | Expr::While(_)
                        | Expr::Loop(_)
                        | Expr::ForLoop(_)
                        | Expr::Block(_)
                        | Expr::Unsafe(_)
                ) =>
            {
                parse_quote!(#e;)
            }
            s => s.clone(),
        });
    }
    out.push(parse_quote!(__vle!(#kk);));
    b.stmts = out;
}
