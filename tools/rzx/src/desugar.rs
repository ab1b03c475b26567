//! Generic, meaning-preserving rewrites from the Rust used in /repo to the subset Verus accepts.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, ExprMethodCall, Pat, Stmt, Type};

pub struct Cx {
    pub loops: usize,
    pub shapes: Vec<String>,
    pub errs: Vec<String>,
    pub notes: BTreeSet<String>,
    /// receivers (as token text without spaces) that are hash maps
    pub maps: Vec<String>,
    /// method renames for this unit: name -> new name
    pub renames: BTreeMap<String, String>,
    /// helper functions available for inlining: (self type, fn)
    pub helpers: Vec<(Option<String>, syn::ItemFn)>,
    /// functions with a contract in this unit (never inlined)
    pub known: BTreeSet<String>,
    pub self_ty: Option<String>,
    pub depth: usize,
    pub expect_ty: Option<Type>,
    pub inlined: BTreeSet<String>,
    pub keep_fmt: bool,
    pub owned_iter: bool,
    pub moves: Vec<String>,
    pub sets: Vec<String>,
    /// counters whose overflow is assumed away
    pub stats: Vec<String>,
    pub sorts: usize,
    /// the function works on the file system: calls are threaded through `rz_fs`
    pub fs: bool,
    pub fs_fns: BTreeSet<String>,
}

fn txt<T: quote::ToTokens>(t: &T) -> String {
    quote!(#t).to_string().replace(' ', "")
}

fn is_ordering_path(e: &Expr) -> bool {
    if let Expr::Path(p) = e {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        return segs.len() >= 2 && segs[segs.len() - 2] == "Ordering";
    }
    false
}

enum Arg1<'a> {
    Char,
    Str,
    Closure(&'a syn::ExprClosure),
    Other,
}
fn arg_kind(e: &Expr) -> Arg1<'_> {
    match e {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Char(_) => Arg1::Char,
            syn::Lit::Str(_) => Arg1::Str,
            _ => Arg1::Other,
        },
        Expr::Closure(c) => Arg1::Closure(c),
        _ => Arg1::Other,
    }
}

#[derive(Clone)]
enum Stage {
    Filter(Pat, Expr),
    Map(Pat, Expr),
    MapPath(Expr),
    FilterMap(Pat, Expr),
    Cloned,
    Enumerate,
    Rev,
    Take(Expr),
    Skip(Expr),
}

struct Source {
    /// statements binding `__sK`
    bind: TokenStream,
    len: TokenStream,
    item: Box<dyn Fn(&TokenStream) -> TokenStream>,
}

fn closure_parts(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == n {
            let pats = c
                .inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    o => o.clone(),
                })
                .collect();
            // a `return` inside the closure leaves the closure only: bring it into expression form
            let mut sc = EscapeScan { ret: false };
            syn::visit::Visit::visit_expr(&mut sc, &c.body);
            if sc.ret {
                if let Expr::Block(b) = &*c.body {
                    let nb = eliminate_returns(&b.block)?;
                    let mut sc = EscapeScan { ret: false };
                    syn::visit::Visit::visit_block(&mut sc, &nb);
                    if sc.ret {
                        return None;
                    }
                    return Some((pats, parse_quote!(#nb)));
                }
                return None;
            }
            return Some((pats, (*c.body).clone()));
        }
    }
    // a function given by name
    if let Expr::Path(p) = e {
        let lower = p.path.segments.last().is_some_and(|s| s.ident.to_string().starts_with(|c: char| c.is_lowercase()));
        if n == 1 && lower && p.path.segments.len() == 1 {
            return Some((vec![parse_quote!(__e0)], parse_quote!(#p(__e0))));
        }
    }
    None
}

/// does the expression contain return / ? / break / continue outside nested loops+closures
struct EscapeScan {
    ret: bool,
}
impl<'a> syn::visit::Visit<'a> for EscapeScan {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.ret = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct RenameSelf(proc_macro2::Ident);
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        if i == "self" {
            *i = self.0.clone();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let n = self.0.clone();
        fn go(ts: TokenStream, n: &proc_macro2::Ident) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => {
                        proc_macro2::TokenTree::Ident(n.clone())
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        let mut ng = proc_macro2::Group::new(g.delimiter(), go(g.stream(), n));
                        ng.set_span(g.span());
                        proc_macro2::TokenTree::Group(ng)
                    }
                    o => o,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), &n);
    }
}

impl Cx {
    fn next_loop(&mut self, shape: String) -> usize {
        let k = self.loops;
        self.loops += 1;
        self.shapes.push(shape);
        k
    }

    /// try to read `e` as an iterator pipeline: source + stages
    fn split_chain(e: &Expr) -> (Expr, Vec<(ExprMethodCall, String)>) {
        let mut calls = vec![];
        let mut cur = e.clone();
        while let Expr::MethodCall(m) = cur.clone() {
            let name = m.method.to_string();
            calls.push((m.clone(), name));
            cur = *m.receiver;
        }
        calls.reverse();
        (cur, calls)
    }

    fn is_map(&self, e: &Expr) -> bool {
        let mut t = txt(e);
        while let Some(s) = t.strip_prefix('&') {
            t = s.strip_prefix("mut").unwrap_or(s).to_string();
        }
        self.maps.iter().any(|m| *m == t)
    }

    fn is_set(&self, e: &Expr) -> bool {
        let mut t = txt(e);
        while let Some(s) = t.strip_prefix('&') {
            t = s.strip_prefix("mut").unwrap_or(s).to_string();
        }
        self.sets.iter().any(|m| *m == t)
    }

    fn rebuild(root: &Expr, calls: &[(ExprMethodCall, String)]) -> Expr {
        let mut cur = root.clone();
        for (m, _) in calls {
            let mut m = m.clone();
            m.receiver = Box::new(cur);
            cur = Expr::MethodCall(m);
        }
        cur
    }

    /// Build a source for `recv.<src>()`.
    fn source(&mut self, k: usize, recv: &Expr, kind: &str, args: &[Expr]) -> Option<Source> {
        let mut recv = recv.clone();
        let recv_txt_is_map = self.is_map(&recv);
        let recv_txt_is_set = self.is_set(&recv);
        self.visit_expr_mut(&mut recv);
        let s = format_ident!("__s{}", k);
        let s2 = s.clone();
        let simple = |bind: TokenStream, by_ref: bool| -> Option<Source> {
            let sx = s2.clone();
            let sl = s2.clone();
            Some(Source {
                bind,
                len: quote!(#sl.len()),
                item: Box::new(move |i| if by_ref { quote!(&#sx[#i]) } else { quote!(#sx[#i]) }),
            })
        };
        match kind {
            "iter" | "keys" | "values" if recv_txt_is_map => {
                let f = format_ident!("rz_{}", kind);
                let sx = s.clone();
                let sl = s.clone();
                if kind == "iter" {
                    return Some(Source {
                        bind: quote!(let #s = (#recv).rz_iter();),
                        len: quote!(#sl.len()),
                        item: Box::new(move |i| quote!((#sx[#i].0, #sx[#i].1))),
                    });
                }
                simple(quote!(let #s = (#recv).#f();), false)
            }
            "keys" | "values" => {
                let f = format_ident!("rz_{}", kind);
                simple(quote!(let #s = (#recv).#f();), false)
            }
            "iter" if recv_txt_is_set => simple(quote!(let #s = (#recv).rz_slice();), false),
            "into_iter" if recv_txt_is_set => {
                let sx = s.clone();
                let sl = s.clone();
                Some(Source {
                    bind: quote!(let #s = (#recv).rz_slice();),
                    len: quote!(#sl.len()),
                    item: Box::new(move |i| quote!(rz_own(#sx[#i]))),
                })
            }
            "into_iter" if recv_txt_is_map => {
                let sx = s.clone();
                let sl = s.clone();
                Some(Source {
                    bind: quote!(let #s = (#recv).rz_iter();),
                    len: quote!(#sl.len()),
                    item: Box::new(move |i| quote!((rz_own(#sx[#i].0), rz_own(#sx[#i].1)))),
                })
            }
            "iter" => simple(quote!(let #s = (#recv).rz_slice();), true),
            "into_iter" => {
                let sx = s.clone();
                let sl = s.clone();
                Some(Source {
                    bind: quote!(let #s = #recv;),
                    len: quote!(#sl.len()),
                    item: Box::new(move |i| quote!(rz_own(&#sx[#i]))),
                })
            }
            "chars" => simple(quote!(let #s = (#recv).rz_chars();), false),
            "lines" => simple(quote!(let #s = (#recv).rz_lines();), false),
            "split_whitespace" => simple(quote!(let #s = (#recv).rz_split_ws();), false),
            "split" => {
                let mut a = args.first()?.clone();
                self.visit_expr_mut(&mut a);
                match arg_kind(&a) {
                    Arg1::Char => simple(quote!(let #s = (#recv).rz_split_c(#a);), false),
                    Arg1::Closure(_) => None,
                    _ => simple(quote!(let #s = (#recv).rz_split_s(#a);), false),
                }
            }
            _ => None,
        }
    }

    fn parse_pipeline(&mut self, root: &Expr, calls: &[(ExprMethodCall, String)]) -> Option<(Expr, String, Vec<Expr>, Vec<Stage>, Option<Expr>, Option<Expr>)> {
        // find the source position: first call that is an iterator source
        let pos = calls.iter().position(|(m, n)| {
            matches!(n.as_str(), "iter" | "into_iter" | "chars" | "keys" | "values" | "lines" | "split_whitespace" | "split")
                && (m.args.is_empty() || n == "split")
        });
        let listing = pos.is_none() && self.fs && matches!(root, Expr::Try(_)) && txt(root).contains("fs::read_dir(") && !calls.is_empty();
        let (recv, kind, args, first) = match pos {
            Some(pos) => (Self::rebuild(root, &calls[..pos]), calls[pos].1.clone(), calls[pos].0.args.iter().cloned().collect::<Vec<Expr>>(), pos + 1),
            // a directory listing is an iterator already
            None if listing => (root.clone(), "into_iter".to_string(), vec![], 0),
            None => return None,
        };
        let mut stages = vec![];
        let mut zip = None;
        let mut chain = None;
        for (m, n) in &calls[first..] {
            let st = match n.as_str() {
                "filter" => {
                    let (p, b) = closure_parts(m.args.first()?, 1)?;
                    Stage::Filter(p[0].clone(), b)
                }
                "map" => match closure_parts(m.args.first()?, 1) {
                    Some((p, b)) => Stage::Map(p[0].clone(), b),
                    None => Stage::MapPath(m.args.first()?.clone()),
                },
                "filter_map" if ["Result::ok", "std::result::Result::ok"].contains(&txt(m.args.first()?).replace(' ', "").as_str()) => Stage::FilterMap(parse_quote!(__fm), parse_quote!(__fm.ok())),
                "filter_map" => {
                    let (p, b) = closure_parts(m.args.first()?, 1)?;
                    Stage::FilterMap(p[0].clone(), b)
                }
                "cloned" | "copied" => Stage::Cloned,
                "enumerate" => Stage::Enumerate,
                "rev" => Stage::Rev,
                "take" => Stage::Take(m.args.first()?.clone()),
                "skip" => Stage::Skip(m.args.first()?.clone()),
                "zip" if stages.is_empty() && zip.is_none() => {
                    zip = Some(m.args.first()?.clone());
                    continue;
                }
                "chain" if stages.is_empty() && chain.is_none() => {
                    chain = Some(m.args.first()?.clone());
                    continue;
                }
                _ => return None,
            };
            stages.push(st);
        }
        Some((recv, kind, args, stages, zip, chain))
    }

    /// generate the loop; `term` receives the item expression and yields body statements
    #[allow(clippy::too_many_arguments)]
    fn gen_loop(
        &mut self,
        k: usize,
        recv: &Expr,
        kind: &str,
        args: &[Expr],
        stages: &[Stage],
        zip: Option<Expr>,
        chain: Option<Expr>,
        extra_cond: TokenStream,
        term: &mut dyn FnMut(&mut Cx, TokenStream) -> TokenStream,
    ) -> Option<TokenStream> {
        let i = format_ident!("__i{}", k);
        let mut src = self.source(k, recv, kind, args)?;
        let mut rev = false;
        let mut lo = quote!(0);
        let mut hi_extra: Vec<TokenStream> = vec![];
        let mut rest: Vec<Stage> = vec![];
        let mut enumerate_at_source = false;
        for st in stages {
            match st {
                Stage::Rev if rest.is_empty() && !enumerate_at_source => rev = !rev,
                Stage::Skip(n) if rest.is_empty() && !enumerate_at_source && !rev => {
                    let mut n = n.clone();
                    self.visit_expr_mut(&mut n);
                    let len = &src.len;
                    lo = quote!(rz_min(#n, #len));
                }
                Stage::Take(n) if rest.is_empty() => {
                    let mut n = n.clone();
                    self.visit_expr_mut(&mut n);
                    hi_extra.push(quote!(#n));
                }
                Stage::Enumerate if rest.is_empty() && !rev => enumerate_at_source = true,
                Stage::Rev | Stage::Skip(_) | Stage::Take(_) | Stage::Enumerate => return None,
                o => rest.push(o.clone()),
            }
        }
        if let Some(c) = chain {
            // X.iter().chain(Y.iter()) : vector of references
            let (croot, ccalls) = Self::split_chain(&c);
            let mut y = match ccalls.last() {
                Some((_, n)) if n == "iter" => Self::rebuild(&croot, &ccalls[..ccalls.len() - 1]),
                _ => match c {
                    Expr::Reference(r) => *r.expr,
                    _ => return None,
                },
            };
            self.visit_expr_mut(&mut y);
            let b = src.bind;
            let s = format_ident!("__s{}", k);
            let sx = s.clone();
            src = Source {
                bind: quote!(#b let #s = rz_chain_refs(#s, (#y).rz_slice());),
                len: quote!(#sx.len()),
                item: {
                    let s = s.clone();
                    Box::new(move |i| quote!(#s[#i]))
                },
            };
        }
        let mut zbind = quote!();
        if let Some(z) = zip {
            let (zroot, zcalls) = Self::split_chain(&z);
            let zs = format_ident!("__z{}", k);
            let (y, by_ref, chars) = match zcalls.last() {
                Some((_, n)) if n == "iter" => (Self::rebuild(&zroot, &zcalls[..zcalls.len() - 1]), true, false),
                Some((_, n)) if n == "chars" => (Self::rebuild(&zroot, &zcalls[..zcalls.len() - 1]), false, true),
                _ => match z {
                    Expr::Reference(r) => (*r.expr, true, false),
                    _ => return None,
                },
            };
            let mut y = y;
            self.visit_expr_mut(&mut y);
            zbind = if chars { quote!(let #zs = (#y).rz_chars();) } else { quote!(let #zs = (#y).rz_slice();) };
            let old = src.item;
            let zs2 = zs.clone();
            src.item = Box::new(move |i| {
                let a = old(i);
                if by_ref { quote!((#a, &#zs2[#i])) } else { quote!((#a, #zs2[#i])) }
            });
            hi_extra.push(quote!(#zs.len()));
        }
        let len = src.len.clone();
        let mut cond = quote!(#i < #len);
        for h in &hi_extra {
            cond = quote!(#cond && #i < #h);
        }
        if !extra_cond.is_empty() {
            cond = quote!(#cond && #extra_cond);
        }
        let idx = if rev { quote!((#len - 1 - #i)) } else { quote!(#i) };
        let mut item = (src.item)(&idx);
        if enumerate_at_source {
            item = quote!((#i, #item));
        }
        let x = format_ident!("__x{}", k);
        let body = self.gen_stages(k, 0, &rest, quote!(#x), term)?;
        let bind = src.bind;
        let shape_meta = quote!(__rz_loop!(#k););
        let endm = quote!(__rz_loopend!(#k););
        let after = quote!(__rz_after!(#k););
        Some(quote! {
            #bind
            #zbind
            let mut #i: usize = #lo;
            while #cond {
                #shape_meta
                let #x = #item;
                #i += 1;
                #body
                #endm
            }
            #after
        })
    }

    fn gen_stages(
        &mut self,
        k: usize,
        depth: usize,
        stages: &[Stage],
        item: TokenStream,
        term: &mut dyn FnMut(&mut Cx, TokenStream) -> TokenStream,
    ) -> Option<TokenStream> {
        if stages.is_empty() {
            return Some(term(self, item));
        }
        let nx = format_ident!("__x{}_{}", k, depth);
        match &stages[0] {
            Stage::Filter(p, b) => {
                let mut b = b.clone();
                self.visit_expr_mut(&mut b);
                let rest = self.gen_stages(k, depth + 1, &stages[1..], item.clone(), term)?;
                let keep = format_ident!("__keep{}_{}", k, depth);
                Some(quote! {
                    let #keep = { let #p = &#item; #b };
                    if #keep { #rest }
                })
            }
            Stage::Map(p, b) => {
                let mut b = b.clone();
                self.visit_expr_mut(&mut b);
                let rest = self.gen_stages(k, depth + 1, &stages[1..], quote!(#nx), term)?;
                Some(quote! {
                    let #nx = { let #p = #item; #b };
                    #rest
                })
            }
            Stage::MapPath(f) => {
                let t = txt(f);
                let call = match t.as_str() {
                    "ToString::to_string" | "String::from" | "str::to_string" | "std::string::ToString::to_string" => quote!((#item).rz_to_string()),
                    "String::as_str" => quote!((#item).rz_as_str()),
                    _ => {
                        if t.chars().next().map_or(false, |c| c.is_lowercase()) || t.contains("::") {
                            quote!(#f(#item))
                        } else {
                            return None;
                        }
                    }
                };
                let rest = self.gen_stages(k, depth + 1, &stages[1..], quote!(#nx), term)?;
                Some(quote!(let #nx = #call; #rest))
            }
            Stage::FilterMap(p, b) => {
                let mut b = b.clone();
                self.visit_expr_mut(&mut b);
                let rest = self.gen_stages(k, depth + 1, &stages[1..], quote!(#nx), term)?;
                let opt = format_ident!("__opt{}_{}", k, depth);
                Some(quote! {
                    let #opt = { let #p = #item; #b };
                    if let Some(#nx) = #opt { #rest }
                })
            }
            Stage::Cloned => {
                let rest = self.gen_stages(k, depth + 1, &stages[1..], quote!(#nx), term)?;
                Some(quote! { let #nx = rz_own(#item); #rest })
            }
            _ => None,
        }
    }

    /// rewrite a whole pipeline expression with a terminal; None when it is not one
    fn try_pipeline(&mut self, e: &Expr) -> Option<Expr> {
        let (root, calls) = Self::split_chain(e);
        if calls.len() < 2 {
            return None;
        }
        let (tm, tn) = calls.last().unwrap().clone();
        let term_names = ["any", "all", "find", "find_map", "position", "count", "collect", "sum", "fold", "for_each", "next", "last", "max", "min", "max_by_key", "min_by_key", "max_by", "min_by"];
        if !term_names.contains(&tn.as_str()) {
            return None;
        }
        let (recv, kind, args, stages, zip, chain) = self.parse_pipeline(&root, &calls[..calls.len() - 1])?;
        let expect = self.expect_ty.take();
        if tn == "collect" && stages.is_empty() && zip.is_none() && chain.is_none() {
            let tystr = tm.turbofish.as_ref().map(|t| txt(t)).or(expect.as_ref().map(txt)).unwrap_or_default();
            let direct = match kind.as_str() {
                "chars" => Some("rz_chars"),
                "lines" => Some("rz_lines"),
                "split_whitespace" => Some("rz_split_ws"),
                _ => None,
            };
            if tystr.is_empty() || tystr.contains("Vec") {
                let mut rv = recv.clone();
                if let Some(d) = direct {
                    self.visit_expr_mut(&mut rv);
                    let d = format_ident!("{}", d);
                    return Some(parse_quote!((#rv).#d()));
                }
                if kind == "split" {
                    let mut a = args.first()?.clone();
                    self.visit_expr_mut(&mut rv);
                    self.visit_expr_mut(&mut a);
                    match arg_kind(&a) {
                        Arg1::Char => return Some(parse_quote!((#rv).rz_split_c(#a))),
                        Arg1::Str => return Some(parse_quote!((#rv).rz_split_s(#a))),
                        _ => {}
                    }
                }
            }
        }
        let k = self.next_loop(format!("{}.{}", kind, tn));
        let r = format_ident!("__r{}", k);
        let done = format_ident!("__d{}", k);
        let out = match tn.as_str() {
            "any" | "all" => {
                let (p, b) = closure_parts(tm.args.first()?, 1)?;
                let p = p[0].clone();
                let any = tn == "any";
                let cond = if any { quote!(!#r) } else { quote!(#r) };
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, cond, &mut |cx, item| {
                    let mut b = b.clone();
                    cx.visit_expr_mut(&mut b);
                    let pv = format_ident!("__p{}", k);
                    if any {
                        quote!(let #pv = { let #p = #item; #b }; if #pv { #r = true; })
                    } else {
                        quote!(let #pv = { let #p = #item; #b }; if !#pv { #r = false; })
                    }
                })?;
                let init = !any;
                quote!({ let mut #r = #init; #lp #r })
            }
            "find" | "find_map" | "position" => {
                if tn == "position" && !(stages.is_empty() && zip.is_none() && chain.is_none()) {
                    return None;
                }
                let (p, b) = closure_parts(tm.args.first()?, 1)?;
                let p = p[0].clone();
                let i = format_ident!("__i{}", k);
                let t = tn.clone();
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(!#done), &mut |cx, item| {
                    let mut b = b.clone();
                    cx.visit_expr_mut(&mut b);
                    let pv = format_ident!("__p{}", k);
                    match t.as_str() {
                        "find" => quote!(let #pv = { let #p = &#item; #b }; if #pv { #r = Some(#item); #done = true; }),
                        "find_map" => quote!(let #pv = { let #p = #item; #b }; if let Some(__y) = #pv { #r = Some(__y); #done = true; }),
                        _ => quote!(let #pv = { let #p = #item; #b }; if #pv { #r = Some(#i - 1); #done = true; }),
                    }
                })?;
                if tn == "position" { quote!({ let mut #r: Option<usize> = None; let mut #done = false; #lp #r }) } else { quote!({ let mut #r = None; let mut #done = false; #lp #r }) }
            }
            "next" => {
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(!#done), &mut |_, item| quote!(#r = Some(#item); #done = true;))?;
                quote!({ let mut #r = None; let mut #done = false; #lp #r })
            }
            "last" => {
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(), &mut |_, item| quote!(#r = Some(#item);))?;
                quote!({ let mut #r = None; #lp #r })
            }
            "count" => {
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(), &mut |_, _| quote!(#r += 1;))?;
                quote!({ let mut #r: usize = 0; #lp #r })
            }
            "collect" => {
                let tystr = tm.turbofish.as_ref().map(|t| txt(t)).or(expect.as_ref().map(txt)).unwrap_or_default();
                let (init, push): (TokenStream, Box<dyn Fn(TokenStream) -> TokenStream>) = {
                    let r = r.clone();
                    if tystr.contains("HashSet") || tystr.contains("BTreeSet") {
                        (quote!(RzSet::new()), Box::new(move |it| quote!(#r.rz_add(#it);)))
                    } else if tystr.contains("HashMap") || tystr.contains("BTreeMap") {
                        (quote!(RzMap::new()), Box::new(move |it| quote!({ let __kv = #it; #r.insert(__kv.0, __kv.1); })))
                    } else if tystr.contains("String") && !tystr.contains("Vec") {
                        (quote!(rz_empty_string()), Box::new(move |it| quote!(#r.rz_push_any(#it);)))
                    } else if tystr.contains("Result") {
                        return None;
                    } else {
                        (quote!(Vec::new()), Box::new(move |it| quote!(#r.push(#it);)))
                    }
                };
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(), &mut |_, item| push(item))?;
                let ann = match &expect {
                    Some(t) if tm.turbofish.is_none() && txt(t).starts_with("Vec<") => {
                        let mut t = t.clone();
                        map_type(&mut t);
                        quote!(: #t)
                    }
                    _ => quote!(),
                };
                quote!({ let mut #r #ann = #init; #lp #r })
            }
            "max_by_key" | "min_by_key" | "max_by" | "min_by" => {
                self.notes.insert(format!("{tn}: some element, the preference is not modelled"));
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(), &mut |_, item| quote!(#r.push(#item);))?;
                quote!({ let mut #r = Vec::new(); #lp rz_choose(#r) })
            }
            "fold" => {
                let mut init = tm.args.first()?.clone();
                self.visit_expr_mut(&mut init);
                let (p, b) = closure_parts(tm.args.iter().nth(1)?, 2)?;
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(), &mut |cx, item| {
                    let mut b = b.clone();
                    cx.visit_expr_mut(&mut b);
                    let (p0, p1) = (&p[0], &p[1]);
                    quote!(#r = { let #p0 = #r; let #p1 = #item; #b };)
                })?;
                quote!({ let mut #r = #init; #lp #r })
            }
            "for_each" => {
                let (p, b) = closure_parts(tm.args.first()?, 1)?;
                let lp = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(), &mut |cx, item| {
                    let mut b = b.clone();
                    cx.visit_expr_mut(&mut b);
                    let p = &p[0];
                    quote!({ let #p = #item; #b; })
                })?;
                quote!({ #lp })
            }
            _ => return None,
        };
        match syn::parse2::<Expr>(out.clone()) {
            Ok(e) => Some(e),
            Err(er) => {
                self.errs.push(format!("pipeline: {er}: {out}"));
                None
            }
        }
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Option<Expr> {
        let pat = (*f.pat).clone();
        let mut body = f.body.clone();
        // ranges
        if let Expr::Range(r) = &*f.expr {
            let k = self.next_loop("for-range".into());
            self.visit_block_mut(&mut body);
            let (mut a, mut b) = ((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone());
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            let i = format_ident!("__i{}", k);
            let n = format_ident!("__n{}", k);
            let cmp = match r.limits {
                syn::RangeLimits::HalfOpen(_) => quote!(#i < #n),
                _ => return None,
            };
            let stmts = &body.stmts;
            let e: Expr = parse_quote!({
                let mut #i = #a;
                let #n = #b;
                while #cmp {
                    __rz_loop!(#k);
                    let #pat = #i;
                    #i += 1;
                    #(#stmts)*
                    __rz_loopend!(#k);
                }
                __rz_after!(#k);
            });
            return Some(e);
        }
        let (root, calls) = Self::split_chain(&f.expr);
        if let Some((_, n)) = calls.last() {
            if n == "flatten" && calls.len() >= 2 {
                struct B(bool);
                impl<'a> syn::visit::Visit<'a> for B {
                    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
                        self.0 = true;
                    }
                    fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
                    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
                    fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
                }
                let mut sc = B(false);
                syn::visit::Visit::visit_block(&mut sc, &f.body);
                if sc.0 {
                    return None;
                }
                let outer = Self::rebuild(&root, &calls[..calls.len() - 1]);
                let v = format_ident!("__fl{}", self.loops);
                let (pat, body) = (&f.pat, &f.body);
                let mut e: Expr = parse_quote!(for #v in #outer { for #pat in #v #body });
                self.visit_expr_mut(&mut e);
                return Some(e);
            }
        }
        let (recv, kind, args, stages, zip, chain) = if calls.is_empty() || self.parse_pipeline(&root, &calls).is_none() {
            // `for x in &v`, `for x in v`, `for (k, v) in &map`
            match &*f.expr {
                Expr::Reference(r) if r.mutability.is_none() => ((*r.expr).clone(), "iter".to_string(), vec![], vec![], None, None),
                Expr::Reference(_) => return None,
                other => {
                    let t = txt(other);
                    let kind = if matches!(other, Expr::Try(_)) || self.moves.iter().any(|m| *m == t) || !self.ref_like(other) { "into_iter" } else { "iter" };
                    (other.clone(), kind.to_string(), vec![], vec![], None, None)
                }
            }
        } else {
            self.parse_pipeline(&root, &calls)?
        };
        let k = self.next_loop(format!("for-{}", kind));
        let out = self.gen_loop(k, &recv, &kind, &args, &stages, zip, chain, quote!(), &mut |cx, item| {
            let mut b = body.clone();
            cx.visit_block_mut(&mut b);
            let stmts = &b.stmts;
            let mut pat = pat.clone();
            let derefs = take_refs(&mut pat);
            quote!(let #pat = #item; #(#derefs)* #(#stmts)*)
        })?;
        match syn::parse2::<Expr>(quote!({ #out })) {
            Ok(e) => Some(e),
            Err(er) => {
                self.errs.push(format!("for: {er}: {out}"));
                None
            }
        }
    }

    /// for x in EXPR where EXPR is a plain variable: treat as slice unless declared `moves`
    fn ref_like(&self, _e: &Expr) -> bool {
        !self.owned_iter
    }

    fn desugar_cond(cond: &Expr, then: TokenStream, els: TokenStream) -> TokenStream {
        // flatten && chain containing `let`
        fn flat<'a>(e: &'a Expr, out: &mut Vec<&'a Expr>) {
            if let Expr::Binary(b) = e {
                if matches!(b.op, syn::BinOp::And(_)) {
                    flat(&b.left, out);
                    flat(&b.right, out);
                    return;
                }
            }
            if let Expr::Paren(p) = e {
                if has_let(&p.expr) {
                    flat(&p.expr, out);
                    return;
                }
            }
            out.push(e);
        }
        let mut parts = vec![];
        flat(cond, &mut parts);
        let mut acc = then;
        for p in parts.iter().rev() {
            acc = quote!(if #p { #acc } else { #els });
        }
        acc
    }

    fn inline_helper(&mut self, name: &str, recv: Option<&Expr>, args: &[Expr], ty_hint: Option<&str>) -> Option<Expr> {
        if self.known.contains(name) || self.depth > 3 {
            return None;
        }
        let cands: Vec<_> = self
            .helpers
            .iter()
            .filter(|(t, f)| f.sig.ident == name && (ty_hint.is_none() || t.as_deref() == ty_hint) && f.sig.generics.params.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_))))
            .cloned()
            .collect();
        if cands.len() != 1 {
            return None;
        }
        let f = cands.into_iter().next().unwrap().1;
        let block = crate::desugar::eliminate_returns(&f.block)?;
        let mut sc = EscapeScan { ret: false };
        syn::visit::Visit::visit_block(&mut sc, &block);
        if sc.ret {
            return None;
        }
        let mut block = block;
        let mut binds: Vec<TokenStream> = vec![];
        let mut ai = args.iter();
        for inp in &f.sig.inputs {
            match inp {
                syn::FnArg::Receiver(r) => {
                    let rv = recv?;
                    if txt(rv) != "self" {
                        let id = format_ident!("__self{}", self.depth);
                        RenameSelf(id.clone()).visit_block_mut(&mut block);
                        if r.reference.is_some() && r.mutability.is_some() {
                            binds.push(quote!(let #id = &mut #rv;));
                        } else if r.reference.is_some() {
                            binds.push(quote!(let #id = &#rv;));
                        } else {
                            binds.push(quote!(let #id = #rv;));
                        }
                    }
                }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let p = &t.pat;
                    let ty = strip_lifetimes(&t.ty);
                    let tmp = format_ident!("__a{}_{}", self.depth, binds.len());
                    binds.insert(0, quote!(let #tmp: #ty = #a;));
                    binds.push(quote!(let #p = #tmp;));
                }
            }
        }
        self.inlined.insert(name.to_string());
        self.notes.insert(format!("inlined uncontracted helper {name}"));
        let stmts = &block.stmts;
        let mut e: Expr = syn::parse2(quote!({ #(#binds)* #(#stmts)* })).ok()?;
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }
}

pub fn strip_lifetimes(t: &Type) -> Type {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    S.visit_type_mut(&mut t);
    t
}

/// turn early `return`s of straight-line code into expression form; None when impossible
pub fn eliminate_returns(b: &Block) -> Option<Block> {
    fn has_ret<T: quote::ToTokens>(_t: &T, b: &Block) -> bool {
        let mut sc = EscapeScan { ret: false };
        syn::visit::Visit::visit_block(&mut sc, b);
        sc.ret
    }
    fn stmt_ret(s: &Stmt) -> bool {
        let mut sc = EscapeScan { ret: false };
        syn::visit::Visit::visit_stmt(&mut sc, s);
        sc.ret
    }
    fn go(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
        let mut out = vec![];
        for (i, s) in stmts.iter().enumerate() {
            if !stmt_ret(s) {
                out.push(s.clone());
                continue;
            }
            match s {
                Stmt::Expr(Expr::Return(r), _) => {
                    let e = r.expr.clone().map(|b| *b).unwrap_or(parse_quote!(()));
                    out.push(Stmt::Expr(e, None));
                    return Some(out);
                }
                Stmt::Local(l) if l.init.as_ref().map_or(false, |n| n.diverge.is_some()) => {
                    let init = l.init.as_ref()?;
                    let (e, (_, d)) = (&init.expr, init.diverge.as_ref()?);
                    let d = match &**d {
                        Expr::Block(b) if ends_in_return(&b.block) => go(&b.block.stmts)?,
                        _ => return None,
                    };
                    let mut sc = EscapeScan { ret: false };
                    syn::visit::Visit::visit_expr(&mut sc, e);
                    if sc.ret {
                        return None;
                    }
                    let rest = go(&stmts[i + 1..])?;
                    let p = &l.pat;
                    let m: Expr = parse_quote!(match #e { #p => { #(#rest)* } _ => { #(#d)* } });
                    out.push(Stmt::Expr(m, None));
                    return Some(out);
                }
                Stmt::Expr(Expr::If(f), semi) => {
                    let rest = &stmts[i + 1..];
                    let diverges = ends_in_return(&f.then_branch);
                    if rest.is_empty() && semi.is_none() || diverges {
                        let th = go(&f.then_branch.stmts)?;
                        let el: Vec<Stmt> = match (&f.else_branch, rest.is_empty() && semi.is_none()) {
                            (Some((_, e)), true) => match &**e {
                                Expr::Block(b) => go(&b.block.stmts)?,
                                o => go(&[Stmt::Expr(o.clone(), None)])?,
                            },
                            (None, _) => go(rest)?,
                            (Some((_, e)), false) => {
                                let mut v: Vec<Stmt> = match &**e {
                                    Expr::Block(b) => b.block.stmts.clone(),
                                    o => vec![Stmt::Expr(o.clone(), None)],
                                };
                                v.extend(rest.iter().cloned());
                                go(&v)?
                            }
                        };
                        let c = &f.cond;
                        let e: Expr = parse_quote!(if #c { #(#th)* } else { #(#el)* });
                        out.push(Stmt::Expr(e, None));
                        return Some(out);
                    }
                    return None;
                }
                Stmt::Expr(Expr::Match(m), semi) if i + 1 == stmts.len() && semi.is_none() => {
                    let mut m = m.clone();
                    for arm in &mut m.arms {
                        let v = match &*arm.body {
                            Expr::Block(b) => go(&b.block.stmts)?,
                            o => go(&[Stmt::Expr(o.clone(), None)])?,
                        };
                        arm.body = Box::new(parse_quote!({ #(#v)* }));
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return Some(out);
                }
                _ => return None,
            }
        }
        Some(out)
    }
    fn ends_in_return(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(Expr::Return(_), _)) => true,
            Some(Stmt::Expr(Expr::If(i), _)) => {
                ends_in_return(&i.then_branch)
                    && i.else_branch.as_ref().map_or(false, |(_, e)| matches!(&**e, Expr::Block(b) if ends_in_return(&b.block)))
            }
            _ => false,
        }
    }
    if !has_ret(b, b) {
        return Some(b.clone());
    }
    let v = go(&b.stmts)?;
    Some(Block { brace_token: b.brace_token, stmts: v })
}

pub fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}

fn fmt_pieces(lit: &str) -> Option<(Vec<String>, Vec<String>)> {
    // returns literal pieces and placeholders (spec text inside braces)
    let mut lits = vec![String::new()];
    let mut phs = vec![];
    let cs: Vec<char> = lit.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                lits.last_mut().unwrap().push('{');
                i += 2;
            }
            '}' if i + 1 < cs.len() && cs[i + 1] == '}' => {
                lits.last_mut().unwrap().push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                let mut ph = String::new();
                while j < cs.len() && cs[j] != '}' {
                    ph.push(cs[j]);
                    j += 1;
                }
                if ph.contains(':') {
                    return None;
                }
                phs.push(ph);
                lits.push(String::new());
                i = j + 1;
            }
            c => {
                lits.last_mut().unwrap().push(c);
                i += 1;
            }
        }
    }
    Some((lits, phs))
}

impl Cx {
    fn expand_format(&mut self, toks: TokenStream) -> Expr {
        let opaque: Expr = parse_quote!(rz_fmt());
        if !self.keep_fmt {
            return opaque;
        }
        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        let Ok(args) = syn::parse::Parser::parse2(parser, toks) else { return opaque };
        let mut it = args.into_iter();
        let Some(Expr::Lit(l)) = it.next() else { return opaque };
        let syn::Lit::Str(s) = &l.lit else { return opaque };
        let Some((lits, phs)) = fmt_pieces(&s.value()) else { return opaque };
        let pos: Vec<Expr> = it.collect();
        let mut n = 0;
        let mut acc: Expr = {
            let l0 = &lits[0];
            parse_quote!(rz_lit(#l0))
        };
        for (j, ph) in phs.iter().enumerate() {
            let mut a: Expr = if ph.is_empty() {
                n += 1;
                match pos.get(n - 1) {
                    Some(e) => e.clone(),
                    None => return opaque,
                }
            } else {
                match syn::parse_str::<Expr>(ph) {
                    Ok(e) => e,
                    Err(_) => return opaque,
                }
            };
            self.visit_expr_mut(&mut a);
            let l = &lits[j + 1];
            acc = parse_quote!(rz_cat3(#acc, (#a).rz_disp(), #l));
        }
        acc
    }
}

/// `let f = |a, b| body;` where `f` is only ever called: every call is replaced by the body
/// (given up when a name the body captures is bound again in between, or when the body leaves early)
fn inline_closures(stmts: Vec<Stmt>, notes: &mut BTreeSet<String>) -> Vec<Stmt> {
    #[derive(Default)]
    struct Names {
        used: BTreeSet<String>,
        bound: BTreeSet<String>,
        leaves: bool,
    }
    impl<'a> syn::visit::Visit<'a> for Names {
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.used.insert(i.to_string());
            }
        }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.bound.insert(p.ident.to_string());
        }
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.leaves = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.leaves = true;
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            // names inside macro arguments count as used
            fn go(t: TokenStream, u: &mut BTreeSet<String>) {
                for x in t {
                    match x {
                        proc_macro2::TokenTree::Ident(i) => drop(u.insert(i.to_string())),
                        proc_macro2::TokenTree::Group(g) => go(g.stream(), u),
                        proc_macro2::TokenTree::Literal(l) => {
                            for w in l.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                                u.insert(w.to_string());
                            }
                        }
                        _ => {}
                    }
                }
            }
            go(m.tokens.clone(), &mut self.used);
        }
    }
    struct Calls<'a> {
        f: &'a str,
        n: usize,
        with: Option<&'a syn::ExprClosure>,
    }
    impl VisitMut for Calls<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(c) = e {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.f)) {
                    self.n += 1;
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    if let Some(cl) = self.with {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        let tmp: Vec<syn::Ident> = (0..args.len()).map(|i| format_ident!("__c{}", i)).collect();
                        let pats: Vec<&Pat> = cl.inputs.iter().collect();
                        let body = &cl.body;
                        *e = parse_quote!({ #(let #tmp = #args;)* #(let #pats = #tmp;)* #body });
                    }
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut out: Vec<Stmt> = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        // let fs = [|p| a, |p| b, ...]; for f in fs { ... f(x) ... }
        let table = match &s {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(_) | Pat::Type(_), Some(init)) => match &*init.expr {
                    Expr::Array(a) if a.elems.len() > 1 && a.elems.iter().all(|e| matches!(e, Expr::Closure(c) if c.inputs.len() == 1 && c.capture.is_none())) => {
                        let id = match &l.pat {
                            Pat::Ident(i) => Some(i.ident.to_string()),
                            Pat::Type(t) => match &*t.pat {
                                Pat::Ident(i) => Some(i.ident.to_string()),
                                _ => None,
                            },
                            _ => None,
                        };
                        id.map(|i| (i, a.elems.iter().cloned().collect::<Vec<_>>()))
                    }
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some((id, cls)) = table {
            let mut rest: Vec<Stmt> = it.collect();
            struct F<'a>(&'a str, &'a [Expr], usize);
            impl VisitMut for F<'_> {
                fn visit_expr_for_loop_mut(&mut self, w: &mut syn::ExprForLoop) {
                    visit_mut::visit_expr_for_loop_mut(self, w);
                    if !matches!(&*w.expr, Expr::Path(p) if p.path.is_ident(self.0)) {
                        return;
                    }
                    let Pat::Ident(f) = &*w.pat else { return };
                    let f = f.ident.clone();
                    let n = self.1.len();
                    let mut c = Calls { f: &f.to_string(), n: 0, with: None };
                    c.visit_block_mut(&mut w.body);
                    let arms: Vec<TokenStream> = self
                        .1
                        .iter()
                        .enumerate()
                        .map(|(i, cl)| {
                            let Expr::Closure(cl) = cl else { unreachable!() };
                            let (p, b) = (&cl.inputs[0], &cl.body);
                            let i = if i + 1 == n { quote!(_) } else { let i = proc_macro2::Literal::usize_unsuffixed(i); quote!(#i) };
                            quote!(#i => { let #p = __p; #b })
                        })
                        .collect();
                    let cl: syn::ExprClosure = parse_quote!(|__p| match #f { #(#arms)* });
                    let fs = f.to_string();
                    let mut c = Calls { f: &fs, n: 0, with: Some(&cl) };
                    c.visit_block_mut(&mut w.body);
                    let n = proc_macro2::Literal::usize_suffixed(n);
                    *w.expr = parse_quote!(0usize..#n);
                    self.2 += 1;
                }
            }
            let mut f = F(&id, &cls, 0);
            for r in rest.iter_mut() {
                f.visit_stmt_mut(r);
            }
            if f.2 > 0 {
                notes.insert(format!("table of closures {id} written out at its calls"));
            } else {
                out.push(s);
            }
            let tail = inline_closures(rest, notes);
            out.extend(tail);
            return out;
        }
        if let Stmt::Item(syn::Item::Type(_)) = &s {
            continue; // a local type alias only names a type
        }
        let hit = match &s {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(i), Some(init)) if init.diverge.is_none() && i.by_ref.is_none() => match &*init.expr {
                    Expr::Closure(c) if c.capture.is_none() && c.asyncness.is_none() => Some((i.ident.to_string(), c.clone())),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        let Some((f, c)) = hit else {
            out.push(s);
            continue;
        };
        let mut rest: Vec<Stmt> = it.collect();
        let mut body = Names::default();
        syn::visit::visit_expr(&mut body, &c.body);
        let mut params = Names::default();
        for p in &c.inputs {
            syn::visit::visit_pat(&mut params, p);
        }
        let mut after = Names::default();
        for r in &rest {
            syn::visit::visit_stmt(&mut after, r);
        }
        let captured: BTreeSet<String> = body.used.difference(&params.bound).cloned().collect();
        let mut calls = Calls { f: &f, n: 0, with: None };
        for r in rest.iter_mut() {
            calls.visit_stmt_mut(r);
        }
        let n = calls.n;
        // every mention is a call
        struct Mentions<'a>(&'a str, usize);
        impl<'b> syn::visit::Visit<'b> for Mentions<'_> {
            fn visit_expr_path(&mut self, p: &'b syn::ExprPath) {
                if p.path.is_ident(self.0) {
                    self.1 += 1;
                }
            }
        }
        let mut men = Mentions(&f, 0);
        for r in &rest {
            syn::visit::visit_stmt(&mut men, r);
        }
        let ok = !body.leaves && c.inputs.len() < 10 && captured.is_disjoint(&after.bound) && !after.bound.contains(&f) && men.1 == n && n > 0;
        if ok {
            let mut calls = Calls { f: &f, n: 0, with: Some(&c) };
            for r in rest.iter_mut() {
                calls.visit_stmt_mut(r);
            }
            notes.insert(format!("local closure {f} written out at its calls"));
        } else {
            out.push(s);
        }
        let tail = inline_closures(rest, notes);
        out.extend(tail);
        return out;
    }
    out
}

/// the attributes of a statement
fn stmt_attrs(s: &mut Stmt) -> Option<&mut Vec<syn::Attribute>> {
    Some(match s {
        Stmt::Local(l) => &mut l.attrs,
        Stmt::Macro(m) => &mut m.attrs,
        Stmt::Expr(e, _) => match e {
            Expr::Block(x) => &mut x.attrs,
            Expr::If(x) => &mut x.attrs,
            Expr::Match(x) => &mut x.attrs,
            Expr::Call(x) => &mut x.attrs,
            Expr::MethodCall(x) => &mut x.attrs,
            Expr::ForLoop(x) => &mut x.attrs,
            Expr::While(x) => &mut x.attrs,
            Expr::Loop(x) => &mut x.attrs,
            Expr::Assign(x) => &mut x.attrs,
            Expr::Return(x) => &mut x.attrs,
            Expr::Binary(x) => &mut x.attrs,
            Expr::Macro(x) => &mut x.attrs,
            _ => return None,
        },
        _ => return None,
    })
}

fn cfg_value(m: &syn::Macro) -> Option<bool> {
    cfg_tokens(&m.tokens)
}

fn cfg_tokens(t: &proc_macro2::TokenStream) -> Option<bool> {
    match t.to_string().replace(' ', "").as_str() {
        "windows" | "target_os=\"windows\"" | "target_os=\"macos\"" => Some(false),
        "unix" | "target_os=\"linux\"" | "not(windows)" => Some(true),
        "not(unix)" => Some(false),
        _ => None,
    }
}

const DROP_MACROS: &[&str] = &["println", "eprintln", "debug", "info", "warn", "error", "trace", "debug_assert", "print", "eprint"];

/// `(a, &b)` in a pattern: bind the reference, then read through it
fn take_refs(p: &mut Pat) -> Vec<Stmt> {
    let mut out = vec![];
    if let Pat::Tuple(t) = p {
        for q in t.elems.iter_mut() {
            if let Pat::Reference(r) = q {
                if let Pat::Ident(i) = &*r.pat {
                    let (v, n) = (i.ident.clone(), format_ident!("__d_{}", i.ident));
                    *q = parse_quote!(#n);
                    out.push(parse_quote!(let #v = *#n;));
                    continue;
                }
            }
            out.extend(take_refs(q));
        }
    }
    out
}
impl VisitMut for Cx {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        // other crates of the workspace: all items of a unit live side by side
        if p.segments.len() > 1 && p.segments[0].ident.to_string().starts_with("rez_next_") {
            let rest: Vec<syn::PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.leading_colon = None;
            p.segments = rest.into_iter().collect();
        }
        if p.segments.len() > 2 && p.segments[0].ident == "std" && (p.segments[1].ident == "path" || p.segments[1].ident == "io" && p.segments[2].ident == "ErrorKind" || p.segments[1].ident == "time" && p.segments[2].ident != "Instant" && p.segments[2].ident != "Duration") {
            let rest: Vec<syn::PathSegment> = p.segments.iter().skip(2).cloned().collect();
            p.leading_colon = None;
            p.segments = rest.into_iter().collect();
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = inline_closures(std::mem::take(&mut b.stmts), &mut self.notes);
        for mut s in old {
            // drop logging macros
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if DROP_MACROS.contains(&n.as_str()) {
                    self.notes.insert(format!("dropped {n}! statement"));
                    continue;
                }
            }
            if let Stmt::Item(_) = &s {
                if matches!(s, Stmt::Item(syn::Item::Use(_))) {
                    continue;
                }
            }
            // #[cfg(..)] on a statement: evaluated for linux
            if let Some(at) = stmt_attrs(&mut s) {
                let mut skip = false;
                at.retain(|a| {
                    if !a.path().is_ident("cfg") {
                        return true;
                    }
                    match &a.meta {
                        syn::Meta::List(l) => match cfg_tokens(&l.tokens) {
                            Some(v) => skip = skip || !v,
                            None => self.errs.push("#[cfg] on a statement not supported".into()),
                        },
                        _ => self.errs.push("#[cfg] on a statement not supported".into()),
                    }
                    false
                });
                if skip {
                    self.notes.insert("dropped code for another target".into());
                    continue;
                }
            }
            if let Stmt::Local(l) = &mut s {
                l.attrs.clear();
                if let Pat::Type(t) = &l.pat {
                    self.expect_ty = Some((*t.ty).clone());
                } else {
                    self.expect_ty = None;
                }
            } else {
                self.expect_ty = None;
            }
            self.visit_stmt_mut(&mut s);
            self.expect_ty = None;
            if let Stmt::Local(l) = &mut s {
                // `let x: Vec<&str> = ...` keeps its type; container types are mapped
                if let Pat::Type(t) = &mut l.pat {
                    map_type(&mut t.ty);
                }
            }
            // block-like expression statement needs no semicolon
            b.stmts.push(s);
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions
        match e {
            Expr::Await(a) => {
                let inner = (*a.base).clone();
                *e = inner;
                self.notes.insert("erased .await".into());
                return self.visit_expr_mut(e);
            }
            Expr::If(i) if matches!(&*i.cond, Expr::Macro(m) if m.mac.path.is_ident("cfg") && cfg_value(&m.mac) == Some(false)) => {
                // a branch for another target
                *e = match &i.else_branch {
                    Some((_, x)) => (**x).clone(),
                    None => parse_quote!({}),
                };
                return self.visit_expr_mut(e);
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.for_loop(&f) {
                    Some(mut n) => {
                        if f.label.is_some() {
                            // the label moves to the loop that replaces this one (the outermost)
                            struct L(Option<syn::Label>);
                            impl VisitMut for L {
                                fn visit_expr_while_mut(&mut self, w: &mut syn::ExprWhile) {
                                    if let Some(l) = self.0.take() {
                                        w.label = Some(l);
                                    }
                                }
                            }
                            L(f.label.clone()).visit_expr_mut(&mut n);
                        }
                        *e = n
                    }
                    None => self.errs.push(format!("for loop over `{}` not supported", txt(&f.expr))),
                }
                return;
            }
            Expr::While(w) => {
                if has_let(&w.cond) {
                    let k = self.next_loop("loop".into());
                    let (c, st, label) = (&w.cond, &w.body.stmts, &w.label);
                    if label.is_some() {
                        self.errs.push("labelled while-let not supported".into());
                        return;
                    }
                    let mut inner: Expr = parse_quote!(if #c { #(#st)* } else { break; });
                    self.visit_expr_mut(&mut inner);
                    *e = parse_quote!({
                        loop { __rz_loop!(#k); #inner __rz_loopend!(#k); }
                        __rz_after!(#k);
                    });
                    return;
                }
                let k = self.next_loop("while".into());
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let c = &w.cond;
                let st = &w.body.stmts;
                let label = &w.label;
                *e = parse_quote!({
                    #label while #c { __rz_loop!(#k); #(#st)* __rz_loopend!(#k); }
                    __rz_after!(#k);
                });
                return;
            }
            Expr::Loop(w) => {
                let k = self.next_loop("loop".into());
                self.visit_block_mut(&mut w.body);
                let st = &w.body.stmts;
                *e = parse_quote!({ loop { __rz_loop!(#k); #(#st)* __rz_loopend!(#k); } __rz_after!(#k); });
                return;
            }
            Expr::If(i) => {
                if let Some(n) = Self::iter_mut_find(i) {
                    *e = n;
                    return self.visit_expr_mut(e);
                }
                if has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
                    let then = &i.then_branch.stmts;
                    let els = match &i.else_branch {
                        Some((_, e)) => match &**e {
                            Expr::Block(b) => {
                                let s = &b.block.stmts;
                                quote!(#(#s)*)
                            }
                            o => quote!(#o),
                        },
                        None => quote!(),
                    };
                    let t = Self::desugar_cond(&i.cond, quote!(#(#then)*), els);
                    match syn::parse2::<Expr>(t) {
                        Ok(n) => *e = n,
                        Err(er) => self.errs.push(format!("let-chain: {er}")),
                    }
                    return self.visit_expr_mut(e);
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                match n.as_str() {
                    "format" => {
                        let t = m.mac.tokens.clone();
                        *e = self.expand_format(t);
                        return;
                    }
                    "vec" => {
                        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                        match syn::parse::Parser::parse2(parser, m.mac.tokens.clone()) {
                            Ok(args) => {
                                let mut v: Vec<Expr> = args.into_iter().collect();
                                for a in &mut v {
                                    self.visit_expr_mut(a);
                                }
                                if v.is_empty() {
                                    *e = parse_quote!(Vec::new());
                                } else {
                                    *e = parse_quote!({ let mut __v = Vec::new(); #(__v.push(#v);)* __v });
                                }
                            }
                            Err(_) => self.errs.push("vec![x; n] not supported".into()),
                        }
                        return;
                    }
                    "matches" => {
                        // matches!(e, pat [if guard])
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let a = i.parse()?;
                                i.parse::<syn::Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(syn::Token![if]) {
                                    i.parse::<syn::Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _ = i.parse::<Option<syn::Token![,]>>()?;
                                Ok(M(a, p, g))
                            }
                        }
                        match syn::parse2::<M>(m.mac.tokens.clone()) {
                            Ok(M(mut a, mut p, g)) => {
                                self.visit_pat_mut(&mut p);
                                self.visit_expr_mut(&mut a);
                                match g {
                                    Some(mut g) => {
                                        self.visit_expr_mut(&mut g);
                                        *e = parse_quote!(match #a { #p if #g => true, _ => false })
                                    }
                                    None => *e = parse_quote!(match #a { #p => true, _ => false }),
                                }
                            }
                            Err(er) => self.errs.push(format!("matches!: {er}")),
                        }
                        return;
                    }
                    "cfg" => {
                        // evaluated for the target the checks build for
                        match cfg_value(&m.mac) {
                            Some(true) => *e = parse_quote!(true),
                            Some(false) => *e = parse_quote!(false),
                            None => self.errs.push("cfg! not supported".into()),
                        }
                        return;
                    }
                    n if DROP_MACROS.contains(&n) => {
                        *e = parse_quote!(());
                        return;
                    }
                    _ => {
                        self.errs.push(format!("macro {n}! not supported"));
                        return;
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) && (matches!(&*b.left, Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if self.stats.iter().any(|s| n == s))) || matches!(&*b.left, Expr::Path(p) if self.stats.iter().any(|s| p.path.is_ident(s)))) => {
                let l = (*b.left).clone();
                let mut r = (*b.right).clone();
                self.visit_expr_mut(&mut r);
                self.notes.insert(format!("counter {} assumed not to overflow", txt(&l)));
                *e = parse_quote!(#l = rz_count(#l, #r));
                return;
            }
            Expr::Index(ix) if matches!(&*ix.index, Expr::Reference(_)) => {
                // map[&key]
                let (b, k) = (&ix.expr, &ix.index);
                let mut n: Expr = parse_quote!((*(#b).rz_at(#k)));
                visit_mut::visit_expr_mut(self, &mut n);
                *e = n;
            }
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => {
                let Expr::Range(rg) = (*ix.index).clone() else { return };
                let mut base = (*ix.expr).clone();
                self.visit_expr_mut(&mut base);
                if matches!(rg.limits, syn::RangeLimits::Closed(_)) {
                    self.errs.push("inclusive slice not supported".into());
                    return;
                }
                let (a, b) = (rg.start.map(|x| *x), rg.end.map(|x| *x));
                let a = a.map(|mut x| { self.visit_expr_mut(&mut x); x });
                let b = b.map(|mut x| { self.visit_expr_mut(&mut x); x });
                *e = match (a, b) {
                    (Some(a), None) => parse_quote!((*(#base).rz_from(#a))),
                    (Some(a), Some(b)) => parse_quote!((*(#base).rz_sub(#a, #b))),
                    (None, Some(b)) => parse_quote!((*(#base).rz_sub(0, #b))),
                    (None, None) => parse_quote!((*(#base).rz_slice())),
                };
                return;
            }
            Expr::Binary(b) => {
                let eqop = matches!(b.op, syn::BinOp::Eq(_));
                let neop = matches!(b.op, syn::BinOp::Ne(_));
                if (eqop || neop) && (is_ordering_path(&b.right) || is_ordering_path(&b.left)) {
                    let (mut l, r) = if is_ordering_path(&b.right) { ((*b.left).clone(), (*b.right).clone()) } else { ((*b.right).clone(), (*b.left).clone()) };
                    self.visit_expr_mut(&mut l);
                    let lastname = match &r {
                        Expr::Path(p) => p.path.segments.last().unwrap().ident.clone(),
                        _ => unreachable!(),
                    };
                    *e = if eqop {
                        parse_quote!(match #l { Ordering::#lastname => true, _ => false })
                    } else {
                        parse_quote!(match #l { Ordering::#lastname => false, _ => true })
                    };
                    return;
                }
            }
            Expr::Struct(st) if st.path.segments.len() >= 2 && st.path.segments[st.path.segments.len() - 2].ident.to_string().ends_with("Error") => {
                let id = st.path.segments[st.path.segments.len() - 2].ident.clone();
                *e = parse_quote!(#id::rz_err());
                self.notes.insert("error payloads replaced by an opaque error".into());
                return;
            }
            Expr::Call(c) => {
                // RezCoreError::Xxx(..) -> opaque error
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 && segs[segs.len() - 2].ends_with("Error") {
                        let id = format_ident!("{}", segs[segs.len() - 2]);
                        *e = parse_quote!(#id::rz_err());
                        self.notes.insert("error payloads replaced by an opaque error".into());
                        return;
                    }
                    let t = segs.join("::");
                    if self.fs && segs.len() >= 2 && segs[segs.len() - 2] == "fs" {
                        // std::fs::op(args): an operation on the file system
                        let id = format_ident!("{}", segs[segs.len() - 1]);
                        let args: Vec<Expr> = c.args.iter().cloned().map(|mut a| {
                            self.visit_expr_mut(&mut a);
                            if needs_ref(&a) { parse_quote!(&#a) } else { a }
                        }).collect();
                        *e = parse_quote!(rz_fs.#id(#(#args),*));
                        return;
                    }
                    let to = self.renames.get(&t).cloned();
                    if self.fs && self.fs_fns.contains(to.as_ref().unwrap_or(segs.last().unwrap())) {
                        if let Some(to) = to {
                            let id = quote::format_ident!("{}", to);
                            c.func = parse_quote!(#id);
                        }
                        for a in c.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        c.args.push(parse_quote!(rz_fs));
                        return;
                    }
                    match t.as_str() {
                        "String::new" => {
                            *e = parse_quote!(rz_empty_string());
                            return;
                        }
                        "String::from" => {
                            let mut a = c.args.first().cloned().unwrap();
                            self.visit_expr_mut(&mut a);
                            *e = parse_quote!((#a).rz_to_string());
                            return;
                        }
                        "String::with_capacity" => {
                            *e = parse_quote!(rz_empty_string());
                            return;
                        }
                        "HashMap::new" | "BTreeMap::new" | "HashMap::with_capacity" => {
                            *e = parse_quote!(RzMap::new());
                            return;
                        }
                        "HashSet::new" | "BTreeSet::new" | "HashSet::with_capacity" => {
                            *e = parse_quote!(RzSet::new());
                            return;
                        }
                        "VecDeque::new" | "VecDeque::with_capacity" => {
                            *e = parse_quote!(RzDeque::new());
                            return;
                        }
                        "Vec::with_capacity" => {
                            *e = parse_quote!(Vec::new());
                            return;
                        }
                        "std::mem::take" | "mem::take" => {
                            let mut a = c.args.first().cloned().unwrap();
                            self.visit_expr_mut(&mut a);
                            *e = parse_quote!(rz_mem_take(#a));
                            return;
                        }
                        "Arc::new" | "Box::new" | "Rc::new" if segs[0] == "Arc" => {
                            let mut a = c.args.first().cloned().unwrap();
                            self.visit_expr_mut(&mut a);
                            *e = a;
                            return;
                        }
                        "Arc::clone" => {
                            let mut a = c.args.first().cloned().unwrap();
                            self.visit_expr_mut(&mut a);
                            *e = parse_quote!((#a).rz_clone());
                            return;
                        }
                        _ => {}
                    }
                    if let Some(n) = self.renames.get(&t).cloned() {
                        let f: Expr = syn::parse_str(&n).unwrap();
                        c.func = Box::new(f);
                    } else if segs.len() <= 2 {
                        let name = segs.last().unwrap().clone();
                        let hint: Option<String> = if segs.len() == 2 {
                            if segs[0] == "Self" { self.self_ty.clone() } else { Some(segs[0].clone()) }
                        } else {
                            None
                        };
                        if name.chars().next().map_or(false, |c| c.is_lowercase()) && segs[0] != "super" {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            if let Some(n) = self.inline_helper(&name, None, &args, hint.as_deref()) {
                                *e = n;
                                return;
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(_) => {
                if let Some(n) = self.try_pipeline(&e.clone()) {
                    *e = n;
                    return;
                }
                if let Some(n) = self.method(&e.clone()) {
                    *e = n;
                    return;
                }
                if let Expr::MethodCall(m) = e.clone() {
                    if txt(&m.receiver) == "self" {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        let ty = self.self_ty.clone();
                        if let Some(n) = self.inline_helper(&m.method.to_string(), Some(&m.receiver), &args, ty.as_deref()) {
                            *e = n;
                            return;
                        }
                    }
                }
            }
            Expr::Closure(_) => {
                self.errs.push(format!("closure `{}` not supported here", txt(e)));
                return;
            }
            _ => {}
        }
        self.expect_ty = None;
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Cx {
    /// `if let Some(x) = V.iter_mut().find(p) { B } ..` -> position + mutable index
    fn iter_mut_find(i: &syn::ExprIf) -> Option<Expr> {
        let Expr::Let(l) = &*i.cond else { return None };
        let Expr::MethodCall(m) = &*l.expr else { return None };
        if m.method != "find" {
            return None;
        }
        let Expr::MethodCall(im) = &*m.receiver else { return None };
        if im.method != "iter_mut" {
            return None;
        }
        let v = &im.receiver;
        let p = m.args.first()?;
        let Pat::TupleStruct(ts) = &*l.pat else { return None };
        let x = ts.elems.first()?;
        let st = &i.then_branch.stmts;
        let mut n: syn::ExprIf = parse_quote!(if let Some(__j) = #v.iter().position(#p) { let #x = &mut #v[__j]; #(#st)* });
        n.else_branch = i.else_branch.clone();
        Some(Expr::If(n))
    }

    /// `V.retain(p)` on a vector or a map
    fn retain(&mut self, recv: &Expr, f: &Expr) -> Option<Expr> {
        if let Some((p, b)) = closure_parts(f, 2) {
            let (p0, p1) = (&p[0], &p[1]);
            let mut rv = recv.clone();
            self.visit_expr_mut(&mut rv);
            let k = self.next_loop("retain-map".into());
            let mut b = b;
            self.visit_expr_mut(&mut b);
            let (s, i, r, o) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__r{}", k), format_ident!("__o{}", k));
            return Some(parse_quote!({
                let #o = rz_mem_take(&mut #rv);
                let #s = #o.rz_iter();
                let mut #r = RzMap::new();
                let mut #i: usize = 0;
                while #i < #s.len() {
                    __rz_loop!(#k);
                    let #p0 = #s[#i].0;
                    let #p1 = #s[#i].1;
                    #i += 1;
                    if #b { #r.insert(rz_own(#s[#i - 1].0), rz_own(#s[#i - 1].1)); }
                    __rz_loopend!(#k);
                }
                __rz_after!(#k);
                #rv = #r;
            }));
        }
        let (p, mut b) = closure_parts(f, 1)?;
        let p0 = &p[0];
        let mut rv = recv.clone();
        self.visit_expr_mut(&mut rv);
        let k = self.next_loop("retain".into());
        self.visit_expr_mut(&mut b);
        let (s, i, r) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__r{}", k));
        Some(parse_quote!({
            let #s = rz_mem_take(&mut #rv);
            let mut #r = Vec::new();
            let mut #i: usize = 0;
            while #i < #s.len() {
                __rz_loop!(#k);
                let #p0 = &#s[#i];
                #i += 1;
                if #b { #r.push(rz_own(&#s[#i - 1])); }
                __rz_loopend!(#k);
            }
            __rz_after!(#k);
            #rv = #r;
        }))
    }

    /// method-name based rewrites (non-pipeline)
    fn method(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        let mut recv = (*m.receiver).clone();
        let nargs = m.args.len();
        let a0 = m.args.first().cloned();
        macro_rules! r {
            () => {{
                self.visit_expr_mut(&mut recv);
                recv.clone()
            }};
        }
        macro_rules! arg {
            ($a:expr) => {{
                let mut a = $a.clone();
                self.visit_expr_mut(&mut a);
                a
            }};
        }
        if let Some(nn) = self.renames.get(&format!(".{name}")).cloned() {
            let rv = r!();
            let id = format_ident!("{}", nn);
            let args: Vec<Expr> = m.args.iter().map(|a| arg!(a)).collect();
            return Some(parse_quote!((#rv).#id(#(#args),*)));
        }
        if self.fs {
            match (name.as_str(), nargs) {
                ("exists" | "is_dir" | "is_file" | "is_symlink", 0) => {
                    let rv = r!();
                    let id = format_ident!("rz_{}", name);
                    return Some(parse_quote!((#rv).#id(rz_fs)));
                }
                ("join", 1) => {
                    let rv = r!();
                    let a = arg!(a0.unwrap());
                    let a: Expr = if needs_ref(&a) { parse_quote!(&#a) } else { a };
                    return Some(parse_quote!((#rv).rz_pjoin(#a)));
                }
                ("open", 1) => {
                    // OpenOptions::new().write(true).create_new(true).open(p): create, never overwrite
                    let (root, calls) = Self::split_chain(&m.receiver);
                    let mut set: Vec<String> = calls.iter().map(|(c, n)| format!("{n}({})", c.args.iter().map(txt).collect::<Vec<_>>().join(","))).collect();
                    set.sort();
                    if txt(&root).replace(' ', "").ends_with("OpenOptions::new()") && set == ["create_new(true)", "write(true)"] {
                        let a = arg!(a0.unwrap());
                        return Some(parse_quote!(rz_fs.create_new(#a)));
                    }
                    self.errs.push("this way of opening a file is not supported".into());
                    return None;
                }
                _ => {}
            }
            if txt(&recv) == "self" && self.fs_fns.contains(&name) {
                let args: Vec<Expr> = m.args.iter().map(|a| arg!(a)).collect();
                let id = &m.method;
                return Some(parse_quote!(self.#id(#(#args,)* rz_fs)));
            }
        }
        // V.iter_mut().find(p) as a value
        if name == "find" {
            if let Expr::MethodCall(im) = &*m.receiver {
                if im.method == "iter_mut" {
                    if let Some(p) = m.args.first() {
                        let v = &im.receiver;
                        let mut e: Expr = parse_quote!(match #v.iter().position(#p) { Some(__j) => Some(&mut #v[__j]), None => None });
                        self.visit_expr_mut(&mut e);
                        return Some(e);
                    }
                }
            }
        }
        // V.iter_mut() etc. are only known in the shapes above
        if name == "or_default" || name == "or_insert_with" || name == "or_insert" {
            if let Expr::MethodCall(en) = &recv {
                if en.method == "entry" && en.args.len() == 1 {
                    let mut mp = (*en.receiver).clone();
                    self.visit_expr_mut(&mut mp);
                    let key = arg!(en.args[0]);
                    return Some(match name.as_str() {
                        "or_default" => parse_quote!((#mp).rz_entry_or_default(#key)),
                        "or_insert" => {
                            let d = arg!(m.args[0]);
                            parse_quote!((#mp).rz_entry_or_insert(#key, #d))
                        }
                        _ => {
                            let a = &m.args[0];
                            let mut d: Expr = match closure_parts(a, 0) {
                                Some((_, b)) => b,
                                None => parse_quote!(#a()),
                            };
                            self.visit_expr_mut(&mut d);
                            parse_quote!((#mp).rz_entry_or_insert(#key, #d))
                        }
                    });
                }
            }
        }
        if name == "retain" && nargs == 1 {
            return self.retain(&recv, a0.as_ref().unwrap());
        }
        if name == "sort_by_key" && nargs == 1 {
            // v.sort_by_key(|p| K) is v.sort_by(|a, b| K(a).cmp(&K(b)))
            let (p, b) = closure_parts(a0.as_ref().unwrap(), 1)?;
            let p = &p[0];
            let mut eq: Expr = parse_quote!(#recv.sort_by(|__ka, __kb| { let __k0 = { let #p = __ka; #b }; let __k1 = { let #p = __kb; #b }; __k0.cmp(&__k1) }));
            self.visit_expr_mut(&mut eq);
            return Some(eq);
        }
        if name == "sort_by" && nargs == 1 {
            // the closure keeps its body; its contract comes from the unit (section `sort K`)
            let (p, mut b) = closure_parts(a0.as_ref().unwrap(), 2)?;
            let rv = r!();
            let k = self.sorts;
            self.sorts += 1;
            self.visit_expr_mut(&mut b);
            let (p0, p1) = (&p[0], &p[1]);
            return Some(parse_quote!((#rv).rz_sort_by(|__rz_sa: __RzSortTy, __rz_sb: __RzSortTy| { __rz_sort!(#k); let #p0 = __rz_sa; let #p1 = __rz_sb; #b }, __rz_sort_ghost!(#k))));
        }
        if name == "map" && nargs == 1 {
            if let Expr::MethodCall(pm) = &recv {
                if pm.method == "parse" {
                    let (p, mut b) = closure_parts(a0.as_ref().unwrap(), 1)?;
                    let rv = r!();
                    self.visit_expr_mut(&mut b);
                    let p = &p[0];
                    return Some(parse_quote!(match #rv { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }));
                }
            }
        }
        let out: Expr = match (name.as_str(), nargs) {
            ("clone", 0) | ("to_vec", 0) => {
                let mut rv = r!();
                // (*x).clone(): the same value through a reference (or an Arc, which is erased)
                let mut inner = &rv;
                while let Expr::Paren(p) = inner {
                    inner = &p.expr;
                }
                if let Expr::Unary(u) = inner {
                    if matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(_)) {
                        rv = (*u.expr).clone();
                    }
                }
                if name == "to_vec" {
                    parse_quote!((#rv).rz_to_vec())
                } else {
                    parse_quote!((#rv).rz_clone())
                }
            }
            ("to_string", 0) | ("to_owned", 0) => {
                let rv = r!();
                parse_quote!((#rv).rz_to_string())
            }
            ("into", 0) | ("into_owned", 0) => {
                let rv = r!();
                parse_quote!((#rv).rz_into())
            }
            ("is_empty", 0) => {
                let rv = r!();
                parse_quote!((#rv).rz_is_empty())
            }
            ("trim", 0) | ("trim_start", 0) | ("trim_end", 0) | ("to_lowercase", 0) | ("to_uppercase", 0) | ("as_deref", 0) | ("as_str", 0) | ("is_alphabetic", 0) | ("is_ascii_digit", 0) | ("is_alphanumeric", 0) | ("is_ascii_lowercase", 0) | ("is_whitespace", 0)
            | ("is_ascii_alphanumeric", 0) | ("is_ascii_alphabetic", 0) | ("is_ascii_uppercase", 0) | ("to_ascii_lowercase", 0) => {
                let rv = r!();
                let id = format_ident!("rz_{}", name);
                parse_quote!((#rv).#id())
            }
            ("strip_prefix", 1) | ("strip_suffix", 1) | ("starts_with", 1) | ("ends_with", 1) | ("split_once", 1) | ("rsplit_once", 1) | ("trim_start_matches", 1) | ("trim_end_matches", 1) => {
                let a = a0.unwrap();
                let sfx = match arg_kind(&a) {
                    Arg1::Char => "c",
                    Arg1::Closure(c) => {
                        // starts_with(|c: char| c.is_ascii_digit())
                        let t = txt(&c.body);
                        if name == "starts_with" && t.ends_with(".is_ascii_digit()") {
                            let rv = r!();
                            return Some(parse_quote!((#rv).rz_starts_with_digit()));
                        }
                        return None;
                    }
                    _ => "s",
                };
                let id = format_ident!("rz_{}_{}", name, sfx);
                let rv = r!();
                let a = arg!(a);
                parse_quote!((#rv).#id(#a))
            }
            ("contains", 1) => {
                let a = a0.unwrap();
                match arg_kind(&a) {
                    Arg1::Char => {
                        let rv = r!();
                        parse_quote!((#rv).rz_contains_c(#a))
                    }
                    Arg1::Str => {
                        let rv = r!();
                        parse_quote!((#rv).rz_contains_s(#a))
                    }
                    Arg1::Closure(_) => return None,
                    Arg1::Other => {
                        let rv = r!();
                        let a = arg!(a);
                        parse_quote!((#rv).rz_contains(#a))
                    }
                }
            }
            ("replace", 2) => {
                // a pattern of one character is that character
                if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &m.args[0] {
                    let v = l.value();
                    if v.chars().count() == 1 {
                        let c = syn::LitChar::new(v.chars().next().unwrap(), l.span());
                        let rv = r!();
                        let b = arg!(m.args[1]);
                        return Some(parse_quote!((#rv).rz_replace_c(#c, #b)));
                    }
                }
                let a = m.args[0].clone();
                let id = match arg_kind(&a) {
                    Arg1::Char => format_ident!("rz_replace_c"),
                    Arg1::Closure(_) => return None,
                    _ => format_ident!("rz_replace_s"),
                };
                let rv = r!();
                let a = arg!(m.args[0]);
                let b = arg!(m.args[1]);
                parse_quote!((#rv).#id(#a, #b))
            }
            ("join", 1) => {
                let rv = r!();
                let a = arg!(a0.unwrap());
                parse_quote!((#rv).rz_join(#a))
            }
            ("push_str", 1) => {
                let rv = r!();
                let a = arg!(a0.unwrap());
                parse_quote!((#rv).rz_push_str(#a))
            }
            ("push", 1) => {
                let rv = r!();
                let a = arg!(a0.unwrap());
                parse_quote!((#rv).rz_push(#a))
            }
            ("parse", 0) => {
                let t = m.turbofish.as_ref().map(|t| txt(t)).or(self.expect_ty.as_ref().map(txt)).unwrap_or_default();
                let ty = ["i64", "u64", "i32", "u32", "usize"].iter().find(|n| t.contains(**n))?;
                let id = format_ident!("rz_parse_{}", ty);
                let rv = r!();
                parse_quote!((#rv).#id())
            }
            ("is_some_and", 1) => {
                let (p, mut b) = closure_parts(&a0.unwrap(), 1)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                let p = &p[0];
                parse_quote!(match #rv { Some(#p) => #b, None => false })
            }
            ("is_none_or", 1) => {
                let (p, mut b) = closure_parts(&a0.unwrap(), 1)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                let p = &p[0];
                parse_quote!(match #rv { Some(#p) => #b, None => true })
            }
            ("map_or", 2) => {
                let (p, mut b) = closure_parts(&m.args[1], 1)?;
                let rv = r!();
                let d = arg!(m.args[0]);
                self.visit_expr_mut(&mut b);
                let p = &p[0];
                parse_quote!(match #rv { Some(#p) => #b, None => #d })
            }
            ("map_or_else", 2) => {
                let (p, mut b) = closure_parts(&m.args[1], 1)?;
                let (_, mut d) = closure_parts(&m.args[0], 0)?;
                let rv = r!();
                self.visit_expr_mut(&mut d);
                self.visit_expr_mut(&mut b);
                let p = &p[0];
                parse_quote!(match #rv { Some(#p) => #b, None => #d })
            }
            ("map", 1) => {
                let rv0 = recv.clone();
                let _ = rv0;
                match closure_parts(a0.as_ref().unwrap(), 1) {
                    Some((p, mut b)) => {
                        let rv = r!();
                        self.visit_expr_mut(&mut b);
                        let p = &p[0];
                        parse_quote!(match #rv { Some(#p) => Some(#b), None => None })
                    }
                    None => return None,
                }
            }
            ("and_then", 1) => {
                let (p, mut b) = closure_parts(&a0.unwrap(), 1)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                let p = &p[0];
                parse_quote!(match #rv { Some(#p) => #b, None => None })
            }
            ("unwrap_or_else", 1) if matches!(a0.as_ref(), Some(Expr::Closure(c)) if c.inputs.len() == 1) => {
                // Result::unwrap_or_else
                let (_, mut b) = closure_parts(a0.as_ref().unwrap(), 1)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                parse_quote!(match #rv { Ok(__u) => __u, Err(_) => #b })
            }
            ("unwrap_or_else", 1) => {
                let (_, mut b) = closure_parts(&a0.unwrap(), 0)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                parse_quote!(match #rv { Some(__u) => __u, None => #b })
            }
            ("or_else", 1) if closure_parts(a0.as_ref().unwrap(), 1).is_some() => {
                // Result::or_else
                let (_, mut b) = closure_parts(a0.as_ref().unwrap(), 1)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                parse_quote!(match #rv { Ok(__u) => Ok(__u), Err(_) => #b })
            }
            ("or_else", 1) => {
                let (_, mut b) = closure_parts(&a0.unwrap(), 0)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                parse_quote!(match #rv { Some(__u) => Some(__u), None => #b })
            }
            ("unwrap_or", 1) => {
                let rv = r!();
                let a = arg!(a0.unwrap());
                parse_quote!(match #rv { Some(__u) => __u, None => #a })
            }
            ("then", 1) => {
                let (_, mut b) = closure_parts(&a0.unwrap(), 0)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                parse_quote!(if #rv { Some(#b) } else { None })
            }
            ("then_with", 1) => {
                let (_, mut b) = closure_parts(&a0.unwrap(), 0)?;
                let rv = r!();
                self.visit_expr_mut(&mut b);
                parse_quote!(match #rv { Ordering::Equal => #b, __o => __o })
            }
            ("then", _) => return None,
            ("ok_or_else", 1) | ("ok_or", 1) => {
                let rv = r!();
                let mut b = match closure_parts(a0.as_ref().unwrap(), 0) {
                    Some((_, b)) => b,
                    None => a0.unwrap(),
                };
                self.visit_expr_mut(&mut b);
                parse_quote!(match #rv { Some(__u) => Ok(__u), None => Err(#b) })
            }
            ("map_err", 1) => {
                let rv = r!();
                match closure_parts(a0.as_ref().unwrap(), 1) {
                    Some((p, mut b)) => {
                        self.visit_expr_mut(&mut b);
                        let p = &p[0];
                        let _ = p;
                        parse_quote!(match #rv { Ok(__u) => Ok(__u), Err(_) => Err(#b) })
                    }
                    None => {
                        let t = txt(a0.as_ref().unwrap());
                        let ty = t.split("::").next().unwrap_or("RezCoreError").to_string();
                        let id = format_ident!("{}", ty);
                        parse_quote!(match #rv { Ok(__u) => Ok(__u), Err(_) => Err(#id::rz_err()) })
                    }
                }
            }
            ("ok", 0) => {
                let rv = r!();
                parse_quote!(match #rv { Ok(__u) => Some(__u), Err(_) => None })
            }
            ("is_ok", 0) => {
                let rv = r!();
                parse_quote!(match #rv { Ok(_) => true, Err(_) => false })
            }
            ("is_err", 0) => {
                let rv = r!();
                parse_quote!(match #rv { Ok(_) => false, Err(_) => true })
            }
            ("split", 1) if matches!(arg_kind(&m.args[0]), Arg1::Char | Arg1::Str) => {
                // a `Split` kept in a variable and stepped with `next`
                let rv = r!();
                let f = if matches!(arg_kind(&m.args[0]), Arg1::Char) { format_ident!("rz_split_c") } else { format_ident!("rz_split_s") };
                let a = arg!(&m.args[0]);
                parse_quote!(rz_parts((#rv).#f(#a)))
            }
            ("as_ref", 0) | ("get", 1) | ("first", 0) | ("last", 0) | ("extend", 1) | ("insert", 2) | ("remove", 1) | ("min", 1) | ("max", 1) | ("unwrap_or_default", 0) | ("contains_key", 1) | ("dedup", 0) | ("reverse", 0) | ("sort", 0) | ("truncate", 1) | ("clear", 0) | ("take", 0)
            | ("copied", 0) | ("cloned", 0) => {
                let rv = r!();
                let id = match name.as_str() {
                    "as_ref" | "insert" | "contains_key" | "take" => format_ident!("{}", name),
                    _ => format_ident!("rz_{}", name),
                };
                let args: Vec<Expr> = m.args.iter().map(|a| arg!(a)).collect();
                parse_quote!((#rv).#id(#(#args),*))
            }
            ("lock", 0) | ("read", 0) | ("write", 0) => return None,
            _ => return None,
        };
        Some(out)
    }
}

/// an owned value passed where a path-like reference is wanted
fn needs_ref(a: &Expr) -> bool {
    match a {
        Expr::MethodCall(m) => !["rz_as_str", "as_ref", "rz_as_deref"].contains(&m.method.to_string().as_str()),
        Expr::Block(_) => true,
        Expr::Paren(p) => needs_ref(&p.expr),
        Expr::Call(c) => txt(&c.func).starts_with("rz_"),
        _ => false,
    }
}

/// container and foreign types -> prelude types
pub fn map_type(t: &mut Type) {
    struct M;
    impl VisitMut for M {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if txt(t).replace(' ', "") == "implInto<String>" {
                *t = parse_quote!(impl RzStr);
                return;
            }
            if let Type::Path(p) = t {
                if let Some(seg) = p.path.segments.last().cloned() {
                    let id = seg.ident.to_string();
                    let args: Vec<Type> = match &seg.arguments {
                        syn::PathArguments::AngleBracketed(a) => a
                            .args
                            .iter()
                            .filter_map(|g| if let syn::GenericArgument::Type(t) = g { Some(t.clone()) } else { None })
                            .collect(),
                        _ => vec![],
                    };
                    let mut rep: Option<Type> = match (id.as_str(), args.len()) {
                        ("HashMap" | "BTreeMap" | "DashMap", 2) => {
                            let v = &args[1];
                            Some(parse_quote!(RzMap<#v>))
                        }
                        ("HashSet" | "BTreeSet", 1) => {
                            if txt(&args[0]).contains("String") {
                                Some(parse_quote!(RzSet))
                            } else {
                                let a = &args[0];
                                Some(parse_quote!(RzSetOf<#a>))
                            }
                        }
                        ("VecDeque", 1) => {
                            let a = &args[0];
                            Some(parse_quote!(RzDeque<#a>))
                        }
                        ("Arc" | "Rc", 1) => Some(args[0].clone()),
                        ("PathBuf", 0) => Some(parse_quote!(RzPath)),
                        ("Path", 0) => Some(parse_quote!(RzPath)),
                        ("f64" | "f32" | "SystemTime" | "Duration" | "Instant", 0) => Some(parse_quote!(RzOpaque)),
                        _ => None,
                    };
                    if p.path.segments.len() > 1 && rep.is_none() {
                        // drop module qualification
                        let s = seg.clone();
                        rep = Some(parse_quote!(#s));
                    }
                    if let Some(mut r) = rep {
                        visit_mut::visit_type_mut(self, &mut r);
                        *t = r;
                        return;
                    }
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    M.visit_type_mut(t);
}
