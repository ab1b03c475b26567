//! Unit files: contracts + anchors -> one Verus file.
use crate::desugar::{map_type, strip_lifetimes, Cx};
use crate::find;
use quote::quote;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::Path;
use syn::visit_mut::VisitMut;

struct FnDir {
    path: String,
    item: String,
    opts: BTreeMap<String, String>,
    sections: BTreeMap<String, String>,
}

pub struct Out {
    text: String,
    metas: Vec<Value>,
    files: HashMap<String, syn::File>,
    repo: String,
    known: BTreeSet<String>,
    fs_fns: BTreeSet<String>,
    /// functions whose proof is not redone in this run (reported as such)
    force: Vec<String>,
    /// replace every body by `assert(false)`: each function must then fail (vacuity guard)
    probe: bool,
}

fn load<'a>(o: &'a mut Out, path: &str) -> Result<&'a syn::File, String> {
    if !o.files.contains_key(path) {
        let p = Path::new(&o.repo).join(path);
        let s = fs::read_to_string(&p).map_err(|e| format!("anchor file {path}: {e}"))?;
        let f = syn::parse_file(&s).map_err(|e| format!("cannot parse {path}: {e}"))?;
        o.files.insert(path.to_string(), f);
    }
    Ok(&o.files[path])
}

pub fn process(repo: &str, unit: &str, force: Vec<String>, probe: bool) -> Result<(String, Value), String> {
    let src = expand_includes(unit)?;
    let mut o = Out {
        text: String::new(),
        metas: vec![],
        files: HashMap::new(),
        repo: repo.to_string(),
        known: BTreeSet::new(),
        fs_fns: BTreeSet::new(),
        force,
        probe,
    };
    // names under contract (or declared in the unit itself) are never inlined
    let fnre = regex::Regex::new(r"(?m)(?:\b(spec|proof|axiom)\s+)?\bfn\s+([A-Za-z_][A-Za-z0-9_]*)").unwrap();
    for c in fnre.captures_iter(&src) {
        if c.get(1).is_none() {
            o.known.insert(c[2].to_string());
        }
    }
    for l in src.lines() {
        if let Some(r) = l.strip_prefix("//@fn ") {
            let item = r.split(" :: ").nth(1).unwrap_or("").trim();
            o.known.insert(item.rsplit("::").next().unwrap_or(item).to_string());
        }
    }
    let lines: Vec<&str> = src.lines().collect();
    let mut cur = String::new();
    for l in &lines {
        if let Some(r) = l.strip_prefix("//@fn ") {
            let item = r.split(" :: ").nth(1).unwrap_or("").trim();
            cur = item.rsplit("::").next().unwrap_or(item).to_string();
        } else if l.trim() == "//@ fs" {
            o.fs_fns.insert(cur.clone());
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if let Some(r) = l.strip_prefix("//@fn ") {
            let (path, item) = r.split_once(" :: ").ok_or("bad //@fn")?;
            let mut d = FnDir {
                path: path.trim().into(),
                item: item.trim().into(),
                opts: BTreeMap::new(),
                sections: BTreeMap::new(),
            };
            let mut cur: Option<String> = None;
            i += 1;
            while i < lines.len() && !lines[i].starts_with("//@endfn") {
                let l = lines[i];
                if let Some(s) = l.strip_prefix("//@ ") {
                    let s = s.trim();
                    let (h, rest) = s.split_once(' ').unwrap_or((s, ""));
                    match h {
                        "requires" | "ensures" | "decreases" | "entry" | "exit" | "returns" | "attrs" => {
                            cur = Some(h.to_string());
                            d.sections.entry(h.to_string()).or_default();
                        }
                        "loop" | "except" | "loopentry" | "loopend" | "after" | "before" | "sort" => {
                            let k = format!("{h} {}", rest.trim());
                            d.sections.entry(k.clone()).or_default();
                            cur = Some(k);
                        }
                        _ => {
                            d.opts.insert(h.to_string(), rest.trim().to_string());
                            cur = None;
                        }
                    }
                } else if let Some(k) = &cur {
                    let e = d.sections.get_mut(k).unwrap();
                    e.push_str(l);
                    e.push('\n');
                }
                i += 1;
            }
            let (item, path) = (d.item.clone(), d.path.clone());
            let (tl, ml) = (o.text.len(), o.metas.len());
            let first = emit_fn(&mut o, &d, false);
            if let Err(e) = first {
                o.text.truncate(tl);
                o.metas.truncate(ml);
                // outside the subset (or changed shape): keep the contract, report the proof as not redone
                let second = emit_fn(&mut o, &d, true);
                if let Err(e2) = second {
                    o.text.truncate(tl);
                    o.metas.truncate(ml);
                    o.metas.push(json!({"item": item, "path": path, "lost": e2, "degraded": e, "start": 0, "end": 0}));
                } else if let Some(m) = o.metas.last_mut() {
                    m["degraded"] = json!(e);
                }
            }
        } else if let Some(r) = l.strip_prefix("//@struct ") {
            emit_ty(&mut o, "struct", r)?;
        } else if let Some(r) = l.strip_prefix("//@enum ") {
            emit_ty(&mut o, "enum", r)?;
        } else if let Some(r) = l.strip_prefix("//@const ") {
            let mut it = r.split_whitespace();
            let (p, n) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            let f = load(&mut o, p)?;
            let it = find::find_item(f, "const", n)?;
            if let syn::Item::Const(mut c) = it {
                c.attrs.clear();
                c.vis = syn::parse_quote!(pub);
                if let syn::Type::Reference(r) = &mut *c.ty {
                    r.lifetime = Some(syn::parse_quote!('static));
                }
                let s = quote!(#c).to_string();
                o.text.push_str(&s);
                o.text.push('\n');
            }
        } else {
            o.text.push_str(l);
            o.text.push('\n');
        }
        i += 1;
    }
    let m = json!({"unit": unit, "fns": o.metas});
    Ok((o.text, m))
}

fn expand_includes(unit: &str) -> Result<String, String> {
    let s = fs::read_to_string(unit).map_err(|e| format!("{unit}: {e}"))?;
    let dir = Path::new(unit).parent().unwrap().to_path_buf();
    let mut out = String::new();
    for l in s.lines() {
        if let Some(f) = l.strip_prefix("//@include ") {
            let p = dir.join(f.trim());
            out.push_str(&expand_includes(p.to_str().unwrap())?);
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    Ok(out)
}

fn emit_ty(o: &mut Out, kind: &str, r: &str) -> Result<(), String> {
    let mut it = r.split_whitespace();
    let p = it.next().ok_or("bad type directive")?.to_string();
    let n = it.next().ok_or("bad type directive")?.to_string();
    let mut omit: Vec<String> = vec![];
    let mut attr = String::new();
    let mut rename = n.clone();
    let mut dflt = false;
    let mut extra = String::new();
    for x in it {
        dflt |= x == "default";
        if let Some(v) = x.strip_prefix("omit=") {
            omit = v.split(',').map(|s| s.to_string()).collect();
        }
        if let Some(v) = x.strip_prefix("attr=") {
            attr = v.to_string();
        }
        if let Some(v) = x.strip_prefix("as=") {
            rename = v.to_string();
        }
    }
    let f = load(o, &p)?;
    let item = find::find_item(f, kind, &n)?;
    let id = syn::Ident::new(&rename, proc_macro2::Span::call_site());
    let text = match item {
        syn::Item::Struct(s) => {
            let g = &s.generics;
            let mut fs = vec![];
            let mut names = vec![];
            match &s.fields {
                syn::Fields::Named(nf) => {
                    for fld in &nf.named {
                        let name = fld.ident.clone().unwrap();
                        if omit.contains(&name.to_string()) {
                            continue;
                        }
                        let mut t = fld.ty.clone();
                        map_type(&mut t);
                        fs.push(quote!(pub #name: #t));
                        names.push(name);
                    }
                    let dd = s.attrs.iter().any(|a| a.path().is_ident("derive") && quote!(#a).to_string().replace(',', " ").split_whitespace().any(|w| w.trim_matches(|c| c == '(' || c == ')' || c == ']') == "Default"));
                    if dflt && dd {
                        let es: Vec<String> = names.iter().map(|f| format!("r.{f}.is_def()")).collect();
                        extra = format!("impl {rename} {{ #[verifier::external_body] pub fn default() -> (r: {rename}) ensures {} {{ unimplemented!() }} }}\n", es.join(", "));
                    }
                    quote!(pub struct #id #g { #(#fs),* })
                }
                syn::Fields::Unnamed(nf) => {
                    for fld in &nf.unnamed {
                        let mut t = fld.ty.clone();
                        map_type(&mut t);
                        fs.push(quote!(pub #t));
                    }
                    quote!(pub struct #id #g ( #(#fs),* );)
                }
                syn::Fields::Unit => quote!(pub struct #id;),
            }
        }
        syn::Item::Enum(e) => {
            let mut vs = vec![];
            for v in &e.variants {
                if omit.contains(&v.ident.to_string()) {
                    continue;
                }
                let vi = &v.ident;
                match &v.fields {
                    syn::Fields::Named(nf) => {
                        let fs: Vec<_> = nf
                            .named
                            .iter()
                            .map(|f| {
                                let n = &f.ident;
                                let mut t = f.ty.clone();
                                map_type(&mut t);
                                quote!(#n: #t)
                            })
                            .collect();
                        vs.push(quote!(#vi { #(#fs),* }));
                    }
                    syn::Fields::Unnamed(nf) => {
                        let fs: Vec<_> = nf
                            .unnamed
                            .iter()
                            .map(|f| {
                                let mut t = f.ty.clone();
                                map_type(&mut t);
                                quote!(#t)
                            })
                            .collect();
                        vs.push(quote!(#vi ( #(#fs),* )));
                    }
                    syn::Fields::Unit => vs.push(quote!(#vi)),
                }
            }
            quote!(pub enum #id { #(#vs),* })
        }
        _ => return Err("bad type".into()),
    };
    if !attr.is_empty() {
        o.text.push_str(&format!("#[{attr}]\n"));
    }
    let file: syn::File = syn::parse2(text).map_err(|e| format!("type {n}: {e}"))?;
    o.text.push_str(&prettyplease::unparse(&file));
    o.text.push_str(&extra);
    Ok(())
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn emit_fn(o: &mut Out, d: &FnDir, degrade: bool) -> Result<(), String> {
    let forced = o.force.contains(&d.item);
    let probe = o.probe;
    let known = o.known.clone();
    let o_fs = o.fs_fns.clone();
    let file = load(o, &d.path)?;
    let helpers = find::all_fns(file);
    let fd = find::find_fn(file, &d.item)?;
    let mut f = fd.func.clone();
    let src_hash = {
        let b = &f.block;
        let s = &f.sig;
        fnv(&quote!(#s #b).to_string())
    };
    f.attrs.clear();
    let list = |k: &str| -> Vec<String> {
        d.opts
            .get(k)
            .map(|s| s.split(',').map(|x| x.trim().replace(' ', "")).filter(|x| !x.is_empty()).collect())
            .unwrap_or_default()
    };
    let renames: BTreeMap<String, String> = d
        .opts
        .get("rename")
        .map(|s| {
            s.split(',')
                .filter_map(|p| p.split_once('=').map(|(a, b)| (a.trim().to_string(), b.trim().to_string())))
                .collect()
        })
        .unwrap_or_default();
    let mut cx = Cx {
        loops: 0,
        shapes: vec![],
        errs: vec![],
        notes: Default::default(),
        maps: list("maps"),
        renames,
        helpers,
        known,
        self_ty: fd.self_ty.clone(),
        depth: 0,
        expect_ty: None,
        inlined: Default::default(),
        keep_fmt: d.opts.contains_key("keepfmt"),
        owned_iter: d.opts.contains_key("owned"),
        moves: list("moves"),
        sets: list("sets"),
        stats: list("stats"),
        sorts: 0,
        fs: d.opts.contains_key("fs"),
        fs_fns: o_fs,
    };
    let declared = d.opts.contains_key("assume");
    let assume = declared || degrade || forced;
    let mut body = (*f.block).clone();
    if !assume {
        cx.visit_block_mut(&mut body);
        if !cx.errs.is_empty() {
            return Err(format!("{}: {}", d.item, cx.errs.join("; ")));
        }
    }
    // signature
    let name = d.opts.get("as").cloned().unwrap_or_else(|| f.sig.ident.to_string());
    let mut params = vec![];
    for inp in &f.sig.inputs {
        match inp {
            syn::FnArg::Receiver(r) => {
                if d.opts.contains_key("freeself") {
                    let t = fd.self_ty.clone().unwrap_or_default();
                    let m = if r.reference.is_some() { if r.mutability.is_some() { "&mut " } else { "&" } } else { "" };
                    params.push(format!("this: {m}{t}"));
                } else {
                    let mut r = r.clone();
                    r.attrs.clear();
                    params.push(quote!(#r).to_string().replace("& ", "&"));
                }
            }
            syn::FnArg::Typed(t) => {
                let mut ty = strip_lifetimes(&t.ty);
                map_type(&mut ty);
                if let Some(ov) = d.opts.get("argty") {
                    // argty name=Type;name2=Type
                    for kv in ov.split(';') {
                        if let Some((k, v)) = kv.split_once('=') {
                            let pn = {
                                let p = &t.pat;
                                quote!(#p).to_string().replace("mut ", "")
                            };
                            if pn == k.trim() {
                                ty = syn::parse_str(v.trim()).map_err(|e| format!("argty: {e}"))?;
                            }
                        }
                    }
                }
                let p = &t.pat;
                params.push(format!("{}: {}", quote!(#p), quote!(#ty)));
            }
        }
    }
    if d.opts.contains_key("fs") {
        params.push("rz_fs: &mut RzFs".into());
    }
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            let mut ty = (**t).clone();
            map_type(&mut ty);
            if let Some(v) = d.opts.get("retty") {
                ty = syn::parse_str(v).map_err(|e| format!("retty: {e}"))?;
            }
            let r = d.opts.get("ret").cloned().unwrap_or("r".into());
            format!(" -> ({r}: {})", quote!(#ty))
        }
    };
    let generics = {
        let g = &f.sig.generics;
        if let Some(v) = d.opts.get("generics") {
            v.clone()
        } else {
            quote!(#g).to_string()
        }
    };
    let mut text = String::new();
    let trait_emit = d.opts.get("trait").cloned();
    let impl_head = match (&fd.self_ty, &trait_emit) {
        (Some(t), Some(tr)) => Some(format!("impl {tr} for {t} {{\n")),
        (Some(t), None) if !d.opts.contains_key("freeself") => {
            let g = d.opts.get("implgenerics").cloned().unwrap_or_default();
            let ga = d.opts.get("implargs").cloned().unwrap_or_default();
            Some(format!("impl{g} {t}{ga} {{\n"))
        }
        _ => None,
    };
    if let Some(h) = &impl_head {
        text.push_str(h);
    }
    if let Some(a) = d.sections.get("attrs") {
        text.push_str(a);
    }
    if assume {
        text.push_str("#[verifier::external_body]\n");
    } else {
        text.push_str("#[verifier::loop_isolation(false)]\n");
    }
    let vis = if trait_emit.is_some() { "" } else { "pub " };
    text.push_str(&format!("{vis}fn {name}{generics}({}){ret}\n", params.join(", ")));
    for k in ["requires", "ensures", "decreases"] {
        if let Some(s) = d.sections.get(k) {
            if !s.trim().is_empty() {
                text.push_str(&format!("    {k}\n{s}"));
            }
        }
    }
    let mut bodytext = if assume {
        "{ unimplemented!() }".to_string()
    } else if probe {
        "{ assert(false); vstd::pervasive::unreached() }".to_string()
    } else {
        if d.opts.contains_key("freeself") {
            struct R;
            impl VisitMut for R {
                fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
                    if i == "self" {
                        *i = proc_macro2::Ident::new("this", i.span());
                    }
                }
            }
            R.visit_block_mut(&mut body);
        }
        // map types inside the body
        struct MT;
        impl VisitMut for MT {
            fn visit_type_mut(&mut self, t: &mut syn::Type) {
                map_type(t);
            }
        }
        MT.visit_block_mut(&mut body);
        if d.sections.contains_key("returns") {
            struct RT;
            impl VisitMut for RT {
                fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                    if let syn::Expr::Closure(_) = e {
                        return;
                    }
                    syn::visit_mut::visit_expr_mut(self, e);
                    if let syn::Expr::Return(r) = e {
                        if let Some(x) = &r.expr {
                            *e = syn::parse_quote!({ let r = #x; __rz_ret!(); return r });
                        } else {
                            *e = syn::parse_quote!({ __rz_ret!(); return });
                        }
                    }
                }
            }
            RT.visit_block_mut(&mut body);
        }
        let wrapped: syn::File = syn::parse2(quote!(fn __f() #body)).map_err(|e| format!("{}: reparse {e}", d.item))?;
        let s = prettyplease::unparse(&wrapped);
        let p = s.find('{').unwrap();
        s[p..].trim_end().to_string()
    };
    let nloops = if assume || probe { 0 } else { cx.loops };
    // facts about std comparisons (axioms of the prelude) are made available everywhere
    let std = o.text.contains("axiom fn rz_std()") && !assume && !probe;
    let (std_in, std_loop) = if std { ("        proof { broadcast use group_text; rz_std(); }\n", "        proof { rz_std(); }\n") } else { ("", "") };
    let mut std_in = std_in.to_string();
    if d.opts.contains_key("lits") && !assume && !probe {
        // `//@ lits`: the characters of every string literal of the body are known to the proof
        fn lits(ts: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Group(g) => lits(g.stream(), out),
                    proc_macro2::TokenTree::Literal(l) if l.to_string().starts_with('"') => {
                        out.insert(l.to_string());
                    }
                    _ => {}
                }
            }
        }
        let mut out = std::collections::BTreeSet::new();
        if let Ok(ts) = bodytext.parse::<proc_macro2::TokenStream>() {
            lits(ts, &mut out);
        }
        if !out.is_empty() {
            std_in.push_str("        proof { ");
            for l in &out {
                std_in.push_str(&format!("reveal_strlit({l}); "));
            }
            std_in.push_str("}\n");
        }
    }
    bodytext = bodytext.replacen('{', &format!("{{\n{std_in}"), 1);
    if let (Some(s), false) = (d.sections.get("returns"), assume || probe) {
        bodytext = bodytext.replace("__rz_ret!();", s);
    }
    for k in 0..nloops {
        let inv = d.sections.get(&format!("loop {k}")).cloned().unwrap_or_default();
        let shape = cx.shapes[k].clone();
        let auto = if shape == "while" || shape == "loop" {
            String::new()
        } else if shape == "for-range" {
            String::new()
        } else {
            format!("        invariant __i{k} <= __s{k}@.len(),\n")
        };
        let auto_dec = if shape == "while" || shape == "loop" {
            String::new()
        } else if shape == "for-range" {
            format!("        decreases __n{k} - __i{k},\n")
        } else {
            format!("        decreases __s{k}@.len() - __i{k},\n")
        };
        let has_dec = inv.contains("decreases");
        let mut spec = String::new();
        if let Some(x) = d.sections.get(&format!("except {k}")) {
            spec.push_str(&format!("        invariant_except_break {}\n", x.trim()));
        }
        let mut invtxt = inv.clone();
        if !auto.is_empty() {
            // merge into one invariant clause
            if invtxt.trim_start().starts_with("invariant") {
                let t = invtxt.trim_start().trim_start_matches("invariant").to_string();
                spec.push_str(&auto);
                invtxt = t;
            } else {
                spec.push_str(&auto);
            }
        }
        spec.push_str(&invtxt);
        if !has_dec {
            spec.push_str(&auto_dec);
        }
        let le = d.sections.get(&format!("loopentry {k}")).cloned().unwrap_or_default();
        let lend = d.sections.get(&format!("loopend {k}")).cloned().unwrap_or_default();
        let af = d.sections.get(&format!("after {k}")).cloned().unwrap_or_default();
        let re = regex::Regex::new(&format!(r"\{{\s*__rz_loop!\({k}usize\);")).unwrap();
        if re.find_iter(&bodytext).count() != 1 {
            return Err(format!("{}: loop {k} duplicated or lost by the rewriting", d.item));
        }
        if let Some(bf) = d.sections.get(&format!("before {k}")) {
            let rb = regex::Regex::new(&format!(r"(?:'\w+:\s*)?(?:while [^{{}};]*|loop\s*)\{{\s*__rz_loop!\({k}usize\);")).unwrap();
            let Some(at) = rb.find(&bodytext).map(|m| m.start()) else { return Err(format!("{}: head of loop {k} not found", d.item)) };
            bodytext.insert_str(at, &format!("{bf}\n"));
        }
        bodytext = re.replace(&bodytext, regex::NoExpand(&format!("\n{spec}        {{\n{std_loop}{le}"))).to_string();
        bodytext = bodytext.replace(&format!("__rz_loopend!({k}usize);"), &lend);
        bodytext = bodytext.replace(&format!("__rz_after!({k}usize);"), &af);
    }
    for k in 0..(if assume || probe { 0 } else { cx.sorts }) {
        // first line of the section: element type; second: the spec function the comparison must compute
        let Some(sec) = d.sections.get(&format!("sort {k}")) else { return Err(format!("{}: sort {k} has no contract", d.item)) };
        let (ty, spec) = sec.trim().split_once('\n').ok_or("sort section: type, then spec function")?;
        let re = regex::Regex::new(&format!(r"\|\s*__rz_sa: __RzSortTy,\s*__rz_sb: __RzSortTy,?\s*\|\s*\{{\s*__rz_sort!\({k}usize\);")).unwrap();
        if re.find_iter(&bodytext).count() != 1 {
            return Err(format!("{}: sort {k} lost by the rewriting", d.item));
        }
        let rep = format!("|__rz_sa: &{ty}, __rz_sb: &{ty}| -> (__rz_o: Ordering) ensures __rz_o == {spec}(*__rz_sa, *__rz_sb) {{\n{std_loop}", ty = ty.trim(), spec = spec.trim());
        bodytext = re.replace(&bodytext, regex::NoExpand(&rep)).to_string();
        bodytext = bodytext.replace(&format!("__rz_sort_ghost!({k}usize)"), &format!("Ghost(|__a: {ty}, __b: {ty}| {}(__a, __b))", spec.trim(), ty = ty.trim()));
    }
    for k in d.sections.keys() {
        if assume {
            break;
        }
        for h in ["loop ", "except ", "loopentry ", "loopend ", "after ", "before "] {
            if let Some(n) = k.strip_prefix(h) {
                let n: usize = n.trim().parse().map_err(|_| format!("bad section {k}"))?;
                if n >= cx.loops {
                    return Err(format!("{}: loop {n} no longer exists ({} loops)", d.item, cx.loops));
                }
            }
        }
    }
    if let (Some(s), false) = (d.sections.get("exit"), assume || probe) {
        let r = d.opts.get("ret").cloned().unwrap_or("r".into());
        bodytext = format!("{{\nlet {r} = {bodytext};\n{s}\n{r}\n}}");
    }
    // entry (outermost, so that its ghost variables reach the exit section)
    if let (Some(s), false) = (d.sections.get("entry"), assume || probe) {
        bodytext = bodytext.replacen('{', &format!("{{\n{std_in}{s}"), 1);
    }
    text.push_str(&bodytext);
    text.push('\n');
    if impl_head.is_some() {
        text.push_str("}\n");
    }
    let start = o.text.lines().count() + 1;
    o.text.push_str(&text);
    let end = o.text.lines().count();
    o.metas.push(json!({
        "item": d.item, "path": d.path, "name": name, "start": start, "end": end,
        "loops": cx.loops, "shapes": cx.shapes, "inlined": cx.inlined, "notes": cx.notes,
        "assumed": declared, "forced": forced, "hash": src_hash, "async": fd.func.sig.asyncness.is_some(),
        "assumed_from": d.opts.get("assume"),
        "params": params, "has_requires": d.sections.get("requires").is_some_and(|s| !s.trim().is_empty()),
    }));
    Ok(())
}
