//! Locating items in a parsed source file.
use syn::{File, ImplItem, Item, ItemFn};

pub struct Found {
    pub func: ItemFn,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub impl_generics: syn::Generics,
}

fn ty_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => None,
    }
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::quote!(#a).to_string();
            s.contains("test") || s.contains("windows")
        }
    })
}

pub fn walk<'a>(items: &'a [Item], out: &mut Vec<&'a Item>) {
    for it in items {
        match it {
            Item::Mod(m) if !has_cfg_test(&m.attrs) => {
                if let Some((_, sub)) = &m.content {
                    walk(sub, out);
                }
            }
            Item::Mod(_) => {}
            Item::Fn(f) if has_cfg_test(&f.attrs) => {}
            Item::Impl(f) if has_cfg_test(&f.attrs) => {}
            other => out.push(other),
        }
    }
}

/// spec: `name`, `Type::name`, `Trait for Type::name`
pub fn find_fn(file: &File, spec: &str) -> Result<Found, String> {
    let (want_trait, rest) = match spec.split_once(" for ") {
        Some((t, r)) => (Some(t.trim().to_string()), r.trim()),
        None => (None, spec.trim()),
    };
    let (want_ty, name) = match rest.rsplit_once("::") {
        Some((t, n)) => (Some(t.to_string()), n.to_string()),
        None => (None, rest.to_string()),
    };
    let mut items = vec![];
    walk(&file.items, &mut items);
    let mut hits = vec![];
    for it in items {
        match (&want_ty, it) {
            (None, Item::Fn(f)) if f.sig.ident == name => hits.push(Found {
                func: f.clone(),
                self_ty: None,
                trait_name: None,
                impl_generics: Default::default(),
            }),
            (Some(t), Item::Impl(im)) if ty_name(&im.self_ty).as_deref() == Some(t.as_str()) => {
                let tr = im
                    .trait_
                    .as_ref()
                    .and_then(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()));
                if want_trait.is_some() && tr != want_trait {
                    continue;
                }
                if want_trait.is_none() && tr.is_some() {
                    // plain `Type::name` may still name a trait method if no inherent one exists
                }
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == name && !has_cfg_test(&m.attrs) {
                            hits.push(Found {
                                func: ItemFn {
                                    attrs: m.attrs.clone(),
                                    vis: m.vis.clone(),
                                    sig: m.sig.clone(),
                                    block: Box::new(m.block.clone()),
                                },
                                self_ty: Some(t.clone()),
                                trait_name: tr.clone(),
                                impl_generics: im.generics.clone(),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if hits.len() > 1 {
        let inh: Vec<_> = hits.iter().filter(|h| h.trait_name.is_none()).collect();
        if inh.len() == 1 && want_trait.is_none() {
            let i = hits.iter().position(|h| h.trait_name.is_none()).unwrap();
            return Ok(hits.swap_remove(i));
        }
        return Err(format!("anchor `{spec}` is ambiguous ({} hits)", hits.len()));
    }
    hits.pop().ok_or_else(|| format!("anchor `{spec}` not found"))
}

/// All functions of the file (for helper inlining): (self type, fn)
pub fn all_fns(file: &File) -> Vec<(Option<String>, ItemFn)> {
    let mut items = vec![];
    walk(&file.items, &mut items);
    let mut out = vec![];
    for it in items {
        match it {
            Item::Fn(f) => out.push((None, f.clone())),
            Item::Impl(im) => {
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        out.push((
                            ty_name(&im.self_ty),
                            ItemFn {
                                attrs: m.attrs.clone(),
                                vis: m.vis.clone(),
                                sig: m.sig.clone(),
                                block: Box::new(m.block.clone()),
                            },
                        ));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

pub fn find_item<'a>(file: &'a File, kind: &str, name: &str) -> Result<Item, String> {
    let mut items = vec![];
    walk(&file.items, &mut items);
    for it in items {
        let hit = match (kind, it) {
            ("struct", Item::Struct(s)) => s.ident == name,
            ("enum", Item::Enum(s)) => s.ident == name,
            ("const", Item::Const(s)) => s.ident == name,
            _ => false,
        };
        if hit {
            return Ok(it.clone());
        }
    }
    Err(format!("anchor {kind} `{name}` not found"))
}
