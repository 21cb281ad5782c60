//! Type aliases declared inside a function body are expanded in place.
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;

struct Expand {
    al: BTreeMap<String, syn::ItemType>,
}
struct Put<'a>(&'a BTreeMap<String, syn::GenericArgument>);
impl VisitMut for Put<'_> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() {
                if let Some(syn::GenericArgument::Type(x)) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_generic_argument_mut(&mut self, g: &mut syn::GenericArgument) {
        if let syn::GenericArgument::Type(syn::Type::Path(p)) = g {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() {
                if let Some(x) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    *g = x.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_generic_argument_mut(self, g);
    }
    fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
        if let Some(syn::GenericArgument::Lifetime(x)) = self.0.get(&l.to_string()) {
            *l = x.clone();
        }
    }
}
impl VisitMut for Expand {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let s = &p.path.segments[0];
                if let Some(a) = self.al.get(&s.ident.to_string()) {
                    let mut env = BTreeMap::new();
                    if let syn::PathArguments::AngleBracketed(ab) = &s.arguments {
                        for (g, x) in a.generics.params.iter().zip(ab.args.iter()) {
                            let k = match g {
                                syn::GenericParam::Type(t) => t.ident.to_string(),
                                syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
                                syn::GenericParam::Const(c) => c.ident.to_string(),
                            };
                            env.insert(k, x.clone());
                        }
                    }
                    let mut n = (*a.ty).clone();
                    Put(&env).visit_type_mut(&mut n);
                    *t = n;
                    self.visit_type_mut(t);
                }
            }
        }
    }
}
struct Collect(BTreeMap<String, syn::ItemType>);
impl VisitMut for Collect {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            syn::Stmt::Item(syn::Item::Type(t)) => {
                self.0.insert(t.ident.to_string(), t.clone());
                false
            }
            _ => true,
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
}
pub fn expand(b: &mut syn::Block) -> bool {
    let mut c = Collect(BTreeMap::new());
    c.visit_block_mut(b);
    if c.0.is_empty() {
        return false;
    }
    Expand { al: c.0 }.visit_block_mut(b);
    true
}
