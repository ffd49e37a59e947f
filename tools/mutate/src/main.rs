//! Writes a copy of a source tree in which every small change listed in the
//! output is present behind a run-time switch, so that one build serves all of
//! them: mutate <src dir> <blacklist file> <list file>
use proc_macro2::{Span, TokenStream};
use quote::{ToTokens, quote};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: u32,
    bad: HashSet<u32>,
    file: String,
    list: Vec<String>,
    func: String,
    cst: u32,
}
impl M {
    fn id(&mut self, sp: Span, what: String) -> Option<LitInt> {
        self.next += 1;
        let id = self.next;
        if self.cst > 0 || self.bad.contains(&id) { return None; }
        let l = sp.start().line;
        self.list.push(format!("{}\t{}\t{}\t{}\t{}", id, self.file, l, self.func, what));
        Some(LitInt::new(&format!("{}u32", id), Span::call_site()))
    }
}
fn s<T: ToTokens>(t: &T) -> String {
    let s = t.to_token_stream().to_string();
    s.chars().take(160).collect()
}
fn swap(name: &str) -> Option<&'static str> {
    Some(match name {
        "min" => "max", "max" => "min", "is_positive" => "is_negative", "is_negative" => "is_positive",
        "is_some" => "is_none", "is_none" => "is_some", "is_ok" => "is_err", "is_err" => "is_ok", "any" => "all", "all" => "any",
        "first" => "last", "last" => "first", "is_lt" => "is_le", "is_le" => "is_lt", "is_gt" => "is_ge", "is_ge" => "is_gt",
        "floor" => "ceil", "ceil" => "floor", "next_up" => "next_down", "next_down" => "next_up",
        "union" => "intersection", "intersection" => "union",
        "wrapping_add" => "wrapping_sub", "saturating_sub" => "wrapping_sub", "source" => "target", "target" => "source",
        _ => return None,
    })
}
impl VisitMut for M {
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        let c = i.sig.constness.is_some() as u32;
        self.cst += c;
        self.func = i.sig.ident.to_string();
        visit_mut::visit_item_fn_mut(self, i);
        self.cst -= c;
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        let c = i.sig.constness.is_some() as u32;
        self.cst += c;
        self.func = i.sig.ident.to_string();
        visit_mut::visit_impl_item_fn_mut(self, i);
        self.cst -= c;
    }
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if i.attrs.iter().any(|a| s(a).contains("test")) { return; }
        visit_mut::visit_item_mod_mut(self, i);
    }
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_expr_repeat_mut(&mut self, i: &mut ExprRepeat) { self.visit_expr_mut(&mut i.expr); }
    fn visit_item_macro_mut(&mut self, i: &mut ItemMacro) {
        if s(&i.mac.path) != "impl_mesh" { return; }
        let t = i.mac.tokens.clone();
        let mut im: ItemImpl = match parse2(quote!(impl Dummy { #t })) { Ok(x) => x, Err(e) => { eprintln!("{} {}", self.file, e); return } };
        for it in im.items.iter_mut() { self.visit_impl_item_mut(it); }
        let items = &im.items;
        i.mac.tokens = quote!(#(#items)*);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let before = b.stmts.clone();
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for (st, old) in std::mem::take(&mut b.stmts).into_iter().zip(&before) {
            let go = match old {
                Stmt::Expr(Expr::MethodCall(_) | Expr::Call(_) | Expr::Assign(_) | Expr::Continue(_) | Expr::Break(_) | Expr::Return(_), Some(_)) => true,
                Stmt::Expr(Expr::Binary(b), Some(_)) => s(&b.op).ends_with('='),
                _ => false,
            };
            if go {
                let w = format!("drop `{}`", s(old));
                if let Some(id) = self.id(st.span(), w) {
                    out.push(parse2::<Stmt>(quote!(if !crate::__m(#id) { #st })).unwrap());
                    continue;
                }
            }
            out.push(st);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let sp = e.span();
        let orig = s(e);
        let full = e.clone();
        // conditions: leave `let` chains alone but visit inside
        visit_mut::visit_expr_mut(self, e);
        // operands appear once per change: do not let that pile up
        let arith = matches!(e, Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_)));
        let big = arith && orig.len() > 50 || e.to_token_stream().to_string().len() > 500 && !matches!(e, Expr::If(_));
        self.cst += big as u32;
        let new: Option<TokenStream> = match e {
            Expr::Binary(b) => {
                if has_let(&full) { None } else {
                    let (l, r) = (&b.left, &b.right);
                    let alt: Vec<TokenStream> = match b.op {
                        BinOp::Lt(_) => vec![quote!(<=), quote!(>)],
                        BinOp::Le(_) => vec![quote!(<), quote!(>=)],
                        BinOp::Gt(_) => vec![quote!(>=), quote!(<)],
                        BinOp::Ge(_) => vec![quote!(>), quote!(<=)],
                        BinOp::Eq(_) => vec![quote!(!=)],
                        BinOp::Ne(_) => vec![quote!(==)],
                        BinOp::And(_) => vec![quote!(||)],
                        BinOp::Or(_) => vec![quote!(&&)],
                        BinOp::Add(_) => vec![quote!(-)],
                        BinOp::Sub(_) => vec![quote!(+)],
                        BinOp::Mul(_) => vec![quote!(+)],
                        BinOp::AddAssign(_) => vec![quote!(-=)],
                        BinOp::SubAssign(_) => vec![quote!(+=)],
                        _ => vec![],
                    };
                    let op = &b.op;
                    let mut t = if matches!(**l, Expr::Cast(_)) { quote!(((#l) #op #r)) } else { quote!((#l #op #r)) };
                    let mut any = false;
                    for a in alt {
                        let w = format!("`{}` -> {}", orig, a);
                        if let Some(id) = self.id(sp, w) {
                            t = quote!((if crate::__m(#id) { (#l) #a #r } else { #t }));
                            any = true;
                        }
                    }
                    if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                        for k in 0..2 {
                            let w = format!("`{}` -> only {}", orig, if k == 0 { "left" } else { "right" });
                            if let Some(id) = self.id(sp, w) {
                                let x = if k == 0 { l } else { r };
                                t = quote!((if crate::__m(#id) { #x } else { #t }));
                                any = true;
                            }
                        }
                    }
                    if matches!(b.op, BinOp::Sub(_)) {
                        if let Some(id) = self.id(sp, format!("`{}` -> swapped", orig)) {
                            t = quote!((if crate::__m(#id) { #r - #l } else { #t }));
                            any = true;
                        }
                    }
                    if any { Some(t) } else { None }
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_) | UnOp::Neg(_)) => {
                let x = &u.expr;
                let op = &u.op;
                if matches!(&full, Expr::Unary(u) if matches!(*u.expr, Expr::Lit(_))) { None } else {
                    self.id(sp, format!("`{}` -> without {}", orig, s(op))).map(|id| quote!((if crate::__m(#id) { #x } else { #op #x })))
                }
            }
            Expr::If(i) => {
                if has_let(&i.cond) { None } else {
                    let c = &i.cond;
                    let a = self.id(i.cond.span(), format!("if `{}` -> true", s(&first_if(&full))));
                    let b = self.id(i.cond.span(), format!("if `{}` -> false", s(&first_if(&full))));
                    let mut t = quote!(#c);
                    if let Some(a) = a { t = quote!((crate::__m(#a) || #t)); }
                    if let Some(b) = b { t = quote!((!crate::__m(#b) && #t)); }
                    i.cond = Box::new(parse2(t).unwrap());
                    None
                }
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(n) => {
                    let nn = n.clone();
                    if n.suffix() != "" { None } else if let Ok(v) = n.base10_parse::<u64>() {
                        let m = LitInt::new(&(v + 1).to_string(), n.span());
                        self.id(sp, format!("{} -> {}", v, v + 1)).map(|id| quote!((if crate::__m(#id) { #m } else { #nn })))
                    } else { None }
                }
                Lit::Bool(b) => { let (x, y) = (b.value, !b.value); self.id(sp, format!("{} -> {}", x, y)).map(|id| quote!((if crate::__m(#id) { #y } else { #x }))) }
                _ => None,
            },
            Expr::Field(f) => {
                let n = match &f.member { Member::Named(n) => n.to_string(), _ => String::new() };
                let o = match n.as_str() { "next" => "prev", "prev" => "next", "twin" => "next", "min" => "max", "max" => "min", _ => "" };
                if o.is_empty() { None } else {
                    let b = &f.base; let n = Ident::new(&n, f.span()); let o = Ident::new(o, f.span());
                    self.id(sp, format!("`{}` -> .{}", orig, o)).map(|id| quote!((if crate::__m(#id) { #b.#o } else { #b.#n })))
                }
            }
            Expr::MethodCall(c) => {
                let (r, m, t, a) = (&c.receiver, &c.method, &c.turbofish, &c.args);
                let mut q = quote!(#r.#m #t(#a));
                let mut any = false;
                if let Some(o) = swap(&m.to_string()) {
                    let o = Ident::new(o, m.span());
                    if let Some(id) = self.id(sp, format!("`{}` -> .{}", orig, o)) { q = quote!((if crate::__m(#id) { #r.#o #t(#a) } else { #q })); any = true; }
                }
                if m == "is_zero" || m == "contains" || m == "contains_key" {
                    if let Some(id) = self.id(sp, format!("`{}` -> negated", orig)) { q = quote!((crate::__m(#id) ^ #q)); any = true; }
                }
                let fa: Vec<String> = match &full { Expr::MethodCall(x) => x.args.iter().map(s).collect(), Expr::Call(x) => x.args.iter().map(s).collect(), _ => vec![] };
                for k in 0..a.len().saturating_sub(1) {
                    let mut v: Vec<Expr> = a.iter().cloned().collect();
                    if fa[k] == fa[k + 1] { continue; }
                    v.swap(k, k + 1);
                    if let Some(id) = self.id(sp, format!("`{}` -> arguments {} {} swapped", orig, k, k + 1)) { q = quote!((if crate::__m(#id) { #r.#m #t(#(#v),*) } else { #q })); any = true; }
                }
                if any { Some(q) } else { None }
            }
            Expr::Call(c) => {
                let (f, a) = (&c.func, &c.args);
                let mut q = quote!(#f(#a));
                let mut any = false;
                let fa: Vec<String> = match &full { Expr::MethodCall(x) => x.args.iter().map(s).collect(), Expr::Call(x) => x.args.iter().map(s).collect(), _ => vec![] };
                for k in 0..a.len().saturating_sub(1) {
                    let mut v: Vec<Expr> = a.iter().cloned().collect();
                    if fa[k] == fa[k + 1] { continue; }
                    v.swap(k, k + 1);
                    if let Some(id) = self.id(sp, format!("`{}` -> arguments {} {} swapped", orig, k, k + 1)) { q = quote!((if crate::__m(#id) { #f(#(#v),*) } else { #q })); any = true; }
                }
                if any { Some(q) } else { None }
            }
            _ => None,
        };
        self.cst -= big as u32;
        if let Some(t) = new {
            match parse2::<Expr>(t) { Ok(x) => *e = x, Err(x) => eprintln!("{} {}: {}", self.file, orig, x) }
        }
    }
    // places that are assigned to stay as they are
    fn visit_expr_assign_mut(&mut self, i: &mut ExprAssign) {
        self.visit_place(&mut i.left);
        self.visit_expr_mut(&mut i.right);
    }
    fn visit_expr_reference_mut(&mut self, i: &mut ExprReference) {
        if i.mutability.is_some() { self.visit_place(&mut i.expr); } else { self.visit_expr_mut(&mut i.expr); }
    }
    fn visit_expr_method_call_mut(&mut self, i: &mut ExprMethodCall) {
        if matches!(*i.receiver, Expr::Field(_) | Expr::Index(_)) { self.visit_place(&mut i.receiver); } else { self.visit_expr_mut(&mut i.receiver); }
        for a in i.args.iter_mut() { self.visit_expr_mut(a); }
    }
    fn visit_expr_binary_mut(&mut self, i: &mut ExprBinary) {
        if s(&i.op).ends_with('=') && !matches!(i.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) { self.visit_place(&mut i.left); } else { self.visit_expr_mut(&mut i.left); }
        self.visit_expr_mut(&mut i.right);
    }
}
impl M {
    fn visit_place(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) => self.visit_place(&mut f.base),
            Expr::Index(x) => { self.visit_place(&mut x.expr); self.visit_expr_mut(&mut x.index); }
            Expr::Paren(p) => self.visit_place(&mut p.expr),
            Expr::Path(_) | Expr::Tuple(_) => {}
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.visit_expr_mut(&mut u.expr),
            _ => self.visit_expr_mut(e),
        }
    }
}
fn first_if(e: &Expr) -> Expr { if let Expr::If(i) = e { (*i.cond).clone() } else { e.clone() } }
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|x| x.unwrap().path()).collect();
    v.sort();
    for p in v { if p.is_dir() { walk(&p, out); } else if p.extension().map_or(false, |x| x == "rs") { out.push(p); } }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let bad = std::fs::read_to_string(&a[2]).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut m = M { next: 0, bad, file: String::new(), list: vec![], func: String::new(), cst: 0 };
    let mut fs = vec![];
    walk(std::path::Path::new(&a[1]), &mut fs);
    for p in fs {
        let t = std::fs::read_to_string(&p).unwrap();
        let mut f = match parse_file(&t) { Ok(f) => f, Err(e) => { eprintln!("{:?}: {}", p, e); continue } };
        m.file = p.strip_prefix(&a[1]).unwrap().display().to_string();
        m.visit_file_mut(&mut f);
        let mut o = f.to_token_stream().to_string().replace(" ; ", " ;\n").replace(" { ", " {\n").replace(" } ", " }\n");
        if m.file == "lib.rs" {
            o += r#"
#[doc(hidden)] #[inline] pub fn __m(id: u32) -> bool {
    static SEL: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    let k = *SEL.get_or_init(|| std::env::var("CGAR_MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(0));
    if k == u32::MAX { __rec(id); return false; }
    k == id
}
#[cold] fn __rec(id: u32) {
    use std::sync::atomic::*;
    static SEEN: [AtomicBool; 40000] = [const { AtomicBool::new(false) }; 40000];
    if SEEN[id as usize].load(Ordering::Relaxed) { return; }
    if !SEEN[id as usize].swap(true, Ordering::Relaxed) {
        use std::io::Write;
        let d = std::env::var("CGAR_MUTREC").unwrap();
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/{}", d, std::process::id())).unwrap();
        let _ = f.write_all(format!("{}\n", id).as_bytes());
    }
}
"#;
        }
        std::fs::write(&p, o).unwrap();
    }
    std::fs::write(&a[3], m.list.join("\n")).unwrap();
    eprintln!("{} of {}", m.list.len(), m.next);
}
