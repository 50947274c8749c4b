//! Normalises the macro-expanded source of stun_codec into the subset of Rust that Verus
//! accepts.  Every rewrite is syntactic and listed in DESIGN.md ("What the extraction drops").
//! usage: extract IN.rs OUT.rs
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn last_ident(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn type_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => last_ident(&p.path),
        _ => String::new(),
    }
}
fn note(s: &str) {
    eprintln!("NOTE {}", s);
}

const EXTERN: &[&str] = &["byteorder", "crc", "hmac", "md5", "sha1"];
const DROP_TRAITS: &[&str] = &[
    "Debug", "Display", "Hash", "Ord", "PartialOrd", "Eq", "PartialEq", "StructuralPartialEq", "Error", "TrivialClone",
];

fn default_for(t: &Type) -> Expr {
    let id = type_ident(t);
    let is_dec = id.ends_with("Decoder") || ["Peekable", "Length", "Collect"].contains(&id.as_str());
    let is_enc = id.ends_with("Encoder") || ["PreEncode", "Repeat"].contains(&id.as_str());
    if is_dec {
        parse_quote!(<#t as crate::bytecodec::Decode>::default())
    } else if is_enc {
        parse_quote!(<#t as crate::bytecodec::Encode>::default())
    } else {
        match id.as_str() {
            "Option" => parse_quote!(None),
            "bool" => parse_quote!(false),
            "u8" | "u16" | "u32" | "u64" | "usize" => parse_quote!(0),
            "Vec" => parse_quote!(Vec::new()),
            _ => parse_quote!(<#t>::default()),
        }
    }
}
fn is_default_call(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        let s = ts(&c.func);
        return c.args.is_empty()
            && (s.ends_with("default::Default::default") || s == "Default::default");
    }
    false
}

struct Structs {
    fields: HashMap<String, Vec<(String, Type)>>,
}
/// `KIND.cause(MESSAGE).into()`, an error of that kind: without the message
struct Cause;
impl VisitMut for Cause {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => match &*m.receiver {
                Expr::MethodCall(c) if c.method == "cause" && c.args.len() == 1 => {
                    let k = &c.receiver;
                    Some(parse_quote!(Error::from(#k)))
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
struct Defaults<'a> {
    st: &'a Structs,
    self_ty: String,
}
impl<'a> VisitMut for Defaults<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Struct(s) => {
                let mut n = last_ident(&s.path);
                if n == "Self" {
                    n = self.self_ty.clone();
                }
                if n == "BrokenMessage" {
                    for fv in s.fields.iter_mut() {
                        if ts(&fv.member) == "error" {
                            let x = fv.expr.clone();
                            fv.expr = parse_quote!(crate::spec::Erased::of(#x));
                            fv.colon_token = Some(Default::default());
                        }
                    }
                }
                if let Some(fs) = self.st.fields.get(&n) {
                    for fv in s.fields.iter_mut() {
                        if is_default_call(&fv.expr) {
                            let m = match &fv.member {
                                Member::Named(i) => i.to_string(),
                                Member::Unnamed(i) => i.index.to_string(),
                            };
                            if let Some((_, t)) = fs.iter().find(|(k, _)| *k == m) {
                                fv.expr = default_for(t);
                                fv.colon_token = Some(Default::default());
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let mut n = last_ident(&p.path);
                    if n == "Self" {
                        n = self.self_ty.clone();
                    }
                    if let Some(fs) = self.st.fields.get(&n) {
                        for (i, a) in c.args.iter_mut().enumerate() {
                            if is_default_call(a) && i < fs.len() {
                                *a = default_for(&fs[i].1);
                            }
                        }
                    }
                }
            }
            Expr::Assign(a) => {
                if is_default_call(&a.right) {
                    if let Expr::Field(f) = &*a.left {
                        if ts(&f.base) == "self" {
                            let m = match &f.member {
                                Member::Named(i) => i.to_string(),
                                Member::Unnamed(i) => i.index.to_string(),
                            };
                            if let Some(fs) = self.st.fields.get(&self.self_ty) {
                                if let Some((_, t)) = fs.iter().find(|(k, _)| *k == m) {
                                    *a.right = default_for(t);
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn tail_variant(p: &ExprPath) -> bool {
    p.path.segments.len() == 2 && p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase)
}
fn is_call_named(e: &Expr, n: &str) -> bool {
    matches!(e, Expr::MethodCall(m) if m.method == n)
}
fn strip_pat_type(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

struct HasReturn(bool);
impl VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Rw {
    str_params: Vec<String>,
    strref_params: Vec<String>,
}
impl Rw {
    fn rewrite(&mut self, e: &Expr, tail: bool) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("and_then", 1) => {
                        match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let mut b = (*c.body).clone();
                                let mut h = HasReturn(false);
                                h.visit_expr_mut(&mut b);
                                if h.0 && !tail {
                                    note("and_then closure with return outside tail position");
                                    return None;
                                }
                                let p = strip_pat_type(&c.inputs[0]);
                                Some(parse_quote!(match #r { Ok(__v) => { let #p = __v; #b }, Err(__e) => Err(__e) }))
                            }
                            Expr::Path(p) => Some(parse_quote!(match #r { Ok(__v) => #p(__v), Err(__e) => Err(__e) })),
                            _ => None,
                        }
                    }
                    ("map_err", 1) | ("ok_or_else", 1) | ("unwrap_or_else", 1) => match &m.args[0] {
                        Expr::Closure(c) => {
                            let mut b = (*c.body).clone();
                            let mut h = HasReturn(false);
                            h.visit_expr_mut(&mut b);
                            if h.0 {
                                return None;
                            }
                            match (name.as_str(), c.inputs.len()) {
                                ("map_err", 1) => {
                                    let p = strip_pat_type(&c.inputs[0]);
                                    Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
                                }
                                ("ok_or_else", 0) => Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })),
                                ("unwrap_or_else", 0) => Some(parse_quote!(match #r { Some(__v) => __v, None => #b })),
                                ("unwrap_or_else", 1) => {
                                    let p = strip_pat_type(&c.inputs[0]);
                                    Some(parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b }))
                                }
                                _ => None,
                            }
                        }
                        Expr::Path(p) if name == "map_err" => {
                            Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#p(__e)) }))
                        }
                        _ => None,
                    },
                    ("map", 1) => match &m.args[0] {
                        Expr::Path(p) if tail_variant(p) => {
                            Some(parse_quote!(match #r { Ok(__v) => Ok(#p(__v)), Err(__e) => Err(__e) }))
                        }
                        Expr::Closure(c) if c.inputs.len() == 1 && is_call_named(r, "finish_decoding") => {
                            let mut b = (*c.body).clone();
                            let mut h = HasReturn(false);
                            h.visit_expr_mut(&mut b);
                            if h.0 {
                                note("map closure with return");
                                return None;
                            }
                            let p = strip_pat_type(&c.inputs[0]);
                            Some(parse_quote!(match #r { Ok(__v) => { let #p = __v; Ok(#b) }, Err(__e) => Err(__e) }))
                        }
                        _ => None,
                    },
                    ("collect", 0) => {
                        if let Expr::MethodCall(m2) = &**r {
                            if m2.method == "map" && m2.args.len() == 1 {
                                if let Expr::MethodCall(m3) = &*m2.receiver {
                                    if m3.method == "into_iter" {
                                        let f = &m2.args[0];
                                        let x = &m3.receiver;
                                        return Some(parse_quote!(crate::shim::map_collect(#x, #f)));
                                    }
                                }
                            }
                        }
                        None
                    }
                    ("into_iter", 0) => Some(parse_quote!(crate::shim::into_iter(#r))),
                    ("count", 0) => {
                        if let Expr::MethodCall(m2) = &**r {
                            if m2.method == "chars" {
                                let x = &m2.receiver;
                                return Some(parse_quote!(crate::shim::char_count(&#x)));
                            }
                        }
                        None
                    }
                    ("len", 0) => {
                        if self.strref_params.contains(&ts(r)) {
                            return Some(parse_quote!(crate::shim::strlen(#r)));
                        }
                        if self.str_params.contains(&ts(r)) {
                            return Some(parse_quote!(crate::shim::str_len(&#r)));
                        }
                        None
                    }
                    ("to_string", 0) => {
                        if let Expr::Lit(_) = &**r {
                            return Some(parse_quote!(#r.to_owned()));
                        }
                        None
                    }
                    ("as_bytes", 0) => {
                        let mut r: &Expr = r;
                        loop {
                            match r {
                                Expr::Block(b) if b.block.stmts.len() == 1 => {
                                    if let Stmt::Expr(e, None) = &b.block.stmts[0] {
                                        r = e;
                                        continue;
                                    }
                                    break;
                                }
                                Expr::Paren(p) => r = &p.expr,
                                _ => break,
                            }
                        }
                        if let Expr::Call(c) = r {
                            if ts(&c.func).starts_with("crate::shim::fmt") {
                                return Some(parse_quote!(#r.as_str().as_bytes()));
                            }
                        }
                        None
                    }
                    ("contains", 1) => {
                        let mut b: &Expr = r;
                        while let Expr::Paren(p) = b {
                            b = &p.expr;
                        }
                        if let (Expr::Range(rg), Expr::Reference(x)) = (b, &m.args[0]) {
                            if let (Some(lo), Some(hi)) = (&rg.start, &rg.end) {
                                if matches!(&*x.expr, Expr::Path(_) | Expr::Field(_)) {
                                    let x = &x.expr;
                                    return Some(match rg.limits {
                                        RangeLimits::HalfOpen(_) => parse_quote!((#lo <= #x && #x < #hi)),
                                        RangeLimits::Closed(_) => parse_quote!((#lo <= #x && #x <= #hi)),
                                    });
                                }
                            }
                        }
                        None
                    }
                    ("next", 0) => {
                        // X.filter_map(f).next()
                        if let Expr::MethodCall(m2) = &**r {
                            if m2.method == "filter_map" && m2.args.len() == 1 {
                                let f = &m2.args[0];
                                let x = &m2.receiver;
                                return Some(parse_quote!(crate::shim::filter_map_next(#x, #f)));
                            }
                        }
                        None
                    }
                    ("filter_map", 1) => {
                        // X.iter().filter_map(f) collected into a Vec
                        if let Expr::MethodCall(m2) = &**r {
                            if m2.method == "iter" && m2.args.is_empty() {
                                let f = &m.args[0];
                                let x = &m2.receiver;
                                return Some(parse_quote!(crate::shim::filter_map(#x.as_slice(), #f)));
                            }
                        }
                        None
                    }
                    ("to_be_bytes", 0) => Some(parse_quote!(crate::shim::to_be(#r))),
                    ("kind", 0) => None,
                    _ => None,
                }
            }
            Expr::Call(c) => {
                // beta reduction of an immediately applied closure
                let mut f = &*c.func;
                while let Expr::Paren(p) = f {
                    f = &p.expr;
                }
                if let Expr::Closure(cl) = f {
                    if cl.inputs.len() == 1 && c.args.len() == 1 {
                        let mut b = (*cl.body).clone();
                        let mut h = HasReturn(false);
                        h.visit_expr_mut(&mut b);
                        if h.0 {
                            note("applied closure with return");
                            return None;
                        }
                        let p = strip_pat_type(&cl.inputs[0]);
                        let a = &c.args[0];
                        return Some(parse_quote!({ let #p = #a; #b }));
                    }
                }
                let s = ts(&c.func);
                if s == "Error::from" && c.args.len() == 1 {
                    let a = &c.args[0];
                    return Some(parse_quote!(crate::bytecodec::mkerr(#a)));
                }
                if let Some(t) = s.strip_suffix("::from_be_bytes") {
                    let f = quote::format_ident!("from_be_{}", t);
                    let a = &c.args[0];
                    return Some(parse_quote!(crate::shim::#f(#a)));
                }
                if s.contains("panicking::panic") {
                    return Some(parse_quote!(crate::shim::panic()));
                }
                if s.ends_with("must_use") && c.args.len() == 1 {
                    return Some(c.args[0].clone());
                }
                if s.ends_with("fmt::format") && c.args.len() == 1 {
                    if let Expr::Macro(m) = &c.args[0] {
                        return Some(fmt_call(&m.mac.tokens));
                    }
                }
                // BigEndian::write_uN(&mut x[a..b], v): the range borrow of a Vec
                if s.starts_with("BigEndian::write_") && c.args.len() == 2 {
                    if let Expr::Reference(r) = &c.args[0] {
                        if let (Some(_), Expr::Index(ix)) = (&r.mutability, &*r.expr) {
                            if let Expr::Range(rg) = &*ix.index {
                                if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                                    let f = quote::format_ident!("{}_in", s.trim_start_matches("BigEndian::"));
                                    let x = &ix.expr;
                                    let v = &c.args[1];
                                    return Some(parse_quote!(crate::shim::byteorder::#f(&mut #x, #lo, #hi, #v)));
                                }
                            }
                        }
                    }
                }
                None
            }
            Expr::Macro(m) => {
                if last_ident(&m.mac.path) == "format" {
                    return Some(fmt_call(&m.mac.tokens));
                }
                None
            }
            _ => None,
        }
    }
}
fn fmt_call(t: &TokenStream) -> Expr {
    // format!("{}:{}..", a, b, ..) with only `{}` / `{N}` placeholders and literal text
    let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    if let Ok(args) = syn::parse::Parser::parse2(parser, t.clone()) {
        if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.first() {
            let v = l.value();
            let mut list: Vec<Expr> = vec![];
            let mut lit = String::new();
            let mut n = 0usize;
            let mut ok = true;
            let mut it = v.chars().peekable();
            while let Some(c) = it.next() {
                if c == '{' {
                    let mut idx = String::new();
                    loop {
                        match it.next() {
                            Some('}') => break,
                            Some(d) if d.is_ascii_digit() => idx.push(d),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    let k = if idx.is_empty() { n } else { idx.parse().unwrap_or(usize::MAX - 1) };
                    match args.iter().nth(k + 1) {
                        Some(a) if ok => {
                            let p = std::mem::take(&mut lit);
                            list.push(parse_quote!(#p));
                            list.push(a.clone());
                            n += 1;
                        }
                        _ => ok = false,
                    }
                } else if c == '}' {
                    ok = false;
                } else {
                    lit.push(c);
                }
                if !ok {
                    break;
                }
            }
            if ok {
                list.push(parse_quote!(#lit));
                let f = quote::format_ident!("fmt{}", n);
                return parse_quote!(crate::shim::#f(#(#list),*));
            }
        }
    }
    note("unsupported format!");
    parse_quote!(crate::shim::unsupported_format())
}
impl Rw {
    fn expr_at(&mut self, e: &mut Expr, tail: bool) {
        if let Some(n) = self.rewrite(e, tail) {
            *e = n;
        }
        // tail positions: propagate through blocks / match / if
        match e {
            Expr::Block(b) => {
                self.block_at(&mut b.block, tail);
                return;
            }
            Expr::If(i) => {
                self.expr_at(&mut i.cond, false);
                self.block_at(&mut i.then_branch, tail);
                if let Some((_, el)) = &mut i.else_branch {
                    self.expr_at(el, tail);
                }
                return;
            }
            Expr::Match(m) => {
                self.expr_at(&mut m.expr, false);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.expr_at(g, false);
                    }
                    self.expr_at(&mut a.body, tail);
                }
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.expr_at(x, true);
                }
                return;
            }
            Expr::Closure(c) => {
                self.expr_at(&mut c.body, false);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // parents may become rewritable once children were (format! -> as_bytes)
        if let Some(n) = self.rewrite(e, tail) {
            *e = n;
        }
    }
    fn block_at(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, semi) => {
                    let t = tail && i + 1 == n && semi.is_none();
                    self.expr_at(e, t)
                }
                s => visit_mut::visit_stmt_mut(self, s),
            }
        }
    }
}
impl VisitMut for Rw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.expr_at(e, false);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block_at(b, false);
    }
}

/// `.into()` as the whole argument of start_encoding: an identity or a From conversion whose
/// result type is fixed by the callee; the identity one is removed (the result must typecheck).
struct DropInto;
impl VisitMut for DropInto {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "start_encoding" && m.args.len() == 1 {
                if let Expr::MethodCall(i) = &m.args[0] {
                    if i.method == "into" && i.args.is_empty() {
                        let r = (*i.receiver).clone();
                        m.args[0] = r;
                    }
                }
            }
            // hmac: GenericArray -> [u8; 20]
            if m.method == "into" && m.args.is_empty() {
                if let Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "into_bytes" {
                        *e = (*m.receiver).clone();
                    }
                }
            }
        }
    }
}

/// for (i, b) in X.iter_mut().enumerate()[.take(N)][.skip(M)] { B }
///   =>  for i in M..min(N, X.len()) { let b = &mut X[i]; B }
struct ForRw;
impl VisitMut for ForRw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            let mut lo: Option<Expr> = None;
            let mut hi: Option<Expr> = None;
            let mut cur: &Expr = &f.expr;
            let base = loop {
                match cur {
                    Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 && lo.is_none() && hi.is_none() => {
                        lo = Some(m.args[0].clone());
                        cur = &m.receiver;
                    }
                    Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 && hi.is_none() => {
                        hi = Some(m.args[0].clone());
                        cur = &m.receiver;
                    }
                    Expr::MethodCall(m) if m.method == "enumerate" => {
                        if let Expr::MethodCall(m2) = &*m.receiver {
                            if m2.method == "iter_mut" {
                                break Some((*m2.receiver).clone());
                            }
                        }
                        break None;
                    }
                    _ => break None,
                }
            };
            if let (Some(x), Pat::Tuple(t)) = (base, &*f.pat) {
                if t.elems.len() == 2 {
                    let (pi, pb) = (&t.elems[0], &t.elems[1]);
                    let lo: Expr = lo.unwrap_or_else(|| parse_quote!(0));
                    let hi: Expr = match hi {
                        Some(h) => parse_quote!(crate::shim::min_len(#h, #x.len())),
                        None => parse_quote!(#x.len()),
                    };
                    let stmts = &f.body.stmts;
                    let label = &f.label;
                    *e = parse_quote!(#label for #pi in #lo..#hi { let #pb = &mut #x[#pi]; #(#stmts)* });
                }
            }
        }
    }
}

/// borrow of a whole owned buffer returned as a slice / str, and `&mut v[a..b]` of a Vec
struct PathRw;
impl VisitMut for PathRw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.is_empty() {
            return;
        }
        let first = p.segments[0].ident.to_string();
        let lead = p.leading_colon.is_some();
        if first == "bytecodec" {
            p.leading_colon = None;
            p.segments.insert(0, parse_quote!(crate));
        } else if EXTERN.contains(&first.as_str()) && (lead || p.segments.len() > 1) {
            p.leading_colon = None;
            p.segments.insert(0, parse_quote!(shim));
            p.segments.insert(0, parse_quote!(crate));
        } else if lead && (first == "core" || first == "std" || first == "alloc") {
            // keep
        } else if lead && first != "default" {
            note(&format!("unknown extern path {}", ts(p)));
        }
    }
}

fn rewrite_use(t: &UseTree, prefix: Vec<Ident>, out: &mut Vec<Item>) {
    match t {
        UseTree::Path(p) => {
            let mut pr = prefix;
            pr.push(p.ident.clone());
            rewrite_use(&p.tree, pr, out);
        }
        UseTree::Group(g) => {
            for x in g.items.iter() {
                rewrite_use(x, prefix.clone(), out);
            }
        }
        UseTree::Name(_) | UseTree::Glob(_) | UseTree::Rename(_) => {
            let full: Vec<String> = prefix.iter().map(|i| i.to_string()).collect();
            let leaf = ts(t);
            let first = full.first().cloned().unwrap_or_else(|| leaf.clone());
            let leaf_ts = t.to_token_stream();
            match first.as_str() {
                "crate" | "self" | "super" => {
                    if leaf == "track" || leaf == "track_assert" || leaf == "track_panic" {
                        return;
                    }
                    out.push(parse_quote!(pub use #(#prefix::)* #leaf_ts;))
                }
                "bytecodec" => out.push(parse_quote!(pub use crate:: #(#prefix::)* #leaf_ts;)),
                "std" | "core" | "alloc" => {
                    let p: Vec<&str> = full.iter().map(|s| s.as_str()).collect();
                    match p.as_slice() {
                        ["std", "net"] => out.push(parse_quote!(pub use crate::shim::net:: #leaf_ts;)),
                        ["std", "time"] => out.push(parse_quote!(pub use crate::shim:: #leaf_ts;)),
                        ["std", "borrow"] => out.push(parse_quote!(pub use crate::shim:: #leaf_ts;)),
                        ["std"] if leaf == "vec" => out.push(parse_quote!(pub use crate::shim::vec;)),
                        ["std"] if leaf == "fmt" => {}
                        _ => {
                            if !leaf.contains("prelude") && !full.contains(&"prelude".to_string()) {
                                out.push(parse_quote!(pub use #(#prefix::)* #leaf_ts;))
                            }
                        }
                    }
                }
                x if EXTERN.contains(&x) => out.push(parse_quote!(pub use crate::shim:: #(#prefix::)* #leaf_ts;)),
                "trackable" => {}
                _ => out.push(parse_quote!(pub use #(#prefix::)* #leaf_ts;)),
            }
        }
    }
}

fn any_attr_method(sig: &mut Signature) {
    // fn before_encode<A: Attribute>(&mut self, message: &Message<A>)  =>  no generics, &Message<AnyAttr>
    sig.generics = Generics::default();
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            if ts(&t.ty).contains("Message<") {
                *t.ty = parse_quote!(&crate::message::Message<crate::spec::AnyAttr>);
            }
        }
    }
}
fn is_hook(n: &Ident) -> bool {
    n == "before_encode" || n == "after_decode"
}

fn pub_all(items: &mut Vec<Item>) {
    for it in items.iter_mut() {
        let v: Visibility = parse_quote!(pub);
        match it {
            Item::Struct(s) => {
                s.vis = v.clone();
                for f in s.fields.iter_mut() {
                    f.vis = v.clone();
                    f.attrs.clear();
                }
            }
            Item::Enum(s) => {
                s.vis = v;
                for va in s.variants.iter_mut() {
                    va.attrs.clear();
                    for f in va.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
            }
            Item::Fn(s) => s.vis = v,
            Item::Const(s) => s.vis = v,
            Item::Trait(s) => s.vis = v,
            Item::Type(s) => s.vis = v,
            Item::Impl(i) => {
                if i.trait_.is_none() {
                    for x in i.items.iter_mut() {
                        match x {
                            ImplItem::Fn(f) => f.vis = v.clone(),
                            ImplItem::Const(f) => f.vis = v.clone(),
                            _ => {}
                        }
                    }
                }
            }
            Item::Mod(m) => {
                m.vis = v;
                if let Some((_, its)) = &mut m.content {
                    pub_all(its);
                }
            }
            _ => {}
        }
    }
}

fn collect_structs(items: &[Item], st: &mut Structs) {
    for it in items {
        match it {
            Item::Struct(s) => {
                let fs = s
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.clone()))
                    .collect();
                st.fields.insert(s.ident.to_string(), fs);
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    collect_structs(its, st)
                }
            }
            _ => {}
        }
    }
}

struct TraitDefaults {
    hooks: HashMap<String, TraitItemFn>,
}
fn collect_traits(items: &[Item], td: &mut TraitDefaults) {
    for it in items {
        match it {
            Item::Trait(t) if t.ident == "Attribute" => {
                for x in t.items.iter() {
                    if let TraitItem::Fn(f) = x {
                        if is_hook(&f.sig.ident) {
                            td.hooks.insert(f.sig.ident.to_string(), f.clone());
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    collect_traits(its, td)
                }
            }
            _ => {}
        }
    }
}

fn ret_is(sig: &Signature, what: &str) -> bool {
    if let ReturnType::Type(_, t) = &sig.output {
        return ts(t).ends_with(what) && ts(t).starts_with('&');
    }
    false
}
/// `-> impl Iterator<Item = T>`  =>  `-> Vec<T>` (the elements in order)
fn iter_ret(sig: &mut Signature) {
    let mut nt: Option<Type> = None;
    if let ReturnType::Type(_, t) = &sig.output {
        if let Type::ImplTrait(it) = &**t {
            for b in it.bounds.iter() {
                if let TypeParamBound::Trait(tb) = b {
                    if let Some(sg) = tb.path.segments.last() {
                        if sg.ident == "Iterator" {
                            if let PathArguments::AngleBracketed(ab) = &sg.arguments {
                                for a in ab.args.iter() {
                                    if let GenericArgument::AssocType(at) = a {
                                        let ty = &at.ty;
                                        nt = Some(parse_quote!(Vec<#ty>));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if let Some(t) = nt {
        sig.output = ReturnType::Type(Default::default(), Box::new(t));
    }
}

/// the two loops that hand attribute i the message truncated to its predecessors:
///   for i in 0..n { unsafe { let m = &mut *(&mut X as *mut _); let a = m.attributes.get_unchecked_mut(i);
///                            X.attributes.set_len(i); let r = a.HOOK(&X); X.attributes.set_len(n); r?; } }
/// => the same steps with the tail of the vector split off instead of hidden by set_len
struct HookRw;
impl VisitMut for HookRw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for st in b.stmts.iter_mut() {
            let u = match st {
                Stmt::Expr(Expr::Unsafe(u), _) => u,
                _ => continue,
            };
            let s = &u.block.stmts;
            if s.len() != 6 {
                note("unsafe block of unknown shape");
                continue;
            }
            let local = |st: &Stmt| -> Option<(Ident, Expr)> {
                if let Stmt::Local(l) = st {
                    if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                        if i.diverge.is_none() {
                            return Some((p.ident.clone(), (*i.expr).clone()));
                        }
                    }
                }
                None
            };
            let set_len = |st: &Stmt| -> Option<(Expr, Expr)> {
                if let Stmt::Expr(Expr::MethodCall(m), _) = st {
                    if m.method == "set_len" && m.args.len() == 1 {
                        return Some(((*m.receiver).clone(), m.args[0].clone()));
                    }
                }
                None
            };
            let r = (|| -> Option<Block> {
                let (alias, e0) = local(&s[0])?;
                let e0s = ts(&e0);
                let (attr, e1) = local(&s[1])?;
                let (x1, l1) = set_len(&s[2])?;
                let (res, e3) = local(&s[3])?;
                let (x2, l2) = set_len(&s[4])?;
                let xs = ts(&x1);
                let base = xs.strip_suffix(".attributes")?.to_string();
                if ts(&x2) != xs || !e0s.starts_with(&format!("&mut*(&mut{}as*mut", base)) {
                    return None;
                }
                let idx = match &e1 {
                    Expr::MethodCall(m)
                        if m.method == "get_unchecked_mut"
                            && ts(&m.receiver) == format!("{}.attributes", alias) && m.args.len() == 1 => m.args[0].clone(),
                    _ => return None,
                };
                if ts(&idx) != ts(&l1) {
                    return None;
                }
                let hook = match &e3 {
                    Expr::MethodCall(m)
                        if is_hook(&m.method) && ts(&m.receiver) == attr.to_string()
                            && m.args.len() == 1 && ts(&m.args[0]) == format!("&{}", base) => m.method.clone(),
                    _ => return None,
                };
                let last = &s[5];
                if ts(last) != format!("{}?;", res) {
                    return None;
                }
                let bid = syn::parse_str::<Expr>(&base).ok()?;
                Some(parse_quote!({
                    crate::spec::hook_len(&#x1, #l2);
                    let mut __tail = #x1.split_off(#idx);
                    let mut #attr = __tail.remove(0);
                    let #res = #attr.#hook(crate::spec::as_any(&#bid));
                    __tail.insert(0, #attr);
                    #x1.append(&mut __tail);
                    #res?;
                }))
            })();
            match r {
                Some(nb) => *st = Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: nb }), None),
                None => note("unsafe block of unknown shape"),
            }
        }
    }
}

/// let [a, _, ..] = E;  =>  let __arr = E; let a = __arr[0]; ...
struct SlicePat;
impl VisitMut for SlicePat {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for st in b.stmts.drain(..) {
            if let Stmt::Local(l) = &st {
                if let (Pat::Slice(p), Some(i)) = (&l.pat, &l.init) {
                    if p.elems.iter().all(|e| matches!(e, Pat::Ident(_) | Pat::Wild(_))) && i.diverge.is_none() {
                        let e = &i.expr;
                        out.push(parse_quote!(let __arr = #e;));
                        for (k, el) in p.elems.iter().enumerate() {
                            if let Pat::Ident(id) = el {
                                let n = syn::Index::from(k);
                                out.push(parse_quote!(let #id = __arr[#n];));
                            }
                        }
                        continue;
                    }
                }
            }
            out.push(st);
        }
        b.stmts = out;
    }
}

fn fix_fn(sig: &mut Signature, body: &mut Block) {
    iter_ret(sig);
    HookRw.visit_block_mut(body);
    let mut str_params = vec![];
    for i in sig.inputs.iter() {
        if let FnArg::Typed(t) = i {
            if ts(&t.ty) == "String" {
                str_params.push(ts(&t.pat));
            }
        }
    }
    ForRw.visit_block_mut(body);
    let mut strref_params = vec![];
    for i in sig.inputs.iter() {
        if let FnArg::Typed(t) = i {
            if let Type::Reference(r) = &*t.ty {
                if ts(&r.elem) == "str" {
                    strref_params.push(ts(&t.pat));
                }
            }
        }
    }
    sig.constness = None;
    let mut rw = Rw { str_params, strref_params };
    rw.block_at(body, true);
    SlicePat.visit_block_mut(body);
    DropInto.visit_block_mut(body);
    // whole-buffer borrows
    let is_str = ret_is(sig, "str");
    let is_slice = ret_is(sig, "]") && !ts(&sig.output).contains(';') && !ts(&sig.output).contains("mut");
    if is_str || is_slice {
        if let Some(Stmt::Expr(Expr::Reference(r), None)) = body.stmts.last_mut() {
            if r.mutability.is_none() && !matches!(&*r.expr, Expr::Index(_)) {
                let x = &r.expr;
                let n: Expr = if is_str { parse_quote!(#x.as_str()) } else { parse_quote!(#x.as_slice()) };
                *body.stmts.last_mut().unwrap() = Stmt::Expr(n, None);
            }
        }
    }
}

fn walk(items: &mut Vec<Item>, st: &Structs, td: &TraitDefaults) {
    // types deriving Copy
    let mut copy: Vec<String> = vec![];
    let mut clone_derived: Vec<String> = vec![];
    let mut codec: HashMap<String, &'static str> = HashMap::new();
    for it in items.iter() {
        if let Item::Impl(i) = it {
            if let Some((_, p, _)) = &i.trait_ {
                let tn = last_ident(p);
                let sn = type_ident(&i.self_ty);
                let auto = i.attrs.iter().any(|a| ts(a).contains("automatically_derived"));
                match tn.as_str() {
                    "Copy" => copy.push(sn),
                    "Clone" if auto => clone_derived.push(sn),
                    "Decode" => {
                        codec.insert(sn, "Decode");
                    }
                    "Encode" => {
                        codec.insert(sn, "Encode");
                    }
                    _ => {}
                }
            }
        }
    }
    let mut defaults: HashMap<String, ImplItemFn> = HashMap::new();
    let mut out: Vec<Item> = vec![];
    for it in std::mem::take(items) {
        match it {
            Item::Impl(mut i) => {
                let sn = type_ident(&i.self_ty);
                i.attrs.clear();
                let tn = i.trait_.as_ref().map(|(_, p, _)| last_ident(p)).unwrap_or_default();
                if DROP_TRAITS.contains(&tn.as_str()) {
                    continue;
                }
                if tn == "AsRef" || tn == "AsMut" {
                    if let Some((_, p, _)) = &mut i.trait_ {
                        if ts(p).ends_with("<[u8]>") {
                            let n = quote::format_ident!("{}Bytes", tn);
                            *p = parse_quote!(crate::bytecodec::bytes::#n);
                        }
                    }
                }
                if tn == "From" && sn == "Error" {
                    Cause.visit_item_impl_mut(&mut i);
                }
                if sn == "BrokenMessage" {
                    i.items.retain(|x| !matches!(x, ImplItem::Fn(f) if f.sig.ident == "error"));
                }
                if tn == "Clone" {
                    if !clone_derived.contains(&sn) {
                        note(&format!("manual Clone impl for {}", sn));
                    }
                    continue;
                }
                if tn == "Copy" {
                    continue;
                }
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        f.attrs.clear();
                        if is_hook(&f.sig.ident) && (tn == "Attribute" || !f.sig.generics.params.is_empty()) {
                            any_attr_method(&mut f.sig);
                        }
                        fix_fn(&mut f.sig, &mut f.block);
                        Defaults { st, self_ty: sn.clone() }.visit_block_mut(&mut f.block);
                    } else if let ImplItem::Const(c) = x {
                        c.attrs.clear();
                    }
                }
                if tn == "Default" {
                    if codec.contains_key(&sn) {
                        for x in i.items.iter() {
                            if let ImplItem::Fn(f) = x {
                                defaults.insert(sn.clone(), f.clone());
                            }
                        }
                        continue;
                    } else {
                        i.trait_ = None;
                        for x in i.items.iter_mut() {
                            if let ImplItem::Fn(f) = x {
                                f.vis = parse_quote!(pub);
                            }
                        }
                    }
                }
                if tn == "Attribute" {
                    for h in ["before_encode", "after_decode"] {
                        let has = i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == h));
                        if !has {
                            if let Some(d) = td.hooks.get(h) {
                                let mut sig = d.sig.clone();
                                any_attr_method(&mut sig);
                                if let Some(b) = &d.default {
                                    i.items.push(parse_quote!(#sig #b));
                                }
                            }
                        }
                    }
                }
                if tn == "Decode" || tn == "Encode" {
                    let has = i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == "is_idle"));
                    if !has {
                        i.items.push(parse_quote!(fn is_idle(&self) -> bool { self.requiring_bytes().is_zero() }));
                    }
                }
                out.push(Item::Impl(i));
            }
            Item::Struct(mut s) => {
                s.attrs.clear();
                if s.ident == "BrokenMessage" {
                    for f in s.fields.iter_mut() {
                        if f.ident.as_ref().map_or(false, |i| i == "error") {
                            f.ty = parse_quote!(crate::spec::Erased);
                        }
                    }
                }
                if copy.contains(&s.ident.to_string()) {
                    s.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
                }
                out.push(Item::Struct(s));
            }
            Item::Enum(mut s) => {
                s.attrs.clear();
                if copy.contains(&s.ident.to_string()) {
                    s.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
                }
                out.push(Item::Enum(s));
            }
            Item::Use(u) => rewrite_use(&u.tree, vec![], &mut out),
            Item::ExternCrate(_) => {}
            Item::Macro(_) => {}
            Item::Mod(mut m) => {
                m.attrs.clear();
                if m.ident == "macros" {
                    continue;
                }
                if let Some((_, its)) = &mut m.content {
                    walk(its, st, td);
                }
                out.push(Item::Mod(m));
            }
            Item::Trait(mut t) => {
                t.attrs.clear();
                for x in t.items.iter_mut() {
                    match x {
                        TraitItem::Fn(f) => {
                            f.attrs.clear();
                            if is_hook(&f.sig.ident) {
                                any_attr_method(&mut f.sig);
                                f.default = None;
                                f.semi_token = Some(Default::default());
                            }
                        }
                        TraitItem::Type(ty) => {
                            ty.attrs.clear();
                            ty.bounds = ty
                                .bounds
                                .iter()
                                .filter(|b| ts(b) != "Default")
                                .cloned()
                                .collect();
                        }
                        _ => {}
                    }
                }
                t.supertraits = t.supertraits.iter().filter(|b| ts(b) != "Clone").cloned().collect();
                out.push(Item::Trait(t));
            }
            Item::Fn(mut f) => {
                f.attrs.clear();
                fix_fn(&mut f.sig, &mut f.block);
                out.push(Item::Fn(f));
            }
            Item::Const(mut c) => {
                c.attrs.clear();
                out.push(Item::Const(c));
            }
            o => out.push(o),
        }
    }
    for it in out.iter_mut() {
        if let Item::Impl(i) = it {
            let tn = i.trait_.as_ref().map(|(_, p, _)| last_ident(p)).unwrap_or_default();
            let sn = type_ident(&i.self_ty);
            if tn == "Decode" || tn == "Encode" {
                if let Some(f) = defaults.get(&sn) {
                    i.items.push(ImplItem::Fn(f.clone()));
                } else {
                    note(&format!("no Default for {}", sn));
                }
            }
        }
    }
    *items = out;
}

/// doc comments
struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|x| ts(x).contains("derive"));
    }
    fn visit_field_mut(&mut self, f: &mut Field) {
        f.attrs.clear();
        visit_mut::visit_field_mut(self, f);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = parse_file(&src).expect("parse");
    f.attrs.clear();
    let mut st = Structs { fields: HashMap::new() };
    collect_structs(&f.items, &mut st);
    let mut td = TraitDefaults { hooks: HashMap::new() };
    collect_traits(&f.items, &mut td);
    walk(&mut f.items, &st, &td);
    pub_all(&mut f.items);
    StripAttrs.visit_file_mut(&mut f);
    PathRw.visit_file_mut(&mut f);
    std::fs::write(&a[2], quote!(#f).to_string()).unwrap();
}
