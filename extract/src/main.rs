//! Reads rustc's expansion of a crate and prints, as JSON, its impls, functions and types, with
//! each function body rewritten by the rules below (and nothing else changed), ready to receive
//! contracts.  A construct no rule covers stays as it is; the verifier then rejects or accepts it.
//!
//! E1 `r.map_err(f)`, `r.unwrap_or_else(f)`, `r.or_else(f)` are replaced by their definitions (a match);
//!    closures applied in place become a block binding the parameter.
//! E2 `for` over a counted range, or over the elements of a place by `.iter()`, `.iter_mut()`, `&`,
//!    `&mut`, with `.enumerate()`, `.take(n)`, `.zip(..)`, becomes a counted `while` loop.
//! E3 raw pointers derived from a place are eliminated: a pointer is (place, offset), and copies,
//!    reads, writes and slices through it become bounds-checked operations on the place.
//! E4 panicking macros' expansions become `vf_panic()`.
//! E5 `to_le_bytes`/`from_le_bytes` and a few library calls get the prefix `vf_` (trusted shims).
//!    `unwrap`, `expect` included: their precondition is the obligation that they do not panic.
use std::collections::{BTreeMap, HashMap};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

type Range = std::ops::Range<usize>;

struct Ptr { base: String, off: String, array: bool, places: bool }

struct Cx<'a> {
    src: &'a str,
    ptrs: HashMap<String, (Ptr, usize)>,
    defs: &'a BTreeMap<(String, String), Expr>,
    own: String,
    loops: usize,
    rules: Vec<String>,
    bad: Vec<String>,
    cst: bool,
    /// closures bound by `let`, applied by their definitions
    closures: HashMap<String, (ExprClosure, usize)>,
    /// names bound by `let`, with their positions
    binds: Vec<(String, usize)>,
    /// places written or called through `&mut`, with their positions
    writes: Vec<(String, usize)>,
    /// set where an array of `*mut T` is filled: the place whose parts are lent, once known
    lend: Option<String>,
    /// the function returns an error's cause as a trait object
    dyns: bool,
}

fn range<T: Spanned>(t: &T) -> Range { t.span().byte_range() }

struct Kids<'c, 'a> { cx: &'c mut Cx<'a>, out: Vec<(Range, String)> }
impl<'c, 'a> Visit<'_> for Kids<'c, 'a> {
    fn visit_expr(&mut self, e: &Expr) { let s = self.cx.expr(e); self.out.push((range(e), s)); }
    fn visit_block(&mut self, b: &Block) { let s = self.cx.block(b); self.out.push((range(b), s)); }
    fn visit_attribute(&mut self, a: &Attribute) { self.out.push((range(a), String::new())); }
    fn visit_item(&mut self, _: &Item) {}
    fn visit_type(&mut self, t: &Type) { let s = self.cx.ty(t); self.out.push((range(t), s)); }
}

fn splice(src: &str, r: Range, mut subs: Vec<(Range, String)>) -> String {
    subs.sort_by_key(|(r, _)| r.start);
    let mut out = String::new();
    let mut at = r.start;
    for (s, t) in subs { if s.start < at { continue } out.push_str(&src[at..s.start]); out.push_str(&t); at = s.end; }
    out.push_str(&src[at..r.end]);
    out
}

fn flat(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }

impl<'a> Cx<'a> {
    fn text<T: Spanned>(&self, t: &T) -> &'a str { &self.src[range(t)] }
    fn rule(&mut self, r: &str) { self.rules.push(r.to_string()) }
    fn ty(&mut self, t: &Type) -> String { self.text(t).to_string() }

    fn block(&mut self, b: &Block) -> String {
        let saved: Vec<String> = self.ptrs.keys().cloned().collect();
        let mut subs = vec![];
        let known: Vec<String> = self.closures.keys().cloned().collect();
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        if c.capture.is_none() && p.mutability.is_none() && !known.contains(&p.ident.to_string()) {
                            self.rule("E1");
                            self.closures.insert(p.ident.to_string(), (c.clone(), range(s).end));
                            subs.push((range(s), String::new()));
                            continue;
                        }
                    }
                    if let Some(q) = self.ptr(&init.expr) {
                        self.rule("E3");
                        self.ptrs.insert(p.ident.to_string(), (q, range(s).end));
                        subs.push((range(s), String::new()));
                        continue;
                    }
                }
            }
            if let Stmt::Item(_) = s { continue }
            let t = self.stmt(s);
            subs.push((range(s), t));
        }
        let out = splice(self.src, range(b), subs);
        self.ptrs.retain(|k, _| saved.contains(k));
        self.closures.retain(|k, _| known.contains(k));
        out
    }

    fn stmt(&mut self, s: &Stmt) -> String {
        let mut k = Kids { cx: self, out: vec![] };
        match s {
            Stmt::Local(l) => k.visit_local(l),
            Stmt::Expr(e, _) => k.visit_expr(e),
            Stmt::Macro(m) => { let t = flat(k.cx.text(m)); if !t.starts_with("panic") && !t.starts_with("unreachable") { k.cx.bad.push(format!("macro {t}")) } }
            Stmt::Item(_) => {}
        }
        let out = k.out;
        splice(self.src, range(s), out)
    }

    fn default(&mut self, e: &Expr) -> String {
        let mut k = Kids { cx: self, out: vec![] };
        visit::visit_expr(&mut k, e);
        let out = k.out;
        splice(self.src, range(e), out)
    }

    /// applies a function expression to an argument
    fn apply(&mut self, f: &Expr, arg: &str) -> String {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                self.leaves(c);
                let p = match &c.inputs[0] { Pat::Type(t) => self.text(&*t.pat), q => self.text(q) }.to_string();
                let b = self.expr(&c.body);
                if p == "_" { format!("{{ {b} }}") } else { format!("{{ let {p} = {arg}; {b} }}") }
            }
            _ => {
                if let Some(c) = self.bound(f) { if c.inputs.len() == 1 { return self.apply(&Expr::Closure(c), arg) } }
                let t = self.expr(f);
                format!("{t}({arg})")
            }
        }
    }

    /// a closure whose body leaves it early is not a block
    fn leaves(&mut self, c: &ExprClosure) {
        struct L(bool);
        impl Visit<'_> for L {
            fn visit_expr_return(&mut self, _: &ExprReturn) { self.0 = true }
            fn visit_expr_try(&mut self, _: &ExprTry) { self.0 = true }
        }
        let mut l = L(false);
        l.visit_expr(&c.body);
        if l.0 { self.bad.push("a closure with an early return".into()) }
    }

    /// the closure a name is bound to
    fn bound(&mut self, e: &Expr) -> Option<ExprClosure> {
        let Expr::Path(p) = e else { return None };
        let n = p.path.get_ident()?.to_string();
        let (c, def) = self.closures.get(&n).cloned()?;
        struct N(Vec<String>);
        impl Visit<'_> for N { fn visit_ident(&mut self, i: &Ident) { self.0.push(i.to_string()) } }
        let mut names = N(vec![]);
        names.visit_expr(&c.body);
        let here = range(e).start;
        for (w, at) in self.binds.clone() {
            if at > def && at < here && (names.0.contains(&w) || w == n) { self.bad.push(format!("{w} is bound again after the closure that mentions it")) }
        }
        Some(c)
    }

    /// is the expression the name of a pointer that is followed?
    fn place(&self, e: &Expr) -> Option<()> {
        let Expr::Path(p) = e else { return None };
        self.ptrs.get(&p.path.get_ident()?.to_string()).map(|_| ())
    }

    fn ptr(&mut self, e: &Expr) -> Option<Ptr> {
        match e {
            Expr::Paren(p) => self.ptr(&p.expr),
            Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                let (q, def) = self.ptrs.get(&n)?;
                let here = range(e).start;
                let root = |s: &str| s.trim_start_matches(['&', '*', '(']).to_string();
                for (w, at) in &self.writes {
                    if *at > *def && *at < here && (root(&q.base) == *w || q.off.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '.').any(|x| x == w)) {
                        self.bad.push(format!("{w} changes between the pointer's definition and its use"));
                    }
                }
                Some(Ptr { base: q.base.clone(), off: q.off.clone(), array: q.array, places: q.places })
            }
            Expr::RawAddr(r) => {
                if let Expr::Unary(u) = &*r.expr {
                    if let (UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, &*u.expr) {
                        if (m.method == "get_unchecked" || m.method == "get_unchecked_mut") && m.args.len() == 1 {
                            let b = self.expr(&m.receiver); let i = self.expr(&m.args[0]);
                            return Some(Ptr { base: b, off: i, array: false, places: false });
                        }
                    }
                }
                let b = self.expr(&r.expr); Some(Ptr { base: b, off: "0".into(), array: false, places: false }) }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("as_ptr" | "as_mut_ptr", 0) => {
                        if self.text(&*m.receiver) == "self" {
                            if let Some(d) = self.defs.get(&(self.own.clone(), name.clone())) {
                                let d = d.clone();
                                return self.ptr(&d);
                            }
                        }
                        let b = self.expr(&m.receiver);
                        Some(Ptr { base: b, off: "0".into(), array: false, places: false })
                    }
                    ("cast", 0) => {
                        let mut p = self.ptr(&m.receiver)?;
                        if let Some(t) = &m.turbofish { let t = self.text(t); if t.contains('[') { p.array = true } if t.contains("MaybeUninit") { p.places = true } }
                        Some(p)
                    }
                    ("add", 1) => {
                        let mut p = self.ptr(&m.receiver)?;
                        let k = self.expr(&m.args[0]);
                        p.off = if p.off == "0" { k } else { format!("({} + {k})", p.off) };
                        Some(p)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn source(&mut self, e: &Expr) -> Option<(String, bool)> {
        // the place whose elements are iterated, and whether mutably
        match e {
            Expr::Paren(p) => self.source(&p.expr),
            Expr::Reference(r) => { let b = self.expr(&r.expr); Some((b, r.mutability.is_some())) }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "iter_mut") => { let b = self.expr(&m.receiver); Some((b, m.method == "iter_mut")) }
            _ => None,
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<String> {
        struct C(bool); impl Visit<'_> for C { fn visit_expr_continue(&mut self, _: &ExprContinue) { self.0 = true } fn visit_expr_for_loop(&mut self, _: &ExprForLoop) {} fn visit_expr_while(&mut self, _: &ExprWhile) {} }
        let mut c = C(false); c.visit_block(&f.body);
        if c.0 { self.bad.push("continue in a loop".into()); return None }
        let k = self.loops; self.loops += 1;
        self.rule("E2");
        if let Expr::Range(r) = &*f.expr {
            let (a, b) = (self.expr(r.start.as_ref()?), self.expr(r.end.as_ref()?));
            let p = self.text(&*f.pat).to_string();
            let last = if matches!(r.limits, RangeLimits::Closed(_)) { return None } else { b };
            let body = self.block(&f.body);
            return Some(format!("{{ let mut vf_n{k} = {a}; let vf_m{k} = {last}; /*@before {k}*/ while vf_n{k} < vf_m{k} /*@loop {k}*/ {{ let {p} = vf_n{k}; /*@head {k}*/ {body} /*@tail {k}*/ vf_n{k} = vf_n{k} + 1; }} /*@after {k}*/ }}"));
        }
        if let Expr::Path(_) = &*f.expr {
            // an iterator taken by value
            let (i, p) = (self.expr(&f.expr), self.text(&*f.pat).to_string());
            let body = self.block(&f.body);
            return Some(format!("{{ let mut vf_it{k} = vf_into_iter({i}); /*@before {k}*/ loop /*@loop {k}*/ {{ let Some({p}) = vf_next(&mut vf_it{k}) else {{ break }}; /*@head {k}*/ {body} /*@tail {k}*/ }} /*@after {k}*/ }}"));
        }
        // adaptors, outermost first
        let (mut e, mut pat) = (&*f.expr, (*f.pat).clone());
        let (mut lets, mut bounds): (Vec<String>, Vec<String>) = (vec![], vec![]);
        loop {
            match e {
                Expr::MethodCall(m) if m.method == "enumerate" => {
                    let Pat::Tuple(t) = &pat else { return None };
                    if t.elems.len() != 2 { return None }
                    lets.push(format!("let {} = vf_n{k};", self.text(&t.elems[0])));
                    pat = t.elems[1].clone(); e = &m.receiver;
                }
                Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => { let b = self.expr(&m.args[0]); bounds.push(b); e = &m.receiver; }
                Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => {
                    let Pat::Tuple(t) = &pat else { return None };
                    let (b, mu) = self.source(&m.args[0])?;
                    if mu || t.elems.len() != 2 { return None }
                    lets.push(format!("let {} = ({b}).vf_nth(vf_n{k});", self.text(&t.elems[1])));
                    bounds.push(format!("({b}).vf_len()"));
                    pat = t.elems[0].clone(); e = &m.receiver;
                }
                _ => break,
            }
        }
        let (b, mu) = self.source(e)?;
        bounds.push(format!("({b}).vf_len()"));
        let p = self.text(&pat).to_string();
        let body = if mu {
            // the element variable stands for the place
            let Pat::Ident(id) = &pat else { return None };
            let prev = self.ptrs.insert(format!("@{}", id.ident), (Ptr { base: b.clone(), off: format!("vf_n{k}"), array: false, places: false }, usize::MAX));
            let t = self.block(&f.body);
            self.ptrs.remove(&format!("@{}", id.ident));
            if let Some(p) = prev { self.ptrs.insert(format!("@{}", id.ident), p); }
            t
        } else { lets.push(format!("let {p} = ({b}).vf_nth(vf_n{k});")); self.block(&f.body) };
        let mut m = bounds.pop().unwrap();
        for x in bounds { m = format!("vf_min({x}, {m})") }
        Some(format!("{{ let mut vf_n{k}: usize = 0; let vf_m{k}: usize = {m}; /*@before {k}*/ while vf_n{k} < vf_m{k} /*@loop {k}*/ {{ {} /*@head {k}*/ {body} /*@tail {k}*/ vf_n{k} = vf_n{k} + 1; }} /*@after {k}*/ }}", lets.join(" ")))
    }

    fn call(&mut self, c: &ExprCall) -> Option<String> {
        if c.args.len() == 1 {
            if let Some(k) = self.bound(&c.func) {
                if k.inputs.len() == 1 { let a = self.expr(&c.args[0]); return Some(self.apply(&Expr::Closure(k), &a)) }
            }
        }
        let f = flat(self.text(&*c.func)).replace(' ', "");
        let last = f.rsplit("::").next().unwrap().to_string();
        if f.contains("core::panicking::") || f.contains("std::rt::panic") || f.contains("rt::begin_panic") { self.rule("E4"); return Some("vf_panic()".into()) }
        match (last.as_str(), c.args.len()) {
            ("unreachable_unchecked", 0) => { self.rule("E4"); Some("vf_unreachable()".into()) }
            ("copy_nonoverlapping", 3) => {
                let (p, q) = (self.ptr(&c.args[0])?, self.ptr(&c.args[1])?);
                let n = self.expr(&c.args[2]);
                self.rule("E3");
                Some(format!("({}).vf_copy_in({}, &({}), {}, {n})", q.base, q.off, p.base, p.off))
            }
            ("from_raw_parts", 2) if f.contains("slice::") => { let p = self.ptr(&c.args[0])?; let n = self.expr(&c.args[1]); self.rule("E3"); Some(format!("({}).vf_sub({}, {n})", p.base, p.off)) }
            ("from_raw_parts_mut", 2) if f.contains("slice::") => { let p = self.ptr(&c.args[0])?; let n = self.expr(&c.args[1]); self.rule("E3"); Some(format!("({}).vf_sub_mut({}, {n})", p.base, p.off)) }
            ("new", 1) if f == "Self::new" && self.own.starts_with("Atomic") => { let a = self.expr(&c.args[0]); self.rule("E5"); Some(format!("<Self>::vf_new({a})")) }
            ("with_capacity" | "with_capacity_and_hasher", _) if self.own != "Slot" => {
                let a: Vec<String> = c.args.iter().map(|x| self.expr(x)).collect();
                self.rule("E5");
                Some(format!("{}::vf_{last}({})", &f[..f.rfind("::").unwrap_or(0)], a.join(", ")))
            }
            ("from", 1) if matches!(f.as_str(), "u8::from" | "u32::from") => { let a = self.expr(&c.args[0]); self.rule("E5"); Some(format!("<{}>::vf_from({a})", &f[..f.len() - 6])) }
            ("Some", 1) if self.dyns => { let a = self.expr(&c.args[0]); self.rule("E5"); Some(format!("Some(vf_dyn({a}))")) }
            ("fmt", 2) if matches!(f.rsplit("::").nth(1), Some("Debug" | "Display")) => {
                let (a, b) = (self.expr(&c.args[0]), self.expr(&c.args[1]));
                self.rule("E5");
                Some(format!("vf_show({a}, {b}, {}, false)", f.contains("Debug")))
            }
            ("from_le_bytes", 1) => {
                let a = self.expr(&c.args[0]);
                self.rule("E5");
                let pre = self.text(&*c.func).rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
                if pre.ends_with("str") { return Some(format!("vf_str_{last}({a})")) }
                Some(format!("<{pre}>::vf_{last}({a})"))
            }
            _ => None,
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let err = m.turbofish.as_ref().and_then(|t| t.args.first()).map(|t| self.text(t).to_string()).filter(|t| t != "_");
        match (name.as_str(), m.args.len()) {
            ("map_err", 1) => {
                self.rule("E1");
                let r = self.expr(&m.receiver);
                let f = self.apply(&m.args[0], "vf_e");
                let en = err.map(|t| format!("::core::result::Result::<_, {t}>::Err")).unwrap_or("::core::result::Result::Err".into());
                Some(format!("(match {r} {{ ::core::result::Result::Ok(vf_v) => ::core::result::Result::Ok(vf_v), ::core::result::Result::Err(vf_e) => {en}({f}) }})"))
            }
            ("map" | "and_then", 1) if ["decode(", ".encode(", ".read(", ".write(", ".map_err("].iter().any(|x| self.text(&*m.receiver).contains(x)) => {
                self.rule("E1");
                let r = self.expr(&m.receiver);
                let f = self.apply(&m.args[0], "vf_v");
                let f = if name == "map" { format!("::core::result::Result::Ok({f})") } else { f };
                Some(format!("(match {r} {{ ::core::result::Result::Ok(vf_v) => {f}, ::core::result::Result::Err(vf_e) => ::core::result::Result::Err(vf_e) }})"))
            }
            ("unwrap_or_else", 1) => { self.rule("E1"); let r = self.expr(&m.receiver); let f = self.apply(&m.args[0], "vf_e"); Some(format!("(match {r} {{ ::core::result::Result::Ok(vf_v) => vf_v, ::core::result::Result::Err(vf_e) => {f} }})")) }
            ("or_else", 1) => { self.rule("E1"); let r = self.expr(&m.receiver); let f = self.apply(&m.args[0], "vf_e"); Some(format!("(match {r} {{ ::core::result::Result::Ok(vf_v) => ::core::result::Result::Ok(vf_v), ::core::result::Result::Err(vf_e) => {f} }})")) }
            ("write", 1) => {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(i) = p.path.get_ident() {
                        if let Some((q, _)) = self.ptrs.get(&format!("@{i}")) {
                            let t = format!("({}).vf_put({}, ", q.base, q.off);
                            let v = self.expr(&m.args[0]);
                            self.rule("E3");
                            return Some(format!("{t}{v})"));
                        }
                    }
                }
                if let Expr::MethodCall(r) = &*m.receiver {
                    if r.method == "get_unchecked_mut" { let b = self.expr(&r.receiver); let i = self.expr(&r.args[0]); let v = self.expr(&m.args[0]); self.rule("E3"); return Some(format!("({b}).vf_put({i}, {v})")) }
                }
                let p = self.ptr(&m.receiver)?;
                let v = self.expr(&m.args[0]);
                self.rule("E3");
                Some(format!("({}).vf_put({}, {v})", p.base, p.off))
            }
            ("read", 0) => { let p = self.ptr(&m.receiver)?; if !p.array || p.off != "0" { return None } self.rule("E3"); Some(format!("({}).vf_read_{}()", p.base, if p.places { "places" } else { "array" })) }
            ("assume_init", 0) if flat(self.text(&*m.receiver)).replace(' ', "").ends_with("MaybeUninit::uninit()") => { self.rule("E3"); Some("vf_garbage()".into()) }
            ("get_unchecked", 1) => { let b = self.expr(&m.receiver); let i = self.expr(&m.args[0]); self.rule("E3"); Some(format!("({b}).vf_at({i})")) }
            ("assume_init_read", 0) => {
                let Expr::MethodCall(r) = &*m.receiver else { return None };
                if r.method != "get_unchecked" { return None }
                let b = self.expr(&r.receiver); let i = self.expr(&r.args[0]);
                self.rule("E3");
                Some(format!("({b}).vf_take({i})"))
            }
            ("next", 0) if self.own.starts_with("Sized") => { let r = self.expr(&m.receiver); self.rule("E5"); Some(format!("vf_next(&mut {r})")) }
            ("into_iter", 0) if self.own.starts_with("Sized") => { let r = self.expr(&m.receiver); self.rule("E5"); Some(format!("vf_into_iter({r})")) }
            ("cmp" | "partial_cmp", 1) if matches!(self.own.as_str(), "SizedSlice" | "SizedStr" | "Slot") => {
                let (r, a) = (self.expr(&m.receiver), self.expr(&m.args[0])); self.rule("E5"); Some(format!("({r}).vf_{name}(&*({a}))"))
            }
            ("hash", 1) if matches!(self.own.as_str(), "SizedSlice" | "SizedStr" | "Slot") => {
                let (r, a) = (self.expr(&m.receiver), self.expr(&m.args[0])); self.rule("E5"); Some(format!("({r}).vf_hash({a})"))
            }
            ("pad", 1) => { let (r, a) = (self.expr(&m.receiver), self.expr(&m.args[0])); self.rule("E5"); Some(format!("vf_show({a}, {r}, false, false)")) }
            ("write_str", 1) => { let (r, a) = (self.expr(&m.receiver), self.expr(&m.args[0])); self.rule("E5"); Some(format!("vf_show({a}, {r}, false, true)")) }
            ("write_fmt", 1) => {
                let Expr::Macro(k) = &m.args[0] else { return None };
                let a = k.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
                let (Expr::Lit(l), 2) = (a.first()?, a.len()) else { return None };
                let debug = match &l.lit { syn::Lit::Str(s) if s.value() == "{0:?}" => true, syn::Lit::Str(s) if s.value() == "{0}" => false, _ => return None };
                let (r, x) = (self.expr(&m.receiver), self.expr(&a[1]));
                self.rule("E5");
                Some(format!("vf_show({x}, {r}, {debug}, true)"))
            }
            ("parse", 0) => { let r = self.expr(&m.receiver); self.rule("E5"); Some(format!("FromStr::from_str(&*({r}))")) }
            ("into", 0) => { let r = self.expr(&m.receiver); self.rule("E5"); Some(format!("vf_into({r})")) }
            ("to_le_bytes" | "insert" | "set_len" | "load" | "expect" | "unwrap", _) if !(name == "set_len" && matches!(self.own.as_str(), "SizedSlice" | "SizedStr" | "Slot") && self.text(&*m.receiver) == "self") => {
                let r = self.expr(&m.receiver);
                let a: Vec<String> = m.args.iter().map(|x| self.expr(x)).collect();
                self.rule("E5");
                let a = a.join(", ");
                // atomics and comparisons each have an `Ordering`
                Some(format!("({r}).vf_{name}({})", if name == "load" { a.replace("Ordering::", "AtomicOrdering::").replace("AtomicAtomic", "Atomic") } else { a }))
            }
            _ => None,
        }
    }

    fn expr(&mut self, e: &Expr) -> String {
        let r = match e {
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            Expr::ForLoop(f) => { let t = self.for_loop(f); if t.is_none() { self.bad.push(format!("for loop over {}", flat(self.text(&*f.expr)))) } t }
            Expr::While(w) => {
                let k = self.loops; self.loops += 1;
                let c = self.expr(&w.cond);
                let b = self.block(&w.body);
                Some(format!("while {c} /*@loop {k}*/ {{ /*@head {k}*/ {b} /*@tail {k}*/ }} /*@after {k}*/"))
            }
            Expr::Closure(_) => { self.bad.push("a closure".into()); None }
            Expr::Loop(_) => { self.bad.push("loop".into()); None }
            Expr::Macro(m) => { let t = flat(self.text(m)); self.bad.push(format!("macro {t}")); None }
            Expr::Repeat(r) => {
                let t = flat(self.text(&*r.expr)).replace(' ', "");
                if t.starts_with("null_mut::<") || t.starts_with("ptr::null_mut::<") || t.starts_with("::core::ptr::null_mut::<") {
                    if self.lend.is_some() { self.bad.push("several arrays of pointers".into()) }
                    self.lend = Some(String::new());
                    let n = self.text(&*r.len).to_string(); self.rule("E3"); return format!("vf_uninit::<_, {{ {n} }}>()");
                }
                if t.contains("MaybeUninit") && t.contains("uninit()") || t.starts_with("null::<") || t.starts_with("::core::ptr::null::<") { let n = self.text(&*r.len).to_string(); self.rule("E3"); Some(format!("vf_uninit::<_, {{ {n} }}>()")) }
                else if t.contains("Default::default()") { self.rule("E5"); Some(format!("[0u8; /*@len {}*/]", self.text(&*r.len))) }
                else { None }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.place(&u.expr).is_some() => { let p = self.ptr(&u.expr).unwrap(); self.rule("E3"); Some(format!("(*({}).vf_at({}))", p.base, p.off)) }
            Expr::Path(_) if self.place(e).is_some() && self.lend.is_some() => {
                // a pointer that becomes a mutable reference: that part of the place is lent, once
                let p = self.ptr(e).unwrap(); self.rule("E3");
                match self.lend.as_deref() { Some(b) if !b.is_empty() && b != p.base => self.bad.push("pointers into several places".into()), _ => {} }
                self.lend = Some(p.base.clone());
                Some(format!("vf_lent.vf_take({})", p.off))
            }
            Expr::Path(_) if self.place(e).is_some() => { let p = self.ptr(e).unwrap(); self.rule("E3"); Some(format!("({}).vf_at({})", p.base, p.off)) }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && ["as_slice()", "as_str()", "as_bytes()"].iter().any(|x| self.text(&*b.left).ends_with(x)) => {
                let (x, y) = (self.expr(&b.left), self.expr(&b.right));
                self.rule("E5");
                Some(format!("({}({x}).vf_eq(&*({y})))", if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" }))
            }
            Expr::Binary(b) if self.cst && matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)) => {
                let (x, y) = (self.expr(&b.left), self.expr(&b.right));
                Some(format!("{}({x}, {y})", if matches!(b.op, BinOp::Add(_)) { "vf_add" } else { "vf_mul" }))
            }
            Expr::Cast(c) if matches!(self.text(&*c.ty), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize") => {
                let (x, t) = (self.expr(&c.expr), self.text(&*c.ty).to_string());
                self.rule("E6");
                Some(format!("(#[verifier::truncate] ({x} as {t}))"))
            }
            Expr::Path(p) if self.text(p).ends_with("MAX_ENCODED_SIZE") => { let t = self.text(p); Some(format!("{}vf_max()", &t[..t.len() - 16])) }
            _ => None,
        };
        match r { Some(t) => t, None => self.default(e) }
    }
}

struct Binds(Vec<(String, usize)>);
impl Visit<'_> for Binds {
    fn visit_local(&mut self, l: &Local) {
        struct P(Vec<String>);
        impl Visit<'_> for P { fn visit_pat_ident(&mut self, p: &PatIdent) { self.0.push(p.ident.to_string()) } }
        let mut p = P(vec![]);
        p.visit_pat(&l.pat);
        for n in p.0 { self.0.push((n, range(l).end)) }
        visit::visit_local(self, l)
    }
}

struct Writes<'a> { src: &'a str, out: Vec<(String, usize)> }
impl Visit<'_> for Writes<'_> {
    fn visit_expr_assign(&mut self, a: &ExprAssign) { self.out.push((flat(&self.src[range(&*a.left)]), range(a).end)); visit::visit_expr_assign(self, a) }
    fn visit_expr_binary(&mut self, b: &ExprBinary) {
        if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) { self.out.push((flat(&self.src[range(&*b.left)]), range(b).end)) }
        visit::visit_expr_binary(self, b)
    }
    fn visit_expr_method_call(&mut self, m: &ExprMethodCall) {
        let n = m.method.to_string();
        if ["push", "push_back", "reserve", "insert", "extend", "clear", "truncate", "append", "pop", "shrink_to_fit"].contains(&n.as_str()) { self.out.push((flat(&self.src[range(&*m.receiver)]), range(m).end)) }
        visit::visit_expr_method_call(self, m)
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn ja(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

fn own_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() } }

struct Out<'a> { src: &'a str, defs: BTreeMap<(String, String), Expr>, items: Vec<String> }

impl<'a> Out<'a> {
    fn func(&self, own: &str, sig: &Signature, vis: &str, block: Option<&Block>) -> String {
        let mut w = Writes { src: self.src, out: vec![] };
        if let Some(b) = block { w.visit_block(b); }
        let mut bs = Binds(vec![]);
        if let Some(b) = block { bs.visit_block(b); }
        let mut cx = Cx { closures: HashMap::new(), binds: bs.0, src: self.src, ptrs: HashMap::new(), defs: &self.defs, own: own.to_string(), loops: 0, rules: vec![], bad: vec![], cst: false, writes: w.out, lend: None, dyns: matches!(&sig.output, ReturnType::Type(_, t) if self.src[range(&**t)].contains("dyn Error")) };
        let mut body = block.map(|b| cx.block(b)).unwrap_or_default();
        if let Some(b) = cx.lend.clone() { if !b.is_empty() { body = body.replacen('{', &format!("{{ let mut vf_lent = vf_lend(&mut {b}); let ghost vf_parts = vf_lent.rest(); "), 1); } }
        let head = &self.src[range(sig)];
        let (pre, ret) = match &sig.output { ReturnType::Default => (head.to_string(), String::new()), ReturnType::Type(_, t) => {
            let r = range(sig); let arrow = range(&sig.output);
            let wh = self.src[arrow.end..r.end].to_string();
            (format!("{}@RET@{}", &self.src[r.start..arrow.start], wh), if cx.dyns { "Option<VfDyn<'static>>".to_string() } else { self.src[range(&**t)].to_string() }) } };
        let line = sig.span().start().line;
        cx.rules.sort(); cx.rules.dedup();
        format!("{{\"kind\":\"fn\",\"name\":{},\"vis\":{},\"sig\":{},\"ret\":{},\"body\":{},\"loops\":{},\"rules\":{},\"bad\":{},\"line\":{line}}}", js(&sig.ident.to_string()), js(vis), js(&pre), js(&ret), js(&body), cx.loops, ja(&cx.rules), ja(&cx.bad))
    }
    fn vis(&self, v: &Visibility) -> String { self.src[range(v)].to_string() }
    fn items(&mut self, path: &str, items: &[Item]) {
        for i in items {
            match i {
                Item::Mod(m) => if let Some((_, c)) = &m.content { let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) }; if m.ident != "tests" && m.ident != "test" { self.items(&p, c) } },
                Item::Fn(f) => { let t = self.func("", &f.sig, &self.vis(&f.vis), Some(&f.block)); self.items.push(format!("{{\"kind\":\"fn\",\"module\":{},\"key\":{},\"members\":[{t}]}}", js(path), js(&f.sig.ident.to_string()))) }
                Item::Impl(im) => self.imp(path, im),
                Item::Struct(s) => { let mut s2 = s.clone(); s2.attrs.clear(); let f = match &s.fields { Fields::Named(n) => n.named.iter().map(|f| format!("pub {}: {}", f.ident.as_ref().unwrap(), &self.src[range(&f.ty)])).collect::<Vec<_>>(), Fields::Unnamed(n) => n.unnamed.iter().map(|f| format!("pub {}", &self.src[range(&f.ty)])).collect(), Fields::Unit => vec![] };
                    let named = matches!(s.fields, Fields::Named(_));
                    let g = if s.generics.params.is_empty() { String::new() } else { self.src[range(&s.generics)].to_string() };
                    let wh = s.generics.where_clause.as_ref().map(|w| self.src[range(w)].to_string()).unwrap_or_default();
                    self.items.push(format!("{{\"kind\":\"struct\",\"module\":{},\"key\":{},\"generics\":{},\"where\":{},\"named\":{named},\"fields\":{}}}", js(path), js(&s.ident.to_string()), js(&g), js(&wh), ja(&f))) }
                Item::Enum(e) => {
                    let vs: Vec<String> = e.variants.iter().map(|v| { let mut t = v.ident.to_string(); match &v.fields { Fields::Unit => {} Fields::Unnamed(n) => { t += &format!("({})", n.unnamed.iter().map(|f| self.src[range(&f.ty)].to_string()).collect::<Vec<_>>().join(", ")) } Fields::Named(n) => { t += &format!(" {{ {} }}", n.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), &self.src[range(&f.ty)])).collect::<Vec<_>>().join(", ")) } } if let Some((_, d)) = &v.discriminant { t += &format!(" = {}", &self.src[range(d)]) } t }).collect();
                    let g = if e.generics.params.is_empty() { String::new() } else { self.src[range(&e.generics)].to_string() };
                    let wh = e.generics.where_clause.as_ref().map(|w| self.src[range(w)].to_string()).unwrap_or_default();
                    let repr: Vec<String> = e.attrs.iter().filter(|a| a.path().is_ident("repr")).map(|a| self.src[range(a)].to_string()).collect();
                    self.items.push(format!("{{\"kind\":\"enum\",\"module\":{},\"key\":{},\"generics\":{},\"where\":{},\"repr\":{},\"fields\":{}}}", js(path), js(&e.ident.to_string()), js(&g), js(&wh), ja(&repr), ja(&vs))) }
                Item::Trait(t) => {
                    let mut ms = vec![];
                    for i in &t.items { match i { TraitItem::Fn(f) if f.default.is_none() => { ms.push(self.func("", &f.sig, "", None)) } TraitItem::Type(y) => ms.push(format!("{{\"kind\":\"type\",\"name\":{},\"text\":{}}}", js(&y.ident.to_string()), js(&format!("type {};", y.ident)))), TraitItem::Const(c) => ms.push(format!("{{\"kind\":\"const\",\"name\":{},\"ty\":{},\"expr\":\"\"}}", js(&c.ident.to_string()), js(&self.src[range(&c.ty)]))), _ => {} } }
                    let r = range(t); let b = t.brace_token.span.open().byte_range();
                    let start = t.attrs.iter().map(|a| range(a).end).max().unwrap_or(r.start).max(r.start);
                    self.items.push(format!("{{\"kind\":\"trait\",\"module\":{},\"key\":{},\"header\":{},\"members\":[{}]}}", js(path), js(&t.ident.to_string()), js(self.src[start..b.start].trim()), ms.join(",")))
                }
                _ => {}
            }
        }
    }
    fn imp(&mut self, path: &str, im: &ItemImpl) {
        let own = own_name(&im.self_ty);
        let tr = im.trait_.as_ref().map(|(_, p, _)| flat(&self.src[range(p)]).replace(' ', ""));
        let last = |s: &str| { // the last segment, generics kept
            let depth = s.find('<').unwrap_or(s.len()); let cut = s[..depth].rfind("::").map(|i| i + 2).unwrap_or(0); s[cut..].to_string() };
        let ty = flat(&self.src[range(&*im.self_ty)]);
        let key = match &tr { Some(t) => format!("{} for {}", last(t), ty), None => ty.clone() };
        let r = range(im);
        let start = im.attrs.iter().map(|a| range(a).end).max().unwrap_or(r.start).max(r.start);
        let b = im.brace_token.span.open().byte_range();
        let mut ms = vec![];
        for i in &im.items {
            match i {
                ImplItem::Fn(f) => ms.push(self.func(&own, &f.sig, &self.vis(&f.vis), Some(&f.block))),
                ImplItem::Type(t) => ms.push(format!("{{\"kind\":\"type\",\"name\":{},\"text\":{}}}", js(&t.ident.to_string()), js(&format!("type {} = {};", t.ident, &self.src[range(&t.ty)])))),
                ImplItem::Const(c) => {
                    let mut cx = Cx { closures: HashMap::new(), binds: vec![], src: self.src, ptrs: HashMap::new(), defs: &self.defs, own: own.clone(), loops: 0, rules: vec![], bad: vec![], cst: true, writes: vec![], lend: None, dyns: false };
                    let t = cx.expr(&c.expr);
                    ms.push(format!("{{\"kind\":\"const\",\"name\":{},\"ty\":{},\"expr\":{},\"bad\":{}}}", js(&c.ident.to_string()), js(&self.src[range(&c.ty)]), js(&t), ja(&cx.bad)))
                }
                _ => {}
            }
        }
        self.items.push(format!("{{\"kind\":\"impl\",\"module\":{},\"key\":{},\"header\":{},\"members\":[{}]}}", js(path), js(&key), js(self.src[start..b.start].trim()), ms.join(",")))
    }
}

fn collect(defs: &mut BTreeMap<(String, String), Expr>, items: &[Item]) {
    for i in items {
        match i {
            Item::Mod(m) => if let Some((_, c)) = &m.content { collect(defs, c) },
            Item::Impl(im) if im.trait_.is_none() => for it in &im.items { if let ImplItem::Fn(f) = it { if let [Stmt::Expr(e, None)] = &f.block.stmts[..] { let n = f.sig.ident.to_string(); if n == "as_ptr" || n == "as_mut_ptr" { defs.insert((own_name(&im.self_ty), n), e.clone()); } } } },
            _ => {}
        }
    }
}

fn main() {
    let p = std::env::args().nth(1).expect("expanded source");
    let src = std::fs::read_to_string(&p).unwrap();
    let file = match syn::parse_file(&src) { Ok(f) => f, Err(e) => { eprintln!("{e} at {:?}", e.span().start()); std::process::exit(3) } };
    let mut o = Out { src: &src, defs: BTreeMap::new(), items: vec![] };
    collect(&mut o.defs, &file.items);
    o.items("", &file.items);
    println!("[{}]", o.items.join(",\n"));
}
