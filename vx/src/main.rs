//! vx FILE ITEM : mechanical extraction of one function of the code under test
//! into the subset of Rust that Verus accepts.
//!
//! ITEM is `fn NAME`, `method TYPE NAME`, `impl TRAIT TYPE NAME` or `closure NAME N` (the N-th closure, in
//! source order, inside function/method NAME).
//!
//! The body is kept token for token except for these rewrites, all of which
//! preserve meaning:
//!   W1  `for i in a..b {B}`            -> `let mut i = a; while i < b {B; i = i + 1}`
//!   W2  `for i in a..=b {B}`           -> as W1 with bound b + 1
//!   W3  `for (i, p) in X.iter().enumerate()[.take(N)] {B}`, `for p in X.iter()`,
//!       `for p in &X`, `.iter_mut()`, `&mut X[..]`, `.skip(N)`, `.zip(Y)`
//!                                      -> W1 over the index, `let p = X[k]` / uses of `*p` -> `X[k]`
//!   W4  `continue` in such a loop      -> `{ i = i + 1; continue; }`
//!   W5  `i32::from(e)` etc.            -> `((e) as i32)`   (integer types only)
//!   W6  `X.chunks_mut(N)[.enumerate()][.take(T)].for_each(|(y, c)| B)`, also through
//!       `let` bindings of the iterator and for `par_chunks_mut` (rayon)
//!                                      -> the loop over consecutive chunks, c obtained with
//!       split_at_mut; B becomes a call /*@CLOSURE k*/ of the k-th closure, which is
//!       extracted on its own (captured variables become parameters of the same name)
//!   W7  `assert!(e);`                  -> `vx_assert(e)` (the driver decides what it means)
//! and with --f32, where floating point is abstract:
//!   W8  the type f32                   -> F32, a type of the template: literals become
//!       `F32::lit(bits)`, `e as f32` becomes `(e).to_F32()`, operators stay
//!   W9  `a += b` (all of += -= *= /=)  -> `a = a + b`
//!   W10 `panic!(..)`, `unreachable!(..)`, `unimplemented!(..)`, `todo!(..)` -> `vx_panic()`
//!   W11 `X.iter().flat_map(|p| vec![a, b, ..]).collect::<Vec<u8>>()`, also over `.chunks(N)` and
//!       `.chunks_exact(N)`               -> the loop that pushes a, b, .. for every p, with the
//!       loop invariant that says exactly that
//!   W12 a call of a function of the same file that --known does not list (a helper that somebody
//!       extracted) -> `{ let vx_p_x: T = arg; .. BODY }`; `&mut` arguments are substituted
//!   W13 a call of `let f = |x| BODY` -> the same
//!   W15 `let x: T = X.iter().sum();`, `let x: T = X.iter().zip(Y).map(|p| e).sum();` -> the loop that
//!       adds the elements, in order, to T::vx_sum_start(); `X[..][i]` -> `X[i]`
//!   W16 a constant that --known does not list (or a local one of type f32) -> its value
//!   W14 `X.unwrap_or_else(|| BODY)`     -> `match (X).vx_opt() { Some(vx_v) => vx_v, None => BODY }`
//! `type NAME` prints an enum or struct without attributes and discriminants, everything `pub`.
//! Markers /*@SIG*/ /*@PRE*/ /*@LOOP n*/ /*@BEGIN n*/ /*@TAIL n*/ /*@AFTER n*/ are
//! left where the driver inserts contracts and invariants (ghost text only).
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::VisitMut;
use syn::*;

fn die(m: &str) -> ! {
    println!("VX-UNSUPPORTED: {}", m);
    std::process::exit(3)
}

struct Cx {
    loops: usize,
    lens: HashMap<String, String>,
    fresh: usize,
    /// increments to replay on `continue`, innermost last
    steps: Vec<String>,
    /// `let x = ITERATOR` bindings that W6 may consume, and how many closures were seen
    iters: HashMap<String, Expr>,
    closures: usize,
}

fn ts(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

struct Casts;
impl VisitMut for Casts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if c.args.len() == 1 {
                let f = ts(&c.func).replace(' ', "");
                for t in ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "isize"] {
                    if f == format!("{}::from", t) {
                        let ty: Type = parse_str(t).unwrap();
                        let a = &c.args[0];
                        *e = parse2(quote! { ((#a) as #ty) }).unwrap();
                        return;
                    }
                }
            }
        }
    }
}

/// W10, W11; the texts stand for `vx_flat!(k)`
struct Flat(Vec<String>);
impl VisitMut for Flat {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if is_panic(&m.mac) {
                *s = Stmt::Expr(parse_str("vx_panic ()").unwrap(), m.semi_token);
                return;
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if is_panic(&m.mac) {
                *e = parse_str("vx_panic ()").unwrap();
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.iter().all(|p| matches!(p, Pat::Wild(_))) {
                        let mut b: Block = match &*c.body {
                            Expr::Block(b) => b.block.clone(),
                            e => parse2(quote! { { #e } }).unwrap(),
                        };
                        if no_return(&mut b) {
                            let x = &m.receiver;
                            *e = parse2(quote! { match (#x).vx_opt() { Some(vx_v) => vx_v, None => #b } }).unwrap();
                            return;
                        }
                    }
                }
            }
        }
        if let Some(t) = flat_map(e) {
            *e = parse_str(&format!("vx_flat ! ({})", self.0.len())).unwrap();
            self.0.push(t);
        }
    }
}
fn is_panic(m: &Macro) -> bool {
    ["panic", "unreachable", "unimplemented", "todo"].iter().any(|n| m.path.is_ident(n))
}
fn flat_map(e: &Expr) -> Option<String> {
    let Expr::MethodCall(c) = e else { return None };
    let Expr::MethodCall(f) = &*c.receiver else { return None };
    if c.method != "collect" || f.method != "flat_map" {
        return None;
    }
    if c.turbofish.as_ref().map(|t| ts(t).replace(' ', "")) != Some("::<Vec<u8>>".into()) {
        return None;
    }
    let Expr::Closure(cl) = f.args.first()? else { return None };
    if cl.inputs.len() != 1 {
        return None;
    }
    let elems: Vec<Expr> = match &*cl.body {
        Expr::Macro(m) if m.mac.path.is_ident("vec") => m
            .mac
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .ok()?
            .into_iter()
            .collect(),
        Expr::Array(a) => a.elems.iter().cloned().collect(),
        _ => return None,
    };
    let Expr::MethodCall(it) = &*f.receiver else { return None };
    let mut src = (*it.receiver).clone();
    if let Expr::Index(i) = &src {
        match &*i.index {
            Expr::Range(g) if g.start.is_none() && g.end.is_none() => src = (*i.expr).clone(),
            _ => return None,
        }
    }
    let (count, bind, spec, full, inv) = match (it.method.to_string().as_str(), &cl.inputs[0]) {
        ("iter", Pat::Reference(r)) => {
            let p = ts(&r.pat);
            ("vx_s.len()".to_string(), format!("let {p} = vx_s[vx_i];"), format!("let {p} = vx_s@[vx_k];"), String::new(), "vx_count == vx_s@.len(),".to_string())
        }
        (m @ ("chunks" | "chunks_exact"), Pat::Ident(p)) => {
            let (p, n) = (p.ident.to_string(), ts(it.args.first()?));
            (
                if m == "chunks" { format!("vx_chunks(vx_s.len(), {n})") } else { format!("vx_s.len() / {n}") },
                format!("let {p} = vx_piece(vx_s, vx_i, {n});"),
                format!("let {p} = vx_s@.subrange({n} * vx_k, {n} * (vx_k + 1));"),
                format!("{n} * (vx_k + 1) <= vx_s@.len()"),
                if m == "chunks" {
                    format!("vx_s@.len() % ({n}) == 0, vx_count * {n} == vx_s@.len(),")
                } else {
                    format!("{n} * vx_count <= vx_s@.len(),")
                },
            )
        }
        _ => return None,
    };
    let m = elems.len();
    let left = if full.is_empty() { full } else { format!(" && {full}") };
    let push: String = elems.iter().map(|e| format!("vx_out.push({});\n", ts(e))).collect();
    let (mut invs, mut steps, mut now) = (String::new(), String::new(), String::new());
    for (j, e) in elems.iter().enumerate() {
        let (e, q) = (ts(e), format!("forall|vx_k: int| 0 <= vx_k < vx_i{left}"));
        let is = format!("({{ {spec} #[trigger] vx_el{m}(vx_out@, vx_k, {j}) == ({e}) }})");
        invs.push_str(&format!("{q} ==> {is},\n"));
        steps.push_str(&format!("assert {q} implies {is} by {{ assert(vx_el{m}(vx_out@, vx_k, {j}) == vx_el{m}(vx_old, vx_k, {j})); }};\n"));
        now.push_str(&format!("assert(vx_el{m}(vx_out@, vx_i as int, {j}) == ({e}));\n"));
    }
    Some(format!(
        "{{ let vx_s = &{}; let mut vx_out: Vec<u8> = Vec::new(); let vx_count = {count}; let mut vx_i: usize = 0;\n\
         while vx_i < vx_count\n invariant vx_i <= vx_count, {inv} vx_out@.len() == {m} * vx_i,\n{invs} decreases vx_count - vx_i\n\
         {{ {bind}\n let ghost vx_old = vx_out@;\n {push}\n\
         proof {{ {steps}{now} }}\n\
         vx_i = vx_i + 1; }}\n vx_out }}",
        ts(&src)
    ))
}

/// W15
struct Sums;
impl VisitMut for Sums {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(i) = e {
            if let Expr::Index(b) = &*i.expr {
                if matches!(&*b.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) {
                    i.expr = b.expr.clone();
                }
            }
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        syn::visit_mut::visit_local_mut(self, l);
        let declared = match &l.pat {
            Pat::Type(t) => Some((*t.ty).clone()),
            _ => None,
        };
        let Some(init) = &mut l.init else { return };
        let Expr::MethodCall(m) = &*init.expr else { return };
        if m.method != "sum" || !m.args.is_empty() {
            return;
        }
        let fish = m.turbofish.as_ref().and_then(|t| match t.args.first() {
            Some(GenericArgument::Type(t)) => Some(t.clone()),
            _ => None,
        });
        let Some(ty) = fish.or(declared) else { return };
        let (pat, chain, item): (TokenStream, TokenStream, TokenStream) = match &*m.receiver {
            Expr::MethodCall(c) if c.method == "map" && c.args.len() == 1 => {
                let Expr::Closure(cl) = &c.args[0] else { return };
                if cl.inputs.len() != 1 {
                    return;
                }
                let (p, r, b) = (&cl.inputs[0], &c.receiver, &cl.body);
                (quote! { #p }, quote! { #r }, quote! { (#b) })
            }
            r => (quote! { &vx_item }, quote! { #r }, quote! { vx_item }),
        };
        let new: std::result::Result<Expr, _> = parse2(quote! { { let mut vx_sum: #ty = <#ty>::vx_sum_start(); for #pat in #chain { vx_sum = vx_sum + #item; } vx_sum } });
        if let Ok(n) = new {
            init.expr = Box::new(n);
        }
    }
}

/// W8, W9
struct Floats;
impl VisitMut for Floats {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "f32" {
            *i = Ident::new("F32", i.span());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let lit = |v: f32| -> Expr { parse_str(&format!("F32 :: lit ({}u32)", v.to_bits())).unwrap() };
        match e {
            Expr::Lit(l) => {
                let v = match &l.lit {
                    Lit::Float(f) if f.suffix() == "" || f.suffix() == "f32" => f.base10_parse::<f32>().ok(),
                    Lit::Int(f) if f.suffix() == "f32" => f.base10_digits().parse::<f32>().ok(),
                    Lit::Float(_) => die("a float that is not f32"),
                    _ => None,
                };
                if let Some(v) = v {
                    *e = lit(v);
                }
            }
            Expr::Cast(c) if ts(&c.ty) == "F32" => {
                let a = &c.expr;
                *e = parse2(quote! { (#a).to_F32() }).unwrap();
            }
            Expr::Binary(b) => {
                let op: BinOp = match b.op {
                    BinOp::AddAssign(_) => parse_str("+").unwrap(),
                    BinOp::SubAssign(_) => parse_str("-").unwrap(),
                    BinOp::MulAssign(_) => parse_str("*").unwrap(),
                    BinOp::DivAssign(_) => parse_str("/").unwrap(),
                    _ => return,
                };
                let (l, r) = (&b.left, &b.right);
                *e = parse2(quote! { #l = #l #op (#r) }).unwrap();
            }
            _ => {}
        }
    }
}

/// replaces `*name` by `repl` and bare `name` by `repl` (for mutable element bindings)
struct Deref {
    name: String,
    repl: Expr,
}
impl VisitMut for Deref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(&self.name) {
                        *e = self.repl.clone();
                        return;
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// puts the sequence back where Deref left `vx_hidden`
struct Hidden(Expr);
impl VisitMut for Hidden {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident("vx_hidden")) {
            *e = self.0.clone();
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn array_len(t: &Type) -> Option<String> {
    match t {
        Type::Array(a) => Some(ts(&a.len)),
        Type::Reference(r) => array_len(&r.elem),
        _ => None,
    }
}

/// a loop iterator, broken down
struct Iter {
    seq: Vec<(Expr, bool)>, // sequences iterated in parallel, and whether by &mut
    enumerate: bool,
    take: Option<Expr>,
    skip: Option<Expr>,
}

fn base(e: &Expr) -> Option<Iter> {
    match e {
        Expr::Paren(p) => base(&p.expr),
        Expr::Reference(r) => {
            let mut inner = (*r.expr).clone();
            if let Expr::Index(i) = &inner {
                if let Expr::Range(g) = &*i.index {
                    if g.start.is_none() && g.end.is_none() {
                        inner = (*i.expr).clone();
                    } else {
                        return None;
                    }
                }
            }
            Some(Iter { seq: vec![(inner, r.mutability.is_some())], enumerate: false, take: None, skip: None })
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" | "iter_mut" => Some(Iter {
                    seq: vec![((*m.receiver).clone(), n == "iter_mut")],
                    enumerate: false,
                    take: None,
                    skip: None,
                }),
                "enumerate" => {
                    let mut b = base(&m.receiver)?;
                    if b.skip.is_some() {
                        return None;
                    }
                    b.enumerate = true;
                    Some(b)
                }
                "take" => {
                    let mut b = base(&m.receiver)?;
                    if b.take.is_some() || b.skip.is_some() {
                        return None;
                    }
                    b.take = Some(m.args[0].clone());
                    Some(b)
                }
                "skip" => {
                    let mut b = base(&m.receiver)?;
                    if b.skip.is_some() || b.enumerate {
                        return None;
                    }
                    b.skip = Some(m.args[0].clone());
                    Some(b)
                }
                "zip" => {
                    let mut b = base(&m.receiver)?;
                    if b.enumerate || b.take.is_some() || b.skip.is_some() {
                        return None;
                    }
                    let o = match base(&m.args[0]) {
                        Some(o) => o,
                        None => Iter { seq: vec![(m.args[0].clone(), false)], enumerate: false, take: None, skip: None },
                    };
                    if o.enumerate || o.take.is_some() || o.skip.is_some() {
                        return None;
                    }
                    b.seq.extend(o.seq);
                    Some(b)
                }
                _ => None,
            }
        }
        _ => None,
    }
}

impl Cx {
    fn len_of(&self, e: &Expr) -> String {
        let n = ts(e).replace(' ', "");
        match self.lens.get(&n) {
            Some(l) => l.clone(),
            None => format!("{} . len ()", ts(e)),
        }
    }

    fn note_let(&mut self, l: &Local) {
        let (name, ty) = match &l.pat {
            Pat::Ident(p) => (p.ident.to_string(), None),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(p) => (p.ident.to_string(), Some(&*t.ty)),
                _ => return,
            },
            _ => return,
        };
        self.lens.remove(&name);
        if let Some(n) = ty.and_then(array_len) {
            self.lens.insert(name, n);
            return;
        }
        if let Some(i) = &l.init {
            match &*i.expr {
                Expr::Repeat(r) => {
                    self.lens.insert(name, ts(&r.len));
                }
                Expr::Array(a) => {
                    self.lens.insert(name, a.elems.len().to_string());
                }
                Expr::Unary(u) => {
                    if matches!(u.op, UnOp::Deref(_)) {
                        if let Some(n) = self.lens.get(&ts(&u.expr).replace(' ', "")).cloned() {
                            self.lens.insert(name, n);
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn block(&mut self, b: &Block) -> String {
        let mut o = String::new();
        for s in &b.stmts {
            o.push_str(&self.stmt(s));
            o.push('\n');
        }
        o
    }

    fn stmt(&mut self, s: &Stmt) -> String {
        match s {
            Stmt::Local(l) => {
                self.note_let(l);
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    let name = p.ident.to_string();
                    if let Some(e) = self.chunk_iter(&i.expr) {
                        let a: String = l.attrs.iter().map(ts).collect::<String>().replace(' ', "");
                        match a.as_str() {
                            "" => {
                                self.iters.insert(name, e);
                            }
                            "#[cfg(feature=\"rayon\")]" | "#[cfg(not(feature=\"rayon\"))]" => {
                                // both builds must split the same slice into the same chunks
                                let other = format!("{}{}", name, if a.contains("not(") { "+par" } else { "+seq" });
                                if let Some(o) = self.iters.remove(&other) {
                                    if ts(&o) != ts(&e) {
                                        die("the rayon and the sequential build split differently");
                                    }
                                    self.iters.insert(name, e);
                                } else {
                                    let me = format!("{}{}", name, if a.contains("not(") { "+seq" } else { "+par" });
                                    self.iters.insert(me, e);
                                }
                            }
                            _ => die("attribute on a let"),
                        }
                        return String::new();
                    }
                }
                if !l.attrs.is_empty() {
                    die("attribute on a let");
                }
                if let Some(i) = &l.init {
                    if has_loop(&i.expr) {
                        if i.diverge.is_some() {
                            die("let-else with a loop");
                        }
                        return format!("let {} = {};", ts(&l.pat), self.expr(&i.expr));
                    }
                }
                ts(l)
            }
            Stmt::Expr(e, semi) => {
                let t = self.expr(e);
                if semi.is_some() {
                    format!("{};", t)
                } else {
                    t
                }
            }
            Stmt::Item(Item::Use(_)) => String::new(),
            Stmt::Item(i) => ts(i),
            Stmt::Macro(m) => {
                let n = ts(&m.mac.path);
                if n == "assert" || n == "debug_assert" {
                    let a: Vec<Expr> = m
                        .mac
                        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                        .map(|p| p.into_iter().collect())
                        .unwrap_or_else(|_| die("assert"));
                    return format!("vx_assert({});", ts(&a[0]));
                }
                ts(m)
            }
        }
    }

    fn expr(&mut self, e: &Expr) -> String {
        match e {
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                self.steps.push(String::new());
                let c = ts(&w.cond);
                // `while i < n { ..; i += 1; }`: i is the loop's index
                let (mut body, mut last, mut var) = (w.body.clone(), String::new(), String::new());
                if let Some(Stmt::Expr(e, Some(_))) = body.stmts.last() {
                    if let Some(v) = step_of(e) {
                        last = format!("{};", ts(e));
                        var = format!("/*@VAR {n} {v}*/");
                        body.stmts.pop();
                    }
                }
                let b = self.block(&body);
                self.steps.pop();
                format!("{var} while {} /*@LOOP {n}*/ {{ /*@BEGIN {n}*/ {} /*@TAIL {n}*/ {last} }} /*@AFTER {n}*/", c, b, n = n)
            }
            Expr::Loop(_) => die("loop"),
            Expr::If(i) => {
                let mut o = format!("if {} {{\n{}}}", ts(&i.cond), self.block(&i.then_branch));
                if let Some((_, e)) = &i.else_branch {
                    o.push_str(&format!(" else {}", self.expr(e)));
                }
                o
            }
            Expr::Block(b) => format!("{{\n{}}}", self.block(&b.block)),
            Expr::Match(m) => {
                let mut o = format!("match {} {{\n", ts(&m.expr));
                for a in &m.arms {
                    let g = a.guard.as_ref().map(|(_, g)| format!(" if {}", ts(g))).unwrap_or_default();
                    o.push_str(&format!("{}{} => {},\n", ts(&a.pat), g, self.expr(&a.body)));
                }
                o.push('}');
                o
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    die("labelled continue");
                }
                match self.steps.last() {
                    Some(s) => format!("{{ {} continue; }}", s),
                    None => die("continue outside a loop"),
                }
            }
            Expr::Paren(p) if has_loop(&p.expr) => format!("({})", self.expr(&p.expr)),
            Expr::MethodCall(m) if m.method == "for_each" => self.for_each(m),
            e => {
                if has_loop(e) {
                    die("a loop inside an expression");
                }
                ts(e)
            }
        }
    }

    /// ITERATOR with `let`s substituted and par_chunks_mut written chunks_mut
    fn chunk_iter(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Paren(p) => self.chunk_iter(&p.expr),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.iters.get(&i.to_string()).cloned()),
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "chunks_mut" | "par_chunks_mut" => {
                    let mut m = m.clone();
                    m.method = Ident::new("chunks_mut", m.method.span());
                    Some(Expr::MethodCall(m))
                }
                "enumerate" | "take" => {
                    let mut m = m.clone();
                    m.receiver = Box::new(self.chunk_iter(&m.receiver)?);
                    Some(Expr::MethodCall(m))
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn for_each(&mut self, m: &ExprMethodCall) -> String {
        let it = self.chunk_iter(&m.receiver).unwrap_or_else(|| die("for_each over something else than chunks"));
        let cl = match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => c,
            _ => die("for_each without a closure"),
        };
        let (mut take, mut enumerate) = (None, false);
        let mut cur = &it;
        let (x, n) = loop {
            match cur {
                Expr::MethodCall(m) if m.method == "take" && take.is_none() => {
                    take = Some(ts(&m.args[0]));
                    cur = &m.receiver;
                }
                Expr::MethodCall(m) if m.method == "enumerate" && !enumerate => {
                    enumerate = true;
                    cur = &m.receiver;
                }
                Expr::MethodCall(m) if m.method == "chunks_mut" => break (ts(&m.receiver), ts(&m.args[0])),
                _ => die("chunk iterator"),
            }
        };
        let (y, row) = match &cl.inputs[0] {
            Pat::Tuple(t) if enumerate && t.elems.len() == 2 => (ts(&t.elems[0]), ts(&t.elems[1])),
            Pat::Ident(p) if !enumerate => {
                self.fresh += 1;
                (format!("vx_i{}", self.fresh - 1), p.ident.to_string())
            }
            _ => die("for_each pattern"),
        };
        let l = self.loops;
        self.loops += 1;
        let k = self.closures;
        self.closures += 1;
        format!(
            "{{ let vx_chunk = {n}; let vx_len = {x}.len(); let vx_count = vx_chunks(vx_len, vx_chunk);\n let vx_take = {};\n let mut {y} = 0;\n while {y} < vx_count && {y} < vx_take /*@LOOP {l}*/ {{ /*@BEGIN {l}*/\n let vx_start = {y} * vx_chunk;\n let vx_k = vx_min(vx_chunk, vx_len - vx_start);\n let (vx_p, vx_q) = {x}.split_at_mut(vx_start);\n let ({row}, vx_r) = vx_q.split_at_mut(vx_k);\n /*@CLOSURE {k}*/\n /*@TAIL {l}*/ {y} = {y} + 1; }} /*@AFTER {l}*/ }}",
            take.unwrap_or("vx_count".into())
        )
    }

    fn for_loop(&mut self, f: &ForLoop) -> String {
        if f.label.is_some() {
            die("labelled loop");
        }
        let n = self.loops;
        self.loops += 1;
        let (var, start, end, bind, body);
        let mut pre = String::new();
        if let Expr::Range(r) = strip_paren(&f.expr) {
            var = match &*f.pat {
                Pat::Ident(p) => p.ident.to_string(),
                Pat::Wild(_) => {
                    self.fresh += 1;
                    format!("vx_i{}", self.fresh - 1)
                }
                _ => die("range pattern"),
            };
            start = r.start.as_ref().map(|e| ts(e)).unwrap_or_else(|| die("range without start"));
            let e0 = r.end.as_ref().unwrap_or_else(|| die("range without end"));
            let mut e = ts(e0);
            if matches!(r.limits, RangeLimits::Closed(_)) {
                e = format!("({} + 1)", e);
            }
            end = e;
            bind = String::new();
            body = f.body.clone();
        } else {
            let it = base(&f.expr).unwrap_or_else(|| die(&format!("iterator {}", ts(&f.expr))));
            let mut pats: Vec<Pat> = Vec::new();
            fn flat(p: &Pat, o: &mut Vec<Pat>) {
                if let Pat::Tuple(t) = p {
                    for e in &t.elems {
                        flat(e, o);
                    }
                } else {
                    o.push(p.clone());
                }
            }
            flat(&f.pat, &mut pats);
            if it.enumerate {
                var = match pats.remove(0) {
                    Pat::Ident(p) => p.ident.to_string(),
                    _ => die("enumerate pattern"),
                };
            } else {
                self.fresh += 1;
                var = format!("vx_i{}", self.fresh - 1);
            }
            if pats.len() != it.seq.len() {
                die("iterator pattern");
            }
            // the number of steps is the least of the lengths involved
            let mut lens: Vec<String> = it.seq.iter().map(|(s, _)| self.len_of(s)).collect();
            if let Some(t) = &it.take {
                lens.push(ts(t));
            }
            lens.sort();
            lens.dedup();
            end = if lens.len() == 1 {
                lens[0].clone()
            } else if lens.iter().all(|l| l.parse::<usize>().is_ok()) {
                lens.iter().map(|l| l.parse::<usize>().unwrap()).min().unwrap().to_string()
            } else {
                let mut e = lens[0].clone();
                for l in &lens[1..] {
                    e = format!("vx_min({}, {})", e, l);
                }
                e
            };
            start = it.skip.as_ref().map(|e| ts(e)).unwrap_or("0".into());
            let mut bd = f.body.clone();
            let mut b = String::new();
            for (p, (s, m)) in pats.iter().zip(it.seq.iter()) {
                let idx: Expr = parse_str(&format!("{} [{}]", ts(s), var)).unwrap();
                match p {
                    Pat::Wild(_) => {}
                    Pat::Reference(r) => {
                        let p = &r.pat;
                        b.push_str(&format!("let {} = {};\n", ts(p), ts(&idx)));
                    }
                    Pat::Ident(i) => {
                        // `*x` is the element; a bare `x` is a reference to it
                        // (the binding may shadow the sequence it comes from)
                        let hidden: Expr = parse_str(&format!("vx_hidden [{}]", var)).unwrap();
                        Deref { name: i.ident.to_string(), repl: hidden }.visit_block_mut(&mut bd);
                        if !*m {
                            b.push_str(&format!("let {} = &{};\n", i.ident, ts(&idx)));
                            if uses(s, &i.ident.to_string()) && uses(&bd, "vx_hidden") {
                                die("element binding shadows its sequence");
                            }
                        } else if uses(&bd, &i.ident.to_string()) {
                            die("element reference escapes");
                        }
                        Hidden(s.clone()).visit_block_mut(&mut bd);
                    }
                    _ => die("element pattern"),
                }
            }
            bind = b;
            body = bd;
        }
        let endv = if end.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !assigned(&body, &end) {
            end
        } else {
            pre = format!("let vx_e{} = {};\n", n, end);
            format!("vx_e{}", n)
        };
        let step = format!("{} = {} + 1;", var, var);
        self.steps.push(step.clone());
        let b = self.block(&body);
        self.steps.pop();
        format!(
            "{{ /*@VAR {n} {var}*/ /*@END {n} {endv}*/ {pre} let mut {var} = {start};\n while {var} < {endv} /*@LOOP {n}*/ {{ /*@BEGIN {n}*/ {bind} {b} /*@TAIL {n}*/ {step} }} /*@AFTER {n}*/ }}"
        )
    }
}

/// the variable of `v += 1` or `v = v + 1`
fn step_of(e: &Expr) -> Option<String> {
    let t = ts(e).replace(' ', "");
    for sep in ["+=", "="] {
        if let Some((v, r)) = t.split_once(sep) {
            if v.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && (sep == "+=" && r == "1" || sep == "=" && (r == format!("{v}+1") || r == format!("{v}+(1)"))) {
                return Some(v.to_string());
            }
        }
    }
    None
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        e => e,
    }
}

fn uses(b: &impl ToTokens, name: &str) -> bool {
    fn go(t: TokenStream, name: &str) -> bool {
        t.into_iter().any(|x| match x {
            proc_macro2::TokenTree::Ident(i) => i == name,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), name),
            _ => false,
        })
    }
    go(b.to_token_stream(), name)
}
fn assigned(b: &Block, name: &str) -> bool {
    struct A<'a>(&'a str, bool);
    impl<'ast, 'a> syn::visit::Visit<'ast> for A<'a> {
        fn visit_expr_assign(&mut self, e: &'ast ExprAssign) {
            if ts(&e.left) == self.0 {
                self.1 = true;
            }
        }
        fn visit_expr_binary(&mut self, e: &'ast ExprBinary) {
            if ts(&e.left) == self.0 && ts(&e.op).ends_with('=') && !matches!(e.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) {
                self.1 = true;
            }
            syn::visit::visit_expr_binary(self, e);
        }
    }
    let mut a = A(name, false);
    syn::visit::Visit::visit_block(&mut a, b);
    a.1
}

fn has_loop(e: &Expr) -> bool {
    struct H(bool);
    impl<'ast> syn::visit::Visit<'ast> for H {
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {
            self.0 = true;
        }
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if m.method == "for_each" {
                self.0 = true;
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut h = H(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

type ForLoop = ExprForLoop;

fn find_fn(items: &[Item], ty: Option<&str>, name: &str) -> Vec<(Signature, Block)> {
    let mut o = vec![];
    for i in items {
        match i {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => o.push((f.sig.clone(), (*f.block).clone())),
            Item::Impl(im) => {
                let t = ts(&im.self_ty);
                let t = t.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                if ty.is_some_and(|x| x == t) {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.ident == name {
                                o.push((f.sig.clone(), f.block.clone()));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    o
}

/// text without spaces and lifetimes
fn bare(t: &impl ToTokens) -> String {
    let mut o = String::new();
    let s = ts(t);
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
        } else if !c.is_whitespace() {
            o.push(c);
        }
    }
    o.replace("<>", "")
}

/// method NAME of `impl TRAIT for TYPE`
fn find_impl(items: &[Item], tr: &str, ty: &str, name: &str) -> Vec<(Signature, Block)> {
    let mut o = vec![];
    for i in items {
        if let Item::Impl(im) = i {
            if bare(&im.self_ty) == ty && im.trait_.as_ref().is_some_and(|t| bare(&t.1) == tr) {
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == name {
                            o.push((f.sig.clone(), f.block.clone()));
                        }
                    }
                }
            }
        }
    }
    o
}

struct Closures(Vec<ExprClosure>);
impl<'ast> syn::visit::Visit<'ast> for Closures {
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        self.0.push(c.clone());
        syn::visit::visit_expr_closure(self, c);
    }
}

// ------------------------------------------------------------------ W12, W13

/// functions that a call may be replaced with: free (None) or of a type
struct Helper {
    ty: Option<String>,
    sig: Vec<(Pat, Option<Type>)>,
    recv: Option<String>, // "self", "&self", "&mut self"
    ret: Option<Type>,
    body: Block,
}
struct Inline {
    free: HashMap<String, Helper>,
    method: HashMap<String, Helper>,
    depth: usize,
}
struct NoLife;
impl VisitMut for NoLife {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime = None;
        syn::visit_mut::visit_type_reference_mut(self, t);
    }
}
fn helpers(items: &[Item], known: &[String]) -> Inline {
    let mut h = Inline { free: HashMap::new(), method: HashMap::new(), depth: 0 };
    let mk = |sig: &Signature, body: &Block, ty: Option<String>| -> Option<Helper> {
        if sig.asyncness.is_some() || sig.unsafety.is_some() || sig.generics.type_params().count() + sig.generics.const_params().count() > 0 {
            return None;
        }
        let (mut ps, mut recv) = (vec![], None);
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(r) => recv = Some(if r.reference.is_none() { "self" } else if r.mutability.is_some() { "&mut self" } else { "&self" }.to_string()),
                FnArg::Typed(p) => {
                    let mut t = (*p.ty).clone();
                    NoLife.visit_type_mut(&mut t);
                    if ts(&t).contains("impl ") || ts(&t).contains("dyn ") {
                        return None;
                    }
                    ps.push(((*p.pat).clone(), Some(t)))
                }
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => {
                let mut t = (**t).clone();
                NoLife.visit_type_mut(&mut t);
                Some(t)
            }
        };
        Some(Helper { ty, sig: ps, recv, ret, body: body.clone() })
    };
    for i in items {
        match i {
            Item::Fn(f) if !known.contains(&f.sig.ident.to_string()) => {
                if let Some(x) = mk(&f.sig, &f.block, None) {
                    h.free.insert(f.sig.ident.to_string(), x);
                }
            }
            Item::Impl(im) if im.trait_.is_none() => {
                let t = ts(&im.self_ty);
                let t = t.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        if known.contains(&format!("{t}::{n}")) {
                            continue;
                        }
                        if let Some(x) = mk(&f.sig, &f.block, Some(t.clone())) {
                            if h.method.insert(n.clone(), x).is_some() {
                                die(&format!("two new methods {n}"));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    h
}

/// W16: constants that --known does not list (and local ones of type f32) are replaced by their values
struct Consts {
    map: HashMap<String, Expr>,
}
impl Consts {
    fn value(ty: &Type, e: &Expr) -> Expr {
        let t = ts(ty);
        let int = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&t.as_str());
        if let Expr::Lit(_) = e {
            // the place of use decides its type, as it had to agree with the constant's
            return e.clone();
        }
        if int { parse2(quote! { (#e as #ty) }).unwrap() } else { parse2(quote! { (#e) }).unwrap() }
    }
    fn local(c: &ItemConst) -> bool {
        ts(&c.ty).contains("F32") || ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&ts(&c.ty).as_str())
    }
    fn get(&self, p: &Path) -> Option<&Expr> {
        let n: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        self.map.get(&n.join("::"))
    }
}
impl VisitMut for Consts {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let outer = self.map.clone();
        for s in &mut b.stmts {
            if let Stmt::Item(Item::Const(c)) = s {
                if Consts::local(c) {
                    let mut e = Consts::value(&c.ty, &c.expr);
                    self.visit_expr_mut(&mut e);
                    self.map.insert(c.ident.to_string(), e);
                }
            }
        }
        let map = &self.map;
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(c)) if map.contains_key(&c.ident.to_string()) && Consts::local(c)));
        syn::visit_mut::visit_block_mut(self, b);
        self.map = outer;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(v) = self.get(&p.path) {
                    *e = v.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // a constant (or an imported variant) would become a binding in the extracted text
        match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                let n = i.ident.to_string();
                if let Some(v) = self.map.get(&n) {
                    let mut v = v.clone();
                    loop {
                        v = match v {
                            Expr::Paren(x) => *x.expr,
                            Expr::Cast(x) => *x.expr,
                            o => break v = o,
                        };
                    }
                    match v {
                        Expr::Lit(l) => *p = Pat::Lit(l),
                        _ => die(&format!("pattern {n}")),
                    }
                } else if n != "None" && n.starts_with(|c: char| c.is_uppercase()) {
                    die(&format!("pattern {n}"));
                }
            }
            _ => syn::visit_mut::visit_pat_mut(self, p),
        }
    }
}
fn constants(file: &mut File, known: &[String]) {
    let mut raw: Vec<(Vec<String>, Type, Expr)> = vec![];
    for i in &file.items {
        match i {
            Item::Const(c) if !known.contains(&format!("const:{}", c.ident)) => raw.push((vec![c.ident.to_string()], (*c.ty).clone(), (*c.expr).clone())),
            Item::Impl(im) if im.trait_.is_none() => {
                let t = ts(&im.self_ty);
                let t = t.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                for x in &im.items {
                    if let ImplItem::Const(c) = x {
                        raw.push((vec![format!("Self::{}", c.ident), format!("{}::{}", t, c.ident)], c.ty.clone(), c.expr.clone()));
                    }
                }
            }
            _ => {}
        }
    }
    let mut c = Consts { map: HashMap::new() };
    // values may use other constants
    for _ in 0..4 {
        let done = Consts { map: c.map.clone() };
        for (ns, ty, e) in &raw {
            let mut e = Consts::value(ty, e);
            let mut d = Consts { map: done.map.clone() };
            d.visit_expr_mut(&mut e);
            for n in ns {
                c.map.insert(n.clone(), e.clone());
            }
        }
    }
    for i in &mut file.items {
        match i {
            Item::Fn(f) => c.visit_block_mut(&mut f.block),
            Item::Impl(im) => {
                for x in &mut im.items {
                    if let ImplItem::Fn(f) = x {
                        c.visit_block_mut(&mut f.block);
                    }
                }
            }
            _ => {}
        }
    }
}

/// `if c { return v; } rest` -> `if c { v } else { rest }`; false when a return is left over
fn no_return(b: &mut Block) -> bool {
    struct R(bool);
    impl<'ast> syn::visit::Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    fn has(s: &Stmt) -> bool {
        let mut r = R(false);
        syn::visit::Visit::visit_stmt(&mut r, s);
        r.0
    }
    for k in 0..b.stmts.len() {
        if !has(&b.stmts[k]) {
            continue;
        }
        let rest: Vec<Stmt> = b.stmts.split_off(k + 1);
        match b.stmts.pop().unwrap() {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    b.stmts.push(Stmt::Expr(*e, None));
                }
                return !b.stmts.iter().any(has);
            }
            Stmt::Expr(Expr::If(mut i), _) => {
                // a branch that ends in `return` keeps its value, the others go on with the rest
                fn ends(b: &Block) -> bool {
                    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
                }
                if ends(&i.then_branch) && !rest.is_empty() {
                    let mut e: Block = match i.else_branch.take() {
                        None => parse_str("{}").unwrap(),
                        Some((_, e)) => {
                            let mut s = *e;
                            if let Expr::Block(b) = &mut s { b.block.clone() } else { parse2(quote! { { #s } }).unwrap() }
                        }
                    };
                    if let Some(Stmt::Expr(x, semi @ None)) = e.stmts.last_mut() {
                        let _ = x;
                        *semi = Some(Default::default());
                    }
                    e.stmts.extend(rest);
                    if !no_return(&mut i.then_branch) || !no_return(&mut e) {
                        return false;
                    }
                    i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e }))));
                    b.stmts.push(Stmt::Expr(Expr::If(i), None));
                    return true;
                }
                if rest.is_empty() {
                    let mut ok = no_return(&mut i.then_branch);
                    if let Some((_, e)) = &mut i.else_branch {
                        let mut w: Block = match &**e {
                            Expr::Block(b) => b.block.clone(),
                            o => parse2(quote! { { #o } }).unwrap(),
                        };
                        ok = ok && no_return(&mut w);
                        **e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: w });
                    } else {
                        return false;
                    }
                    b.stmts.push(Stmt::Expr(Expr::If(i), None));
                    return ok;
                }
                return false;
            }
            _ => return false,
        }
    }
    true
}

struct Rename(String, Expr);
impl VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
            *e = self.1.clone();
            return;
        }
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && matches!(&self.1, Expr::Reference(_)) {
                if matches!(&*u.expr, Expr::Path(p) if p.path.is_ident(&self.0)) {
                    if let Expr::Reference(r) = &self.1 {
                        *e = (*r.expr).clone();
                        return;
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        // (&mut x).m(), (&mut x)[i], (&mut x).f  ->  x.m(), x[i], x.f
        fn peel(e: &mut Box<Expr>) {
            if let Expr::Reference(r) = &**e {
                if r.mutability.is_some() {
                    *e = r.expr.clone();
                }
            }
        }
        match e {
            Expr::MethodCall(m) => peel(&mut m.receiver),
            Expr::Index(m) => peel(&mut m.expr),
            Expr::Field(m) => peel(&mut m.base),
            _ => {}
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        syn::visit_mut::visit_field_value_mut(self, f);
    }
}
/// names bound by patterns
struct Bound(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
fn bound_in(b: &Block) -> Vec<String> {
    let mut v = Bound(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl Inline {
    fn apply(&self, h: &Helper, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        if args.len() != h.sig.len() {
            return None;
        }
        let mut body = h.body.clone();
        if !no_return(&mut body) {
            return None;
        }
        let bound = bound_in(&body);
        let mut lets: Vec<Stmt> = vec![];
        for ((p, t), a) in h.sig.iter().zip(args) {
            let id = match p {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => i,
                Pat::Wild(_) => {
                    lets.push(parse2(quote! { let _ = #a; }).ok()?);
                    continue;
                }
                _ => return None,
            };
            let n = id.ident.to_string();
            if bound.contains(&n) {
                return None; // shadowed in the body
            }
            let by_mut = match t {
                Some(Type::Reference(r)) => r.mutability.is_some(),
                _ => false,
            };
            if by_mut {
                let place = match a {
                    Expr::Reference(r) if r.mutability.is_some() => &*r.expr,
                    e => e,
                };
                if !matches!(place, Expr::Path(_) | Expr::Field(_)) || id.mutability.is_some() {
                    return None;
                }
                // the body must not bind a name the place uses
                if bound.iter().any(|b| uses(place, b)) {
                    return None;
                }
                Rename(n, a.clone()).visit_block_mut(&mut body);
                continue;
            }
            let new = Ident::new(&format!("vx_p_{}", n), proc_macro2::Span::call_site());
            let m = id.mutability;
            lets.push(match t {
                Some(t) => parse2(quote! { let #m #new: #t = #a; }).ok()?,
                None => parse2(quote! { let #m #new = #a; }).ok()?,
            });
            Rename(n, parse2(quote! { #new }).unwrap()).visit_block_mut(&mut body);
        }
        if let Some(kind) = &h.recv {
            let r = recv?;
            match r {
                Expr::Path(p) if p.path.is_ident("self") => {}
                Expr::Path(_) | Expr::Field(_) => {
                    if bound.iter().any(|b| uses(r, b)) {
                        return None;
                    }
                    Rename("self".into(), r.clone()).visit_block_mut(&mut body);
                }
                _ => {
                    if kind == "&mut self" {
                        return None;
                    }
                    lets.push(parse2(quote! { let vx_p_self = #r; }).ok()?);
                    Rename("self".into(), parse_str("vx_p_self").unwrap()).visit_block_mut(&mut body);
                }
            }
        }
        if let Some(t) = &h.ty {
            struct S(String);
            impl VisitMut for S {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if i == "Self" {
                        *i = Ident::new(&self.0, i.span());
                    }
                }
            }
            S(t.clone()).visit_block_mut(&mut body);
        }
        if h.ret.is_none() && h.ty.is_none() && h.sig.iter().all(|p| p.1.is_none()) {
            // a closure: its value is that of its body
        } else if h.ret.is_none() {
            if let Some(Stmt::Expr(_, s @ None)) = body.stmts.last_mut() {
                *s = Some(Default::default());
            }
        }
        if lets.is_empty() && body.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &body.stmts[0] {
                if !has_loop(e) {
                    return parse2(quote! { (#e) }).ok();
                }
            }
        }
        lets.extend(body.stmts);
        // the value of the block, with the type the signature gives it
        if let (Some(t), false) = (&h.ret, matches!(h.ret, Some(Type::Reference(_)))) {
            if let Some(Stmt::Expr(e, None)) = lets.last() {
                if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) && !has_loop(e) {
                    let e = e.clone();
                    lets.pop();
                    lets.push(parse2(quote! { let vx_v: #t = #e; }).ok()?);
                    lets.push(Stmt::Expr(parse_str("vx_v").unwrap(), None));
                }
            }
        }
        let b = Block { brace_token: Default::default(), stmts: lets };
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
}
impl VisitMut for Inline {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // W13: closures that are only called
        let mut k = 0;
        while k < b.stmts.len() {
            if let Stmt::Local(l) = &b.stmts[k] {
                let name = match &l.pat {
                    Pat::Ident(p) if p.by_ref.is_none() => Some(p.ident.to_string()),
                    _ => None,
                };
                if let (Some(name), Some(i)) = (name, &l.init) {
                    if let Expr::Closure(c) = &*i.expr {
                        if c.capture.is_none() && l.attrs.is_empty() {
                            let mut h = Helper { ty: None, sig: vec![], recv: None, ret: None, body: parse_str("{}").unwrap() };
                            for p in &c.inputs {
                                match p {
                                    Pat::Type(t) => h.sig.push(((*t.pat).clone(), Some((*t.ty).clone()))),
                                    p => h.sig.push((p.clone(), None)),
                                }
                            }
                            if let ReturnType::Type(_, t) = &c.output {
                                h.ret = Some((**t).clone());
                            }
                            h.body = match &*c.body {
                                Expr::Block(b) => b.block.clone(),
                                e => parse2(quote! { { #e } }).unwrap(),
                            };
                            // nothing the closure uses may be bound anew below it
                            let mut later = Bound(vec![]);
                            for s in &b.stmts[k + 1..] {
                                syn::visit::Visit::visit_stmt(&mut later, s);
                            }
                            if !later.0.iter().any(|n| uses(&h.body, n) || *n == name) {
                                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[k + 1..].to_vec() };
                                if h.ret.is_none() && h.sig.iter().all(|p| p.1.is_some()) && !h.sig.is_empty() {
                                    for p in &mut h.sig {
                                        p.1 = p.1.take();
                                    }
                                }
                                let mut ic = Call { name: name.clone(), h: &h, inl: self, ok: true };
                                ic.visit_block_mut(&mut rest);
                                if ic.ok && !uses(&rest, &name) {
                                    b.stmts.truncate(k);
                                    b.stmts.extend(rest.stmts);
                                    continue;
                                }
                            }
                        }
                    }
                }
            }
            k += 1;
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if self.depth > 8 {
            return;
        }
        let new = match e {
            Expr::Call(c) => {
                let f = ts(&c.func).replace(' ', "");
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(h) = self.free.get(&f) {
                    self.apply(h, None, &args)
                } else if let Some((t, m)) = f.rsplit_once("::") {
                    match self.method.get(m) {
                        Some(h) if h.recv.is_none() && (t == "Self" || Some(t.to_string()) == h.ty) => self.apply(h, None, &args),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(c) => {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                match self.method.get(&c.method.to_string()) {
                    Some(h) if h.recv.is_some() => self.apply(h, Some(&c.receiver), &args),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
            self.depth += 1;
            self.visit_expr_mut(e);
            self.depth -= 1;
        }
    }
}
struct Call<'a> {
    name: String,
    h: &'a Helper,
    inl: &'a Inline,
    ok: bool,
}
impl<'a> VisitMut for Call<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                match self.inl.apply(self.h, None, &args) {
                    Some(n) => *e = n,
                    None => self.ok = false,
                }
            }
        }
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    let floats = a.iter().any(|x| x == "--f32");
    a.retain(|x| x != "--f32");
    let mut known: Option<Vec<String>> = None;
    if let Some(k) = a.iter().position(|x| x == "--known") {
        known = Some(a[k + 1].split(',').map(|x| x.to_string()).collect());
        a.drain(k..k + 2);
    }
    let src = std::fs::read_to_string(&a[1]).unwrap_or_else(|_| die("cannot read the file"));
    let mut file = parse_file(&src).unwrap_or_else(|e| die(&format!("parse: {}", e)));
    Casts.visit_file_mut(&mut file);
    Sums.visit_file_mut(&mut file);
    if floats {
        Floats.visit_file_mut(&mut file);
    }
    if a[2] == "type" {
        return print_type(&file.items, &a[3]);
    }
    if a[2] == "names" {
        for i in &file.items {
            match i {
                Item::Fn(f) => println!("{}", f.sig.ident),
                Item::Const(c) => println!("const:{}", c.ident),
                Item::Impl(im) => {
                    let t = ts(&im.self_ty);
                    let t = t.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            println!("{}::{}", t, f.sig.ident);
                        }
                    }
                }
                _ => {}
            }
        }
        return;
    }
    if let Some(k) = &known {
        constants(&mut file, k);
        helpers(&file.items, k).visit_file_mut(&mut file);
    }
    let mut flat = Flat(vec![]);
    flat.visit_file_mut(&mut file);
    let (ty, name) = match a[2].as_str() {
        "fn" => (None, a[3].as_str()),
        "method" => (Some(a[3].as_str()), a[4].as_str()),
        "closure" => (Some(a[3].as_str()), a[4].as_str()),
        "impl" => (Some(a[4].as_str()), a[5].as_str()),
        _ => die("item"),
    };
    let ty = ty.filter(|t| *t != "-");
    let fs = if a[2] == "impl" { find_impl(&file.items, &a[3], ty.unwrap(), name) } else { find_fn(&file.items, ty, name) };
    if fs.len() != 1 {
        die(&format!("{} definitions of {}", fs.len(), name));
    }
    let (sig, block) = fs[0].clone();
    let mut cx = Cx { loops: 0, lens: HashMap::new(), fresh: 0, steps: vec![], iters: HashMap::new(), closures: 0 };
    for i in &sig.inputs {
        if let FnArg::Typed(p) = i {
            if let (Pat::Ident(n), Some(l)) = (&*p.pat, array_len(&p.ty)) {
                cx.lens.insert(n.ident.to_string(), l);
            }
        }
    }
    if a[2] == "closure" {
        let k: usize = a[5].parse().unwrap();
        let mut c = Closures(vec![]);
        syn::visit::Visit::visit_block(&mut c, &block);
        if c.0.len() <= k {
            die("no such closure");
        }
        let cl = &c.0[k];
        println!("PARAMS {}", ts(&cl.inputs));
        // the captured environment: `let`s of the enclosing body before the closure
        match &*cl.body {
            Expr::Block(b) => println!("/*@PRE*/\n{}", cx.block(&b.block)),
            e => println!("/*@PRE*/\n{}", cx.expr(e)),
        }
        return;
    }
    println!("PARAMS {}", ts(&sig.inputs));
    println!("OUTPUT {}", match &sig.output {
        ReturnType::Default => "()".into(),
        ReturnType::Type(_, t) => ts(t),
    });
    let mut t = cx.block(&block);
    for (k, f) in flat.0.iter().enumerate() {
        t = t.replace(&format!("vx_flat ! ({})", k), f);
    }
    println!("/*@PRE*/\n{}", t);
}

fn print_type(items: &[Item], name: &str) {
    for i in items {
        match i {
            Item::Enum(e) if e.ident == name => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = parse_str("pub").unwrap();
                for v in &mut e.variants {
                    v.attrs.clear();
                    v.discriminant = None;
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                println!("PARAMS \nOUTPUT ()\n{}", ts(&e));
                return;
            }
            Item::Struct(e) if e.ident == name => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = parse_str("pub").unwrap();
                for f in e.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_str("pub").unwrap();
                }
                println!("PARAMS \nOUTPUT ()\n{}", ts(&e));
                return;
            }
            _ => {}
        }
    }
    die(&format!("no type {}", name))
}
