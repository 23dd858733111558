//! Semantics-preserving rewrites of constructs the verifier does not accept.
use crate::norm_ts;
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar {
    pub notes: BTreeMap<String, usize>,
    pub lost: Option<String>,
    optmap: bool,
    copyiter: bool,
    runs: bool,
    mutiter: bool,
    vecslice: bool,
    append: bool,
    opassign: bool,
    rangeto: bool,
    clamp: bool,
    n: usize,
}

const LOGS: &[&str] = &["debug", "info", "warn", "error", "trace", "debug_assert", "debug_assert_eq", "debug_assert_ne"];

/// `crate::a::B` -> `B`: the generated file is flat.
pub fn shorten_path(p: &mut Path) {
    if p.segments.len() > 1 && (p.segments[0].ident == "crate" || p.segments[0].ident == "super") {
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        // keep from the first segment that starts with an upper-case letter, or the last one
        let i = segs
            .iter()
            .position(|s| s.ident.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false))
            .unwrap_or(segs.len() - 1);
        p.leading_colon = None;
        p.segments = segs[i..].iter().cloned().collect();
    }
}

fn binding(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Wild(_) => None,
        Pat::Type(t) => binding(&t.pat),
        _ => None,
    }
}

impl Desugar {
    pub fn new(flags: &[String]) -> Self {
        Self { notes: BTreeMap::new(), lost: None, optmap: flags.iter().any(|f| f == "optmap"), opassign: flags.iter().any(|f| f == "opassign"), rangeto: flags.iter().any(|f| f == "rangeto"), clamp: flags.iter().any(|f| f == "clamp"), append: flags.iter().any(|f| f == "append"), copyiter: flags.iter().any(|f| f == "copyiter"), runs: flags.iter().any(|f| f == "runs"), mutiter: flags.iter().any(|f| f == "mutiter"), vecslice: flags.iter().any(|f| f == "vecslice"), n: 0 }
    }
    fn note(&mut self, s: &str) {
        *self.notes.entry(s.into()).or_default() += 1;
    }
    pub fn sig(&mut self, s: &mut Signature) {
        for i in s.inputs.iter_mut() {
            if let FnArg::Typed(t) = i {
                t.attrs.clear();
            }
        }
        self.visit_signature_mut(s);
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let k = self.n;
        self.n += 1;
        let label = &f.label;
        let body = &f.body.stmts;
        let pat = &f.pat;
        // strip parentheses
        let mut e = &*f.expr;
        while let Expr::Paren(p) = e {
            e = &p.expr;
        }
        let nm = |p: &Pat| binding(p).unwrap_or(format!("{k}"));
        match e {
            Expr::Range(r) => {
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return None };
                let it = format_ident!("it_{}", nm(pat).trim_start_matches('_'));
                let end = format_ident!("end_{}", nm(pat).trim_start_matches('_'));
                match r.limits {
                    RangeLimits::HalfOpen(_) => {
                        self.note("for over a half-open range -> while");
                        Some(parse_quote!({
                            let mut #it = #a;
                            let #end = #b;
                            #label while #it < #end {
                                let #pat = #it;
                                #it += 1;
                                #(#body)*
                            }
                        }))
                    }
                    RangeLimits::Closed(_) => {
                        self.note("for over an inclusive range -> while");
                        let more = format_ident!("more_{}", nm(pat).trim_start_matches('_'));
                        Some(parse_quote!({
                            let mut #it = #a;
                            let #end = #b;
                            let mut #more = #it <= #end;
                            #label while #more {
                                let #pat = #it;
                                if #it < #end { #it += 1; } else { #more = false; }
                                #(#body)*
                            }
                        }))
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() => {
                let mut r = &*m.receiver;
                while let Expr::Paren(p) = r {
                    r = &p.expr;
                }
                let Expr::Range(r) = r else { return None };
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return None };
                let it = format_ident!("it_{}", nm(pat));
                let start = format_ident!("start_{}", nm(pat));
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    let more = format_ident!("more_{}", nm(pat));
                    self.note("for over a reversed inclusive range -> while");
                    return Some(parse_quote!({
                        let #start = #a;
                        let mut #it = #b;
                        let mut #more = #start <= #it;
                        #label while #more {
                            let #pat = #it;
                            if #start < #it { #it -= 1; } else { #more = false; }
                            #(#body)*
                        }
                    }));
                }
                self.note("for over a reversed half-open range -> while");
                Some(parse_quote!({
                    let #start = #a;
                    let mut #it = #b;
                    #label while #it > #start {
                        #it -= 1;
                        let #pat = #it;
                        #(#body)*
                    }
                }))
            }
            Expr::MethodCall(m) if m.method == "zip" => {
                let mut parts = vec![];
                zip_parts(e, pat, &mut parts)?;
                let it = format_ident!("it_{}", binding(&parts[0].2).unwrap_or(format!("{k}")).trim_start_matches('_'));
                let bases: Vec<&Expr> = parts.iter().map(|p| &p.0).collect();
                let vals: Vec<Stmt> = parts.iter().map(|(b, m, p)| match (p, m) {
                    (Pat::Reference(r), false) => { let p = &r.pat; parse_quote!(let #p = #b[#it];) }
                    (p, true) => parse_quote!(let #p = &mut #b[#it];),
                    (p, false) => parse_quote!(let #p = &#b[#it];),
                }).collect();
                self.note("for over zipped slice iterators -> indexed while");
                Some(parse_quote!({
                    let mut #it: usize = 0;
                    #label while #(#it < #bases.len())&&* {
                        #(#vals)*
                        #it += 1;
                        #(#body)*
                    }
                }))
            }
            Expr::MethodCall(m) => {
                // place.iter() / iter_mut() [.enumerate()] [.take(n)]
                let mut chain: Vec<&ExprMethodCall> = vec![];
                let mut cur = e;
                while let Expr::MethodCall(c) = cur {
                    chain.push(c);
                    cur = &c.receiver;
                    if c.method == "iter" || c.method == "iter_mut" {
                        break;
                    }
                }
                let _ = m;
                chain.reverse();
                let base = cur;
                let first = chain.first()?;
                let mutable = if first.method == "iter" {
                    false
                } else if first.method == "iter_mut" {
                    true
                } else {
                    return None;
                };
                let mut enumerate = false;
                let mut take: Option<Expr> = None;
                let mut skip: Option<Expr> = None;
                let mut copied = false;
                let mut mapped: Option<(Pat, Expr)> = None;
                for c in &chain[1..] {
                    if c.method == "map" && mapped.is_none() && !enumerate {
                        let Some(Expr::Closure(f)) = c.args.first() else { return None };
                        mapped = Some((f.inputs.first()?.clone(), (*f.body).clone()));
                        continue;
                    }
                    if mapped.is_some() && (c.method == "copied" || c.method == "cloned") {
                        return None;
                    }
                    if c.method == "enumerate" {
                        enumerate = true;
                    } else if c.method == "take" {
                        if take.is_some() || skip.is_some() {
                            return None;
                        }
                        take = c.args.first().cloned();
                    } else if c.method == "skip" {
                        if skip.is_some() {
                            return None;
                        }
                        skip = c.args.first().cloned();
                    } else if c.method == "copied" || c.method == "cloned" {
                        if enumerate {
                            return None;
                        }
                        copied = true;
                    } else {
                        return None;
                    }
                }
                let (ipat, vpat): (Option<Pat>, Pat) = if enumerate {
                    let Pat::Tuple(t) = &**pat else { return None };
                    (Some(t.elems[0].clone()), t.elems[1].clone())
                } else {
                    (None, (**pat).clone())
                };
                let (vpat, deref) = match &vpat {
                    Pat::Reference(r) => ((*r.pat).clone(), true),
                    p => (p.clone(), copied),
                };
                let tag = ipat.as_ref().and_then(binding).or(binding(&vpat)).unwrap_or(format!("{k}"));
                let it = format_ident!("it_{}", tag.trim_start_matches('_'));
                let lim: Expr = match &take {
                    Some(n) => parse_quote!(#it < #base.len() && #it < #n),
                    None => parse_quote!(#it < #base.len()),
                };
                let start: Expr = skip.unwrap_or(parse_quote!(0));
                let val: Stmt = if let Some((p, body)) = &mapped {
                    if deref {
                        return None;
                    }
                    match p {
                        Pat::Reference(r) => { let p = &r.pat; parse_quote!(let #vpat = { let #p = #base[#it]; #body };) }
                        p if mutable => parse_quote!(let #vpat = { let #p = &mut #base[#it]; #body };),
                        p => parse_quote!(let #vpat = { let #p = &#base[#it]; #body };),
                    }
                } else if deref {
                    parse_quote!(let #vpat = #base[#it];)
                } else if mutable {
                    parse_quote!(let #vpat = &mut #base[#it];)
                } else {
                    parse_quote!(let #vpat = &#base[#it];)
                };
                let idx: Option<Stmt> = ipat.map(|p| parse_quote!(let #p = #it;));
                self.note("for over slice iterator -> indexed while");
                Some(parse_quote!({
                    let mut #it: usize = #start;
                    #label while #lim {
                        #val
                        #idx
                        #it += 1;
                        #(#body)*
                    }
                }))
            }
            Expr::Path(p) if self.mutiter && p.path.get_ident().is_some() => {
                let f2: ExprForLoop = { let mut f2 = f.clone(); f2.expr = Box::new(parse_quote!(&mut #p)); f2 };
                self.for_loop(&f2)
            }
            Expr::Reference(r) if self.rangeto && matches!(&*r.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(g) if g.start.is_none() && g.end.is_some() && matches!(g.limits, RangeLimits::HalfOpen(_)))) => {
                let Expr::Index(ix) = &*r.expr else { unreachable!() };
                let Expr::Range(g) = &*ix.index else { unreachable!() };
                let (base, end) = (&ix.expr, g.end.as_ref().unwrap());
                let tag = nm(pat);
                let tag = tag.trim_start_matches('_');
                let (it, lim) = (format_ident!("it_{tag}"), format_ident!("end_{tag}"));
                let val: Stmt = if r.mutability.is_some() {
                    parse_quote!(let #pat = &mut #base[#it];)
                } else {
                    parse_quote!(let #pat = &#base[#it];)
                };
                self.note("for over &place[..n] -> indexed while up to n");
                Some(parse_quote!({
                    let #lim: usize = #end;
                    let mut #it: usize = 0;
                    #label while #it < #lim {
                        #val
                        #it += 1;
                        #(#body)*
                    }
                }))
            }
            Expr::Reference(r) => {
                let base = &r.expr;
                let it = format_ident!("it_{}", nm(pat).trim_start_matches('_'));
                let val: Stmt = if r.mutability.is_some() {
                    parse_quote!(let #pat = &mut #base[#it];)
                } else {
                    parse_quote!(let #pat = &#base[#it];)
                };
                self.note("for over &place -> indexed while");
                Some(parse_quote!({
                    let mut #it: usize = 0;
                    #label while #it < #base.len() {
                        #val
                        #it += 1;
                        #(#body)*
                    }
                }))
            }
            _ => None,
        }
    }
}

/// the slices a chain of `zip` runs over, with the pattern of each
fn zip_parts(e: &Expr, pat: &Pat, out: &mut Vec<(Expr, bool, Pat)>) -> Option<()> {
    let mut e = e;
    while let Expr::Paren(p) = e {
        e = &p.expr;
    }
    let Expr::MethodCall(m) = e else { return None };
    if m.method == "zip" {
        let Pat::Tuple(t) = pat else { return None };
        (t.elems.len() == 2).then_some(())?;
        zip_parts(&m.receiver, &t.elems[0], out)?;
        return zip_parts(m.args.first()?, &t.elems[1], out);
    }
    let mutable = m.method == "iter_mut";
    (mutable || m.method == "iter").then_some(())?;
    out.push(((*m.receiver).clone(), mutable, pat.clone()));
    Some(())
}
fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            conjuncts(&b.left, out);
            conjuncts(&b.right, out);
        }
        o => out.push(o.clone()),
    }
}
fn has_let(e: &Expr) -> bool {
    let mut v = vec![];
    conjuncts(e, &mut v);
    v.iter().any(|e| matches!(e, Expr::Let(_)))
}

/// `X.iter().fold(init, |mut acc, pat| body)`, `X.iter_mut().for_each(|pat| body)`,
/// `V.extend(X.iter().map(|pat| body))` as loops.
fn iter_base(e: &Expr, method: &str) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    (m.method == method && m.args.is_empty()).then(|| (*m.receiver).clone())
}
/// `return E` of a closure body, as an assignment to the accumulator and `continue`
struct ClosureReturn {
    acc: Ident,
}
impl VisitMut for ClosureReturn {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let acc = &self.acc;
            *e = match &r.expr {
                Some(x) if x.to_token_stream().to_string() == acc.to_string() => parse_quote!(continue),
                Some(x) => parse_quote!({ #acc = #x; continue; }),
                None => parse_quote!(continue),
            };
        }
    }
}
/// `*name` -> `name`
struct Undo {
    name: Ident,
}
impl VisitMut for Undo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unary(u) = e
            && matches!(u.op, UnOp::Deref(_))
            && let Expr::Path(p) = &*u.expr
            && p.path.is_ident(&self.name)
        {
            *e = (*u.expr).clone();
        }
    }
}
fn closure_stmts(b: &Expr) -> Vec<Stmt> {
    match b {
        Expr::Block(b) => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
impl Desugar {
    fn closure_loop(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match name.as_str() {
            "fold" => {
                let base = iter_base(&m.receiver, "iter")?;
                let init = m.args.first()?;
                let Some(Expr::Closure(c)) = m.args.iter().nth(1) else { return None };
                let Pat::Ident(a) = c.inputs.first()? else { return None };
                let acc = a.ident.clone();
                let pat = c.inputs.iter().nth(1)?;
                let mut stmts = closure_stmts(&c.body);
                let mut cr = ClosureReturn { acc: acc.clone() };
                stmts.iter_mut().for_each(|s| cr.visit_stmt_mut(s));
                let Some(Stmt::Expr(last, None)) = stmts.pop() else { return None };
                if last.to_token_stream().to_string() != acc.to_string() {
                    stmts.push(parse_quote!(#acc = #last;));
                }
                self.note("Iterator::fold with a closure literal -> while");
                let val: Stmt = match pat {
                    Pat::Reference(r) => {
                        let p = &r.pat;
                        parse_quote!(let #p = #base[it_fold];)
                    }
                    p => parse_quote!(let #p = &#base[it_fold];),
                };
                Some(parse_quote!({
                    let mut #acc = #init;
                    let mut it_fold: usize = 0;
                    while it_fold < #base.len() {
                        #val
                        it_fold += 1;
                        #(#stmts)*
                    }
                    #acc
                }))
            }
            "for_each" => {
                let (base, mutable) = match (iter_base(&m.receiver, "iter_mut"), iter_base(&m.receiver, "iter")) {
                    (Some(b), _) => (b, true),
                    (_, Some(b)) => (b, false),
                    _ => return None,
                };
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                let pat = c.inputs.first()?;
                let mut stmts = closure_stmts(&c.body);
                if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                let mut cr = ClosureReturn { acc: format_ident!("no_accumulator") };
                stmts.iter_mut().for_each(|s| cr.visit_stmt_mut(s));
                let val: Stmt = if mutable { parse_quote!(let #pat = &mut #base[it_each];) } else { parse_quote!(let #pat = &#base[it_each];) };
                self.note("Iterator::for_each with a closure literal -> while");
                Some(parse_quote!({
                    let mut it_each: usize = 0;
                    while it_each < #base.len() {
                        #val
                        it_each += 1;
                        #(#stmts)*
                    }
                }))
            }
            "extend" => {
                if let (true, Some(a @ (Expr::Field(_) | Expr::Path(_)))) = (self.append, m.args.first()) {
                    let v = &m.receiver;
                    self.note("Vec::extend with a vector by value -> Vec::append");
                    return Some(parse_quote!({
                        let mut it_app = #a;
                        #v.append(&mut it_app);
                    }));
                }
                let Some(Expr::MethodCall(map)) = m.args.first() else { return None };
                if map.method != "map" {
                    return None;
                }
                let base = iter_base(&map.receiver, "iter")?;
                let Some(Expr::Closure(c)) = map.args.first() else { return None };
                let pat = c.inputs.first()?;
                let mut body = (*c.body).clone();
                let v = &m.receiver;
                self.note("extend with a mapped slice iterator -> while with push");
                let mut val: Stmt = parse_quote!(let #pat = &#base[it_ext];);
                if self.copyiter && let Pat::Ident(p) = pat {
                    self.note("copied items instead of references to them");
                    Undo { name: p.ident.clone() }.visit_expr_mut(&mut body);
                    val = parse_quote!(let #pat = #base[it_ext];);
                }
                Some(parse_quote!({
                    let mut it_ext: usize = 0;
                    while it_ext < #base.len() {
                        #val
                        it_ext += 1;
                        #v.push(#body);
                    }
                }))
            }
            "any" | "all" | "position" | "find" => {
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                let mut pat = c.inputs.first()?.clone();
                if let Pat::Type(t) = &pat {
                    pat = (*t.pat).clone();
                }
                let body = &c.body;
                let src = &m.receiver;
                let text = norm_ts(src.to_token_stream());
                if !(text.contains("iter (") || text.contains("..")) {
                    return None;
                }
                let hit = format_ident!("hit_{name}");
                let f: ExprForLoop = match name.as_str() {
                    "any" => parse_quote!(for #pat in #src { if #body { #hit = true; break; } }),
                    "all" => parse_quote!(for #pat in #src { if !(#body) { #hit = false; break; } }),
                    "position" => parse_quote!(for #pat in #src { if #body { #hit = Some(at_position); break; } at_position += 1; }),
                    _ => match &pat {
                        Pat::Reference(r) => {
                            let p = &r.pat;
                            parse_quote!(for #p in #src { if #body { #hit = Some(#p); break; } })
                        }
                        _ => return None,
                    },
                };
                let l = self.for_loop(&f)?;
                self.note(&format!("Iterator::{name} with a closure literal -> loop with break"));
                Some(match name.as_str() {
                    "any" => parse_quote!({ let mut #hit = false; #l #hit }),
                    "all" => parse_quote!({ let mut #hit = true; #l #hit }),
                    "position" => parse_quote!({ let mut #hit: Option<usize> = None; let mut at_position: usize = 0; #l #hit }),
                    _ => parse_quote!({ let mut #hit = None; #l #hit }),
                })
            }
            "collect" => {
                let Expr::MethodCall(map) = &*m.receiver else { return None };
                if map.method != "map" {
                    return None;
                }
                let Some(Expr::Closure(c)) = map.args.first() else { return None };
                let pat = c.inputs.first()?;
                let body = &c.body;
                let src = &map.receiver;
                let text = norm_ts(src.to_token_stream());
                if !(text.contains("iter (") || text.contains("..")) {
                    return None;
                }
                let f: ExprForLoop = parse_quote!(for #pat in #src { out_collect.push(#body); });
                let l = self.for_loop(&f)?;
                self.note("collect of a mapped iterator -> loop with push");
                Some(parse_quote!({ let mut out_collect = Vec::new(); #l out_collect }))
            }
            _ => None,
        }
    }
}

impl VisitMut for Desugar {
    fn visit_path_mut(&mut self, p: &mut Path) {
        shorten_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if LOGS.contains(&n.as_str()) {
                    self.note(&format!("{n}! dropped"));
                    continue;
                }
            }
            b.stmts.push(s);
        }
        visit_mut::visit_block_mut(self, b);
        // flatten the block a for loop was turned into, so that anchors can sit next to it
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match s {
                Stmt::Expr(Expr::Group(g), _) if matches!(&*g.expr, Expr::Block(_)) => {
                    let Expr::Block(bl) = *g.expr else { unreachable!() };
                    b.stmts.push(Stmt::Expr(Expr::Block(bl), None));
                }
                s => b.stmts.push(s),
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.for_loop(&f) {
                    Some(n) => *e = n,
                    None => {
                        self.lost.get_or_insert(format!("no rewrite rule for `for {} in {}`", norm_ts(f.pat.to_token_stream()), norm_ts(f.expr.to_token_stream())));
                    }
                }
            }
            Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)) && has_let(&i.cond) => {
                self.note("if-let chain -> nested if");
                let mut cs = vec![];
                conjuncts(&i.cond, &mut cs);
                let els = i.else_branch.as_ref().map(|x| x.1.clone());
                let mut inner = i.then_branch.clone();
                let mut res: Option<Expr> = None;
                for c in cs.into_iter().rev() {
                    let blk = inner;
                    let ne: Expr = match &els {
                        Some(x) => parse_quote!(if #c #blk else #x),
                        None => parse_quote!(if #c #blk),
                    };
                    res = Some(ne.clone());
                    inner = parse_quote!({ #ne });
                }
                *e = res.unwrap();
            }
            Expr::Binary(b) if self.opassign => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                    BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                    BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                    BinOp::DivAssign(_) => Some(BinOp::Div(Default::default())),
                    BinOp::BitOrAssign(_) => Some(BinOp::BitOr(Default::default())),
                    _ => None,
                };
                let deref = matches!(&*b.left, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(_)));
                if let (Some(op), true) = (op, deref || matches!(&*b.left, Expr::Path(_) | Expr::Field(_))) {
                    let (l, r) = (&b.left, &b.right);
                    self.note("compound assignment to a place -> assignment");
                    *e = parse_quote!(#l = #l #op (#r));
                }
            }
            Expr::MethodCall(m) if self.clamp && m.method == "clamp" && m.args.len() == 2 => {
                let (x, lo, hi) = (&m.receiver, &m.args[0], &m.args[1]);
                self.note("clamp method -> clamp function");
                *e = parse_quote!(clamp_(#x, #lo, #hi));
            }
            Expr::Reference(r) if self.vecslice && r.mutability.is_some() => {
                if let Expr::Index(ix) = &mut *r.expr && matches!(&*ix.index, Expr::Range(_)) {
                    let base = &ix.expr;
                    ix.expr = parse_quote!(#base.as_mut_slice());
                    self.note("&mut of a range of a Vec -> &mut of the range of its slice");
                }
            }
            Expr::MethodCall(m) if self.runs && ((m.method == "fill" || m.method == "copy_from_slice") && m.args.len() == 1 || m.method == "copy_within" && m.args.len() == 2) => {
                // a slice operation on a range of a place -> the same operation with the range as arguments
                let bounds = |r: &ExprRange, base: &Expr| -> (Expr, Expr) {
                    let lo: Expr = match &r.start { Some(x) => (**x).clone(), None => parse_quote!(0) };
                    let hi: Expr = match (&r.end, &r.limits) {
                        (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(),
                        (Some(x), RangeLimits::Closed(_)) => parse_quote!((#x) + 1),
                        _ => parse_quote!(#base.len()),
                    };
                    (lo, hi)
                };
                let arg = m.args.first().unwrap().clone();
                let new: Option<Expr> = if m.method == "copy_within" {
                    let to = &m.args[1];
                    let base = &m.receiver;
                    let mut a = arg;
                    while let Expr::Paren(p) = a { a = *p.expr; }
                    if let Expr::Range(r) = &a {
                        let (lo, hi) = bounds(r, base);
                        Some(parse_quote!({ let run_from = #lo; let run_end = #hi; let run_to = #to; #base.shift_run(run_from, run_end, run_to) }))
                    } else { None }
                } else {
                    let name = if m.method == "fill" { format_ident!("fill_run") } else { format_ident!("set_run") };
                    let mut recv = (*m.receiver).clone();
                    while let Expr::Paren(p) = recv { recv = *p.expr; }
                    match &recv {
                        Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) => {
                            let Expr::Range(r) = &*ix.index else { unreachable!() };
                            let base = &ix.expr;
                            let (lo, hi) = bounds(r, base);
                            Some(parse_quote!({ let run_from = #lo; let run_end = #hi; #base.#name(run_from, run_end, #arg) }))
                        }
                        base => Some(parse_quote!({ let run_end = #base.len(); #base.#name(0, run_end, #arg) })),
                    }
                };
                if let Some(n) = new {
                    self.note("fill / copy_from_slice / copy_within on a range -> the same with the range as arguments");
                    *e = n;
                }
            }
            Expr::MethodCall(m) if ["fold", "for_each", "extend", "any", "all", "position", "find", "collect"].iter().any(|n| m.method == n) => {
                let m = m.clone();
                if let Some(n) = self.closure_loop(&m) {
                    *e = n;
                }
            }
            Expr::MethodCall(m) if self.optmap && (m.method == "map" || m.method == "and_then" || m.method == "unwrap_or_else" || m.method == "is_some_and" || m.method == "is_none_or") => {
                if let Some(Expr::Closure(c)) = m.args.first() {
                    let recv = &m.receiver;
                    let body = &c.body;
                    let rs = norm_ts(recv.to_token_stream());
                    if !rs.contains("iter (") {
                        let p = c.inputs.first().cloned().unwrap_or(parse_quote!(_));
                        let n: Expr = match m.method.to_string().as_str() {
                            "map" => parse_quote!((match #recv { Some(#p) => Some(#body), None => None })),
                            "and_then" => parse_quote!((match #recv { Some(#p) => #body, None => None })),
                            "is_some_and" => parse_quote!((match #recv { Some(#p) => #body, None => false })),
                            "is_none_or" => parse_quote!((match #recv { Some(#p) => #body, None => true })),
                            _ => parse_quote!((match #recv { Some(x) => x, None => #body })),
                        };
                        self.note(&format!("Option::{} with a closure literal -> match", m.method));
                        *e = n;
                    }
                }
            }
            _ => {}
        }
    }
}

/// `let f = |a: T| body; .. f(x) ..` -> `.. { let a: T = x; body } ..`, for closures that capture by reference, are only
/// called, and mention no name that is bound anew later on.
pub fn inline_closures(b: &mut Block) -> std::result::Result<usize, String> {
    struct Calls<'a> {
        name: &'a Ident,
        c: &'a ExprClosure,
        n: usize,
        other: bool,
    }
    impl VisitMut for Calls<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(k) = e
                && let Expr::Path(p) = &*k.func
                && p.path.is_ident(self.name)
                && k.args.len() == self.c.inputs.len()
            {
                for a in k.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let lets: Vec<Stmt> = self.c.inputs.iter().zip(&k.args).map(|(p, a)| parse_quote!(let #p = #a;)).collect();
                let body = &self.c.body;
                *e = parse_quote!({ #(#lets)* #body });
                self.n += 1;
                return;
            }
            if let Expr::Path(p) = e
                && p.path.is_ident(self.name)
            {
                self.other = true;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    #[derive(Default)]
    struct Names(Vec<String>);
    impl VisitMut for Names {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            self.0.push(p.ident.to_string());
            visit_mut::visit_pat_ident_mut(self, p);
        }
    }
    #[derive(Default)]
    struct Leaves(bool);
    impl VisitMut for Leaves {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            self.0 |= matches!(e, Expr::Return(_) | Expr::Try(_) | Expr::Closure(_));
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut total = 0;
    let mut i = 0;
    while i < b.stmts.len() {
        let found = match &b.stmts[i] {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(n), Some(init)) if n.mutability.is_none() && init.diverge.is_none() => match &*init.expr {
                    Expr::Closure(c) if c.capture.is_none() => Some((n.ident.clone(), c.clone())),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        let Some((name, c)) = found else {
            i += 1;
            continue;
        };
        let mut leaves = Leaves::default();
        leaves.visit_expr_mut(&mut (*c.body).clone());
        if leaves.0 {
            return Err(format!("closure {name} cannot be put in place of its calls"));
        }
        b.stmts.remove(i);
        let mut own = Names::default();
        for p in c.inputs.clone().iter_mut() {
            own.visit_pat_mut(p);
        }
        own.visit_expr_mut(&mut (*c.body).clone());
        let mut later = Names::default();
        for s in b.stmts[i..].iter_mut() {
            later.visit_stmt_mut(s);
        }
        let words: Vec<String> = norm_ts(c.body.to_token_stream()).split(' ').map(|s| s.to_string()).collect();
        if let Some(w) = later.0.iter().find(|n| words.contains(n) && !own.0.contains(n)) {
            return Err(format!("closure {name} mentions {w}, which is bound again"));
        }
        let mut k = Calls { name: &name, c: &c, n: 0, other: false };
        for s in b.stmts[i..].iter_mut() {
            k.visit_stmt_mut(s);
        }
        if k.other {
            return Err(format!("closure {name} is used other than by calling it"));
        }
        total += k.n;
    }
    Ok(total)
}
