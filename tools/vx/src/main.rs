//! vx: mechanical extraction of functions, types and constants of /repo into a Verus file.
//!
//! usage: vx TEMPLATE REPO OUT.rs OUT.json
//!
//! The template is Verus text (spec functions, lemmas, stand-ins with assumed contracts) with
//! `//@` directives. `//@item` and `//@fn` pull the *current* text of an item out of the repo; the
//! contract, loop invariants and ghost blocks given in the template are spliced into it. What the
//! extraction rewrites is recorded in OUT.json. Exit 0: written. Exit 3: an anchor is lost (a
//! function, loop or statement named by the template is no longer there, or a construct has no
//! rewrite rule); OUT.json says which.
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod desugar;

pub struct Lost(pub String);
type R<T> = std::result::Result<T, Lost>;

#[derive(Default, Debug, Clone)]
struct FnDir {
    file: String,
    path: String,
    flags: Vec<String>,
    ret: Option<String>,
    spec: String,
    attrs: Vec<String>,
    rename: Option<String>,
    loops: BTreeMap<usize, String>,
    ghosts: Vec<(String, String, String)>, // kind, arg, text
    substs: Vec<(String, String)>,
    sigsubsts: Vec<(String, String)>,
    nloops: Option<usize>,
}

fn norm(s: &str) -> R<String> {
    TokenStream::from_str(s)
        .map(|t| norm_ts(t))
        .map_err(|e| Lost(format!("cannot tokenize {s:?}: {e}")))
}
fn norm_ts(t: TokenStream) -> String {
    let mut v = vec![];
    flat(t, &mut v);
    v.join(" ")
}
fn flat(t: TokenStream, out: &mut Vec<String>) {
    let mut joint = false;
    for tt in t {
        let was = std::mem::take(&mut joint);
        if was {
            // `&&`, `->`, `'a` and the like stay one word
            match &tt {
                TokenTree::Punct(p) => {
                    joint = p.spacing() == proc_macro2::Spacing::Joint;
                    let c = p.as_char();
                    out.last_mut().unwrap().push(c);
                    continue;
                }
                TokenTree::Ident(i) if out.last().unwrap() == "'" => {
                    out.last_mut().unwrap().push_str(&i.to_string());
                    continue;
                }
                _ => {}
            }
        }
        match tt {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    out.push(a.into())
                }
                flat(g.stream(), out);
                if !b.is_empty() {
                    out.push(b.into())
                }
            }
            TokenTree::Punct(p) => {
                joint = p.spacing() == proc_macro2::Spacing::Joint;
                out.push(p.as_char().to_string())
            }
            o => out.push(o.to_string()),
        }
    }
}

struct Repo {
    root: String,
    cache: HashMap<String, File>,
}
impl Repo {
    fn get(&mut self, f: &str) -> R<&File> {
        if !self.cache.contains_key(f) {
            let p = if f.starts_with('/') { f.to_string() } else { format!("{}/{}", self.root, f) };
            let s = std::fs::read_to_string(&p).map_err(|e| Lost(format!("file {f}: {e}")))?;
            let file = parse_file(&s).map_err(|e| Lost(format!("parse {f}: {e}")))?;
            self.cache.insert(f.to_string(), file);
        }
        Ok(&self.cache[f])
    }
}

fn self_ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => self_ty_name(&r.elem),
        Type::Array(_) => norm_ts(t.to_token_stream()).replace(' ', ""),
        o => norm_ts(o.to_token_stream()),
    }
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && {
        let s = norm_ts(a.meta.to_token_stream());
        s.contains("test") || s.contains("rerecast_verif")
    })
}

/// All items, descending into inline modules that are not cfg(test).
fn all_items<'a>(items: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    continue;
                }
                if let Some((_, c)) = &m.content {
                    all_items(c, out)
                }
            }
            _ => out.push(i),
        }
    }
}

struct Found {
    sig: Signature,
    block: Block,
    line: usize,
}

fn find_fn(repo: &mut Repo, file: &str, path: &str) -> R<Found> {
    let f = repo.get(file)?;
    let mut items = vec![];
    all_items(&f.items, &mut items);
    let mut found = vec![];
    // path: name | Type::name | Type::Trait::name   (Trait: last segment of the trait path, tokens)
    let parts: Vec<&str> = path.split("::").collect();
    for it in items {
        match it {
            Item::Fn(g) if parts.len() == 1 && g.sig.ident == parts[0] && !is_cfg_test(&g.attrs) => {
                found.push(Found { sig: g.sig.clone(), block: (*g.block).clone(), line: g.sig.ident.span().start().line })
            }
            Item::Impl(im) if parts.len() >= 2 => {
                if self_ty_name(&im.self_ty) != parts[0] {
                    continue;
                }
                if parts.len() == 3 {
                    let tr = im.trait_.as_ref().map(|t| norm_ts(t.1.segments.last().to_token_stream()).replace(' ', ""));
                    if tr.as_deref() != Some(parts[1]) {
                        continue;
                    }
                }
                for ii in &im.items {
                    if let ImplItem::Fn(g) = ii {
                        if g.sig.ident == parts[parts.len() - 1] {
                            found.push(Found { sig: g.sig.clone(), block: g.block.clone(), line: g.sig.ident.span().start().line })
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => Err(Lost(format!("function {path} not found in {file}"))),
        n => Err(Lost(format!("function {path} found {n} times in {file}"))),
    }
}

fn emit_item(repo: &mut Repo, words: &[&str]) -> R<String> {
    // FILE kind NAME [derive=A,B] [noconst]
    let (file, kind, name) = (words[0], words[1], words[2]);
    let mut derives = String::new();
    for w in &words[3..] {
        if let Some(d) = w.strip_prefix("derive=") {
            derives = d.to_string();
        }
    }
    let f = repo.get(file)?;
    let mut items = vec![];
    all_items(&f.items, &mut items);
    let parts: Vec<&str> = name.split("::").collect();
    let mut out = None;
    for it in items {
        match (kind, it) {
            ("struct", Item::Struct(s)) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for fl in s.fields.iter_mut() {
                    fl.attrs.clear();
                    fl.vis = parse_quote!(pub);
                }
                out = Some(Item::Struct(s));
            }
            ("enum", Item::Enum(e)) if e.ident == name => {
                let mut e = e.clone();
                e.attrs.retain(|a| a.path().is_ident("repr"));
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                    }
                }
                out = Some(Item::Enum(e));
            }
            ("const", Item::Const(c)) if parts.len() == 1 && c.ident == name => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                out = Some(Item::Const(c));
            }
            ("const", Item::Impl(im)) if parts.len() == 2 && self_ty_name(&im.self_ty) == parts[0] => {
                for ii in &im.items {
                    if let ImplItem::Const(c) = ii {
                        if c.ident == parts[1] {
                            let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                            out = Some(parse_quote!(pub const #i: #t = #e;));
                        }
                    }
                }
            }
            ("const", Item::Fn(g)) if parts.len() == 2 && g.sig.ident == parts[0] => {
                for st in &g.block.stmts {
                    if let Stmt::Item(Item::Const(c)) = st {
                        if c.ident == parts[1] {
                            let mut c = c.clone();
                            c.attrs.clear();
                            c.vis = parse_quote!(pub);
                            out = Some(Item::Const(c));
                        }
                    }
                }
            }
            // constants declared inside bitflags! { impl T: u16 { const A = 1; } }
            ("bitflags", Item::Macro(m)) if m.mac.path.segments.last().map(|s| s.ident == "bitflags").unwrap_or(false) => {
                let toks = m.mac.tokens.clone();
                let s = norm_ts(toks.clone());
                if !(s.contains(&format!("struct {name} :")) || s.contains(&format!("impl {name} :"))) {
                    continue;
                }
                // last brace group holds the constants
                let mut grp = None;
                for t in toks {
                    if let TokenTree::Group(g) = t {
                        if g.delimiter() == proc_macro2::Delimiter::Brace {
                            grp = Some(g.stream());
                        }
                    }
                }
                let Some(g) = grp else { continue };
                let mut text = String::new();
                let body = norm_ts(strip_attrs(g));
                for c in body.split(';') {
                    let c = c.trim();
                    if c.is_empty() {
                        continue;
                    }
                    let Some((l, r)) = c.split_once('=') else { return Err(Lost(format!("bitflags {name}: {c}"))) };
                    let n = l.trim().trim_start_matches("const").trim().to_string();
                    // the generated type's bits() reads its only field
                    text += &format!("pub const {n}: Self = Self {{ bits: {} }};\n", r.trim().replace(". bits ()", ". bits").replace(". bits ( )", ". bits"));
                }
                return Ok(text);
            }
            _ => {}
        }
    }
    let Some(mut i) = out else { return Err(Lost(format!("{kind} {name} not found in {file}"))) };
    struct V;
    impl VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut Path) {
            desugar::shorten_path(p);
            visit_mut::visit_path_mut(self, p);
        }
    }
    V.visit_item_mut(&mut i);
    let s = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![i] });
    Ok(if derives.is_empty() { s } else { format!("#[derive({derives})]\n{s}") })
}

fn strip_attrs(ts: TokenStream) -> TokenStream {
    let mut out = vec![];
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' {
                i += 2;
                continue;
            }
        }
        out.push(v[i].clone());
        i += 1;
    }
    out.into_iter().collect()
}

struct Marker<'a> {
    dir: &'a FnDir,
    nloop: usize,
    used: Vec<usize>,      // per ghost: times matched
    seen: Vec<usize>,      // per ghost: occurrences seen
    loops_seen: usize,
}

fn mk(name: &str, k: usize) -> Stmt {
    let n = format_ident!("{}", name);
    parse_quote!(#n!(#k);)
}

fn is_tail(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(_, None)))
}

impl<'a> Marker<'a> {
    fn ghost_marks(&mut self, kinds: &[&str], arg: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (k, a, _)) in self.dir.ghosts.iter().enumerate() {
            if kinds.contains(&k.as_str()) && a == arg {
                self.used[i] += 1;
                v.push(mk("__vx_ghost", i));
            }
        }
        v
    }
    fn do_loop(&mut self, body: &mut Block, k: usize) {
        let st = self.ghost_marks(&["loopstart"], &k.to_string());
        let en = self.ghost_marks(&["loopend"], &k.to_string());
        let mut stmts = vec![mk("__vx_loop", k)];
        stmts.extend(st);
        let mut old = std::mem::take(&mut body.stmts);
        // a trailing unit expression of a loop body becomes a statement so that ghost code can follow
        if !en.is_empty() {
            if let Some(Stmt::Expr(_, semi @ None)) = old.last_mut() {
                *semi = Some(Default::default());
            }
        }
        stmts.extend(old);
        stmts.extend(en);
        body.stmts = stmts;
    }
}

fn loop_of(st: &Stmt) -> bool {
    matches!(st, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _))
}

impl VisitMut for Marker<'_> {
    fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) {
        let k = self.nloop;
        self.nloop += 1;
        visit_mut::visit_expr_while_mut(self, e);
        self.do_loop(&mut e.body, k);
    }
    fn visit_expr_loop_mut(&mut self, e: &mut ExprLoop) {
        let k = self.nloop;
        self.nloop += 1;
        visit_mut::visit_expr_loop_mut(self, e);
        self.do_loop(&mut e.body, k);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // statement anchors are matched on the text before markers are inserted inside
        let texts: Vec<String> = b.stmts.iter().map(|s| norm_ts(s.to_token_stream())).collect();
        let mut pre: Vec<Vec<Stmt>> = vec![vec![]; b.stmts.len()];
        let mut post: Vec<Vec<Stmt>> = vec![vec![]; b.stmts.len()];
        let mut new = vec![];
        for (i, t) in texts.iter().enumerate() {
            for (gi, (kind, arg, _)) in self.dir.ghosts.iter().enumerate() {
                if kind != "before" && kind != "after" {
                    continue;
                }
                let (pat, occ) = match arg.rsplit_once(" ##") {
                    Some((p, o)) => (p, o.trim().parse::<usize>().unwrap_or(0)),
                    None => (arg.as_str(), 0),
                };
                if t.starts_with(pat) {
                    let n = self.seen[gi];
                    self.seen[gi] += 1;
                    if n == occ {
                        self.used[gi] += 1;
                        if kind == "before" {
                            pre[i].push(mk("__vx_ghost", gi));
                        } else {
                            post[i].push(mk("__vx_ghost", gi));
                        }
                    }
                }
            }
        }
        let old = std::mem::take(&mut b.stmts);
        for (i, mut s) in old.into_iter().enumerate() {
            let k = self.nloop;
            let isl = loop_of(&s);
            self.visit_stmt_mut(&mut s);
            new.extend(std::mem::take(&mut pre[i]));
            if isl {
                let v = self.ghost_marks(&["loopbefore"], &k.to_string());
                new.extend(v);
            }
            if !post[i].is_empty() {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
            }
            new.push(s);
            if isl {
                let v = self.ghost_marks(&["loopafter"], &k.to_string());
                new.extend(v);
            }
            new.extend(std::mem::take(&mut post[i]));
        }
        b.stmts = new;
    }
}

struct Subst {
    pairs: Vec<(String, String, usize)>,
}
impl Subst {
    fn apply(&mut self, src: &str) -> String {
        let mut s = format!(" {src} ");
        for (a, b, n) in self.pairs.iter_mut() {
            let pa = format!(" {a} ");
            *n += s.matches(&pa).count();
            s = s.replace(&pa, &format!(" {b} "));
        }
        s
    }
}

fn emit_fn(repo: &mut Repo, d: &FnDir, report: &mut Vec<serde_json::Value>) -> R<String> {
    let mut f = find_fn(repo, &d.file, &d.path)?;
    let src_text = norm_ts(f.block.to_token_stream());
    let mut notes: Vec<String> = vec![];
    // textual (token level) substitutions declared by the template
    if !d.substs.is_empty() {
        let mut pairs = vec![];
        for (a, b) in &d.substs {
            pairs.push((norm(a)?, b.clone(), 0));
        }
        let mut su = Subst { pairs };
        let t = su.apply(&src_text);
        for ((a, b, n), _) in su.pairs.iter().zip(&d.substs) {
            if *n > 0 {
                notes.push(format!("rewrite x{n}: `{a}` => `{b}`"));
            }
        }
        f.block = syn::parse_str::<Block>(&t).map_err(|e| Lost(format!("{}: substitution result does not parse: {e}", d.path)))?;
    }
    // signature
    let mut sig = f.sig.clone();
    sig.constness = None;
    if !d.sigsubsts.is_empty() {
        let mut pairs = vec![];
        for (a, b) in &d.sigsubsts {
            pairs.push((norm(a)?, b.clone(), 0));
        }
        let mut su = Subst { pairs };
        let t = su.apply(&norm_ts(sig.to_token_stream()));
        for ((a, b, n), _) in su.pairs.iter().zip(&d.sigsubsts) {
            if *n > 0 {
                notes.push(format!("signature rewrite x{n}: `{a}` => `{b}`"));
            }
        }
        sig = syn::parse_str::<Signature>(&t).map_err(|e| Lost(format!("{}: signature substitution does not parse: {e}", d.path)))?;
    }
    let mut dz = desugar::Desugar::new(&d.flags);
    dz.sig(&mut sig);
    // destructuring parameters: bind them by a first statement
    for (k, i) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = i
            && matches!(&*t.pat, Pat::Tuple(_) | Pat::Struct(_) | Pat::TupleStruct(_))
        {
            let arg = quote::format_ident!("arg_{k}");
            let p = std::mem::replace(&mut t.pat, Box::new(parse_quote!(#arg)));
            f.block.stmts.insert(0, parse_quote!(let #p = #arg;));
            notes.push("destructuring parameter -> let".into());
        }
    }
    if d.flags.iter().any(|f| f == "inline") {
        let n = desugar::inline_closures(&mut f.block).map_err(|e| Lost(format!("{}: {e}", d.path)))?;
        if n > 0 {
            notes.push(format!("call of a local closure -> its body x{n}"));
        }
    }
    dz.visit_block_mut(&mut f.block);
    if let Some(e) = dz.lost {
        return Err(Lost(format!("{}: {e}", d.path)));
    }
    for (k, v) in &dz.notes {
        notes.push(format!("{k} x{v}"));
    }
    let mut m = Marker { dir: d, nloop: 0, used: vec![0; d.ghosts.len()], seen: vec![0; d.ghosts.len()], loops_seen: 0 };
    m.visit_block_mut(&mut f.block);
    m.loops_seen = m.nloop;
    let mut stmts = vec![mk("__vx_spec", 0)];
    stmts.extend(m.ghost_marks(&["bodystart"], ""));
    let en = m.ghost_marks(&["bodyend"], "");
    let mut tail = is_tail(&f.block);
    let mut old = std::mem::take(&mut f.block.stmts);
    if tail && matches!(sig.output, syn::ReturnType::Default) {
        if let Some(syn::Stmt::Expr(e, None)) = old.pop() {
            old.push(syn::Stmt::Expr(e, Some(Default::default())));
        }
        tail = false;
    }
    if tail && !en.is_empty() {
        let t = old.pop().unwrap();
        stmts.extend(old);
        stmts.extend(en);
        stmts.push(t);
    } else {
        stmts.extend(old);
        stmts.extend(en);
    }
    f.block.stmts = stmts;
    for (i, u) in m.used.iter().enumerate() {
        let (k, a, _) = &d.ghosts[i];
        if *u != 1 {
            return Err(Lost(format!("{}: anchor `{k} {a}` matched {u} times", d.path)));
        }
    }
    if let Some(n) = d.nloops {
        if n != m.nloop {
            return Err(Lost(format!("{}: expected {n} loops, found {}", d.path, m.nloop)));
        }
    }
    for k in d.loops.keys() {
        if *k >= m.nloop {
            return Err(Lost(format!("{}: loop {k} not found ({} loops)", d.path, m.nloop)));
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(fmt_type(t)),
    };
    if ret.is_some() {
        sig.output = parse_quote!(-> __VXRET);
    }
    if let Some(n) = &d.rename {
        sig.ident = format_ident!("{}", n);
    }
    let name = sig.ident.to_string();
    let has_self = sig.receiver().is_some();
    let blk = &f.block;
    let text = if has_self {
        let im: Item = parse_quote!(impl __X { pub #sig #blk });
        let s = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![im] });
        let a = s.find('{').unwrap() + 1;
        let b = s.rfind('}').unwrap();
        s[a..b].to_string()
    } else {
        let it: Item = parse_quote!(pub #sig #blk);
        prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![it] })
    };
    let mut text = text;
    if d.flags.iter().any(|f| f == "traitfn") {
        text = text.replacen("pub fn", "fn", 1);
    }
    let spec = d.spec.trim_end();
    let rname = d.ret.clone().unwrap_or("r".into());
    let pos = text.find("__vx_spec!(0usize);").ok_or(Lost(format!("{}: spec marker", d.path)))?;
    let open = text[..pos].rfind('{').unwrap();
    let head = text[..open].trim_end().to_string();
    let head = match &ret {
        Some(t) => {
            let h = head.strip_suffix("__VXRET").ok_or(Lost(format!("{}: ret marker", d.path)))?;
            format!("{h}({rname}: {t})")
        }
        None => head,
    };
    let probing = std::env::var("VX_PROBE").is_ok();
    let probe = |what: String, report: &mut Vec<serde_json::Value>| -> String {
        if !probing {
            return String::new();
        }
        let k = report.iter().filter(|j| j.get("probe").is_some()).count();
        report.push(serde_json::json!({"probe": k, "at": what}));
        format!("\n    proof {{ assert(!vx_probe({k})); }}")
    };
    let pr = probe(format!("{} entry", d.path), report);
    let mut rest = text[pos + "__vx_spec!(0usize);".len()..].to_string();
    // `hide(..)` has to come first in a body
    let first = d.ghosts.iter().position(|(_, _, g)| g.trim_start().starts_with("hide("));
    match first.map(|i| format!("__vx_ghost!({i}usize);")).filter(|m| rest.trim_start().starts_with(m.as_str())) {
        Some(m) => rest = rest.replacen(&m, &format!("{m}{pr}"), 1),
        None => rest = format!("{pr}{rest}"),
    }
    text = format!("{}\n{}\n{{{}", head, spec, rest);
    for k in 0..m.nloop {
        let pat = format!("__vx_loop!({k}usize);");
        let Some(p) = text.find(&pat) else { return Err(Lost(format!("{}: loop marker {k}", d.path))) };
        let open = text[..p].rfind('{').unwrap();
        let inv = d.loops.get(&k).cloned().unwrap_or_default();
        let pr = probe(format!("{} loop {k}", d.path), report);
        text = format!("{}\n{}\n{{{}{}", text[..open].trim_end(), inv.trim_end(), pr, &text[p + pat.len()..]);
    }
    for (i, (_, _, g)) in d.ghosts.iter().enumerate() {
        let pat = format!("__vx_ghost!({i}usize);");
        text = text.replace(&pat, g.trim_end());
    }
    let attrs = d.attrs.join("\n");
    report.push(serde_json::json!({
        "function": d.path, "name": name, "file": d.file, "line": f.line, "loops": m.nloop,
        "rewrites": notes, "source_tokens": src_text.split(' ').count(),
    }));
    Ok(format!("// VXFN-BEGIN {}\n{attrs}\n{}\n// VXFN-END {}\n", d.path, text.trim(), d.path))
}

fn fmt_type(t: &Type) -> String {
    let it: Item = parse_quote!(type X = #t;);
    let s = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![it] });
    s.trim().trim_start_matches("type X =").trim().trim_end_matches(';').trim().to_string()
}

fn run(tpl: &str, repo: &mut Repo, report: &mut Vec<serde_json::Value>, lost: &mut Vec<String>) -> R<String> {
    let text = std::fs::read_to_string(tpl).map_err(|e| Lost(format!("{tpl}: {e}")))?;
    let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let mut out = String::new();
    let mut cur: Option<FnDir> = None;
    // section: where the following plain lines go
    #[derive(Clone)]
    enum Sec {
        None,
        Spec,
        Loop(usize),
        Ghost(usize),
    }
    let mut sec = Sec::None;
    for (ln, line) in text.lines().enumerate() {
        let tl = line.trim_start();
        if let Some(rest) = tl.strip_prefix("//@") {
            let rest = rest.trim();
            let (cmd, arg) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
            let arg = arg.trim();
            let bad = || Lost(format!("{tpl}:{}: bad directive {rest}", ln + 1));
            if let Some(d) = cur.as_mut() {
                match cmd {
                    "ret" => d.ret = Some(arg.into()),
                    "spec" => sec = Sec::Spec,
                    "attr" => d.attrs.push(arg.into()),
                    "rename" => d.rename = Some(arg.into()),
                    "nloops" => d.nloops = Some(arg.parse().map_err(|_| bad())?),
                    "sigsubst" => {
                        let (a, b) = arg.split_once("=>").ok_or_else(bad)?;
                        d.sigsubsts.push((a.trim().into(), b.trim().into()));
                    }
                    "subst" => {
                        let (a, b) = arg.split_once("=>").ok_or_else(bad)?;
                        // `==>` inside patterns is not used
                        d.substs.push((a.trim().into(), b.trim().into()));
                    }
                    "loop" => {
                        let k: usize = arg.parse().map_err(|_| bad())?;
                        d.loops.entry(k).or_default();
                        sec = Sec::Loop(k)
                    }
                    "before" | "after" => {
                        let (p, occ) = match arg.rsplit_once(" ##") {
                            Some((p, o)) => (p, Some(o)),
                            None => (arg, None),
                        };
                        let mut a = norm(p)?;
                        if let Some(o) = occ {
                            a = format!("{a} ##{o}");
                        }
                        d.ghosts.push((cmd.into(), a, String::new()));
                        sec = Sec::Ghost(d.ghosts.len() - 1)
                    }
                    "loopstart" | "loopend" | "loopbefore" | "loopafter" | "bodystart" | "bodyend" => {
                        d.ghosts.push((cmd.into(), arg.into(), String::new()));
                        sec = Sec::Ghost(d.ghosts.len() - 1)
                    }
                    "endfn" => {
                        let d = cur.take().unwrap();
                        sec = Sec::None;
                        match emit_fn(repo, &d, report) {
                            Ok(s) => out += &s,
                            Err(e) => lost.push(e.0),
                        }
                    }
                    _ => return Err(bad()),
                }
                continue;
            }
            match cmd {
                "item" => {
                    let w: Vec<&str> = arg.split_whitespace().collect();
                    match emit_item(repo, &w) {
                        Ok(s) => out += &s,
                        Err(e) => lost.push(e.0),
                    }
                }
                "fn" => {
                    let w: Vec<&str> = arg.split_whitespace().collect();
                    cur = Some(FnDir {
                        file: w[0].into(),
                        path: w[1].into(),
                        flags: w[2..].iter().map(|s| s.to_string()).collect(),
                        ..Default::default()
                    });
                    sec = Sec::None;
                }
                "include" => {
                    let p = dir.join(arg);
                    out += &run(p.to_str().unwrap(), repo, report, lost)?;
                }
                _ => return Err(bad()),
            }
            continue;
        }
        match cur.as_mut() {
            None => {
                out += line;
                out.push('\n')
            }
            Some(d) => {
                let l = format!("{line}\n");
                match sec {
                    Sec::Spec => d.spec += &l,
                    Sec::Loop(k) => d.loops.get_mut(&k).unwrap().push_str(&l),
                    Sec::Ghost(k) => d.ghosts[k].2 += &l,
                    Sec::None => {}
                }
            }
        }
    }
    let _ = quote!();
    Ok(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut repo = Repo { root: a[2].clone(), cache: HashMap::new() };
    let mut report = vec![];
    let mut lost = vec![];
    let r = run(&a[1], &mut repo, &mut report, &mut lost);
    let (text, code) = match r {
        Ok(t) if std::env::var("VX_PROBE").is_ok() && lost.is_empty() => {
            (t.replacen("verus! {", "verus! {\npub uninterp spec fn vx_probe(k: int) -> bool;", 1), 0)
        }
        Ok(t) if lost.is_empty() => (t, 0),
        Ok(t) => (t, 3),
        Err(e) => {
            lost.push(e.0);
            (String::new(), 3)
        }
    };
    std::fs::write(&a[3], text).unwrap();
    let (probes, functions): (Vec<_>, Vec<_>) = report.into_iter().partition(|j| j.get("probe").is_some());
    let j = serde_json::json!({"functions": functions, "probes": probes, "lost": lost});
    std::fs::write(&a[4], serde_json::to_string_pretty(&j).unwrap()).unwrap();
    std::process::exit(code);
}
