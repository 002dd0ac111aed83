//! Mechanical extraction of the functions under contract from /repo's current source into a Verus file.
//! usage: extract --src DIR --out FILE --meta FILE [--stub KEY=REASON]... [--verify F.vc]... [--assume F.vc]...
//! See DESIGN.md ("What the extraction changes") for the complete list of edits.
mod sym;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default, Debug, Clone)]
struct LoopAnn { kind: Option<String>, var: Option<String>, clauses: String }

#[derive(Default, Debug, Clone)]
struct FnAnn {
    file: String, key: String, props: Vec<String>, subst: Vec<(String, String)>, ret: String, name: Option<String>,
    attrs: String, pre: String, requires: String, ensures: String, inherent: bool, opens: String,
    loops: BTreeMap<String, LoopAnn>, every: Vec<String>, at: Vec<(String, String)>, binders: Option<Vec<String>>, assume: bool, nobody: bool,
    bounded: bool,
}
#[derive(Debug, Clone)]
enum Item { Verbatim(String), Struct(String, String), Fn(FnAnn), Macros(String), Lit(Vec<usize>, Vec<String>, String), LitAll(Vec<String>, String, String) }

fn parse_vc(path: &str, assume: bool, items: &mut Vec<Item>) {
    let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let mut file = String::new();
    let mut cur: Option<FnAnn> = None;
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        if !line.starts_with('@') { 
            if !line.trim().is_empty() && !line.trim_start().starts_with("//") { panic!("{}: stray line: {}", path, line) }
            continue
        }
        let (dir, arg) = match line[1..].find(char::is_whitespace) { Some(p) => (&line[1..1 + p], line[1 + p..].trim()), None => (&line[1..], "") };
        let mut body = String::new();
        if dir == "verbatim" {
            while let Some(l) = lines.next() { if l.trim_end() == "@endverbatim" { break } body.push_str(l); body.push('\n'); }
        } else {
            while let Some(l) = lines.peek() { if l.starts_with('@') { break } body.push_str(l); body.push('\n'); lines.next(); }
        }
        let full = || -> String { let mut s = String::from(arg); s.push('\n'); s.push_str(&body); s };
        match dir {
            "file" => { if let Some(f) = cur.take() { items.push(Item::Fn(f)) } file = arg.to_string() }
            "verbatim" => { if let Some(f) = cur.take() { items.push(Item::Fn(f)) } items.push(Item::Verbatim(body)) }
            "macros" => { if let Some(f) = cur.take() { items.push(Item::Fn(f)) } items.push(Item::Macros(arg.to_string())); file = arg.to_string() }
            "lit" => { if let Some(f) = cur.take() { items.push(Item::Fn(f)) } let (rows, props) = arg.split_once(' ').unwrap(); items.push(Item::Lit(rows.split(',').map(|x| x.parse().unwrap()).collect(), props.split(',').map(|x| x.trim().to_string()).collect(), file.clone())) }
            "litall" => { if let Some(f) = cur.take() { items.push(Item::Fn(f)) } items.push(Item::LitAll(arg.split(',').map(|x| x.trim().to_string()).collect(), file.clone(), body)) }
            "struct" => { if let Some(f) = cur.take() { items.push(Item::Fn(f)) } items.push(Item::Struct(file.clone(), arg.to_string())) }
            "fn" => {
                if let Some(f) = cur.take() { items.push(Item::Fn(f)) }
                cur = Some(FnAnn { file: file.clone(), key: norm(arg), ret: "r".into(), subst: vec![("T".into(), "E".into())], assume, ..Default::default() })
            }
            "end" => { if let Some(f) = cur.take() { items.push(Item::Fn(f)) } }
            _ => {
                let f = cur.as_mut().unwrap_or_else(|| panic!("{}: @{} outside @fn", path, dir));
                match dir {
                    "props" => f.props = arg.split(|c: char| c == ',' || c == ' ').filter(|s| !s.is_empty()).map(String::from).collect(),
                    "subst" => f.subst = arg.split(',').filter(|s| !s.is_empty()).map(|s| { let mut p = s.split('='); (p.next().unwrap().trim().to_string(), p.next().unwrap().trim().to_string()) }).collect(),
                    "ret" => f.ret = arg.to_string(),
                    "name" => f.name = Some(arg.to_string()),
                    "attr" => { f.attrs.push_str(arg); f.attrs.push('\n') }
                    "inherent" => f.inherent = true,
                    "bounded" => f.bounded = true,
                    "nobody" => f.nobody = true,
                    "assume" => f.assume = true,
                    "pre" => f.pre = full().trim().to_string(),
                    "requires" => { let t = full(); f.requires.push_str(&t) }
                    "ensures" => { let t = full(); f.ensures.push_str(&t) }
                    "opens" => { f.opens = full() }
                    "loop" => {
                        let w: Vec<&str> = arg.split_whitespace().collect();
                        let e = f.loops.entry(w[0].to_string()).or_default();
                        if w.len() > 1 { e.kind = Some(w[1].to_string()) }
                        if w.len() > 2 { e.var = Some(w[2].to_string()) }
                        e.clauses.push_str(&body);
                    }
                    // one clause per line: an invariant of every loop at whose head all the locals it names are in scope
                    "loops" => f.every.extend(body.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with("//"))),
                    "at" => f.at.push((arg.to_string(), body.clone())),
                    _ => panic!("{}: unknown directive @{}", path, dir),
                }
            }
        }
    }
    if let Some(f) = cur.take() { items.push(Item::Fn(f)) }
}

/// whitespace and lifetimes removed
fn norm(s: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' { i += 1; while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1 } continue }
        if !cs[i].is_whitespace() { out.push(cs[i]) }
        i += 1;
    }
    out.replace("<,", "<").replace(",>", ">")
}

struct Src { text: String, file: syn::File }

fn range<T: Spanned>(t: &T) -> (usize, usize) { let r = t.span().byte_range(); (r.start, r.end) }

#[derive(Default)]
struct Edits { v: Vec<(usize, usize, i32, String)> }
impl Edits {
    fn rep(&mut self, r: (usize, usize), s: &str) { self.v.push((r.0, r.1, 0, s.to_string())) }
    fn ins(&mut self, p: usize, prio: i32, s: &str) { self.v.push((p, p, prio, s.to_string())) }
    fn apply(&self, text: &str, start: usize, end: usize) -> String {
        let mut v: Vec<&(usize, usize, i32, String)> = self.v.iter().filter(|e| e.0 >= start && e.1 <= end).collect();
        v.sort_by_key(|e| (e.0, e.1, e.2));
        let mut out = String::new();
        let mut p = start;
        for e in v {
            if e.0 < p { if e.1 <= p { continue } panic!("overlapping edits at {} {:?}", e.0, e.3) }
            out.push_str(&text[p..e.0]); out.push_str(&e.3); p = e.1;
        }
        out.push_str(&text[p..end]);
        out
    }
}

struct Found<'a> { sig: &'a syn::Signature, block: &'a syn::Block, imp: Option<&'a syn::ItemImpl> }

fn find_fn<'a>(src: &'a Src, key: &str) -> Vec<Found<'a>> {
    let mut out = vec![];
    for it in &src.file.items {
        match it {
            syn::Item::Fn(f) => if f.sig.ident == key && !is_test(&f.attrs) { out.push(Found { sig: &f.sig, block: &f.block, imp: None }) },
            syn::Item::Impl(im) => {
                let (a, b) = range(&*im.self_ty);
                let selfty = norm(&src.text[a..b]);
                let prefix = match &im.trait_ {
                    Some((_, p, _)) => { let (c, d) = range(p); format!("{}for{}", norm(&src.text[c..d]), selfty) }
                    None => selfty.split('<').next().unwrap().to_string(),
                };
                for m in &im.items {
                    if let syn::ImplItem::Fn(f) = m {
                        if format!("{}::{}", prefix, f.sig.ident) == key { out.push(Found { sig: &f.sig, block: &f.block, imp: Some(im) }) }
                    }
                }
            }
            _ => {}
        }
    }
    out
}
fn is_test(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("test")) }

#[derive(Default)]
struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }

#[derive(Default)]
struct Shape { toks: Vec<String> }

struct Walk<'s> {
    text: &'s str,
    ed: Edits,
    subst: Vec<(String, String)>,
    loops: Vec<(String, String, LoopPos)>, // path, kind
    stack: Vec<usize>, // per nesting: next index
    path: Vec<usize>,
    ifs: usize,
    if_pos: Vec<((usize, usize), Option<(usize, usize)>, usize, usize)>,
    if_tail: Vec<usize>,
    else_tail: Vec<Option<usize>>,
    calls: HashMap<String, Vec<(usize, usize)>>,
    lets: HashMap<String, Vec<usize>>,
    scopes: Vec<(String, usize, usize)>, // local, from, to
    blocks: Vec<usize>,
    rets: Vec<usize>,
    callees: BTreeSet<String>,
    asserts: usize,
    lost: Vec<String>,
    closure_depth: usize,
}
#[derive(Clone, Debug)]
struct LoopPos { rev: Option<(String, String)>, expr1: usize, lo: Option<String>, expr0: usize, start: usize, end: usize, body: (usize, usize), pat: Option<(usize, usize)>, wild: bool, tail_semi: Option<usize> }

fn block_tail_semi(b: &syn::Block) -> Option<usize> {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => match e {
            syn::Expr::If(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Match(_) | syn::Expr::Block(_) => None,
            _ => Some(range(e).1),
        },
        _ => None,
    }
}

impl<'s> Walk<'s> {
    fn src<T: Spanned>(&self, t: &T) -> &'s str { let (a, b) = range(t); &self.text[a..b] }
    fn enter_loop(&mut self, kind: &str, pos: LoopPos) {
        let i = self.stack.last_mut().unwrap();
        let idx = *i; *i += 1;
        self.path.push(idx);
        self.stack.push(0);
        let p = self.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
        self.loops.push((p, kind.to_string(), pos));
    }
    /// Verus' for-loops have no `continue`: `if C { continue; } REST` becomes `if C { } else { REST }`
    fn desugar_continue(&mut self, b: &syn::Block) {
        for st in &b.stmts {
            if let syn::Stmt::Expr(syn::Expr::If(i), _) = st {
                if i.else_branch.is_none() && i.then_branch.stmts.len() == 1 {
                    let c = match &i.then_branch.stmts[0] { syn::Stmt::Expr(syn::Expr::Continue(c), _) => c.label.is_none(), _ => false };
                    if c { self.ed.rep(range(&i.then_branch.stmts[0]), ""); self.ed.ins(range(&i.then_branch).1, -3, " else {"); self.ed.ins(range(b).1 - 1, 7, "}"); continue }
                }
                // if A { B; if C { continue; } D } REST   becomes   let mut go = true; if A { B; if C { go = false; } else { D } } if go { REST }
                if i.else_branch.is_none() {
                    for s2 in &i.then_branch.stmts {
                        if let syn::Stmt::Expr(syn::Expr::If(i2), _) = s2 {
                            let c = i2.else_branch.is_none() && i2.then_branch.stmts.len() == 1 && match &i2.then_branch.stmts[0] { syn::Stmt::Expr(syn::Expr::Continue(c), _) => c.label.is_none(), _ => false };
                            if c {
                                let g = format!("go_{}", self.loops.len());
                                self.ed.ins(range(i).0, -5, &format!("let mut {} = true; ", g));
                                self.ed.rep(range(&i2.then_branch.stmts[0]), &format!("{} = false;", g));
                                self.ed.ins(range(&i2.then_branch).1, -3, " else {");
                                self.ed.ins(range(&i.then_branch).1 - 1, 7, "}");
                                self.ed.ins(range(i).1, 9, &format!(" if {} {{", g));
                                self.ed.ins(range(b).1 - 1, 7, "}");
                                break
                            }
                        }
                    }
                }
            }
        }
    }
    fn exit_loop(&mut self) { self.stack.pop(); self.path.pop(); }
    fn lit_rational(s: &str) -> Option<(String, String)> {
        let t: String = s.chars().filter(|c| *c != '_' && !c.is_whitespace()).collect();
        let (neg, t) = match t.strip_prefix('-') { Some(r) => (true, r.to_string()), None => (false, t) };
        let t = t.trim_end_matches("f64").trim_end_matches("f32").trim_end_matches("usize").trim_end_matches("i32").to_string();
        let (mant, exp) = match t.find(|c| c == 'e' || c == 'E') { Some(p) => (t[..p].to_string(), t[p + 1..].parse::<i32>().ok()?), None => (t.clone(), 0) };
        let (ip, fp) = match mant.find('.') { Some(p) => (mant[..p].to_string(), mant[p + 1..].to_string()), None => (mant.clone(), String::new()) };
        if !(ip.clone() + &fp).chars().all(|c| c.is_ascii_digit()) || ip.is_empty() { return None }
        let mut num = ip + fp.trim_end_matches('0');
        let mut den_exp = fp.trim_end_matches('0').len() as i32 - exp;
        if den_exp < 0 { for _ in 0..-den_exp { num.push('0') } den_exp = 0 }
        let num = num.trim_start_matches('0').to_string();
        let num = if num.is_empty() { "0".to_string() } else { num };
        let mut den = String::from("1");
        for _ in 0..den_exp { den.push('0') }
        Some((if neg { format!("-{}", num) } else { num }, den))
    }
}

impl<'a, 's> Visit<'a> for Walk<'s> {
    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.segments.len() == 1 {
            let id = p.segments[0].ident.to_string();
            if let Some((_, t)) = self.subst.iter().find(|(f, _)| *f == id) { self.ed.rep(range(&p.segments[0].ident), &t.clone()); }
        } else {
            let first = p.segments[0].ident.to_string();
            let whole: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if let Some((_, t)) = self.subst.iter().find(|(f, _)| *f == first) { self.ed.rep(range(&p.segments[0].ident), &t.clone()); }
            if first == "lu" || first == "qr" || first == "internalutil" || first == "vec" || first == "matrix" || first == "decomp" {
                // drop module qualifiers (everything is emitted in one crate root)
                let mut k = 0;
                while k + 1 < p.segments.len() && p.segments[k].ident.to_string().chars().next().unwrap().is_lowercase() { k += 1 }
                let a = range(&p.segments[0]).0; let b = range(&p.segments[k]).0;
                self.ed.rep((a, b), "");
            }
            if first == "num" || (first == "rand" && whole.last().unwrap() == "random") {
                if let syn::PathArguments::AngleBracketed(ab) = &p.segments.last().unwrap().arguments { let r = range(ab); self.ed.rep(r, ""); return; }
            }
            if whole == ["Zero", "zero"] { self.ed.rep(range(p), "num::zero"); return; }
            if whole == ["One", "one"] { self.ed.rep(range(p), "num::one"); return; }
        }
        visit::visit_path(self, p)
    }
    fn visit_block(&mut self, b: &'a syn::Block) { self.blocks.push(range(b).1); visit::visit_block(self, b); self.blocks.pop(); }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Expr(syn::Expr::Call(c), Some(_)) = s {
            if let syn::Expr::Path(p) = &*c.func { self.calls.entry(p.path.segments.last().unwrap().ident.to_string()).or_default().push(range(s)) }
        }
        visit::visit_stmt(self, s)
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        let end = range(l).1;
        let mut b = Binders::default(); b.visit_pat(&l.pat);
        for n in b.0 { self.scopes.push((n.clone(), end, *self.blocks.last().unwrap_or(&usize::MAX))); self.lets.entry(n).or_default().push(end) }
        visit::visit_local(self, l)
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.visit_pat(&e.pat); self.visit_expr(&e.expr);
        let wild = matches!(&*e.pat, syn::Pat::Wild(_));
        let lo = match &*e.expr { syn::Expr::Range(r) => r.start.as_ref().map(|x| self.src(&**x).to_string()), _ => None };
        // for k in (LO..HI).rev() BODY   becomes   { let lo = LO; let hi = HI; for r in lo..hi { let k = hi - 1 - (r - lo); BODY } }
        let mut rev = None;
        if let syn::Expr::MethodCall(mc) = &*e.expr { if mc.method == "rev" && mc.args.is_empty() {
            let mut inner = &*mc.receiver;
            while let syn::Expr::Paren(p) = inner { inner = &p.expr }
            if let syn::Expr::Range(r) = inner { if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                rev = Some((self.src(&**a).to_string(), self.src(&**b).to_string()));
            } }
        } }
        self.enter_loop("for", LoopPos { rev, expr1: range(&*e.expr).1, lo, expr0: range(&*e.expr).0, start: range(e).0, end: range(e).1, body: range(&e.body), pat: Some(range(&*e.pat)), wild, tail_semi: block_tail_semi(&e.body) });
        self.desugar_continue(&e.body);
        let mut b = Binders::default(); b.visit_pat(&e.pat);
        for n in b.0 { self.scopes.push((n, range(&e.body).0 + 1, range(&e.body).1)) }
        self.visit_block(&e.body);
        self.exit_loop();
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.visit_expr(&e.cond);
        self.enter_loop("while", LoopPos { rev: None, expr1: 0, lo: None, expr0: 0, start: range(e).0, end: range(e).1, body: range(&e.body), pat: None, wild: false, tail_semi: block_tail_semi(&e.body) });
        self.visit_block(&e.body);
        self.exit_loop();
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.enter_loop("loop", LoopPos { rev: None, expr1: 0, lo: None, expr0: 0, start: range(e).0, end: range(e).1, body: range(&e.body), pat: None, wild: false, tail_semi: block_tail_semi(&e.body) });
        self.visit_block(&e.body);
        self.exit_loop();
    }
    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        self.ifs += 1;
        let els = match &e.else_branch { Some((_, b)) => match &**b { syn::Expr::Block(b) => Some(range(&b.block)), _ => None }, None => None };
        self.if_pos.push((range(&e.then_branch), els, range(e).0, range(e).1));
        self.else_tail.push(match &e.else_branch { Some((_, b)) => match &**b { syn::Expr::Block(b) => match b.block.stmts.last() { Some(syn::Stmt::Expr(x, None)) => Some(range(x).0), _ => Some(range(&b.block).1 - 1) }, _ => None }, None => None });
        self.if_tail.push(match e.then_branch.stmts.last() { Some(syn::Stmt::Expr(x, None)) => range(x).0, _ => range(&e.then_branch).1 - 1 });
        visit::visit_expr_if(self, e)
    }
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) { self.rets.push(range(e).0); visit::visit_expr_return(self, e) }
    fn visit_expr_lit(&mut self, e: &'a syn::ExprLit) {
        if let syn::Lit::Float(_) = &e.lit {
            let txt = self.src(e).to_string();
            match Self::lit_rational(&txt) { Some((n, d)) => self.ed.rep(range(e), &format!("e_lit(Ghost(({}real / {}real)))", n, d)), None => self.lost.push(format!("float literal {}", txt)) }
        }
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.closure_depth += 1; visit::visit_expr_closure(self, e); self.closure_depth -= 1; }
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
        // f::<T>(..): the extracted f is no longer generic
        if let syn::Expr::Path(p) = &*e.func { if p.path.segments.len() == 1 && p.path.segments[0].ident == "hypot" {
            if let syn::PathArguments::AngleBracketed(ab) = &p.path.segments[0].arguments { self.ed.rep(range(ab), "") }
        } }
        if let syn::Expr::Path(p) = &*e.func { self.callees.insert(p.path.segments.last().unwrap().ident.to_string()); }
        visit::visit_expr_call(self, e)
    }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        let m = e.method.to_string();
        if m == "unwrap" || m == "expect" {
            // num::cast(X).unwrap()
            if let syn::Expr::Call(c) = &*e.receiver {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.last().unwrap() == "cast" && segs.len() == 2 && c.args.len() == 1 {
                        let a = &c.args[0];
                        let txt: String = self.src(a).chars().filter(|c| !c.is_whitespace()).collect();
                        if let Some((n, d)) = Self::lit_rational(&txt) {
                            let q = match n.strip_prefix('-') { Some(m) => format!("(0real - {}real / {}real)", m, d), None => format!("({}real / {}real)", n, d) };
                            self.ed.rep(range(e), &format!("e_lit(Ghost({}))", q));
                            return;
                        }
                        if let Some(rest) = txt.strip_prefix("2.0f64.powf(") { if let Some(ex) = rest.strip_suffix(")") {
                            let ex = ex.trim_end_matches(".0");
                            if let Ok(k) = ex.parse::<i64>() { self.ed.rep(range(e), &format!("e_pow2(Ghost({}))", k)); return; }
                        } }
                        let (ra, rb) = range(e); let (aa, ab) = range(a);
                        self.ed.rep((ra, aa), "e_cast("); self.ed.rep((ab, rb), ")");
                        self.visit_expr(a);
                        return;
                    }
                }
            }
            let (ra, rb) = range(e); let (ca, cb) = range(&*e.receiver);
            self.ed.ins(ra, -5, "rt_unwrap(");
            let _ = ca;
            self.ed.rep((cb, rb), ")");
            self.visit_expr(&e.receiver);
            return;
        }
        if let Some((_, t)) = self.subst.iter().find(|(f, _)| *f == m) { self.ed.rep(range(&e.method), &t.clone()); }
        self.callees.insert(m);
        visit::visit_expr_method_call(self, e)
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let whole = (range(&m.path).0, m.delimiter.span().close().byte_range().end);
        type P = syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>;
        match name.as_str() {
            "assert" => {
                match m.parse_body_with(P::parse_terminated) {
                    Ok(args) if args.len() >= 1 => {
                        let (a, b) = range(&args[0]);
                        self.ed.rep((whole.0, a), "rt_assert("); self.ed.rep((b, whole.1), ")");
                        self.asserts += 1;
                        // leak: the parsed expression must outlive the visit
                        let bx: &'static P = Box::leak(Box::new(args));
                        let mut w = Walk { text: self.text, ed: Edits::default(), subst: self.subst.clone(), loops: vec![], stack: vec![0], path: vec![], ifs: 0, if_pos: vec![], if_tail: vec![], else_tail: vec![], calls: HashMap::new(), lets: HashMap::new(), scopes: vec![], blocks: vec![], rets: vec![], callees: BTreeSet::new(), asserts: 0, lost: vec![], closure_depth: 0 };
                        w.visit_expr(&bx[0]);
                        self.ed.v.extend(w.ed.v); self.callees.extend(w.callees); self.lost.extend(w.lost);
                    }
                    _ => self.lost.push(format!("cannot parse assert! at byte {}", whole.0)),
                }
            }
            "assert_eq" | "assert_ne" => {
                match m.parse_body_with(P::parse_terminated) {
                    Ok(args) if args.len() >= 2 => {
                        let (a, b) = range(&args[0]); let (c, d) = range(&args[1]);
                        self.ed.rep((whole.0, a), "rt_assert(("); self.ed.rep((b, c), if name == "assert_eq" { ") == (" } else { ") != (" }); self.ed.rep((d, whole.1), "))");
                        self.asserts += 1;
                    }
                    _ => self.lost.push(format!("cannot parse {}! at byte {}", name, whole.0)),
                }
            }
            "panic" | "unreachable" => { self.ed.rep(whole, "rt_panic()"); self.asserts += 1 }
            "debug_assert" | "debug_assert_eq" => { self.ed.rep(whole, "()") }
            "vec" => {}
            _ => self.lost.push(format!("macro {}! is outside the supported subset", name)),
        }
    }
}

// old local names to new ones. A new name that the annotations already use for something of their own (a quantified or
// ghost variable) is moved out of the way; not a consistent renaming: annotations are used as written
fn renaming(old: &[String], new: &[String]) -> HashMap<String, String> {
    let mut ren: HashMap<String, String> = HashMap::new();
    for (o, n) in old.iter().zip(new) { if let Some(x) = ren.get(o) { if x != n { return HashMap::new() } } ren.insert(o.clone(), n.clone()); }
    let taken: Vec<String> = ren.values().filter(|v| !ren.contains_key(*v)).cloned().collect();
    for t in taken { ren.insert(t.clone(), format!("{}__q", t)); }
    ren.retain(|k, v| k != v);
    ren
}

fn word_replace(s: &str, ren: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1 }
            let w: String = cs[st..i].iter().collect();
            let dot = st > 0 && cs[st - 1] == '.' && !(st > 1 && cs[st - 2] == '.');
            let call = i < cs.len() && (cs[i] == '(' || (cs[i] == ':' && i + 1 < cs.len() && cs[i + 1] == ':'));
            match ren.get(&w) { Some(n) if !dot && !(call && n.ends_with("__q")) => out.push_str(n), _ => out.push_str(&w) }
        } else if cs[i].is_ascii_digit() {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { out.push(cs[i]); i += 1 }
        } else { out.push(cs[i]); i += 1 }
    }
    out
}

fn strip_lifetimes_bounds(g: &syn::Generics, text: &str, subst: &[(String, String)]) -> Vec<String> {
    let mut v = vec![];
    for p in &g.params {
        match p {
            syn::GenericParam::Lifetime(l) => { let (a, b) = range(&l.lifetime); v.push(text[a..b].to_string()) }
            syn::GenericParam::Type(t) => { if !subst.iter().any(|(f, _)| t.ident == f) { let (a, b) = range(t); v.push(text[a..b].to_string()) } }
            syn::GenericParam::Const(c) => { let (a, b) = range(c); v.push(text[a..b].to_string()) }
        }
    }
    v
}
fn angle(v: &[String]) -> String { if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) } }

/// `&Fn(A) -> B` (possibly with dyn / parens): returns the text range of `Fn(A) -> B`
fn dyn_fn<'a>(t: &'a syn::Type) -> Option<&'a syn::Type> {
    if let syn::Type::Reference(r) = t {
        match &*r.elem {
            syn::Type::TraitObject(_) => return Some(&r.elem),
            syn::Type::Path(p) => if p.path.segments.last().map(|s| s.ident == "Fn" && matches!(s.arguments, syn::PathArguments::Parenthesized(_))).unwrap_or(false) { return Some(&r.elem) },
            syn::Type::Paren(p) => return match &*p.elem { syn::Type::TraitObject(_) | syn::Type::Path(_) => Some(&p.elem), _ => None },
            _ => {}
        }
    }
    None
}

struct Emitted { text: String, lost: Vec<String>, callees: Vec<String>, binders: Vec<String>, ifs: usize, loops: Vec<(String, String)> }

fn emit_fn(src: &Src, a: &FnAnn, f: &Found, stub: bool, baseline: Option<&serde_json::Value>) -> Emitted {
    let text = &src.text;
    let mut lost: Vec<String> = vec![];
    let mut w = Walk { text, ed: Edits::default(), subst: a.subst.clone(), loops: vec![], stack: vec![0], path: vec![], ifs: 0, if_pos: vec![], if_tail: vec![], else_tail: vec![], calls: HashMap::new(), lets: HashMap::new(), scopes: vec![], blocks: vec![], rets: vec![], callees: BTreeSet::new(), asserts: 0, lost: vec![], closure_depth: 0 };
    // binders
    let mut bn = Binders::default();
    for i in &f.sig.inputs { if let syn::FnArg::Typed(t) = i { bn.visit_pat(&t.pat) } }
    let nsig = bn.0.len();
    bn.visit_block(f.block);
    let mut ren: HashMap<String, String> = HashMap::new();
    let mut ren_sig: HashMap<String, String> = HashMap::new();
    if let Some(b) = baseline.and_then(|b| b.get(&format!("{}::{}", a.file, a.key))).and_then(|b| b.get("binders")).and_then(|b| b.as_array()) {
        let old: Vec<String> = b.iter().map(|x| x.as_str().unwrap().to_string()).collect();
        if old.len() == bn.0.len() { ren = renaming(&old, &bn.0) }
        if old.len() >= nsig { ren_sig = renaming(&old[..nsig], &bn.0[..nsig]) }
    }
    let rn = |s: &str| -> String { if ren.is_empty() { s.to_string() } else { word_replace(s, &ren) } };
    // requires and ensures know the parameters only
    let rns = |s: &str| -> String { if ren_sig.is_empty() { s.to_string() } else { word_replace(s, &ren_sig) } };
    // signature
    let mut params: Vec<String> = vec![];
    let mut fgen: Vec<String> = vec![];
    let mut prologue = String::new();
    for (k, i) in f.sig.inputs.iter().enumerate() {
        match i {
            syn::FnArg::Receiver(r) => { let (x, y) = range(r); params.push(text[x..y].to_string()) }
            syn::FnArg::Typed(t) => {
                let (pa, pb) = range(&*t.pat);
                let mut pname = text[pa..pb].to_string();
                if !matches!(&*t.pat, syn::Pat::Ident(_)) { prologue.push_str(&format!("let {} = p{}__; ", pname, k)); pname = format!("p{}__", k); }
                if let Some(inner) = dyn_fn(&t.ty) {
                    w.visit_type(inner);
                    let (x, y) = range(inner);
                    let it = w.ed.apply(text, x, y).replace("dyn ", "");
                    fgen.push(format!("FN{}: {}", k, it));
                    params.push(format!("{}: &FN{}", pname, k));
                } else {
                    w.visit_type(&t.ty);
                    let (x, y) = range(&*t.ty);
                    params.push(format!("{}: {}", pname, w.ed.apply(text, x, y)));
                }
            }
        }
    }
    let ret = match &f.sig.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => { w.visit_type(t); let (x, y) = range(&**t); Some(w.ed.apply(text, x, y)) } };
    let mut gens = strip_lifetimes_bounds(&f.sig.generics, text, &a.subst);
    gens.extend(fgen);
    // body
    w.visit_block(f.block);
    lost.extend(w.lost.drain(..));
    let body_r = range(f.block);
    let mut body = String::new();
    if !stub && !a.assume && !a.nobody {
        // loops
        let have: BTreeSet<String> = w.loops.iter().map(|l| l.0.clone()).collect();
        let want: BTreeSet<String> = a.loops.keys().cloned().collect();
        if have != want && (a.every.is_empty() || !want.is_subset(&have)) { lost.push(format!("loop structure changed: code has {:?}, contract annotates {:?}", have, want)) }
        let loops = w.loops.clone();
        let words = |c: &str| -> Vec<String> {
            let cs: Vec<char> = c.chars().collect();
            let mut v = vec![]; let mut i = 0;
            while i < cs.len() {
                if cs[i].is_alphabetic() || cs[i] == '_' { let s = i; while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1 } if s == 0 || cs[s - 1] != '.' { v.push(cs[s..i].iter().collect()) } } else { i += 1 }
            }
            v
        };
        // ghost locals the contract declares
        for (anchor, txt) in &a.at {
            let sc: Option<(usize, usize)> = if anchor == "start" { Some((body_r.0 + 1, body_r.1)) }
                else if let Some(lp) = anchor.strip_prefix('L').and_then(|x| x.strip_suffix(".start")) { loops.iter().find(|l| l.0 == lp).map(|l| (l.2.body.0 + 1, l.2.body.1)) }
                else if let Some(n) = anchor.strip_prefix("let:").and_then(|x| x.strip_suffix(".after")) {
                    let n = rn(n); let (n, k) = match n.split_once('#') { Some((n, k)) => (n.to_string(), k.parse::<usize>().unwrap()), None => (n, 0) };
                    w.scopes.iter().filter(|s| s.0 == n).nth(k).map(|s| (s.1, s.2))
                } else { None };
            if let Some(sc) = sc {
                let t = rn(txt); let ws = words(&t);
                for i in 0..ws.len() { if ws[i] == "ghost" { let j = if ws.get(i + 1).map(|x| x == "mut").unwrap_or(false) { i + 2 } else { i + 1 }; if let Some(x) = ws.get(j) { w.scopes.push((x.clone(), sc.0, sc.1)) } } }
            }
        }
        let known: BTreeSet<&String> = w.scopes.iter().map(|x| &x.0).collect();
        for (p, kind, pos) in &loops {
            let own = LoopAnn::default();
            let own = a.loops.get(p).or(if a.every.is_empty() { None } else { Some(&own) });
            if let Some(l) = own {
                let own_pat = match (&pos.rev, pos.pat) { (None, Some((x, y))) => words(&text[x..y]), _ => vec![] };
                let every: Vec<String> = a.every.iter().map(|c| rn(c)).filter(|c| words(c).iter().all(|x| !known.contains(x) || own_pat.contains(x) || w.scopes.iter().any(|sc| &sc.0 == x && sc.1 <= pos.start && pos.start < sc.2))).collect();
                let mut l = l.clone();
                if !every.is_empty() {
                    let e: String = every.iter().map(|c| format!("    {}\n", c)).collect();
                    let lines: Vec<&str> = l.clauses.lines().collect();
                    if let Some(at) = lines.iter().position(|x| x.trim() == "invariant" || x.trim().starts_with("invariant ")) {
                        let rest = lines[at].trim().strip_prefix("invariant").unwrap().to_string();
                        l.clauses = format!("{}\n  invariant\n{}{}\n{}\n", lines[..at].join("\n"), e, rest, lines[at + 1..].join("\n"));
                    } else { l.clauses = format!("  invariant\n{}{}", e, l.clauses) }
                }
                let l = &l;
                if let Some(k) = &l.kind { if k != kind { lost.push(format!("loop {} is a `{}`, annotated as `{}`", p, kind, k)) } }
                let mut cl = rn(&l.clauses);
                if let Some((lo, hi)) = &pos.rev {
                    let u = p.replace('.', "_");
                    let pat = if pos.wild { l.var.clone().unwrap_or("_".into()) } else { text[pos.pat.unwrap().0..pos.pat.unwrap().1].to_string() };
                    w.ed.ins(pos.start, 4, &format!("; {{ let lo_{} = {}; let hi_{} = {};\n", u, lo, u, hi));
                    w.ed.rep(pos.pat.unwrap(), &format!("r_{}", u));
                    w.ed.rep((pos.expr0, pos.expr1), &format!("lo_{}..hi_{}", u, u));
                    w.ed.ins(pos.body.0 + 1, 1, &format!(" let {} = hi_{} - 1 - (r_{} - lo_{});\n", pat, u, u, u));
                    w.ed.ins(pos.end, 3, "}");
                    // $i: everything from $i up has been done
                    cl = cl.replace("$it", &format!("it_{}", u)).replace("$i", &format!("(hi_{} - it_{}.index@)", u, u)).replace("$k", &format!("it_{}.index@", u)).replace("$hi", &format!("hi_{}", u)).replace("$lo", &format!("lo_{}", u));
                    w.ed.ins(pos.expr0, -9, &format!("it_{}: ", u));
                    w.ed.ins(pos.body.0, 0, &format!("\n{}", cl));
                    if let Some(p) = pos.tail_semi { w.ed.ins(p, -1, ";") }
                    continue;
                }
                if pos.wild { if let Some(v) = &l.var { w.ed.rep(pos.pat.unwrap(), v) } }
                if cl.contains("$i") || cl.contains("$k") || cl.contains("$it") {
                    let it = format!("it_{}", p.replace('.', "_"));
                    w.ed.ins(pos.expr0, -9, &format!("{}: ", it));
                    cl = cl.replace("$it", &it);
                    if cl.contains("$i") { match &pos.lo { Some(lo) => cl = cl.replace("$i", &format!("(({}) + {}.index@)", lo, it)), None => lost.push(format!("loop {} is no longer over a range", p)) } }
                    cl = cl.replace("$k", &format!("{}.index@", it));
                }
                w.ed.ins(pos.body.0, 0, &format!("\n{}", cl));
                if let Some(p) = pos.tail_semi { w.ed.ins(p, -1, ";") }
            }
        }
        for (anchor, txt) in &a.at {
            let t = format!("\n{}\n", rn(txt));
            let parts: Vec<&str> = anchor.split('.').collect();
            let mut ok = false;
            if anchor == "start" { w.ed.ins(body_r.0 + 1, 5, &t); ok = true }
            else if anchor == "end" {
                match f.block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if ret.is_some() => { w.ed.ins(range(e).0, -20, &t); ok = true }
                    Some(s) => { if let Some(p) = block_tail_semi(f.block) { w.ed.ins(p, -1, ";"); } w.ed.ins(range(s).1, 50, &t); ok = true }
                    None => {}
                }
            } else if anchor.starts_with('L') {
                let (lp, w2) = anchor.rsplit_once('.').unwrap();
                if let Some((_, _, pos)) = loops.iter().find(|l| l.0 == &lp[1..]) {
                    match w2 {
                        "before" => { w.ed.ins(pos.start, 3, &t); ok = true }
                        "after" => { w.ed.ins(pos.end, 4, &t); ok = true }
                        "start" => { w.ed.ins(pos.body.0 + 1, 5, &t); ok = true }
                        "end" => { w.ed.ins(pos.body.1 - 1, 6, &t); ok = true }
                        _ => panic!("bad anchor {}", anchor),
                    }
                }
            } else if anchor.starts_with("let:") {
                let n = anchor[4..].trim_end_matches(".after").to_string();
                let (n, k) = match n.split_once('#') { Some((a, b)) => (a.to_string(), b.parse::<usize>().unwrap()), None => (n, 0) };
                let n = rn(&n);
                if let Some(p) = w.lets.get(&n).and_then(|v| v.get(k)) { let p = *p; w.ed.ins(p, 4, &t); ok = true }
            } else if anchor.starts_with("if") {
                let k: usize = parts[0][2..].parse().unwrap();
                if let Some((th, el, st, en)) = w.if_pos.get(k).cloned() {
                    match parts[1] {
                        "before" => { w.ed.ins(st, 3, &t); ok = true }
                        "then" => { w.ed.ins(th.0 + 1, 5, &t); ok = true }
                        "thenend" => { w.ed.ins(th.1 - 1, 5, &t); ok = true }
                        // before the value of the branch
                        "thentail" => { let p = w.if_tail[k]; w.ed.ins(p, 5, &t); ok = true }
                        "elsetail" => if let Some(Some(p)) = w.else_tail.get(k).cloned() { w.ed.ins(p, 5, &t); ok = true },
                        "after" => { w.ed.ins(en, 5, &t); ok = true }
                        "else" => if let Some(e) = el { w.ed.ins(e.0 + 1, 5, &t); ok = true },
                        "elseend" => if let Some(e) = el { w.ed.ins(e.1 - 1, 5, &t); ok = true },
                        _ => panic!("bad anchor {}", anchor),
                    }
                }
            } else if anchor.starts_with("call:") {
                // before / after a statement that is a call of a function of this name
                let (n, wh) = anchor[5..].rsplit_once('.').unwrap();
                let (n, k) = match n.split_once('#') { Some((a, b)) => (a, b.parse::<usize>().unwrap()), None => (n, 0) };
                if let Some(p) = w.calls.get(n).and_then(|v| v.get(k)).cloned() { w.ed.ins(if wh == "before" { p.0 } else { p.1 }, if wh == "before" { 3 } else { 4 }, &t); ok = true }
            } else if anchor.starts_with("ret#") {
                let k: usize = anchor[4..].parse().unwrap();
                if let Some(p) = w.rets.get(k) { let p = *p; w.ed.ins(p, 3, &t); ok = true }
            } else { panic!("bad anchor {}", anchor) }
            if !ok { lost.push(format!("anchor {} not found", anchor)) }
        }
        if !prologue.is_empty() { w.ed.ins(body_r.0 + 1, 1, &prologue) }
        body = w.ed.apply(text, body_r.0, body_r.1);
    }
    let trait_impl = f.imp.map(|i| i.trait_.is_some()).unwrap_or(false) && !a.inherent;
    let mut s = String::new();
    let indent = if f.imp.is_some() { "  " } else { "" };
    if let Some(im) = f.imp {
        let mut ig = strip_lifetimes_bounds(&im.generics, text, &a.subst);
        let mut w2 = Walk { text, ed: Edits::default(), subst: a.subst.clone(), loops: vec![], stack: vec![0], path: vec![], ifs: 0, if_pos: vec![], if_tail: vec![], else_tail: vec![], calls: HashMap::new(), lets: HashMap::new(), scopes: vec![], blocks: vec![], rets: vec![], callees: BTreeSet::new(), asserts: 0, lost: vec![], closure_depth: 0 };
        w2.visit_type(&im.self_ty);
        let (x, y) = range(&*im.self_ty);
        let st = w2.ed.apply(text, x, y);
        if trait_impl {
            let (_, tp, _) = im.trait_.as_ref().unwrap();
            w2.visit_path(tp);
            let (x, y) = range(tp);
            let mut tt = w2.ed.apply(text, x, y);
            if tp.segments.len() == 1 { tt = format!("core::ops::{}", tt) }
            s.push_str(&format!("impl{} {} for {} {{\n", angle(&ig), tt, st));
            for it in &im.items { if let syn::ImplItem::Type(t) = it { w2.visit_type(&t.ty); let (x, y) = range(t); s.push_str("  "); s.push_str(&w2.ed.apply(text, x, y)); s.push('\n'); } }
        } else {
            let base = st.trim_start_matches('&').trim().to_string();
            if a.inherent { ig.retain(|g| base.contains(g.as_str())); }
            s.push_str(&format!("impl{} {} {{\n", angle(&ig), if a.inherent { base } else { st }));
        }
    }
    if stub || a.assume { s.push_str(indent); s.push_str("#[verifier::external_body]\n"); }
    if !a.attrs.is_empty() && !(stub || a.assume) { s.push_str(&a.attrs) }
    s.push_str(indent);
    if !trait_impl { s.push_str("pub ") }
    let name = a.name.clone().unwrap_or(f.sig.ident.to_string());
    s.push_str(&format!("fn {}{}({})", name, angle(&gens), params.join(", ")));
    match &ret { Some(r) => s.push_str(&format!(" -> ({}: {})", a.ret, r)), None => {} }
    s.push('\n');
    // the signature's binders may have been renamed too
    let pre = rns(&a.pre);
    if !trait_impl {
        let mut req = String::new();
        if !pre.is_empty() { req.push_str(&format!("acc() ==> ({}),\n", pre)) }
        req.push_str(&rns(&a.requires));
        if !req.trim().is_empty() { s.push_str("    requires\n"); s.push_str(&req); s.push('\n'); }
    }
    let mut ens = String::new();
    if !pre.is_empty() { ens.push_str(&format!("({}),\n", pre)) }
    ens.push_str(&rns(&a.ensures));
    if !ens.trim().is_empty() { s.push_str("    ensures\n"); s.push_str(&ens); s.push('\n'); }
    if !a.opens.is_empty() { s.push_str(&rns(&a.opens)); s.push('\n') }
    if stub || a.assume || a.nobody { s.push_str("  { unimplemented!() }\n") } else { s.push_str(indent); s.push_str(&body); s.push('\n') }
    if f.imp.is_some() { s.push_str("}\n") }
    Emitted { text: s, lost, callees: w.callees.into_iter().collect(), binders: bn.0, ifs: w.ifs, loops: w.loops.iter().map(|l| (l.0.clone(), l.1.clone())).collect() }
}

fn emit_struct(src: &Src, name: &str) -> Result<String, String> {
    for it in &src.file.items {
        if let syn::Item::Struct(s) = it {
            if s.ident == name {
                let mut out = format!("pub struct {}", name);
                let (a, b) = range(&s.generics);
                out.push_str(&src.text[a..b]);
                out.push_str(" {\n");
                for f in &s.fields {
                    let (a, b) = range(&f.ty);
                    out.push_str(&format!("  pub {}: {},\n", f.ident.as_ref().ok_or("tuple struct")?, &src.text[a..b]));
                }
                out.push_str("}\n");
                return Ok(out);
            }
        }
    }
    Err(format!("struct {} not found", name))
}

/// assert!(..) -> rt_assert!(..) and so on
fn rt_macros(t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1 }
            let w: String = cs[st..i].iter().collect();
            let is = ["assert", "assert_eq", "debug_assert", "debug_assert_eq", "panic", "unreachable"].contains(&w.as_str());
            if is && i < cs.len() && cs[i] == '!' { out.push_str("rt_") }
            out.push_str(&w);
        } else { out.push(cs[i]); i += 1 }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (mut srcdir, mut out, mut meta, mut baseline) = (String::new(), String::new(), String::new(), None);
    let mut stubs: BTreeMap<String, String> = BTreeMap::new();
    let mut items: Vec<Item> = vec![];
    let mut keep: Option<BTreeSet<String>> = None;
    let mut smoke = false;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--src" => srcdir = v, "--out" => out = v, "--meta" => meta = v,
            "--stub" => { let (k, r) = v.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((v.clone(), String::new())); let _ = r; stubs.insert(k, r); }
            "--baseline" => baseline = fs::read_to_string(&v).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()),
            "--verify" => parse_vc(&v, false, &mut items),
            "--assume" => parse_vc(&v, true, &mut items),
            // verify only these functions (one id per line); the others keep their contract, their body is not checked
            "--keep" => keep = Some(fs::read_to_string(&v).unwrap().lines().map(|l| l.to_string()).collect()),
            "--smoke" => smoke = v == "1",
            "--raw" => items.push(Item::Verbatim(fs::read_to_string(&v).unwrap())),
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    for it in items.iter_mut() { if let Item::Fn(a) = it {
        if let Some(k) = &keep { if !k.contains(&format!("{}::{}", a.file, a.key)) { a.assume = true } }
        if smoke && !a.assume && !a.nobody { a.at.push(("end".to_string(), "  assert(false);".to_string())) }
    } }
    let mut srcs: HashMap<String, Result<Src, String>> = HashMap::new();
    let mut load = |f: &str| {
        if !srcs.contains_key(f) {
            let r = fs::read_to_string(format!("{}/{}", srcdir, f)).map_err(|e| e.to_string()).map(|t| t.replace("try!(", "tri!(").replace("&Fn(", "&dyn Fn(")) /* edition 2015: `try` is not a keyword */.and_then(|t| syn::parse_file(&t).map_err(|e| format!("{} at {:?}", e, e.span().start())).map(|p| Src { text: t, file: p }));
            srcs.insert(f.to_string(), r);
        }
    };
    for it in &items { match it { Item::Struct(f, _) => load(f), Item::Fn(a) => load(&a.file), _ => {} } }
    let mut o = String::from("#![allow(unused, non_snake_case, dead_code)]\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse core::ops::{Add, Sub, Mul, Div, Neg, BitOr, Index};\nverus! {\n");
    let mut fns = vec![];
    let mut bl = serde_json::Map::new();
    // the macros of the source file, as they are, in front of everything; assert! and panic! become the checked stand-ins
    for it in &items { if let Item::Macros(f) = it {
        let t = fs::read_to_string(format!("{}/{}", srcdir, f)).unwrap_or_default();
        let t: String = t.lines().filter(|l| !l.trim_start().starts_with("#![") && !l.contains("#[macro_export]")).map(|l| format!("{}\n", l)).collect();
        let t = rt_macros(&t);
        o = o.replace("verus! {\n", "");
        o.push_str("macro_rules! rt_assert { ($c:expr $(, $($t:tt)*)?) => { rt_assert($c) } }\nmacro_rules! rt_assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { rt_assert($a == $b) } }\nmacro_rules! rt_panic { ($($t:tt)*) => { rt_panic() } }\nmacro_rules! rt_unreachable { ($($t:tt)*) => { rt_panic() } }\nmacro_rules! rt_debug_assert { ($($t:tt)*) => { () } }\nmacro_rules! rt_debug_assert_eq { ($($t:tt)*) => { () } }\n");
        o.push_str(&t);
        o.push_str("verus! {\n");
    } }
    for it in &items {
        match it {
            Item::Macros(_) => {}
            Item::Lit(rows, props, file) => {
                // one literal, whatever its expressions give and do: val(k, t) is what expression k gives when evaluated as the t-th, log records the evaluations
                let id = format!("{}::m![{}]", file, rows.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(";"));
                let stub = stubs.contains_key(&id);
                let assumed = keep.as_ref().map(|k| !k.contains(&id)).unwrap_or(false);
                let l0 = o.lines().count() + 1;
                let total: usize = rows.iter().sum();
                let rect = rows.iter().all(|x| *x == rows[0]);
                let mut k = 0;
                let lit: Vec<String> = rows.iter().map(|n| (0..*n).map(|_| { k += 1; format!("ev({}, log)", k - 1) }).collect::<Vec<_>>().join(", ")).collect();
                if stub || assumed { o.push_str("#[verifier::external_body]\n") }
                o.push_str(&format!("pub fn lit_{}(log: &mut Log) -> (r: Matrix<E>)\n", rows.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_")));
                if rect {
                    o.push_str(&format!("  requires acc(), old(log).t@.len() == 0,\n  ensures r.shaped({}, {}), r.data@.len() == {}, final(log).t@.len() == {},\n", rows.len(), rows[0], total, total));
                    for k in 0..total { o.push_str(&format!("    r.data@[{}] == val({}, {}), final(log).t@[{}] == {},\n", k, k, k, k, k)) }
                } else { o.push_str("  requires !acc(),\n  ensures false,\n") }
                o.push_str(&if stub || assumed { "{ unimplemented!() }\n".to_string() } else { format!("{{{}\n  m!({})\n}}\n", if smoke { "assert(false);" } else { "" }, lit.join("; ")) });
                fns.push(serde_json::json!({"kind": "fn", "id": id, "file": file, "key": id, "props": props, "line0": l0, "line1": o.lines().count(), "assumed": assumed, "bounded": "", "lost": if stub { vec![stubs[&id].clone()] } else { vec![] }, "callees": ["new"], "emitted": true, "ensures": if rect { 2 + 2 * total } else { 1 }, "invariants": 0, "loops": 0}));
            }
            Item::LitAll(props, file, contract) => {
                // the literal with any rows: the expansion of m! on R rows, row r of lens[r] expressions (src/sym.rs)
                let id = format!("{}::m!", file);
                let body = fs::read_to_string(format!("{}/{}", srcdir, file)).map_err(|e| e.to_string()).and_then(|t| sym::Sym::new(&t).and_then(|mut y| y.literal("m")));
                let mut lost: Vec<String> = stubs.get(&id).cloned().into_iter().collect();
                let assumed = keep.as_ref().map(|k| !k.contains(&id)).unwrap_or(false);
                let l0 = o.lines().count() + 1;
                if let Err(e) = &body { lost.push(format!("the expansion of m!: {}", e)) }
                if let Ok(b) = &body {
                    let w: Vec<&str> = b.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
                    let lets: Vec<&str> = w.windows(2).filter(|x| x[0] == "let").map(|x| x[1]).collect();
                    let seq: Vec<&str> = w.iter().filter(|x| ["for", "r__", "c__", "rt_assert", "evx", "push"].contains(x)).cloned().collect();
                    bl.insert(id.clone(), serde_json::json!({"binders": lets, "ifs": w.iter().filter(|x| **x == "if").count(), "loops": seq.join(" ")}));
                }
                let ext = assumed || !lost.is_empty();
                o.push_str(if ext { "#[verifier::external_body]\n" } else { "#[verifier::loop_isolation(false)]\n" });
                o.push_str("pub fn lit_all(lens__: &Vec<usize>, log__: &mut LogX) -> (r: Matrix<E>)\n");
                let (spec, proof) = contract.split_once("%%").unwrap_or((contract, ""));
                o.push_str(spec);
                o.push_str(&if ext { "{ unimplemented!() }\n".to_string() } else { format!("{{{}\n{}\n  {}\n}}\n", if smoke { "assert(false);" } else { "" }, proof, body.unwrap()) });
                fns.push(serde_json::json!({"kind": "fn", "id": id, "file": file, "key": "m!", "props": props, "line0": l0, "line1": o.lines().count(), "assumed": assumed, "bounded": false, "lost": lost, "callees": ["new"], "emitted": true, "ensures": spec.matches(",\n").count(), "invariants": 0, "loops": 0}));
            }
            Item::Verbatim(s) => { let l0 = o.lines().count() + 1; o.push_str(s); fns.push(serde_json::json!({"kind": "verbatim", "line0": l0, "line1": o.lines().count()})); }
            Item::Struct(f, n) => {
                let r = match &srcs[f] { Ok(s) => emit_struct(s, n), Err(e) => Err(e.clone()) };
                match r { Ok(t) => o.push_str(&t), Err(e) => { fns.push(serde_json::json!({"kind": "struct", "key": n, "lost": [e]})) } }
            }
            Item::Fn(a) => {
                let id = format!("{}::{}", a.file, a.key);
                let stub = stubs.contains_key(&id);
                let l0 = o.lines().count() + 1;
                let mut lost = vec![]; let mut callees = vec![]; let mut emitted = false;
                match &srcs[&a.file] {
                    Err(e) => lost.push(e.clone()),
                    Ok(s) => {
                        let f = find_fn(s, &a.key);
                        if f.len() != 1 { lost.push(format!("function {} found {} times in {}", a.key, f.len(), a.file)) }
                        else {
                            let mut e = emit_fn(s, a, &f[0], stub, baseline.as_ref());
                            if !stub && !e.lost.is_empty() { let l = e.lost.clone(); e = emit_fn(s, a, &f[0], true, baseline.as_ref()); lost.extend(l); }
                            callees = e.callees.clone();
                            bl.insert(id.clone(), serde_json::json!({"binders": e.binders, "ifs": e.ifs, "loops": e.loops}));
                            o.push_str(&e.text); emitted = true;
                        }
                    }
                }
                if stub { lost.push(stubs[&id].clone()) }
                let n_ens = a.ensures.matches(",\n").count() + if a.pre.is_empty() { 0 } else { 1 };
                let n_inv: usize = a.loops.values().map(|l| l.clauses.matches(",\n").count()).sum();
                fns.push(serde_json::json!({"kind": "fn", "id": id, "file": a.file, "key": a.key, "props": a.props, "line0": l0, "line1": o.lines().count(), "assumed": a.assume || a.nobody, "bounded": a.bounded,
                    "lost": lost, "callees": callees, "emitted": emitted, "ensures": n_ens, "invariants": n_inv, "loops": a.loops.len()}));
            }
        }
        o.push('\n');
    }
    o.push_str("}\nfn main() {}\n");
    fs::write(&out, o).unwrap();
    if !meta.is_empty() { fs::write(&meta, serde_json::to_string_pretty(&serde_json::json!({"items": fns, "baseline": bl})).unwrap()).unwrap(); }
}
