//! The expansion of a macro on an input of any length: `m!` given R rows, row r holding lens[r] expressions.
//! The input is one symbolic repetition per `$( .. )` of the pattern; matching and transcribing keep repetitions symbolic,
//! and a repetition in the result becomes a loop over its index. Whatever this does not cover is reported, never guessed.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};

type R<T> = Result<T, String>;

/// one index: `var` runs from 0 to `hi` (spec: `shi`)
#[derive(Clone, Debug, PartialEq)]
pub struct Dom { var: String, hi: String, shi: String }

#[derive(Clone, Debug)]
enum S { Tok(String), Group(char, Vec<S>), Rep(Dom, Option<String>, Vec<S>), Expr(String) }

#[derive(Clone, Debug)]
enum P { Tok(String), Group(char, Vec<P>), Var(String, String), Rep(Vec<P>, Option<String>) }

#[derive(Clone)]
struct Rule { pat: Vec<P>, out: Vec<P> }

#[derive(Clone, Debug)]
struct Bind { levels: Vec<Vec<Dom>>, val: Vec<S> }

fn delim(d: Delimiter) -> char { match d { Delimiter::Parenthesis => '(', Delimiter::Brace => '{', Delimiter::Bracket => '[', Delimiter::None => ' ' } }

fn parse(ts: Vec<TokenTree>, pattern: bool) -> R<Vec<P>> {
    let mut out = vec![];
    let mut i = 0;
    while i < ts.len() {
        match &ts[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                match ts.get(i + 1) {
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                        let body = parse(g.stream().into_iter().collect(), pattern)?;
                        i += 2;
                        let op = |t: Option<&TokenTree>| match t { Some(TokenTree::Punct(p)) if p.as_char() == '*' || p.as_char() == '+' => true, _ => false };
                        if op(ts.get(i)) && !(matches!(&ts[i], TokenTree::Punct(p) if p.as_char() == '+') && op(ts.get(i + 1))) { out.push(P::Rep(body, None)); i += 1; }
                        else if op(ts.get(i + 1)) {
                            let sep = match &ts[i] { TokenTree::Punct(p) => p.as_char().to_string(), TokenTree::Ident(x) => x.to_string(), t => return Err(format!("separator {}", t)) };
                            if sep == "?" { return Err("optional fragment".into()) }
                            out.push(P::Rep(body, Some(sep))); i += 2;
                        } else { return Err("optional fragment in a macro".into()) }
                    }
                    Some(TokenTree::Ident(n)) => {
                        if n == "crate" { out.push(P::Tok("crate".into())); i += 2; continue }
                        if pattern {
                            let f = match (ts.get(i + 2), ts.get(i + 3)) { (Some(TokenTree::Punct(c)), Some(TokenTree::Ident(f))) if c.as_char() == ':' => f.to_string(), _ => return Err("macro pattern".into()) };
                            out.push(P::Var(n.to_string(), f)); i += 4;
                        } else { out.push(P::Var(n.to_string(), String::new())); i += 2; }
                    }
                    _ => return Err("`$` in a macro".into()),
                }
            }
            TokenTree::Group(g) => { out.push(P::Group(delim(g.delimiter()), parse(g.stream().into_iter().collect(), pattern)?)); i += 1 }
            TokenTree::Punct(p) => {
                // joined punctuation is one token, but never across a `$`
                let mut s = p.as_char().to_string();
                let mut sp = p.spacing();
                i += 1;
                while sp == Spacing::Joint {
                    match ts.get(i) { Some(TokenTree::Punct(q)) if q.as_char() != '$' => { s.push(q.as_char()); sp = q.spacing(); i += 1 } _ => break }
                }
                out.push(P::Tok(s));
            }
            t => { out.push(P::Tok(t.to_string())); i += 1 }
        }
    }
    Ok(out)
}

fn rules(ts: TokenStream) -> R<Vec<Rule>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let (a, b) = match (v.get(i), v.get(i + 1), v.get(i + 2), v.get(i + 3)) {
            (Some(TokenTree::Group(a)), Some(TokenTree::Punct(x)), Some(TokenTree::Punct(y)), Some(TokenTree::Group(b))) if x.as_char() == '=' && y.as_char() == '>' => (a, b),
            _ => return Err("macro rules".into()),
        };
        out.push(Rule { pat: parse(a.stream().into_iter().collect(), true)?, out: parse(b.stream().into_iter().collect(), false)? });
        i += 4;
        if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1 } }
    }
    Ok(out)
}

/// Ok(None): certainly no match; Err: not decided here
fn matches(pat: &[P], inp: &[S], b: &mut BTreeMap<String, Bind>) -> R<Option<()>> {
    let mut k = 0;
    for (n, p) in pat.iter().enumerate() {
        match p {
            P::Tok(t) => match inp.get(k) {
                Some(S::Tok(u)) if u == t => k += 1,
                Some(S::Rep(..)) => return Err("a repetition against a token".into()),
                _ => return Ok(None),
            },
            P::Group(d, q) => match inp.get(k) {
                Some(S::Group(e, u)) if e == d => { if matches(q, u, b)?.is_none() { return Ok(None) } k += 1 }
                Some(S::Rep(..)) => return Err("a repetition against a group".into()),
                _ => return Ok(None),
            },
            P::Var(name, frag) => {
                let one = match inp.get(k) { Some(x) => x.clone(), None => return Ok(None) };
                match (&one, frag.as_str()) {
                    (S::Rep(..), _) => return Err("a repetition against one fragment".into()),
                    (S::Expr(_), "expr") | (S::Expr(_), "tt") => {}
                    (S::Group('(', _), "expr") if k + 1 == inp.len() => {}
                    (S::Group(..), "tt") => {}
                    (S::Tok(t), "tt") if t.len() == 1 || t.chars().all(|c| c.is_alphanumeric() || c == '_') => {}
                    (S::Tok(t), "ident") if t.chars().all(|c| c.is_alphanumeric() || c == '_') && !t.starts_with(|c: char| c.is_ascii_digit()) => {}
                    (S::Tok(t), "expr") | (S::Tok(t), "literal") if t.chars().all(|c| c.is_ascii_digit()) && k + 1 == inp.len() => {}
                    (S::Expr(_), "ident") | (S::Expr(_), "literal") => return Err("an expression against a narrower fragment".into()),
                    _ => return Err(format!("fragment {}", frag)),
                }
                b.insert(name.clone(), Bind { levels: vec![], val: vec![one] });
                k += 1;
            }
            P::Rep(body, sep) => {
                if n + 1 != pat.len() { return Err("a repetition followed by more".into()) }
                if k == inp.len() { return Err("an empty repetition".into()) }
                if k + 1 != inp.len() { return Err("a repetition against single items".into()) }
                let (d, s, inner) = match &inp[k] { S::Rep(d, s, i) => (d, s, i), _ => return Err("a repetition against single items".into()) };
                if s != sep { return Err("separators differ".into()) }
                let mut doms = vec![d.clone()];
                let mut cur: &Vec<S> = inner;
                let mut inner_b = BTreeMap::new();
                loop {
                    // the items of nested repetitions with the same separator are one sequence (no row is empty), unless the pattern nests too
                    let nests = body.len() == 1 && matches!(&body[0], P::Rep(..));
                    if !nests && cur.len() == 1 { if let S::Rep(d2, s2, c2) = &cur[0] { if s2 == sep { doms.push(d2.clone()); cur = c2; continue } } }
                    break;
                }
                if matches(body, cur, &mut inner_b)?.is_none() { return Ok(None) }
                for (n, mut x) in inner_b { x.levels.insert(0, doms.clone()); b.insert(n, x); }
                k += 1;
            }
        }
    }
    if k != inp.len() { if inp[k..].iter().any(|x| matches!(x, S::Rep(..))) && pat.is_empty() { return Ok(None) } if inp[k..].iter().any(|x| matches!(x, S::Rep(..))) { return Err("a repetition left over".into()) } return Ok(None) }
    Ok(Some(()))
}

fn vars(t: &[P], out: &mut BTreeSet<String>) { for p in t { match p { P::Var(n, _) => { out.insert(n.clone()); } P::Group(_, q) => vars(q, out), P::Rep(q, _) => vars(q, out), P::Tok(_) => {} } } }

fn transcribe(t: &[P], b: &BTreeMap<String, Bind>) -> R<Vec<S>> {
    let mut out = vec![];
    for p in t {
        match p {
            P::Tok(x) => out.push(S::Tok(x.clone())),
            P::Group(d, q) => out.push(S::Group(*d, transcribe(q, b)?)),
            P::Var(n, _) => match b.get(n) { Some(x) if x.levels.is_empty() => out.extend(x.val.iter().cloned()), _ => return Err(format!("${} in a macro", n)) },
            P::Rep(q, sep) => {
                let mut vs = BTreeSet::new();
                vars(q, &mut vs);
                let mut doms: Option<Vec<Dom>> = None;
                let mut b2 = b.clone();
                for n in vs {
                    let x = b.get(&n).ok_or_else(|| format!("${} in a macro", n))?;
                    if x.levels.is_empty() { continue }
                    match &doms { None => doms = Some(x.levels[0].clone()), Some(d) => if *d != x.levels[0] { return Err("two repetitions side by side".into()) } }
                    b2.insert(n, Bind { levels: x.levels[1..].to_vec(), val: x.val.clone() });
                }
                let doms = doms.ok_or("a repetition of nothing")?;
                let mut body = transcribe(q, &b2)?;
                for d in doms.iter().rev() { body = vec![S::Rep(d.clone(), sep.clone(), body)] }
                out.extend(body);
            }
        }
    }
    Ok(out)
}

pub struct Sym { macros: BTreeMap<String, Vec<Rule>>, depth: usize, active: Vec<Dom> }

const RESERVED: [&str; 7] = ["lens__", "log__", "r__", "c__", "t__", "v__", "log0__"];

fn is_ident(t: &str) -> bool { t.starts_with(|c: char| c.is_alphabetic() || c == '_') }
const CMP: [&str; 6] = ["==", "!=", "<", ">", "<=", ">="];

impl Sym {
    pub fn new(text: &str) -> R<Sym> {
        let f = syn::parse_file(text).map_err(|e| e.to_string())?;
        let mut macros = BTreeMap::new();
        let mut lets: BTreeSet<String> = BTreeSet::new();
        for it in f.items {
            if let syn::Item::Macro(m) = it {
                if !m.mac.path.is_ident("macro_rules") { return Err("an item macro".into()) }
                let name = m.ident.ok_or("a macro without a name")?.to_string();
                let toks = m.mac.tokens.clone();
                let mut mine = BTreeSet::new();
                names(toks.clone(), &mut mine)?;
                for l in mine { if !lets.insert(l.clone()) { return Err(format!("{} is bound in two macros", l)) } }
                macros.insert(name, rules(toks)?);
            }
        }
        Ok(Sym { macros, depth: 0, active: vec![] })
    }

    /// `m!(row; row; ..)`
    pub fn literal(&mut self, name: &str) -> R<String> {
        let r = Dom { var: "r__".into(), hi: "lens__.len()".into(), shi: "lens__@.len()".into() };
        let c = Dom { var: "c__".into(), hi: "lens__[r__]".into(), shi: "lens__@[r__ as int]".into() };
        let inp = vec![S::Rep(r, Some(";".into()), vec![S::Rep(c, Some(",".into()), vec![S::Expr("evx(r__, c__, log__)".into())])])];
        self.call(name, inp)
    }

    fn expand(&mut self, name: &str, inp: Vec<S>) -> R<Vec<S>> {
        for r in self.macros.get(name).cloned().unwrap() {
            let mut b = BTreeMap::new();
            if matches(&r.pat, &inp, &mut b)?.is_some() { return transcribe(&r.out, &b) }
        }
        Err(format!("no rule of {}! applies", name))
    }

    fn call(&mut self, name: &str, inp: Vec<S>) -> R<String> {
        self.depth += 1;
        if self.depth > 20 { return Err(format!("{}! recurses", name)) }
        let out = self.expand(name, inp)?;
        if out.iter().any(|x| matches!(x, S::Tok(t) if t == ";")) { return Err(format!("{}! expands to statements", name)) }
        let s = self.expr(&out)?;
        self.depth -= 1;
        Ok(format!("({})", s))
    }

    fn enter(&mut self, d: &Dom) -> R<()> {
        if self.active.iter().any(|x| x.var == d.var) { return Err("an index bound twice".into()) }
        if d.var == "c__" && !self.active.iter().any(|x| x.var == "r__") { return Err("an element without its row".into()) }
        self.active.push(d.clone());
        Ok(())
    }

    /// nested for loops over `doms`; `inv(k, ..)` gives the invariant of the k-th of them
    fn loops(&mut self, doms: &[Dom], inv: &dyn Fn(usize) -> String, body: String) -> String {
        let mut s = body;
        for (k, d) in doms.iter().enumerate().rev() {
            // no row is empty, and a prefix of the rows holds no more than all of them
            let hint = if d.var == "c__" { "proof { psum_up(lens__@, r__ as int + 1, lens__@.len() as int); lens_in(lens__@, r__ as int); } " } else { "proof { psum_up(lens__@, r__ as int, lens__@.len() as int); psum_ge(lens__@, lens__@.len() as int); row_start(lens__@, r__ as int); lens_in(lens__@, r__ as int); } " };
            s = format!("for {} in 0..{}\n invariant {}\n{{ {}{} }}\n", d.var, d.hi, inv(k), hint, s);
        }
        s
    }

    /// statements of a block
    fn block(&mut self, t: &[S]) -> R<String> {
        let mut out = String::new();
        let mut cur: Vec<S> = vec![];
        for x in t {
            match x {
                S::Tok(s) if s == ";" => { out.push_str(&self.expr(&cur)?); out.push_str(";\n"); cur.clear() }
                S::Rep(_, None, body) if cur.is_empty() && stmts(body) => {
                    let (doms, inner) = unnest(x, &None);
                    for d in &doms { self.enter(d)? }
                    // what every pass has checked
                    let facts = if doms.len() == 1 { checked(&inner).into_iter().filter_map(|c| self.spec(&c).ok().flatten()).collect::<Vec<_>>() } else { vec![] };
                    let body = self.block(&inner)?;
                    for _ in &doms { self.active.pop(); }
                    let v = doms[0].var.clone();
                    let shi = doms[0].shi.clone();
                    let inv = move |_k: usize| { let mut s = String::new();
                        for f in &facts { s.push_str(&format!("(forall|j__: int| #![trigger lens__@[j__]] 0 <= j__ < {} && j__ < {} ==> {}), ", v, shi, word(f, &v, "j__"))) }
                        s.push_str("true,"); s };
                    let l = self.loops(&doms, &inv, body);
                    out.push_str(&l);
                }
                x => cur.push(x.clone()),
            }
        }
        if !cur.is_empty() { out.push_str(&self.expr(&cur)?); out.push('\n'); }
        Ok(out)
    }

    fn args(&self, t: &[S]) -> Vec<Vec<S>> {
        let mut v = vec![vec![]];
        for x in t { match x { S::Tok(s) if s == "," => v.push(vec![]), x => v.last_mut().unwrap().push(x.clone()) } }
        if v.last().unwrap().is_empty() { v.pop(); }
        v
    }

    /// the tokens of one statement or expression
    fn expr(&mut self, t: &[S]) -> R<String> {
        let mut out: Vec<String> = vec![];
        let mut i = 0;
        while i < t.len() {
            match &t[i] {
                S::Tok(n) if RESERVED.contains(&n.as_str()) => return Err(format!("the name {}", n)),
                S::Tok(n) if is_ident(n) && matches!(t.get(i + 1), Some(S::Tok(x)) if x == "!") && matches!(t.get(i + 2), Some(S::Group(..))) => {
                    let (d, g) = if let Some(S::Group(d, g)) = t.get(i + 2) { (*d, g.clone()) } else { unreachable!() };
                    if self.macros.contains_key(n) { out.push(self.call(n, g)?) }
                    else { match n.as_str() {
                        "assert" => { let a = self.args(&g); let c = self.expr(&a[0])?; out.push(format!("rt_assert({})", c)) }
                        "assert_eq" | "assert_ne" => { let a = self.args(&g); if a.len() < 2 { return Err("assert_eq!".into()) } let (x, y) = (self.expr(&a[0])?, self.expr(&a[1])?); out.push(format!("rt_assert(({}) {} ({}))", x, if n == "assert_eq" { "==" } else { "!=" }, y)) }
                        "panic" | "unreachable" => out.push("rt_panic()".into()),
                        "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => out.push("()".into()),
                        "vec" => match seq(&g) { Some(..) => out.push(self.list(&g)?), None => { let s = self.expr(&g)?; out.push(format!("vec![{}]", s)) } },
                        _ => return Err(format!("{}! ({})", n, d)),
                    } }
                    i += 2;
                }
                S::Tok(n) => out.push(n.clone()),
                S::Expr(e) => out.push(e.clone()),
                S::Group('{', g) => { let s = self.block(g)?; out.push(format!("{{ {} }}", s)) }
                S::Group('[', g) if seq(g).is_some() => {
                    if i > 0 && !matches!(&t[i - 1], S::Tok(x) if !is_ident(x) && !x.ends_with(|c: char| c.is_alphanumeric())) { return Err("an index".into()) }
                    out.push(self.list(g)?)
                }
                S::Group(d, g) => { let s = self.expr(g)?; out.push(format!("{}{}{}", d, s, if *d == '(' { ")" } else { "]" })) }
                S::Rep(_, None, _) => {
                    // LITERAL $( op X )*: the left operand is the literal in front of it
                    let (doms, body) = unnest(&t[i], &None);
                    let op = match body.first() { Some(S::Tok(o)) if ["+", "*"].contains(&o.as_str()) => o.clone(), _ => return Err("a repetition in an expression".into()) };
                    if i == 0 { return Err("a repetition without a left operand".into()) }
                    let lit = match &t[i - 1] { S::Tok(x) if x.chars().all(|c| c.is_ascii_digit()) => x.clone(), _ => return Err("a repetition after a longer operand".into()) };
                    if i > 1 && !matches!(&t[i - 2], S::Tok(x) if x == "=" || x == "," || x == "return" || CMP.contains(&x.as_str())) { return Err("a repetition after an operator".into()) }
                    if let Some(x) = t.get(i + 1) { if !matches!(x, S::Tok(y) if y == "," || y == "+" || CMP.contains(&y.as_str())) { return Err("a repetition before an operator".into()) } }
                    if !primary(&body[1..]) { return Err("an operand of a repetition".into()) }
                    for d in &doms { self.enter(d)? }
                    let sp = self.spec(&body[1..].to_vec()).ok().flatten();
                    let x = self.expr(&body[1..])?;
                    for _ in &doms { self.active.pop(); }
                    out.pop();
                    let one = op == "+" && sp.as_deref().map(|s| s.trim_matches(|c| c == '(' || c == ')' || c == ' ')) == Some("1");
                    let n = doms.len();
                    let (dd, li) = (doms.clone(), lit.clone());
                    let inv = move |k: usize| if !one { "true,".to_string() } else { format!("t__ == {} + {}, ", li, count(&dd[..=k], true, n)) };
                    let l = self.loops(&doms, &inv, format!("t__ = t__ {} {};", op, x));
                    out.push(format!("{{ let mut t__ = {};\n{} t__ }}", lit, l));
                }
                S::Rep(..) => return Err("a separated repetition in an expression".into()),
            }
            i += 1;
        }
        Ok(out.join(" "))
    }

    /// [ $( X ),* ]: the elements pushed in order
    fn list(&mut self, g: &[S]) -> R<String> {
        let (doms, body) = seq(g).unwrap();
        for d in &doms { self.enter(d)? }
        let sp = if doms.len() == 1 { self.spec(&body.to_vec()).ok().flatten() } else { None };
        let x = self.expr(&body)?;
        for _ in &doms { self.active.pop(); }
        let eval = x.trim_matches(|c| c == '(' || c == ')' || c == ' ').starts_with("evx(r__, c__, log__");
        let full = doms.len() == 2;
        let good = eval && full;
        let (v, shi) = (doms[0].var.clone(), doms[0].shi.clone());
        let inv = |k: usize| if let Some(f) = &sp { format!("v__@.len() == {}, (forall|j__: int| #![trigger lens__@[j__]] #![trigger v__@[j__]] 0 <= j__ < {} && j__ < {} ==> v__@[j__] == {}), ", v, v, shi, word(f, &v, "j__")) } else if !good { "true,".to_string() } else { format!("built(v__@, log__.t@), log__.t@ == evs(lens__@, r__ as int){}, ", if k == 1 { " + row(r__ as int, c__ as int)" } else { "" }) };
        let pre = if good { "proof { built_push(lens__@, v__@, log__.t@, r__ as int, c__ as int); } " } else { "" };
        let l = self.loops(&doms, &inv, format!("{}let x__ = {}; v__.push(x__);", pre, x));
        Ok(format!("{{ let mut v__ = Vec::new();\n{} {}v__ }}", l, if good { "proof { built_len(v__@, log__.t@); } " } else { "" }))
    }

    /// the value of a pure expression over numbers, as a spec expression; None if it is not one this knows
    fn spec(&mut self, t: &Vec<S>) -> R<Option<String>> {
        let mut out: Vec<String> = vec![];
        let mut i = 0;
        while i < t.len() {
            match &t[i] {
                S::Tok(n) if is_ident(n) && matches!(t.get(i + 1), Some(S::Tok(x)) if x == "!") && matches!(t.get(i + 2), Some(S::Group(..))) => {
                    let g = if let Some(S::Group(_, g)) = t.get(i + 2) { g.clone() } else { unreachable!() };
                    if !self.macros.contains_key(n) { return Ok(None) }
                    self.depth += 1;
                    if self.depth > 20 { return Err(format!("{}! recurses", n)) }
                    let o = self.expand(n, g)?;
                    self.depth -= 1;
                    match self.spec(&o)? { Some(s) => out.push(format!("({})", s)), None => return Ok(None) }
                    i += 2;
                }
                S::Tok(n) if is_ident(n) || n.chars().all(|c| c.is_ascii_digit()) || CMP.contains(&n.as_str()) || n == "&&" || n == "+" || n == "*" => out.push(n.clone()),
                S::Group('(', g) => match self.spec(g)? { Some(s) => out.push(format!("({})", s)), None => return Ok(None) },
                S::Group('{', g) if !g.iter().any(|x| matches!(x, S::Tok(t) if t == ";")) => match self.spec(g)? { Some(s) => out.push(format!("({})", s)), None => return Ok(None) },
                S::Rep(_, None, _) => {
                    let (doms, body) = unnest(&t[i], &None);
                    if !matches!(body.first(), Some(S::Tok(o)) if o == "+") { return Ok(None) }
                    let one = self.spec(&body[1..].to_vec())?;
                    if one.as_deref().map(|s| s.trim_matches(|c| c == '(' || c == ')' || c == ' ')) != Some("1") { return Ok(None) }
                    out.push(format!("+ {}", count(&doms, false, doms.len())));
                }
                _ => return Ok(None),
            }
            i += 1;
        }
        Ok(Some(out.join(" ")))
    }
}

/// how many index tuples come before the current one (`here`), or in all
fn count(doms: &[Dom], here: bool, total: usize) -> String {
    let rc = doms[0].var == "r__";
    match (rc, doms.len(), here, total) {
        (true, 1, true, 1) => "r__".into(),
        (true, 1, true, _) => "psum(lens__@, r__ as int)".into(),
        (true, 2, true, _) => "psum(lens__@, r__ as int) + c__".into(),
        (false, 1, true, _) => "c__".into(),
        (true, 1, false, _) => "lens__@.len()".into(),
        (true, _, false, _) => "psum(lens__@, lens__@.len() as int)".into(),
        _ => "lens__@[r__ as int]".into(),
    }
}

fn names(ts: TokenStream, out: &mut BTreeSet<String>) -> R<()> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => names(g.stream(), out)?,
            TokenTree::Ident(x) if x == "let" => {
                let mut k = i + 1;
                if matches!(v.get(k), Some(TokenTree::Ident(m)) if m == "mut") { k += 1 }
                match v.get(k) { Some(TokenTree::Ident(n)) => { out.insert(n.to_string()); } _ => return Err("a pattern in a let of a macro".into()) }
            }
            _ => {}
        }
    }
    Ok(())
}

/// does the body of a repetition consist of whole statements?
fn stmts(b: &[S]) -> bool {
    if let [S::Rep(_, None, c)] = b { return stmts(c) }
    matches!(b.last(), Some(S::Tok(t)) if t == ";") || matches!((b.first(), b.last()), (Some(S::Tok(t)), Some(S::Group('{', _))) if t == "if")
}

fn unnest(x: &S, sep: &Option<String>) -> (Vec<Dom>, Vec<S>) {
    let mut doms = vec![];
    let mut cur = vec![x.clone()];
    loop {
        let next = match &cur[..] { [S::Rep(d, s, b)] if s == sep => Some((d.clone(), b.clone())), _ => None };
        match next { Some((d, b)) => { doms.push(d); cur = b } None => return (doms, cur) }
    }
}

/// a whole list given by one repetition separated by commas
fn seq(g: &[S]) -> Option<(Vec<Dom>, Vec<S>)> {
    let g = if let [rest @ .., S::Tok(c)] = g { if c == "," { rest } else { g } } else { g };
    match g { [x @ S::Rep(_, Some(c), _)] if c == "," => Some(unnest(x, &Some(",".into()))), _ => None }
}

/// the conditions a statement sequence has checked when it is through
fn checked(b: &[S]) -> Vec<Vec<S>> {
    let mut out = vec![];
    let mut st: Vec<Vec<S>> = vec![vec![]];
    for x in b { match x { S::Tok(t) if t == ";" => st.push(vec![]), x => st.last_mut().unwrap().push(x.clone()) } }
    for s in st {
        match &s[..] {
            [S::Tok(a), S::Tok(e), S::Group(_, g)] if e == "!" && (a == "assert" || a == "assert_eq") => {
                let mut v: Vec<Vec<S>> = vec![vec![]];
                for x in g { match x { S::Tok(t) if t == "," => v.push(vec![]), x => v.last_mut().unwrap().push(x.clone()) } }
                if a == "assert" { out.push(v[0].clone()) } else if v.len() > 1 { out.push(vec![S::Group('(', v[0].clone()), S::Tok("==".into()), S::Group('(', v[1].clone())]) }
            }
            [S::Tok(i), cond @ .., S::Group('{', g)] if i == "if" && matches!(&g[..], [S::Tok(p), S::Tok(e), ..] if (p == "panic" || p == "unreachable") && e == "!") => {
                if let Some(k) = cond.iter().position(|x| matches!(x, S::Tok(t) if t == "!=")) { let mut c = cond.to_vec(); c[k] = S::Tok("==".into()); out.push(c) }
            }
            _ => {}
        }
    }
    out
}

fn primary(b: &[S]) -> bool {
    match b {
        [S::Tok(t)] => t.chars().all(|c| c.is_alphanumeric() || c == '_'),
        [S::Expr(_)] | [S::Group('(', _)] => true,
        [S::Tok(a), S::Tok(e), S::Group(..)] => is_ident(a) && e == "!",
        _ => false,
    }
}

fn word(s: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_alphanumeric() || c == '_' { cur.push(c) } else { out.push_str(if cur == from { to } else { &cur }); cur.clear(); out.push(c) }
    }
    out
}
