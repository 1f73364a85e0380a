//! hwscan SRC_DIR: the items of a crate as a graph, whatever the configuration: every cfg'd variant of every item is in it.
//! Output, one line each, tab separated:
//!   item   ID FILE FIRST LAST KIND          an item (a type with all its impls is one item, of several parts)
//!   edge   ID ID                            the item mentions the other
//!   unsafe ID FILE LINE WHAT                unsafe code in the item
//!   lint   FILE LINE WHAT MODULE            an override of the unsafe_code lint (MODULE: the out-of-line module it is for, or -)
//!   fn     FILE FIRST LAST                  extent of a function
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::{Attribute, File, Item, ItemUse, UseTree};

#[derive(Default)]
struct Module {
    file: String,
    items: Vec<(Item, bool)>,
    children: BTreeSet<String>,
    uses: Vec<(Vec<String>, Option<String>)>, // path, name it gets (None: glob)
}
type Mods = BTreeMap<Vec<String>, Vec<Module>>;

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.meta.to_token_stream().to_string().replace(' ', "");
        s == "cfg(test)" || s == "test"
    })
}
fn path_attr(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        let t: Vec<TokenTree> = flat(a.meta.to_token_stream());
        for w in t.windows(3) {
            if let (TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Literal(l)) = (&w[0], &w[1], &w[2]) {
                if i == "path" && p.as_char() == '=' {
                    out.push(l.to_string().trim_matches('"').to_string());
                }
            }
        }
    }
    out
}
/// The tokens, groups opened up (their delimiters left out).
fn flat(ts: TokenStream) -> Vec<TokenTree> {
    let mut out = vec![];
    for t in ts {
        if let TokenTree::Group(g) = &t {
            out.extend(flat(g.stream()));
        } else {
            out.push(t);
        }
    }
    out
}

struct Scan {
    mods: Mods,
    out: Vec<String>,
    root: PathBuf,
}
impl Scan {
    fn rel(&self, p: &Path) -> String {
        p.strip_prefix(&self.root).unwrap_or(p).display().to_string()
    }
    fn load(&mut self, file: &Path, path: Vec<String>, own_dir: &Path) {
        let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
        let ast: File = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
        let rel = self.rel(file);
        for a in &ast.attrs {
            self.lint(&rel, a, "-");
        }
        let base = file.parent().unwrap().to_path_buf();
        self.add(rel, ast.items, path, own_dir, &base, false);
    }
    fn add(&mut self, file: String, items: Vec<Item>, path: Vec<String>, dir: &Path, base: &Path, test: bool) {
        let mut m = Module { file: file.clone(), ..Default::default() };
        let todo: Vec<(Item, bool)> = items.into_iter().map(|i| (i, test)).collect();
        let mut i = 0;
        while i < todo.len() {
            let (it, t) = (todo[i].0.clone(), todo[i].1);
            i += 1;
            match it {
                Item::Mod(md) => {
                    let t = t || is_test(&md.attrs);
                    let name = md.ident.to_string();
                    let mut p = path.clone();
                    p.push(name.clone());
                    m.children.insert(name.clone());
                    for a in &md.attrs {
                        self.lint(&file, a, if md.content.is_none() { &name } else { "-" });
                    }
                    if let Some((_, its)) = md.content {
                        if t {
                            continue;
                        }
                        let d = dir.join(&name);
                        self.add(file.clone(), its, p, &d, &d, t);
                    } else if !t {
                        let pa = path_attr(&md.attrs);
                        let mut cands: Vec<(PathBuf, PathBuf)> = pa.iter().map(|x| { let f = base.join(x); let d = f.parent().unwrap().to_path_buf(); (f, d) }).collect();
                        cands.push((dir.join(format!("{name}.rs")), dir.join(&name)));
                        cands.push((dir.join(&name).join("mod.rs"), dir.join(&name)));
                        for (f, d) in cands {
                            if f.exists() {
                                self.load(&f, p.clone(), &d);
                            }
                        }
                    }
                }
                Item::Macro(mac) if mac.ident.is_none() && mac.mac.path.is_ident("include") => {
                    if let Ok(l) = syn::parse2::<syn::LitStr>(mac.mac.tokens.clone()) {
                        let f = base.join(l.value());
                        if let Ok(s) = std::fs::read_to_string(&f) {
                            if let Ok(a) = syn::parse_file(&s) {
                                let r = self.rel(&f);
                                self.add(r, a.items, path.clone(), dir, f.parent().unwrap(), t);
                            }
                        }
                    }
                }
                Item::Use(u) => {
                    let mut v = vec![];
                    flatten(&u.tree, vec![], &mut v);
                    m.uses.extend(v);
                    for a in &u.attrs {
                        self.lint(&file, a, "-");
                    }
                }
                it => m.items.push((it, t)),
            }
        }
        self.mods.entry(path).or_default().push(m);
    }
    fn lint(&mut self, file: &str, a: &Attribute, module: &str) {
        let ts: TokenStream = a.meta.to_token_stream();
        for (line, what) in overrides(ts) {
            self.out.push(format!("lint\t{file}\t{line}\t{what}\t{module}"));
        }
    }
}
fn flatten(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            flatten(&p.tree, v, out)
        }
        UseTree::Name(n) => {
            let mut v = pre;
            let s = n.ident.to_string();
            if s != "self" {
                v.push(s);
            }
            let l = v.last().cloned().unwrap_or_default();
            out.push((v, Some(l)))
        }
        UseTree::Rename(r) => {
            let mut v = pre;
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push((v, Some(r.rename.to_string())))
        }
        UseTree::Glob(_) => out.push((pre, None)),
        UseTree::Group(g) => {
            for x in &g.items {
                flatten(x, pre.clone(), out)
            }
        }
    }
}
/// allow / warn / expect of unsafe_code among the tokens of an attribute
fn overrides(ts: TokenStream) -> Vec<(usize, String)> {
    let mut out = vec![];
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            let inner = flat(g.stream());
            let lev = match i.checked_sub(1).map(|j| &v[j]) {
                Some(TokenTree::Ident(x)) => x.to_string(),
                _ => String::new(),
            };
            if ["allow", "warn", "expect"].contains(&lev.as_str()) {
                if let Some(x) = inner.iter().find(|x| matches!(x, TokenTree::Ident(y) if y == "unsafe_code")) {
                    out.push((x.span().start().line, format!("{lev}(unsafe_code)")));
                }
            } else {
                out.extend(overrides(g.stream()));
            }
        }
    }
    out
}
const FORBIDDEN_ATTRS: [&str; 3] = ["no_mangle", "export_name", "link_section"];
/// unsafe code among tokens: the keyword, attributes that the lint counts as such; overrides of the lint
fn unsafe_in(ts: TokenStream, out: &mut Vec<(usize, String)>, lints: &mut Vec<(usize, String)>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(x) if x == "unsafe" => {
                let next = match v.get(i + 1) {
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => "block".to_string(),
                    Some(t) => t.to_string(),
                    None => String::new(),
                };
                out.push((x.span().start().line, format!("unsafe {next}")));
            }
            TokenTree::Group(g) => {
                let attr = g.delimiter() == Delimiter::Bracket
                    && i > 0
                    && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '#' || p.as_char() == '!');
                if attr {
                    lints.extend(overrides(g.stream()));
                    for t in flat(g.stream()) {
                        if let TokenTree::Ident(x) = &t {
                            if FORBIDDEN_ATTRS.contains(&x.to_string().as_str()) {
                                out.push((x.span().start().line, format!("attribute {x}")));
                            }
                        }
                    }
                } else {
                    unsafe_in(g.stream(), out, lints)
                }
            }
            _ => {}
        }
    }
}

/// Paths (a::b::c, `$crate` as crate), methods called (.name) and use declarations among tokens.
#[derive(Default)]
struct Mentions {
    paths: BTreeSet<Vec<String>>,
    methods: BTreeSet<String>,
    uses: Vec<(Vec<String>, Option<String>)>,
}
fn mentions(ts: TokenStream, m: &mut Mentions) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => mentions(g.stream(), m),
            TokenTree::Ident(x) if x == "use" => {
                let mut j = i;
                while j < v.len() && !matches!(&v[j], TokenTree::Punct(p) if p.as_char() == ';') {
                    j += 1;
                }
                let ts: TokenStream = v[i..(j + 1).min(v.len())].iter().cloned().collect();
                if let Ok(u) = syn::parse2::<ItemUse>(ts) {
                    flatten(&u.tree, vec![], &mut m.uses);
                }
                i = j;
            }
            TokenTree::Ident(x) => {
                let dot = i > 0
                    && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.')
                    && !(i > 1 && matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == '.' && p.spacing() == Spacing::Joint));
                let mut path = vec![x.to_string().trim_start_matches("r#").to_string()];
                let mut j = i + 1;
                while j + 2 < v.len() + 0
                    && matches!(&v[j], TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == Spacing::Joint)
                    && matches!(&v[j + 1], TokenTree::Punct(p) if p.as_char() == ':')
                {
                    match &v[j + 2] {
                        TokenTree::Ident(y) => {
                            path.push(y.to_string());
                            j += 3;
                        }
                        _ => break,
                    }
                }
                if dot {
                    m.methods.insert(path[0].clone());
                } else {
                    m.paths.insert(path);
                }
                i = j - 1;
            }
            _ => {}
        }
        i += 1;
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Def {
    Mod(Vec<String>),
    Item(String),
}
struct Names {
    own: BTreeMap<Vec<String>, BTreeMap<String, BTreeSet<String>>>, // module -> name -> item ids
    macros: BTreeMap<String, BTreeSet<String>>,
    traits: BTreeMap<String, BTreeSet<String>>, // trait id -> its methods
}
impl Scan {
    fn lookup(&self, n: &Names, m: &[String], name: &str, seen: &mut BTreeSet<(Vec<String>, String)>) -> BTreeSet<Def> {
        let mut out = BTreeSet::new();
        if !seen.insert((m.to_vec(), name.to_string())) {
            return out;
        }
        if let Some(ids) = n.own.get(m).and_then(|x| x.get(name)) {
            out.extend(ids.iter().cloned().map(Def::Item));
        }
        for md in self.mods.get(m).into_iter().flatten() {
            if md.children.contains(name) {
                let mut p = m.to_vec();
                p.push(name.to_string());
                out.insert(Def::Mod(p));
            }
            for (path, asn) in &md.uses {
                match asn {
                    Some(x) if x == name => out.extend(self.path(n, m, path, seen)),
                    None => {
                        for d in self.path(n, m, path, seen) {
                            if let Def::Mod(p) = d {
                                out.extend(self.lookup(n, &p, name, seen));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        out
    }
    /// What a path written in module m means.
    fn path(&self, n: &Names, m: &[String], path: &[String], seen: &mut BTreeSet<(Vec<String>, String)>) -> BTreeSet<Def> {
        let mut cur: BTreeSet<Def> = BTreeSet::new();
        let mut i = 0;
        match path.first().map(|s| s.as_str()) {
            None => return cur,
            Some("crate") => {
                cur.insert(Def::Mod(vec![]));
                i = 1;
            }
            Some("self") => {
                cur.insert(Def::Mod(m.to_vec()));
                i = 1;
            }
            Some("super") => {
                let mut p = m.to_vec();
                while i < path.len() && path[i] == "super" {
                    p.pop();
                    i += 1;
                }
                cur.insert(Def::Mod(p));
            }
            Some(x) => {
                cur = self.lookup(n, m, x, seen);
                i = 1;
            }
        }
        while i < path.len() {
            let mut next = BTreeSet::new();
            for d in &cur {
                match d {
                    Def::Mod(p) => next.extend(self.lookup(n, p, &path[i], seen)),
                    d => {
                        next.insert(d.clone());
                    }
                }
            }
            cur = next;
            i += 1;
        }
        cur
    }
    fn traits_in_scope(&self, n: &Names, m: &[String]) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        if let Some(o) = n.own.get(m) {
            out.extend(o.values().flatten().filter(|i| n.traits.contains_key(*i)).cloned());
        }
        for md in self.mods.get(m).into_iter().flatten() {
            for (path, asn) in &md.uses {
                for d in self.path(n, m, path, &mut BTreeSet::new()) {
                    match d {
                        Def::Item(i) if n.traits.contains_key(&i) => {
                            out.insert(i);
                        }
                        Def::Mod(p) if asn.is_none() => {
                            if let Some(o) = n.own.get(&p) {
                                out.extend(o.values().flatten().filter(|i| n.traits.contains_key(*i)).cloned());
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        out
    }
}

fn name_of(it: &Item) -> Option<(String, &'static str)> {
    Some(match it {
        Item::Fn(x) => (x.sig.ident.to_string(), "fn"),
        Item::Const(x) => (x.ident.to_string(), "const"),
        Item::Static(x) => (x.ident.to_string(), "static"),
        Item::Struct(x) => (x.ident.to_string(), "type"),
        Item::Enum(x) => (x.ident.to_string(), "type"),
        Item::Union(x) => (x.ident.to_string(), "type"),
        Item::Type(x) => (x.ident.to_string(), "type"),
        Item::Trait(x) => (x.ident.to_string(), "trait"),
        Item::TraitAlias(x) => (x.ident.to_string(), "trait"),
        Item::Macro(x) => (x.ident.as_ref()?.to_string(), "macro"),
        _ => return None,
    })
}
fn attrs_of(it: &Item) -> &[Attribute] {
    match it {
        Item::Fn(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Union(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::ForeignMod(x) => &x.attrs,
        _ => &[],
    }
}
struct Fns<'a>(&'a str, Vec<String>);
impl Fns<'_> {
    fn tokens(&mut self, ts: TokenStream) {
        // fn NAME ... { ... }
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if matches!(&v[i], TokenTree::Ident(x) if x == "fn") && matches!(v.get(i + 1), Some(TokenTree::Ident(_)) | Some(TokenTree::Punct(_))) {
                let mut j = i + 1;
                while j < v.len() {
                    match &v[j] {
                        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                            self.1.push(format!("fn\t{}\t{}\t{}", self.0, v[i].span().start().line, g.span_close().end().line));
                            break;
                        }
                        TokenTree::Punct(p) if p.as_char() == ';' => break,
                        _ => j += 1,
                    }
                }
            }
            if let TokenTree::Group(g) = &v[i] {
                self.tokens(g.stream());
            }
            i += 1;
        }
    }
}

fn main() {
    let root = PathBuf::from(std::env::args().nth(1).expect("source directory"));
    let mut s = Scan { mods: BTreeMap::new(), out: vec![], root: root.parent().unwrap().to_path_buf() };
    s.load(&root.join("lib.rs"), vec![], &root);

    // names
    let mut n = Names { own: BTreeMap::new(), macros: BTreeMap::new(), traits: BTreeMap::new() };
    for (p, ms) in &s.mods {
        for m in ms {
            for (it, t) in &m.items {
                if *t || is_test(attrs_of(it)) {
                    continue;
                }
                if let Some((name, kind)) = name_of(it) {
                    let mut q = p.clone();
                    q.push(name.clone());
                    let id = if kind == "macro" { format!("{}!", q.join("::")) } else { q.join("::") };
                    if kind == "macro" {
                        n.macros.entry(name.clone()).or_default().insert(id.clone());
                    }
                    if let Item::Trait(tr) = it {
                        let e = n.traits.entry(id.clone()).or_default();
                        for x in &tr.items {
                            if let syn::TraitItem::Fn(f) = x {
                                e.insert(f.sig.ident.to_string());
                            }
                        }
                    }
                    n.own.entry(p.clone()).or_default().entry(name).or_default().insert(id);
                }
            }
        }
    }
    let mut out = vec![];
    let (mut nth, mut edges) = (0, BTreeSet::new());
    let mut ids: BTreeMap<String, (String, usize, usize, String)> = BTreeMap::new();
    for (p, ms) in &s.mods {
        let scope = s.traits_in_scope(&n, p);
        for m in ms {
            for (it, t) in &m.items {
                if *t || is_test(attrs_of(it)) {
                    continue;
                }
                let resolve = |path: &[String]| -> BTreeSet<String> {
                    s.path(&n, p, path, &mut BTreeSet::new()).into_iter().filter_map(|d| match d { Def::Item(i) => Some(i), _ => None }).collect()
                };
                let (a, b) = (it.span().start().line, it.span().end().line);
                // an impl belongs to its type, or to its trait if the type is not of this crate
                let mut owners: BTreeSet<String> = BTreeSet::new();
                let (id, kind) = match name_of(it) {
                    Some((name, kind)) => {
                        let mut q = p.clone();
                        q.push(name);
                        (if kind == "macro" { format!("{}!", q.join("::")) } else { q.join("::") }, kind)
                    }
                    None => {
                        nth += 1;
                        let k = if let Item::Impl(_) = it { "impl" } else { "other" };
                        (format!("{}::{}#{}", p.join("::"), k, nth), k)
                    }
                };
                match it {
                    Item::Impl(im) => {
                        let mut me = Mentions::default();
                        mentions(im.self_ty.to_token_stream(), &mut me);
                        for q in &me.paths {
                            owners.extend(resolve(q));
                        }
                        if owners.is_empty() {
                            if let Some((_, tr, _)) = &im.trait_ {
                                let mut me = Mentions::default();
                                mentions(tr.to_token_stream(), &mut me);
                                for q in &me.paths {
                                    owners.extend(resolve(q));
                                }
                            }
                        }
                    }
                    Item::Macro(x) if x.ident.is_none() => {
                        let mut me = Mentions::default();
                        mentions(x.mac.tokens.clone(), &mut me);
                        for q in &me.paths {
                            owners.extend(resolve(q));
                        }
                    }
                    _ => {}
                }
                let mut ts = it.to_token_stream();
                let mut more = vec![];
                includes(ts.clone(), &root.join("..").join(&m.file), &mut more);
                ts.extend(more);
                for o in owners {
                    edges.insert((o, id.clone()));
                }
                let (mut us, mut ls) = (vec![], vec![]);
                unsafe_in(ts.clone(), &mut us, &mut ls);
                for (l, w) in us {
                    out.push(format!("unsafe\t{id}\t{}\t{l}\t{w}", m.file));
                }
                for (l, w) in ls {
                    out.push(format!("lint\t{}\t{l}\t{w}\t-", m.file));
                }
                let mut me = Mentions::default();
                mentions(ts.clone(), &mut me);
                for q in &me.paths {
                    for y in resolve(q) {
                        edges.insert((id.clone(), y));
                    }
                    // macros are in scope by name, textually
                    if let Some(x) = n.macros.get(q.last().unwrap()) {
                        for y in x {
                            edges.insert((id.clone(), y.clone()));
                        }
                    }
                }
                for (path, asn) in &me.uses {
                    for d in s.path(&n, p, path, &mut BTreeSet::new()) {
                        match d {
                            Def::Item(y) => {
                                edges.insert((id.clone(), y));
                            }
                            Def::Mod(mp) => {
                                for (nm, ys) in n.own.get(&mp).into_iter().flatten() {
                                    if asn.is_none() || me.paths.iter().any(|q| q.contains(nm)) {
                                        for y in ys {
                                            edges.insert((id.clone(), y.clone()));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                for t in &scope {
                    if n.traits[t].iter().any(|f| me.methods.contains(f)) {
                        edges.insert((id.clone(), t.clone()));
                    }
                }
                edges.retain(|(x, y)| x != y);
                let mut f = Fns(&m.file, vec![]);
                f.tokens(it.to_token_stream());
                out.extend(f.1);
                ids.entry(id).or_insert((m.file.clone(), a, b, kind.to_string()));
            }
        }
    }
    for (id, (f, a, b, k)) in &ids {
        println!("item\t{id}\t{f}\t{a}\t{b}\t{k}");
    }
    for (x, y) in &edges {
        println!("edge\t{x}\t{y}");
    }
    for l in out.iter().chain(s.out.iter()) {
        println!("{l}");
    }
}
/// include!("file") inside an item
fn includes(ts: TokenStream, file: &Path, out: &mut Vec<TokenTree>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            if i >= 2 && matches!(&v[i - 2], TokenTree::Ident(x) if x == "include") {
                if let Ok(l) = syn::parse2::<syn::LitStr>(g.stream()) {
                    if let Ok(s) = std::fs::read_to_string(file.parent().unwrap().join(l.value())) {
                        if let Ok(t) = s.parse::<TokenStream>() {
                            out.extend(t);
                        }
                    }
                }
            }
            includes(g.stream(), file, out);
        }
    }
}
