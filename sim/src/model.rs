//! A small template language of our own (syntax tree, printer, interpreter) that means what
//! templito's documentation says it means.  It shares no code with templito.
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    UInt(u64),
    Float(f64),
    Str(String),
    List(Vec<V>),
    Map(BTreeMap<String, V>),
    Tm(Arc<Tm>),
    Other(String),
}
#[derive(Debug)]
pub struct Tm {
    pub pn: Vec<String>,
    pub body: Vec<It>,
}
#[derive(Clone, Debug)]
pub enum P {
    N(usize),
    I(String),
}
#[derive(Clone, Debug)]
pub enum E {
    Lit(V),
    Var(Vec<P>),
    Cmd(String, Vec<E>),
    List(Vec<E>),
    Map(Vec<(String, E)>),
    /// filter over a list with a test evaluated for every element
    Filter(Box<E>, Box<E>),
}
#[derive(Clone, Debug)]
pub enum Pat {
    Any,
    Val(V),
    List(Vec<Pat>),
    Map(Vec<(String, Option<Pat>)>),
    Test(E),
    Cap(String, Option<Box<Pat>>),
}
#[derive(Clone, Debug)]
pub enum It {
    Text(String),
    Comment(String),
    Exp(E),
    Block(String, Vec<E>, Vec<It>),
    If(E, Vec<It>, Option<Vec<It>>, bool), // last: print the else part as elif
    For(String, String, E, Vec<It>),
    Define(String, Vec<String>, Vec<It>),
    Global(String, Vec<String>, Vec<It>),
    Let(Vec<(String, E)>),
    Export(Vec<(String, E)>),
    AtLet(String, Vec<It>),
    AtExport(String, Vec<It>),
    Return(E),
    Switch(E, Vec<(Vec<Pat>, Vec<It>)>),
    As(E, Pat, Vec<It>),
}

// ------------------------------------------------------------------ printing
fn qstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
pub fn plit(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::UInt(u) => u.to_string(),
        V::Float(f) => format!("{:?}", f),
        V::Str(s) => qstr(s),
        _ => panic!("no literal"),
    }
}
fn pvar(v: &[P]) -> String {
    let mut s = String::from("$");
    for (i, p) in v.iter().enumerate() {
        if i > 0 {
            s.push('.');
        }
        match p {
            P::N(n) => s.push_str(&n.to_string()),
            P::I(x) => s.push_str(x),
        }
    }
    s
}
pub fn pexp(e: &E) -> String {
    match e {
        E::Lit(v) => plit(v),
        E::Var(v) if v.len() == 1 && matches!(&v[0], P::I(x) if x == "@") => "@".into(),
        E::Var(v) => pvar(v),
        E::Cmd(..) | E::Filter(..) => format!("({})", ptop(e)),
        E::List(l) => format!("[{}]", l.iter().map(pexp).collect::<Vec<_>>().join(", ")),
        E::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", k, pexp(v))).collect::<Vec<_>>().join(", ")),
    }
}
/// without the outer parentheses of a call
pub fn ptop(e: &E) -> String {
    match e {
        E::Cmd(n, a) => {
            let mut s = n.clone();
            for x in a {
                s.push(' ');
                s.push_str(&pexp(x));
            }
            s
        }
        E::Filter(l, t) => format!("filter {} {}", pexp(l), qstr(&ptop(t))),
        e => pexp(e),
    }
}
fn ppat(p: &Pat) -> String {
    match p {
        Pat::Any => "_".into(),
        Pat::Val(v) => plit(v),
        Pat::List(l) => format!("[{}]", l.iter().map(ppat).collect::<Vec<_>>().join(", ")),
        Pat::Map(m) => format!(
            "{{{}}}",
            m.iter()
                .map(|(k, p)| match p {
                    None => k.clone(),
                    Some(p) => format!("{}: {}", k, ppat(p)),
                })
                .collect::<Vec<_>>()
                .join(", ")
        ),
        Pat::Test(e) => format!("?({})", ptop(e)),
        Pat::Cap(n, None) => format!("<{}>", n),
        Pat::Cap(n, Some(p)) => format!("<{}:{}>", n, ppat(p)),
    }
}
fn ptext(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if c == '{' || c == '\\' {
            r.push('\\');
        }
        r.push(c);
    }
    r
}
pub struct Printer {
    pub out: String,
    pub style: u64, // decides spelling variants that mean the same
    pub n: u64,
    /// where the last tag ended, if white space after it is trimmed
    trims: Option<usize>,
}
impl Printer {
    pub fn print(items: &[It], style: u64) -> String {
        let mut p = Printer { out: String::new(), style, n: 0, trims: None };
        p.items(items);
        p.out
    }
    fn v(&mut self, m: u64) -> u64 {
        self.n += 1;
        if self.style == 0 {
            return 0;
        }
        crate::tape::mix(self.style, self.n) % m
    }
    fn tag(&mut self, s: &str) {
        if self.v(8) == 1 && (self.trims.is_some() || !self.out.ends_with(char::is_whitespace)) {
            // trimmed white space before the tag
            let k = self.v(3) as usize;
            self.out.push_str([" ", "\n", "  \n\t"][k]);
            self.out.push_str("{{-");
        } else {
            self.out.push_str("{{");
        }
        if self.v(6) == 1 || s.starts_with('{') || s.starts_with('-') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        if s.ends_with('}') || self.v(6) == 1 {
            self.out.push(' ');
        }
        self.trims = None;
        if self.v(8) == 1 {
            self.trims = Some(self.out.len());
            self.out.push_str("-}}");
            let k = self.v(3) as usize;
            self.out.push_str([" ", "\n", " \n "][k]);
        } else {
            self.out.push_str("}}");
        }
    }
    fn assigns(v: &[(String, E)]) -> String {
        v.iter().map(|(k, e)| format!("{} = {}", k, pexp(e))).collect::<Vec<_>>().join("; ")
    }
    fn items(&mut self, items: &[It]) {
        for it in items {
            self.item(it);
        }
    }
    fn if_(&mut self, word: &str, c: &E, y: &[It], n: &Option<Vec<It>>, elif: bool) {
        self.tag(&format!("{} {}", word, ptop(c)));
        self.items(y);
        match n {
            None => self.tag("/if"),
            Some(n) => {
                if elif {
                    if let [It::If(c2, y2, n2, e2)] = &n[..] {
                        self.if_("elif", c2, y2, n2, *e2);
                        return;
                    }
                }
                self.tag("else");
                self.items(n);
                self.tag("/if");
            }
        }
    }
    fn item(&mut self, it: &It) {
        match it {
            It::Text(s) => {
                if let (Some(n), true) = (self.trims.take(), s.starts_with(char::is_whitespace)) {
                    self.out.truncate(n);
                    self.out.push_str("}}");
                }
                self.out.push_str(&ptext(s))
            }
            It::Comment(s) => self.tag(&format!("#{}#", s)),
            It::Exp(e) => {
                let s = ptop(e);
                self.tag(&s)
            }
            It::Block(c, ps, b) => {
                let mut s = format!("@{}", c);
                for p in ps {
                    s.push(' ');
                    s.push_str(&pexp(p));
                }
                self.tag(&s);
                self.items(b);
                self.tag(&format!("/{}", c));
            }
            It::If(c, y, n, elif) => self.if_("if", c, y, n, *elif),
            It::For(k, v, e, b) => {
                self.tag(&format!("for {} {} in {}", k, v, ptop(e)));
                self.items(b);
                self.tag("/for");
            }
            It::Define(n, pn, b) => {
                self.tag(&format!("define {} {}", n, pn.join(" ")));
                self.items(b);
                self.tag("/define");
            }
            It::Global(n, pn, b) => {
                self.tag(&format!("global {} {}", n, pn.join(" ")));
                self.items(b);
                self.tag("/global");
            }
            It::Let(v) => self.tag(&format!("let {}", Printer::assigns(v))),
            It::Export(v) => self.tag(&format!("export {}", Printer::assigns(v))),
            It::AtLet(n, b) => {
                self.tag(&format!("@let {}", n));
                self.items(b);
                self.tag("/let");
            }
            It::AtExport(n, b) => {
                self.tag(&format!("@export {}", n));
                self.items(b);
                self.tag("/export");
            }
            It::Return(e) => self.tag(&format!("return {}", ptop(e))),
            It::Switch(e, cs) => {
                self.tag(&format!("switch {}", ptop(e)));
                for (ps, b) in cs {
                    self.tag(&format!("case {}", ps.iter().map(ppat).collect::<Vec<_>>().join(" ")));
                    self.items(b);
                }
                self.tag("/switch");
            }
            It::As(e, p, b) => {
                self.tag(&format!("as {} : {}", pexp(e), ppat(p)));
                self.items(b);
                self.tag("/as");
            }
        }
    }
}

// ------------------------------------------------------------------ values
impl V {
    pub fn truth(&self) -> Option<bool> {
        match self {
            V::Bool(b) => Some(*b),
            V::Str(s) => Some(!s.is_empty()),
            V::UInt(u) => Some(*u > 0),
            V::Int(i) => Some(*i != 0),
            V::Float(f) => Some(*f != 0.0),
            V::List(l) => Some(!l.is_empty()),
            V::Map(m) => Some(!m.is_empty()),
            V::Null => Some(false),
            _ => None,
        }
    }
    pub fn index(&self) -> Option<usize> {
        match self {
            V::UInt(u) => Some(*u as usize),
            V::Int(i) if *i >= 0 => Some(*i as usize),
            _ => None,
        }
    }
    pub fn has_tm(&self) -> bool {
        match self {
            V::Tm(_) | V::Other(_) => true,
            V::List(l) => l.iter().any(|v| v.has_tm()),
            V::Map(m) => m.values().any(|v| v.has_tm()),
            _ => false,
        }
    }
    pub fn path(&self, p: &[P]) -> Option<V> {
        if p.is_empty() {
            return Some(self.clone());
        }
        match (self, &p[0]) {
            (V::Map(m), P::I(k)) => m.get(k)?.path(&p[1..]),
            (V::List(l), P::N(n)) => l.get(*n)?.path(&p[1..]),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            V::Bool(_) => "bool",
            V::Str(_) => "string",
            V::Int(_) => "int",
            V::UInt(_) => "uint",
            V::Float(_) => "float",
            V::List(_) => "list",
            V::Map(_) => "map",
            V::Tm(_) => "template",
            V::Null => "null",
            V::Other(_) => "other",
        }
    }
    fn rank(&self) -> u8 {
        match self {
            V::Null => 0,
            V::Tm(_) => 1,
            V::Map(_) => 2,
            V::List(_) => 3,
            V::Bool(_) => 4,
            V::Int(_) => 5,
            V::UInt(_) => 6,
            V::Float(_) => 8,
            V::Str(_) => 9,
            V::Other(_) => 10,
        }
    }
    pub fn show(&self) -> String {
        match self {
            V::Null => "NULL".into(),
            V::Bool(b) => b.to_string(),
            V::Int(i) => i.to_string(),
            V::UInt(i) => i.to_string(),
            V::Float(f) => f.to_string(),
            V::Str(s) => s.clone(),
            V::List(l) => format!("[{}]", l.iter().map(|v| v.show()).collect::<Vec<_>>().join(",")),
            V::Map(_) => {
                if let V::Map(m) = self {
                    format!("{{{}}}", m.iter().map(|(k, v)| format!("{:?}: {}", k, v.dbg())).collect::<Vec<_>>().join(", "))
                } else {
                    String::new()
                }
            }
            V::Tm(_) => "TEMPLATE".into(),
            V::Other(s) => s.clone(),
        }
    }
    fn dbg(&self) -> String {
        match self {
            V::Null => "Null".into(),
            V::Bool(b) => format!("Bool({})", b),
            V::Int(b) => format!("Int({})", b),
            V::UInt(b) => format!("UInt({})", b),
            V::Float(b) => format!("Float({:?})", b),
            V::Str(b) => format!("String({:?})", b),
            V::List(l) => format!("List([{}])", l.iter().map(|v| v.dbg()).collect::<Vec<_>>().join(", ")),
            V::Map(m) => format!("Map({{{}}})", m.iter().map(|(k, v)| format!("{:?}: {}", k, v.dbg())).collect::<Vec<_>>().join(", ")),
            V::Tm(_) => "Template".into(),
            V::Other(s) => s.clone(),
        }
    }
    fn json(&self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            V::Null | V::Tm(_) | V::Other(_) => J::Null,
            V::Bool(b) => J::Bool(*b),
            V::Int(i) => J::from(*i),
            V::UInt(i) => J::from(*i),
            V::Float(f) => J::from(*f),
            V::Str(s) => J::String(s.clone()),
            V::List(l) => J::Array(l.iter().map(|v| v.json()).collect()),
            V::Map(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), v.json())).collect()),
        }
    }
    fn num(&self) -> Option<f64> {
        match self {
            V::Int(i) => Some(*i as f64),
            V::UInt(i) => Some(*i as f64),
            V::Float(f) => Some(*f),
            _ => None,
        }
    }
}
/// the language's equality (lists and maps are never equal)
pub fn leq(a: &V, b: &V) -> bool {
    if let (Some(x), Some(y)) = (a.num(), b.num()) {
        return x == y;
    }
    match (a, b) {
        (V::Str(a), V::Str(b)) => a == b,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Null, V::Null) => true,
        _ => false,
    }
}
pub fn lcmp(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    if let (Some(x), Some(y)) = (a.num(), b.num()) {
        return x.partial_cmp(&y);
    }
    if let (V::Str(a), V::Str(b)) = (a, b) {
        return Some(a.cmp(b));
    }
    Some(a.rank().cmp(&b.rank()))
}
/// exactly the same value (templates: only that both are templates)
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Int(a), V::Int(b)) => a == b,
        (V::UInt(a), V::UInt(b)) => a == b,
        (V::Float(a), V::Float(b)) => a == b || a.is_nan() && b.is_nan(),
        (V::Str(a), V::Str(b)) => a == b,
        (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y)),
        (V::Tm(_), V::Tm(_)) => true,
        (V::Other(a), V::Other(b)) => a == b,
        _ => false,
    }
}

// ------------------------------------------------------------------ interpreter
#[derive(Debug)]
pub struct Fail;
pub type R<T> = Result<T, Fail>;

/// What the host provides: functions and the availability of templates.
pub trait Host {
    fn is_host(&self, f: &str) -> bool;
    fn call(&mut self, f: &str, args: &[V]) -> R<V>;
    fn down(&self, t: &str) -> bool;
}
pub enum Param {
    Val(V),
    /// a text or number of the host language: any further path is ignored
    Flat(V),
    /// a list of texts: anything after the index is ignored
    Texts(Vec<String>),
    /// two parameters in one: the second answers where the first does not
    Pair(V, V),
    /// one key, its value as a whole whatever follows, nothing by itself
    Key(String, V),
}
impl Param {
    pub fn get(&self, p: &[P]) -> Option<V> {
        match self {
            Param::Val(v) => v.path(p),
            Param::Flat(v) => Some(v.clone()),
            Param::Texts(l) => match p.first() {
                None => Some(V::List(l.iter().map(|s| V::Str(s.clone())).collect())),
                Some(P::N(n)) => l.get(*n).map(|s| V::Str(s.clone())),
                _ => None,
            },
            Param::Pair(a, b) => a.path(p).or_else(|| b.path(p)),
            Param::Key(k, v) => match p.first() {
                Some(P::I(x)) if x == k => Some(v.clone()),
                _ => None,
            },
        }
    }
}
pub struct Scope<'p> {
    params: &'p [Param],
    pn: &'p [String],
    pub maps: Vec<BTreeMap<String, V>>,
}
impl<'p> Scope<'p> {
    fn new(params: &'p [Param], pn: &'p [String]) -> Scope<'p> {
        Scope { params, pn, maps: vec![BTreeMap::new()] }
    }
    fn get(&self, p: &[P]) -> Option<V> {
        match &p[0] {
            P::N(n) => self.params.get(*n)?.get(&p[1..]),
            P::I(s) => {
                for m in self.maps.iter().rev() {
                    if let Some(v) = m.get(s) {
                        return v.path(&p[1..]);
                    }
                }
                let i = self.pn.iter().position(|x| x == s)?;
                self.params.get(i)?.get(&p[1..])
            }
        }
    }
    fn set(&mut self, k: &str, v: V) {
        self.maps.last_mut().unwrap().insert(k.into(), v);
    }
    fn root(&mut self, k: &str, v: V) {
        self.maps[0].insert(k.into(), v);
    }
}
pub struct M<'h> {
    pub host: &'h mut dyn Host,
    pub tm: BTreeMap<String, Arc<Tm>>,
    pub has_tm: bool,
    pub unsup: Option<&'static str>,
    pub fuel: i64,
    pub depth: usize,
    pub absorbed: u64,
    pub calls: u64, // of templates
}
pub const BUILTINS: &[&str] = &[
    "cat", "list", "map", "append", "len", "add", "sub", "mul", "min", "max", "eq", "neq", "eq_any", "gt", "lt", "gte", "lte", "and", "or", "nand", "nor",
    "get", "slice", "index_of", "split", "str_contains", "str_replace", "join_with", "is_null", "is_num", "type_of", "sort", "w_json", "groups",
];

fn weigh(v: &V, left: &mut i64) {
    if *left < 0 {
        return;
    }
    *left -= 10;
    match v {
        V::Str(s) => *left -= s.len() as i64,
        V::List(l) => l.iter().for_each(|x| weigh(x, left)),
        V::Map(m) => m.iter().for_each(|(k, x)| {
            *left -= k.len() as i64;
            weigh(x, left)
        }),
        _ => {}
    }
}
impl<'h> M<'h> {
    pub fn new(host: &'h mut dyn Host) -> M<'h> {
        M { host, tm: BTreeMap::new(), has_tm: true, unsup: None, fuel: 12000, depth: 0, absorbed: 0, calls: 0 }
    }
    fn no<T>(&mut self, w: &'static str) -> R<T> {
        self.unsup = Some(w);
        Err(Fail)
    }
    fn step(&mut self) -> R<()> {
        self.fuel -= 1;
        if self.fuel < 0 {
            return self.no("too long");
        }
        if self.unsup.is_some() {
            return Err(Fail);
        }
        Ok(())
    }
    fn text(&mut self, v: &V) -> R<String> {
        if let V::Map(m) = v {
            if m.values().any(|v| v.has_tm()) {
                return self.no("text of a map holding templates");
            }
        }
        if let V::List(l) = v {
            for x in l {
                self.text(x)?;
            }
        }
        let s = v.show();
        if s.len() > 20000 {
            return self.no("too much text");
        }
        Ok(s)
    }
    pub fn render(&mut self, t: &Tm, params: &[Param]) -> R<(String, BTreeMap<String, V>)> {
        self.depth += 1;
        if self.depth > 10 {
            return self.no("too deep");
        }
        let mut sc = Scope::new(params, &t.pn);
        let mut out = String::new();
        for i in &t.body {
            let s = self.item(i, &mut sc)?;
            out.push_str(&s);
            if out.len() > 40000 {
                return self.no("too much text");
            }
        }
        self.depth -= 1;
        Ok((out, sc.maps.swap_remove(0)))
    }
    /// exports that can be evaluated alone
    pub fn front(&mut self, t: &Tm) -> BTreeMap<String, V> {
        let mut sc = Scope::new(&[], &t.pn);
        self.has_tm = false;
        for i in &t.body {
            match i {
                It::Export(v) => {
                    for (k, e) in v {
                        match self.exp(e, &sc) {
                            Ok(x) => sc.root(k, x),
                            Err(_) => self.absorbed += 1,
                        }
                    }
                }
                It::AtExport(n, b) => {
                    let saved = sc.maps.clone();
                    let d = self.depth;
                    match self.block(b, &mut sc) {
                        Ok(s) => sc.root(n, V::Str(s)),
                        Err(_) => {
                            self.absorbed += 1;
                            self.depth = d;
                            sc.maps = saved;
                        }
                    }
                }
                _ => {}
            }
        }
        self.has_tm = true;
        sc.maps.swap_remove(0)
    }
    fn block(&mut self, b: &[It], sc: &mut Scope) -> R<String> {
        sc.maps.push(BTreeMap::new());
        let mut out = String::new();
        for i in b {
            let s = self.item(i, sc)?; // an error ends the whole render: the scope does not matter any more
            out.push_str(&s);
            if out.len() > 40000 {
                return self.no("too much text");
            }
        }
        sc.maps.pop();
        Ok(out)
    }
    fn item(&mut self, it: &It, sc: &mut Scope) -> R<String> {
        self.step()?;
        match it {
            It::Text(s) => Ok(s.clone()),
            It::Comment(_) => Ok(String::new()),
            It::Exp(e) => {
                let v = self.exp(e, sc)?;
                self.text(&v)
            }
            It::Let(v) => {
                for (k, e) in v {
                    let x = self.exp(e, sc)?;
                    sc.set(k, x);
                }
                Ok(String::new())
            }
            It::Export(v) => {
                for (k, e) in v {
                    let x = self.exp(e, sc)?;
                    sc.root(k, x);
                }
                Ok(String::new())
            }
            It::Return(e) => {
                let x = self.exp(e, sc)?;
                sc.root("return", x);
                Ok(String::new())
            }
            It::AtLet(n, b) => {
                let s = self.block(b, sc)?;
                sc.set(n, V::Str(s));
                Ok(String::new())
            }
            It::AtExport(n, b) => {
                let s = self.block(b, sc)?;
                sc.root(n, V::Str(s));
                Ok(String::new())
            }
            It::Define(n, pn, b) => {
                sc.set(n, V::Tm(Arc::new(Tm { pn: pn.clone(), body: b.clone() })));
                Ok(String::new())
            }
            It::Global(n, pn, b) => {
                if self.has_tm {
                    self.tm.insert(n.clone(), Arc::new(Tm { pn: pn.clone(), body: b.clone() }));
                }
                Ok(String::new())
            }
            It::If(c, y, n, _) => {
                let d = self.depth;
                let t = match self.exp(c, sc) {
                    Ok(v) => v.truth() == Some(true),
                    Err(_) => {
                        self.absorbed += 1;
                        self.depth = d;
                        false
                    }
                };
                if t {
                    self.block(y, sc)
                } else if let Some(n) = n {
                    self.block(n, sc)
                } else {
                    Ok(String::new())
                }
            }
            It::For(k, v, e, b) => {
                let l = self.exp(e, sc)?;
                let seq: Vec<(V, V)> = match l {
                    V::Map(m) => m.into_iter().map(|(k, v)| (V::Str(k), v)).collect(),
                    V::List(l) => l.into_iter().enumerate().map(|(i, v)| (V::UInt(i as u64), v)).collect(),
                    V::UInt(n) if n > 200 => return self.no("long loop"),
                    V::Int(n) if n > 200 => return self.no("long loop"),
                    V::UInt(n) => (0..n).map(|i| (V::UInt(i), V::UInt(i))).collect(),
                    V::Int(n) => (0..n.max(0)).map(|i| (V::UInt(i as u64), V::Int(i))).collect(),
                    _ => return Err(Fail),
                };
                let mut out = String::new();
                for (kk, vv) in seq {
                    sc.set(k, kk);
                    sc.set(v, vv);
                    let s = self.block(b, sc)?;
                    out.push_str(&s);
                    if out.len() > 40000 {
                        return self.no("too much text");
                    }
                }
                Ok(out)
            }
            It::Block(c, ps, b) => {
                let s = self.block(b, sc)?;
                let args = if ps.is_empty() {
                    vec![V::Str(s)]
                } else {
                    sc.set("@", V::Str(s));
                    let mut a = vec![];
                    for p in ps {
                        a.push(self.exp(p, sc)?);
                    }
                    a
                };
                let v = self.apply(c, args)?;
                self.text(&v)
            }
            It::Switch(e, cs) => {
                let v = self.exp(e, sc)?;
                for (ps, b) in cs {
                    for p in ps {
                        sc.maps.push(BTreeMap::new());
                        if self.pat(p, &v, sc) {
                            let s = self.block(b, sc)?;
                            sc.maps.pop();
                            return Ok(s);
                        }
                        sc.maps.pop();
                    }
                }
                Ok(String::new())
            }
            It::As(e, p, b) => {
                let v = self.exp(e, sc)?;
                sc.maps.push(BTreeMap::new());
                let mut s = String::new();
                if self.pat(p, &v, sc) {
                    s = self.block(b, sc)?;
                }
                sc.maps.pop();
                Ok(s)
            }
        }
    }
    fn pat(&mut self, p: &Pat, d: &V, sc: &mut Scope) -> bool {
        match p {
            Pat::Any => true,
            Pat::Val(v) => leq(v, d),
            Pat::List(ps) => match d {
                V::List(l) => ps.iter().enumerate().all(|(i, p)| i < l.len() && self.pat(p, &l[i], sc)),
                _ => false,
            },
            Pat::Map(ps) => match d {
                V::Map(m) => ps.iter().all(|(k, p)| match m.get(k) {
                    None => false,
                    Some(v) => match p {
                        None => {
                            sc.set(k, v.clone());
                            true
                        }
                        Some(p) => self.pat(p, v, sc),
                    },
                }),
                _ => false,
            },
            Pat::Cap(n, t) => {
                if let Some(t) = t {
                    if !self.pat(t, d, sc) {
                        return false;
                    }
                }
                sc.set(n, d.clone());
                true
            }
            Pat::Test(e) => {
                sc.maps.push(BTreeMap::new());
                sc.set("@", d.clone());
                let dp = self.depth;
                let r = self.exp(e, sc);
                sc.maps.pop();
                match r {
                    Ok(V::Bool(b)) => b,
                    Ok(_) => false,
                    Err(_) => {
                        self.absorbed += 1;
                        self.depth = dp;
                        false
                    }
                }
            }
        }
    }
    pub fn exp(&mut self, e: &E, sc: &Scope) -> R<V> {
        let v = self.exp1(e, sc)?;
        if let V::List(_) | V::Map(_) = &v {
            let mut left = 60_000;
            weigh(&v, &mut left);
            if left < 0 {
                return self.no("too much text");
            }
        }
        Ok(v)
    }
    fn exp1(&mut self, e: &E, sc: &Scope) -> R<V> {
        self.step()?;
        match e {
            E::Lit(v) => Ok(v.clone()),
            E::Var(p) => sc.get(p).ok_or(Fail),
            E::List(l) => {
                let mut r = vec![];
                for x in l {
                    r.push(self.exp(x, sc)?);
                }
                Ok(V::List(r))
            }
            E::Map(m) => {
                let mut r = BTreeMap::new();
                for (k, x) in m {
                    let v = self.exp(x, sc)?;
                    r.insert(k.clone(), v);
                }
                Ok(V::Map(r))
            }
            E::Filter(l, t) => {
                let l = self.exp(l, sc)?;
                let l = match l {
                    V::List(l) => l,
                    _ => return Err(Fail),
                };
                let mut r = vec![];
                let had = std::mem::replace(&mut self.has_tm, false);
                for x in l {
                    let p = [Param::Val(x.clone())];
                    let s2 = Scope::new(&p, &[]);
                    let d = self.depth;
                    match self.exp_pure(t, &s2) {
                        Ok(v) if v.truth() == Some(true) => r.push(x),
                        Ok(_) => {}
                        Err(_) => {
                            self.absorbed += 1;
                            self.depth = d;
                        }
                    }
                }
                self.has_tm = had;
                Ok(V::List(r))
            }
            E::Cmd(n, a) => self.cmd(n, a, sc),
        }
    }
    /// inside filter tests only the default functions exist
    fn exp_pure(&mut self, e: &E, sc: &Scope) -> R<V> {
        fn clean(e: &E, h: &dyn Host) -> bool {
            match e {
                E::Cmd(n, a) => !h.is_host(n) && a.iter().all(|x| clean(x, h)),
                E::List(l) => l.iter().all(|x| clean(x, h)),
                E::Map(m) => m.iter().all(|(_, x)| clean(x, h)),
                E::Filter(a, b) => clean(a, h) && clean(b, h),
                _ => true,
            }
        }
        if !clean(e, self.host) {
            return self.no("host function in a filter");
        }
        self.exp(e, sc)
    }
    fn cmd(&mut self, n: &str, a: &[E], sc: &Scope) -> R<V> {
        if n == "first" {
            for x in a {
                let d = self.depth;
                match self.exp(x, sc) {
                    Ok(V::Null) => {}
                    Ok(v) => return Ok(v),
                    Err(_) => {
                        if self.unsup.is_some() {
                            return Err(Fail);
                        }
                        self.absorbed += 1;
                        self.depth = d;
                    }
                }
            }
            return Ok(V::Null);
        }
        if n == "select" {
            if a.len() < 3 {
                return Err(Fail);
            }
            let c = self.exp(&a[0], sc)?;
            let i = match c.index() {
                Some(n) => n + 1,
                None => match c.truth() {
                    Some(true) => 1,
                    Some(false) => 2,
                    None => return Err(Fail),
                },
            };
            return match a.get(i) {
                Some(x) => self.exp(x, sc),
                None => Err(Fail),
            };
        }
        let mut v = vec![];
        for x in a {
            v.push(self.exp(x, sc)?);
        }
        if n == "run" {
            if let Some(V::Tm(t)) = v.first() {
                let t = t.clone();
                v.remove(0);
                return self.call_tm(&t, v);
            }
        }
        self.apply(n, v)
    }
    fn call_tm(&mut self, t: &Arc<Tm>, args: Vec<V>) -> R<V> {
        let p: Vec<Param> = args.into_iter().map(Param::Val).collect();
        self.calls += 1;
        let (s, mut ex) = self.render(t, &p)?;
        Ok(ex.remove("return").unwrap_or(V::Str(s)))
    }
    fn apply(&mut self, n: &str, args: Vec<V>) -> R<V> {
        if self.host.is_host(n) {
            return self.host.call(n, &args);
        }
        if BUILTINS.contains(&n) {
            return self.builtin(n, &args);
        }
        if !self.has_tm || self.host.down(n) {
            return Err(Fail);
        }
        match self.tm.get(n).cloned() {
            Some(t) => self.call_tm(&t, args),
            None => Err(Fail),
        }
    }
    fn fold(&mut self, n: &str, l: &[V]) -> R<V> {
        if l.is_empty() {
            return Err(Fail);
        }
        let mut r = l[0].clone();
        for b in &l[1..] {
            r = match (&r, b) {
                (V::UInt(a), V::UInt(b)) => match n {
                    "add" => a.checked_add(*b).map(V::UInt),
                    "mul" => a.checked_mul(*b).map(V::UInt),
                    "sub" => Some(if a >= b { V::UInt(a - b) } else { V::Int(*a as i64 - *b as i64) }),
                    "min" => Some(V::UInt(*a.min(b))),
                    _ => Some(V::UInt(*a.max(b))),
                },
                (x, y) if x.num().is_none() || y.num().is_none() => return Err(Fail),
                (V::Float(_), _) | (_, V::Float(_)) => {
                    let (a, b) = (r.num().unwrap(), b.num().unwrap());
                    Some(V::Float(match n {
                        "add" => a + b,
                        "mul" => a * b,
                        "sub" => a - b,
                        "min" => a.min(b),
                        _ => a.max(b),
                    }))
                }
                (x, y) => {
                    let f = |v: &V| match v {
                        V::Int(i) => *i,
                        V::UInt(u) => *u as i64,
                        _ => 0,
                    };
                    let (a, b) = (f(x), f(y));
                    match n {
                        "add" => a.checked_add(b).map(V::Int),
                        "mul" => a.checked_mul(b).map(V::Int),
                        "sub" => a.checked_sub(b).map(V::Int),
                        "min" => Some(V::Int(a.min(b))),
                        _ => Some(V::Int(a.max(b))),
                    }
                }
            }
            .ok_or(())
            .or_else(|_| self.no("overflow"))?;
            if let Some(f) = r.num() {
                if !(f.abs() < 1e12) {
                    return self.no("large number");
                }
            }
        }
        Ok(r)
    }
    pub fn builtin(&mut self, n: &str, a: &[V]) -> R<V> {
        use std::cmp::Ordering::*;
        let all = |f: &dyn Fn(&V) -> bool| -> R<V> { if a.is_empty() { Err(Fail) } else { Ok(V::Bool(a[1..].iter().all(|x| f(x)))) } };
        match n {
            "cat" => {
                let mut s = String::new();
                for v in a {
                    s.push_str(&self.text(v)?);
                }
                if s.len() > 20000 {
                    return self.no("too much text");
                }
                Ok(V::Str(s))
            }
            "list" => Ok(V::List(a.to_vec())),
            "append" => {
                let mut r = vec![];
                for v in a {
                    match v {
                        V::List(l) => r.extend(l.iter().cloned()),
                        v => r.push(v.clone()),
                    }
                }
                if r.len() > 500 {
                    return self.no("long list");
                }
                Ok(V::List(r))
            }
            "map" => {
                let mut m = BTreeMap::new();
                for p in a.chunks(2) {
                    if p.len() == 2 {
                        match &p[0] {
                            V::Str(s) => {
                                m.insert(s.clone(), p[1].clone());
                            }
                            _ => return Err(Fail),
                        }
                    }
                }
                Ok(V::Map(m))
            }
            "len" => Ok(V::UInt(a.iter().map(|v| match v {
                V::List(l) => l.len() as u64,
                V::Map(l) => l.len() as u64,
                V::Str(l) => l.len() as u64,
                _ => 1,
            }).sum())),
            "sub" if a.len() == 1 => match &a[0] {
                V::UInt(n) => Ok(V::Int(-(*n as i64))),
                V::Int(n) => Ok(V::Int(-n)),
                V::Float(n) => Ok(V::Float(-n)),
                _ => Err(Fail),
            },
            "add" | "sub" | "mul" | "min" | "max" => self.fold(n, a),
            "eq" => all(&|x| leq(x, &a[0])),
            "neq" => {
                if a.is_empty() {
                    return Err(Fail);
                }
                Ok(V::Bool(a[1..].iter().any(|x| !leq(x, &a[0]))))
            }
            "eq_any" => {
                if a.is_empty() {
                    return Err(Fail);
                }
                Ok(V::Bool(a[1..].iter().any(|x| leq(x, &a[0]))))
            }
            "gt" => all(&|x| lcmp(&a[0], x) == Some(Greater)),
            "lt" => all(&|x| lcmp(&a[0], x) == Some(Less)),
            "gte" => all(&|x| matches!(lcmp(&a[0], x), Some(Greater) | Some(Equal))),
            "lte" => all(&|x| matches!(lcmp(&a[0], x), Some(Less) | Some(Equal))),
            "and" => Ok(V::Bool(a.iter().all(|x| x.truth() == Some(true)))),
            "nand" => Ok(V::Bool(!a.iter().all(|x| x.truth() == Some(true)))),
            "or" => Ok(V::Bool(a.iter().any(|x| x.truth() == Some(true)))),
            "nor" => Ok(V::Bool(!a.iter().any(|x| x.truth() == Some(true)))),
            "get" => match a {
                [l, i] => {
                    let i = match i {
                        V::Int(n) if *n < 0 => V::UInt(u64::MAX),
                        V::Int(n) => V::UInt(*n as u64),
                        v => v.clone(),
                    };
                    match (l, &i) {
                        (V::List(l), V::UInt(n)) => Ok(l.get(*n as usize).cloned().unwrap_or(V::Null)),
                        (V::Str(s), V::UInt(n)) => s.get(*n as usize..).and_then(|s| s.chars().next()).map(|c| V::Str(c.to_string())).ok_or(Fail),
                        (V::Map(m), V::Str(s)) => Ok(m.get(s).cloned().unwrap_or(V::Null)),
                        _ => Err(Fail),
                    }
                }
                [] | [_] => self.no("get with too few arguments"),
                _ => Err(Fail),
            },
            "slice" => {
                let st = a.get(1).and_then(|v| v.index()).ok_or(Fail)?;
                let en = a.get(2).and_then(|v| v.index());
                match (&a[0], en) {
                    (V::List(l), Some(e)) => l.get(st..e).map(|s| V::List(s.to_vec())).ok_or(Fail),
                    (V::List(l), None) => l.get(st..).map(|s| V::List(s.to_vec())).ok_or(Fail),
                    (V::Str(l), Some(e)) => l.get(st..e).map(|s| V::Str(s.to_string())).ok_or(Fail),
                    (V::Str(l), None) => l.get(st..).map(|s| V::Str(s.to_string())).ok_or(Fail),
                    _ => Err(Fail),
                }
            }
            "index_of" => {
                if a.len() < 2 {
                    return Err(Fail);
                }
                if let V::List(l) = &a[1] {
                    if let Some(i) = l.iter().position(|x| leq(x, &a[0])) {
                        return Ok(V::UInt(i as u64));
                    }
                }
                Ok(V::Null)
            }
            "split" => {
                let s = match a.first() {
                    Some(V::Str(s)) => s,
                    _ => return Err(Fail),
                };
                let sep = match a.get(1) {
                    Some(V::Str(s)) => s.as_str(),
                    _ => "\n",
                };
                Ok(V::List(s.split(sep).map(|x| V::Str(x.to_string())).collect()))
            }
            "str_contains" => {
                if a.len() < 2 {
                    return Err(Fail);
                }
                let h = self.text(&a[0])?;
                let mut r = false;
                for x in &a[1..] {
                    let t = self.text(x)?;
                    r |= h.contains(&t);
                }
                Ok(V::Bool(r))
            }
            "str_replace" => {
                if a.len() < 3 {
                    return Err(Fail);
                }
                let (x, y, z) = (self.text(&a[0])?, self.text(&a[1])?, self.text(&a[2])?);
                let s = x.replace(&y, &z);
                if s.len() > 20000 {
                    return self.no("too much text");
                }
                Ok(V::Str(s))
            }
            "join_with" => {
                if a.len() < 2 {
                    return Err(Fail);
                }
                match &a[1] {
                    V::List(l) => {
                        let mut v = vec![];
                        for x in l {
                            v.push(self.text(x)?);
                        }
                        let sep = self.text(&a[0])?;
                        Ok(V::Str(v.join(&sep)))
                    }
                    _ => Err(Fail),
                }
            }
            "is_null" => a.first().map(|v| V::Bool(matches!(v, V::Null))).ok_or(Fail),
            "is_num" => a.first().map(|v| V::Bool(v.num().is_some())).ok_or(Fail),
            "type_of" => {
                let k = a.first().ok_or(Fail)?.kind();
                match a.get(1) {
                    Some(b) => {
                        let t = self.text(b)?;
                        Ok(V::Bool(t == k))
                    }
                    None => Ok(V::Str(k.into())),
                }
            }
            "sort" => {
                let mut r: Vec<V> = vec![];
                for v in a {
                    if let V::List(l) = v {
                        r.extend(l.iter().cloned());
                    }
                }
                r.sort_by(|a, b| lcmp(a, b).unwrap_or(Equal));
                Ok(V::List(r))
            }
            "w_json" => match a.len() {
                0 => Ok(V::Str("[]".into())),
                1 => Ok(V::Str(a[0].json().to_string())),
                _ => Ok(V::Str(V::List(a.to_vec()).json().to_string())),
            },
            "groups" => {
                let n = a.first().and_then(|v| v.index()).ok_or(Fail)?.max(1);
                match a.get(1) {
                    Some(V::List(l)) => Ok(V::List(l.chunks(n).map(|c| V::List(c.to_vec())).collect())),
                    _ => Err(Fail),
                }
            }
            _ => self.no("unknown builtin"),
        }
    }
}
