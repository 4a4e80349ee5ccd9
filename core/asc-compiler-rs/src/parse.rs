//! Reads AssemblyScript.

use crate::Error;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Int(u64),
    Float(f64),
    Str(String),
    P(&'static str),
    End,
}

const PUNCT: [&str; 52] = [
    ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "&&=", "||=", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=",
    "&=", "|=", "^=", "<<", ">>", "**", "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":",
];
const MORE: [&str; 3] = ["=", ".", "@"];

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// whether a new line begins before the token
    pub nl: Vec<bool>,
}

pub fn lex(s: &str) -> Result<Lexed, Error> {
    let c: Vec<char> = s.chars().collect();
    let (mut toks, mut nls, mut i, mut nl) = (vec![], vec![], 0, true);
    while i < c.len() {
        let ch = c[i];
        if ch == '\n' {
            nl = true;
        }
        if ch.is_whitespace() {
            i += 1;
            continue;
        }
        if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                nl |= c[i] == '\n';
                i += 1;
            }
            if i + 1 >= c.len() {
                return Err(Error::Syntax("unterminated comment".into()));
            }
            i += 2;
            continue;
        }
        nls.push(std::mem::take(&mut nl));
        if ch.is_alphabetic() || ch == '_' || ch == '$' {
            let b = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                i += 1;
            }
            toks.push(Tok::Id(c[b..i].iter().collect()));
            continue;
        }
        if ch.is_ascii_digit() {
            let b = i;
            if ch == '0' && matches!(c.get(i + 1), Some('x' | 'X')) {
                i += 2;
                while i < c.len() && (c[i].is_ascii_hexdigit() || c[i] == '_') {
                    i += 1;
                }
                let t: String = c[b + 2..i].iter().filter(|x| **x != '_').collect();
                toks.push(Tok::Int(u64::from_str_radix(&t, 16).map_err(|_| Error::Syntax("number".into()))?));
                continue;
            }
            let mut float = false;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '.' || (matches!(c[i], '+' | '-') && matches!(c[i - 1], 'e' | 'E'))) {
                float |= matches!(c[i], '.' | 'e' | 'E');
                i += 1;
            }
            let t: String = c[b..i].iter().filter(|x| **x != '_').collect();
            toks.push(if float {
                Tok::Float(t.parse().map_err(|_| Error::Syntax(format!("number {t}")))?)
            } else {
                Tok::Int(t.parse().map_err(|_| Error::Syntax(format!("number {t}")))?)
            });
            continue;
        }
        if matches!(ch, '"' | '\'' | '`') {
            let b = i + 1;
            i += 1;
            while i < c.len() && c[i] != ch {
                if c[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            if i >= c.len() {
                return Err(Error::Syntax("unterminated string".into()));
            }
            toks.push(Tok::Str(c[b..i].iter().collect()));
            i += 1;
            continue;
        }
        let Some(p) = PUNCT.iter().chain(&MORE).find(|p| p.chars().enumerate().all(|(k, x)| c.get(i + k) == Some(&x))) else {
            return Err(Error::Syntax(format!("character {ch:?}")));
        };
        i += p.chars().count();
        toks.push(Tok::P(p));
    }
    toks.push(Tok::End);
    nls.push(true);
    Ok(Lexed { toks, nl: nls })
}

#[derive(Clone, Debug, PartialEq)]
pub struct TyEx {
    pub name: String,
    pub args: Vec<TyEx>,
    pub array: usize,
}

#[derive(Clone, Debug)]
pub enum Ex {
    Int(u64),
    Float(f64),
    Str(#[allow(dead_code)] String),
    Bool(bool),
    Null,
    This,
    Name(String),
    Un(&'static str, Box<Ex>),
    /// ++ or --, before or after
    Inc(&'static str, bool, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Assign(Option<&'static str>, Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
    As(Box<Ex>, TyEx),
    Call(Box<Ex>, Option<Vec<TyEx>>, Vec<Ex>),
    Dot(Box<Ex>, String),
    New(TyEx, Vec<Ex>),
    Super(Vec<Ex>),
    Other(String),
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub ty: Option<TyEx>,
    pub init: Option<Ex>,
    pub constant: bool,
}

#[derive(Clone, Debug)]
pub enum St {
    Ex(Ex),
    Var(Vec<Var>),
    If(Ex, Box<St>, Option<Box<St>>),
    While(Ex, Box<St>),
    DoWhile(Box<St>, Ex),
    For(Option<Box<St>>, Option<Ex>, Option<Ex>, Box<St>),
    Switch(Ex, Vec<(Option<Ex>, Vec<St>)>),
    Block(Vec<St>),
    Return(Option<Ex>),
    Break,
    Continue,
    Throw,
    Empty,
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub tparams: Vec<String>,
    pub params: Vec<(String, TyEx)>,
    pub ret: Option<TyEx>,
    pub body: Option<Vec<St>>,
    pub export: bool,
    pub external: Option<(String, String)>,
    pub declare: bool,
    pub is_abstract: bool,
    pub is_static: bool,
}

#[derive(Clone, Debug)]
pub struct Class {
    pub name: String,
    pub base: Option<TyEx>,
    pub tparams: Vec<String>,
    pub fields: Vec<Var>,
    pub ctor: Option<Fun>,
    pub methods: Vec<Fun>,
    pub is_abstract: bool,
}

#[derive(Clone, Debug)]
pub enum Item {
    Fun(Fun),
    Class(Class),
    Enum(String, Vec<(String, Option<Ex>)>),
    Var(Vec<Var>, bool),
    St(St),
}

pub struct Parser {
    l: Lexed,
    i: usize,
    /// tokens that were split, as they were
    split: Vec<(usize, Tok)>,
}

type R<T> = Result<T, Error>;

impl Parser {
    pub fn new(s: &str) -> R<Parser> {
        Ok(Parser { l: lex(s)?, i: 0, split: vec![] })
    }
    fn peek(&self) -> &Tok {
        &self.l.toks[self.i.min(self.l.toks.len() - 1)]
    }
    fn at(&self, k: usize) -> &Tok {
        &self.l.toks[(self.i + k).min(self.l.toks.len() - 1)]
    }
    fn newline(&self) -> bool {
        self.l.nl[self.i.min(self.l.nl.len() - 1)]
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == p)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == w)
    }
    fn eat(&mut self, p: &str) -> bool {
        let y = self.is(p);
        self.i += usize::from(y);
        y
    }
    fn eatw(&mut self, w: &str) -> bool {
        let y = self.isw(w);
        self.i += usize::from(y);
        y
    }
    fn bad<T>(&self, what: &str) -> R<T> {
        let near: Vec<String> = (self.i.saturating_sub(4)..(self.i + 4).min(self.l.toks.len())).map(|k| format!("{:?}", self.l.toks[k])).collect();
        Err(Error::Syntax(format!("{what} expected, near {}", near.join(" "))))
    }
    fn want(&mut self, p: &'static str) -> R<()> {
        if self.eat(p) {
            return Ok(());
        }
        // `>>` that closes two lists
        if p == ">" {
            for (a, b) in [(">>", ">"), (">>>", ">>"), (">=", "="), (">>=", ">=")] {
                if self.is(a) {
                    let at = self.i;
                    let was = std::mem::replace(&mut self.l.toks[at], Tok::P(b));
                    self.split.push((at, was));
                    return Ok(());
                }
            }
        }
        self.bad(p)
    }
    fn id(&mut self) -> R<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            _ => {
                self.i -= 1;
                self.bad("name")
            }
        }
    }
    fn semi(&mut self) -> R<()> {
        if self.eat(";") || self.is("}") || self.newline() || *self.peek() == Tok::End {
            return Ok(());
        }
        self.bad(";")
    }

    fn ty(&mut self) -> R<TyEx> {
        let name = match self.peek() {
            Tok::Id(_) => self.id()?,
            _ => return self.bad("type"),
        };
        let mut args = vec![];
        if self.is("<") {
            args = self.tyargs()?;
        }
        let mut array = 0;
        while self.is("[") && matches!(self.at(1), Tok::P("]")) {
            self.i += 2;
            array += 1;
        }
        Ok(TyEx { name, args, array })
    }
    fn tyargs(&mut self) -> R<Vec<TyEx>> {
        self.want("<")?;
        let mut v = vec![];
        loop {
            v.push(self.ty()?);
            if !self.eat(",") {
                break;
            }
        }
        self.want(">")?;
        Ok(v)
    }
    fn tparams(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.eat("<") {
            while !self.is(">") {
                v.push(self.id()?);
                if self.eatw("extends") {
                    return Err(Error::Unsupported("bounded type parameter".into()));
                }
                if !self.eat(",") {
                    break;
                }
            }
            self.want(">")?;
        }
        Ok(v)
    }
    fn params(&mut self) -> R<Vec<(String, TyEx)>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.is(")") {
            if self.is("...") || matches!(self.peek(), Tok::Id(w) if matches!(w.as_str(), "private"|"public"|"protected"|"readonly") && matches!(self.at(1), Tok::Id(_))) {
                return Err(Error::Unsupported("kind of parameter".into()));
            }
            let n = self.id()?;
            if self.is("?") {
                return Err(Error::Unsupported("optional parameter".into()));
            }
            self.want(":")?;
            let t = self.ty()?;
            if self.is("=") {
                return Err(Error::Unsupported("default value".into()));
            }
            v.push((n, t));
            if !self.eat(",") {
                break;
            }
        }
        self.want(")")?;
        Ok(v)
    }

    pub fn program(&mut self) -> R<Vec<Item>> {
        let mut v = vec![];
        while *self.peek() != Tok::End {
            if self.eat(";") {
                continue;
            }
            v.push(self.item()?);
        }
        Ok(v)
    }

    fn item(&mut self) -> R<Item> {
        let mut external = None;
        while self.eat("@") {
            let n = self.id()?;
            let mut args = vec![];
            if self.eat("(") {
                while !self.is(")") {
                    match self.next() {
                        Tok::Str(s) => args.push(s),
                        _ => return Err(Error::Unsupported("decorator argument".into())),
                    }
                    if !self.eat(",") {
                        break;
                    }
                }
                self.want(")")?;
            }
            match (n.as_str(), args.len()) {
                ("external", 2) => external = Some((args[0].clone(), args[1].clone())),
                ("external", 1) => external = Some(("env".into(), args[0].clone())),
                ("inline" | "lazy" | "global" | "unsafe", 0) => (),
                _ => return Err(Error::Unsupported(format!("decorator {n}"))),
            }
        }
        let export = self.eatw("export");
        if export && (self.isw("default") || self.is("{") || self.is("*")) {
            return Err(Error::Unsupported("kind of export".into()));
        }
        let declare = self.eatw("declare");
        let is_abstract = self.isw("abstract") && matches!(self.at(1), Tok::Id(w) if w == "class") && self.eatw("abstract");
        if self.isw("function") {
            self.i += 1;
            let name = self.id()?;
            let mut f = self.rest_of_fun(name)?;
            f.export = export;
            f.external = external;
            f.declare = declare;
            if f.body.is_none() && !declare {
                return self.bad("function body");
            }
            return Ok(Item::Fun(f));
        }
        if self.eatw("class") {
            return self.class(is_abstract).map(Item::Class);
        }
        let constant_enum = self.isw("const") && matches!(self.at(1), Tok::Id(w) if w == "enum");
        if constant_enum {
            self.i += 1;
        }
        if self.eatw("enum") {
            let n = self.id()?;
            self.want("{")?;
            let mut v = vec![];
            while !self.is("}") {
                let k = self.id()?;
                let x = if self.eat("=") { Some(self.assign()?) } else { None };
                v.push((k, x));
                if !self.eat(",") {
                    break;
                }
            }
            self.want("}")?;
            return Ok(Item::Enum(n, v));
        }
        if self.isw("let") || self.isw("const") || self.isw("var") {
            if let St::Var(v) = self.stmt()? {
                return Ok(Item::Var(v, export));
            }
        }
        if self.isw("import") || self.isw("namespace") || self.isw("type") && matches!(self.at(1), Tok::Id(_)) || self.isw("interface") {
            return Err(Error::Unsupported("import, namespace, type or interface".into()));
        }
        if export || declare || external.is_some() {
            return self.bad("declaration");
        }
        self.stmt().map(Item::St)
    }

    fn rest_of_fun(&mut self, name: String) -> R<Fun> {
        let tparams = self.tparams()?;
        let params = self.params()?;
        let ret = if self.eat(":") { Some(self.ty()?) } else { None };
        let body = if self.is("{") {
            Some(self.block()?)
        } else {
            self.semi()?;
            None
        };
        Ok(Fun { name, tparams, params, ret, body, export: false, external: None, declare: false, is_abstract: false, is_static: false })
    }

    fn class(&mut self, is_abstract: bool) -> R<Class> {
        let name = self.id()?;
        let tparams = self.tparams()?;
        let base = if self.eatw("extends") { Some(self.ty()?) } else { None };
        if self.isw("implements") {
            return Err(Error::Unsupported("implements".into()));
        }
        self.want("{")?;
        let mut c = Class { name, base, tparams, fields: vec![], ctor: None, methods: vec![], is_abstract };
        while !self.is("}") {
            if self.eat(";") {
                continue;
            }
            let (mut abs, mut stat, mut ro) = (false, false, false);
            loop {
                let member = matches!(self.at(1), Tok::Id(_));
                match self.peek() {
                    Tok::P("@") => {
                        self.i += 1;
                        self.id()?;
                    }
                    Tok::Id(w) if member && matches!(w.as_str(), "private" | "protected" | "public" | "override") => self.i += 1,
                    Tok::Id(w) if member && w == "readonly" => {
                        ro = true;
                        self.i += 1;
                    }
                    Tok::Id(w) if member && w == "abstract" => {
                        abs = true;
                        self.i += 1;
                    }
                    Tok::Id(w) if member && w == "static" => {
                        stat = true;
                        self.i += 1;
                    }
                    Tok::Id(w) if member && matches!(w.as_str(), "get" | "set") => return Err(Error::Unsupported("accessor".into())),
                    _ => break,
                }
            }
            if self.is("[") {
                return Err(Error::Unsupported("index signature".into()));
            }
            let n = self.id()?;
            if self.is("(") || self.is("<") {
                let mut f = self.rest_of_fun(n.clone())?;
                f.is_abstract = abs;
                f.is_static = stat;
                if f.body.is_none() && !abs {
                    return self.bad("method body");
                }
                if n == "constructor" {
                    c.ctor = Some(f);
                } else {
                    c.methods.push(f);
                }
            } else {
                if stat {
                    return Err(Error::Unsupported("static field".into()));
                }
                self.eat("!");
                let ty = if self.eat(":") { Some(self.ty()?) } else { None };
                let init = if self.eat("=") { Some(self.expr()?) } else { None };
                self.semi()?;
                c.fields.push(Var { name: n, ty, init, constant: ro });
            }
        }
        self.want("}")?;
        Ok(c)
    }

    fn block(&mut self) -> R<Vec<St>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.is("}") {
            if *self.peek() == Tok::End {
                return self.bad("}");
            }
            v.push(self.stmt()?);
        }
        self.want("}")?;
        Ok(v)
    }

    fn vars(&mut self) -> R<Vec<Var>> {
        let constant = self.id()? == "const";
        let mut v = vec![];
        loop {
            if self.is("{") || self.is("[") {
                return Err(Error::Unsupported("destructuring".into()));
            }
            let name = self.id()?;
            let ty = if self.eat(":") { Some(self.ty()?) } else { None };
            let init = if self.eat("=") { Some(self.assign()?) } else { None };
            v.push(Var { name, ty, init, constant });
            if !self.eat(",") {
                return Ok(v);
            }
        }
    }

    fn stmt(&mut self) -> R<St> {
        if self.eat(";") {
            return Ok(St::Empty);
        }
        if self.is("{") {
            return Ok(St::Block(self.block()?));
        }
        let w = match self.peek() {
            Tok::Id(w) => w.clone(),
            _ => String::new(),
        };
        match w.as_str() {
            "let" | "const" | "var" => {
                let v = self.vars()?;
                self.semi()?;
                Ok(St::Var(v))
            }
            "if" => {
                self.i += 1;
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                let a = self.stmt()?;
                let b = if self.eatw("else") { Some(Box::new(self.stmt()?)) } else { None };
                Ok(St::If(c, Box::new(a), b))
            }
            "while" => {
                self.i += 1;
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                Ok(St::While(c, Box::new(self.stmt()?)))
            }
            "do" => {
                self.i += 1;
                let b = self.stmt()?;
                if !self.eatw("while") {
                    return self.bad("while");
                }
                self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                self.eat(";");
                Ok(St::DoWhile(Box::new(b), c))
            }
            "for" => {
                self.i += 1;
                self.want("(")?;
                let init = if self.eat(";") {
                    None
                } else if self.isw("let") || self.isw("const") || self.isw("var") {
                    let v = self.vars()?;
                    if self.isw("of") || self.isw("in") {
                        return Err(Error::Unsupported("for of".into()));
                    }
                    self.want(";")?;
                    Some(Box::new(St::Var(v)))
                } else {
                    let e = self.expr()?;
                    self.want(";")?;
                    Some(Box::new(St::Ex(e)))
                };
                let c = if self.is(";") { None } else { Some(self.expr()?) };
                self.want(";")?;
                let n = if self.is(")") { None } else { Some(self.expr()?) };
                self.want(")")?;
                Ok(St::For(init, c, n, Box::new(self.stmt()?)))
            }
            "switch" => {
                self.i += 1;
                self.want("(")?;
                let e = self.expr()?;
                self.want(")")?;
                self.want("{")?;
                let mut v = vec![];
                while !self.is("}") {
                    let k = if self.eatw("default") {
                        None
                    } else if self.eatw("case") {
                        Some(self.expr()?)
                    } else {
                        return self.bad("case");
                    };
                    self.want(":")?;
                    let mut b = vec![];
                    while !self.isw("case") && !self.isw("default") && !self.is("}") {
                        b.push(self.stmt()?);
                    }
                    v.push((k, b));
                }
                self.want("}")?;
                Ok(St::Switch(e, v))
            }
            "return" => {
                self.i += 1;
                let e = if self.is(";") || self.is("}") || self.newline() { None } else { Some(self.expr()?) };
                self.semi()?;
                Ok(St::Return(e))
            }
            "break" | "continue" => {
                self.i += 1;
                if matches!(self.peek(), Tok::Id(_)) && !self.newline() {
                    return Err(Error::Unsupported("label".into()));
                }
                self.semi()?;
                Ok(if w == "break" { St::Break } else { St::Continue })
            }
            "throw" => {
                self.i += 1;
                self.expr()?;
                self.semi()?;
                Ok(St::Throw)
            }
            "function" | "class" | "try" => Err(Error::Unsupported(format!("{w} as a statement"))),
            _ => {
                let e = self.expr()?;
                self.semi()?;
                Ok(St::Ex(e))
            }
        }
    }

    fn expr(&mut self) -> R<Ex> {
        let e = self.assign()?;
        if self.is(",") && !matches!(self.at(1), Tok::P("}" | ")")) {
            return Err(Error::Unsupported("comma".into()));
        }
        Ok(e)
    }

    fn assign(&mut self) -> R<Ex> {
        let a = self.cond()?;
        let op = match self.peek() {
            Tok::P("=") => None,
            Tok::P(p @ ("+=" | "-=" | "*=" | "/=" | "%=" | "&=" | "|=" | "^=" | "<<=" | ">>=" | ">>>=")) => {
                let t = &p[..p.len() - 1];
                PUNCT.iter().copied().find(|x| *x == t)
            }
            Tok::P("=>") => return Err(Error::Unsupported("arrow function".into())),
            _ => return Ok(a),
        };
        self.i += 1;
        let b = self.assign()?;
        Ok(Ex::Assign(op, Box::new(a), Box::new(b)))
    }

    fn cond(&mut self) -> R<Ex> {
        let c = self.bin(0)?;
        if !self.eat("?") {
            return Ok(c);
        }
        let a = self.assign()?;
        self.want(":")?;
        let b = self.assign()?;
        Ok(Ex::Cond(Box::new(c), Box::new(a), Box::new(b)))
    }

    fn level(op: &str) -> Option<u32> {
        Some(match op {
            "||" => 1,
            "&&" => 2,
            "|" => 3,
            "^" => 4,
            "&" => 5,
            "==" | "!=" | "===" | "!==" => 6,
            "<" | ">" | "<=" | ">=" => 7,
            "<<" | ">>" | ">>>" => 8,
            "+" | "-" => 9,
            "*" | "/" | "%" => 10,
            "**" => 11,
            _ => return None,
        })
    }

    fn bin(&mut self, min: u32) -> R<Ex> {
        let mut a = self.unary()?;
        loop {
            if self.isw("as") && min <= 7 {
                self.i += 1;
                let t = self.ty()?;
                a = Ex::As(Box::new(a), t);
                continue;
            }
            if self.isw("instanceof") || self.isw("in") {
                return Err(Error::Unsupported("instanceof".into()));
            }
            let Tok::P(p) = self.peek().clone() else { return Ok(a) };
            let Some(l) = Self::level(p) else { return Ok(a) };
            if l < min.max(1) {
                return Ok(a);
            }
            self.i += 1;
            let b = self.bin(l + 1)?;
            a = Ex::Bin(p, Box::new(a), Box::new(b));
        }
    }

    fn unary(&mut self) -> R<Ex> {
        match self.peek().clone() {
            Tok::P(p @ ("-" | "+" | "!" | "~")) => {
                self.i += 1;
                Ok(Ex::Un(p, Box::new(self.unary()?)))
            }
            Tok::P(p @ ("++" | "--")) => {
                self.i += 1;
                Ok(Ex::Inc(p, true, Box::new(self.unary()?)))
            }
            Tok::P("<") => {
                self.i += 1;
                let t = self.ty()?;
                self.want(">")?;
                let e = self.unary()?;
                Ok(Ex::As(Box::new(e), t))
            }
            Tok::Id(w) if w == "typeof" || w == "void" || w == "delete" => Err(Error::Unsupported(w)),
            _ => self.postfix(),
        }
    }

    fn args(&mut self) -> R<Vec<Ex>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.is(")") {
            v.push(self.assign()?);
            if !self.eat(",") {
                break;
            }
        }
        self.want(")")?;
        Ok(v)
    }

    fn postfix(&mut self) -> R<Ex> {
        let mut e = match self.next() {
            Tok::Int(n) => Ex::Int(n),
            Tok::Float(x) => Ex::Float(x),
            Tok::Str(s) => Ex::Str(s),
            Tok::P("(") => {
                let e = self.expr()?;
                self.want(")")?;
                if self.is("=>") {
                    return Err(Error::Unsupported("arrow function".into()));
                }
                e
            }
            Tok::P("[") => return Err(Error::Unsupported("array".into())),
            Tok::P("{") => return Err(Error::Unsupported("object".into())),
            Tok::Id(w) => match w.as_str() {
                "true" => Ex::Bool(true),
                "false" => Ex::Bool(false),
                "null" => Ex::Null,
                "this" => Ex::This,
                "super" => {
                    if self.is("(") {
                        Ex::Super(self.args()?)
                    } else {
                        return Err(Error::Unsupported("super".into()));
                    }
                }
                "new" => {
                    let t = self.ty()?;
                    let a = if self.is("(") { self.args()? } else { vec![] };
                    Ex::New(t, a)
                }
                "function" => return Err(Error::Unsupported("function expression".into())),
                "if" | "else" | "while" | "for" | "return" | "let" | "const" | "class" | "enum" | "export" | "case" | "default" | "switch" => {
                    self.i -= 1;
                    return self.bad("expression");
                }
                _ => Ex::Name(w),
            },
            _ => {
                self.i -= 1;
                return self.bad("expression");
            }
        };
        loop {
            if self.eat(".") {
                e = Ex::Dot(Box::new(e), self.id()?);
            } else if self.is("(") {
                let a = self.args()?;
                e = Ex::Call(Box::new(e), None, a);
            } else if self.is("<") && matches!(e, Ex::Name(_) | Ex::Dot(..)) {
                let (save, split) = (self.i, self.split.len());
                match self.tyargs() {
                    Ok(t) if self.is("(") => {
                        let a = self.args()?;
                        e = Ex::Call(Box::new(e), Some(t), a);
                    }
                    _ => {
                        self.i = save;
                        while self.split.len() > split {
                            let (k, t) = self.split.pop().expect("split");
                            self.l.toks[k] = t;
                        }
                        return Ok(e);
                    }
                }
            } else if self.is("[") {
                return Err(Error::Unsupported("indexing".into()));
            } else if self.is("!") && !self.newline() && !matches!(self.at(1), Tok::P("=" | "==")) {
                self.i += 1;
                e = Ex::Other("!".into());
            } else if (self.is("++") || self.is("--")) && !self.newline() {
                let Tok::P(p) = self.next() else { unreachable!() };
                e = Ex::Inc(p, false, Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
}
