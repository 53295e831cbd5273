//! Turns a model into schema text, choosing freely among the layouts the language allows.

use pbt::Src;

use crate::model::*;

/// Layout choices: canonical, or drawn from a source.
pub enum Style<'a> {
    Plain,
    Free(&'a mut Src),
}

/// Place of an element, with the name of its kind.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mark {
    pub start: usize,
    pub end: usize,
    pub kind: &'static str,
    /// The element introduces the name.
    pub declares: bool,
}

/// A nested part of the text.
#[derive(Debug, Clone)]
pub struct Span {
    pub start: usize,
    pub end: usize,
    pub kind: &'static str,
}

pub struct Out<'a> {
    pub text: String,
    pub tokens: Vec<(usize, usize)>,
    /// Elements of the text, in order.
    pub marks: Vec<Mark>,
    /// Nested parts of the text, inner ones first.
    pub spans: Vec<Span>,
    open: Vec<usize>,
    style: Style<'a>,
}

const SPACE0: &[&str] = &["", " ", "", "  ", "\t", " \t "];
const SPACE1: &[&str] = &[" ", "  ", "\t", " \t"];
const WS0: &[&str] = &["", " ", "\n", "\n    ", "\t", "\r\n", "\n\n", "  \n\n\t"];
const WS1: &[&str] = &["\n", "\n\n", " ", "\n    ", "\r\n", "\t\n"];

impl Out<'_> {
    fn choose(&mut self, plain: &str, free: &[&str]) {
        let part = match &mut self.style {
            Style::Plain => plain.to_owned(),
            Style::Free(s) => {
                // mostly plain, so that shrunk texts stay readable
                if s.chance(2, 3) { plain.to_owned() } else { (*s.pick(free)).to_owned() }
            }
        };
        self.text.push_str(&part);
    }
    fn coin(&mut self) -> bool {
        match &mut self.style {
            Style::Plain => false,
            Style::Free(s) => s.chance(1, 3),
        }
    }
    fn below(&mut self, n: usize) -> usize {
        match &mut self.style {
            Style::Plain => 0,
            Style::Free(s) => if s.chance(2, 3) { 0 } else { s.below(n) },
        }
    }
    /// A token the grammar insists on at this place.
    fn tk(&mut self, s: &str) {
        let at = self.text.len();
        self.text.push_str(s);
        self.tokens.push((at, self.text.len()));
    }
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
    }
    /// An element: a name, literal or the like.
    fn el(&mut self, s: &str, kind: &'static str) {
        let start = self.text.len();
        self.text.push_str(s);
        self.marks.push(Mark { start, end: self.text.len(), kind, declares: false });
    }
    /// A name that is introduced here.
    fn decl(&mut self, s: &str, kind: &'static str) {
        self.el(s, kind);
        self.marks.last_mut().unwrap().declares = true;
    }
    /// A mandatory token that is an element.
    fn tke(&mut self, s: &str) {
        let start = self.text.len();
        self.tk(s);
        let kind = match s {
            "{" | "}" => "brace",
            "[" | "]" => "bracket",
            "(" | ")" => "parenthesis",
            "<" | ">" => "angle",
            "," => "comma",
            ":" => "colon",
            ";" => "semicolon",
            "::" => "doubleColon",
            "=" => "equal",
            _ => "keyword",
        };
        self.marks.push(Mark { start, end: self.text.len(), kind, declares: false });
    }
    fn comma(&mut self) {
        let start = self.text.len();
        self.put(",");
        self.marks.push(Mark { start, end: self.text.len(), kind: "comma", declares: false });
    }
    /// What was marked since then are no elements of their own.
    fn unmark(&mut self, from: usize) {
        self.marks.truncate(from);
    }
    fn sp0(&mut self, plain: &str) {
        self.choose(plain, SPACE0);
    }
    fn sp1(&mut self) {
        self.choose(" ", SPACE1);
    }
    fn ws0(&mut self, plain: &str) {
        self.choose(plain, WS0);
    }

    fn comment(&mut self, lines: &[String], indent: &str) {
        for l in lines {
            self.sp0(indent);
            let start = self.text.len();
            self.put("///");
            // one separating blank is not part of the text
            if l.starts_with(' ') || !self.coin() {
                self.put(" ");
            }
            self.put(l);
            self.marks.push(Mark { start, end: self.text.len(), kind: "comment", declares: false });
            self.put("\n");
        }
    }

    fn list<T>(&mut self, items: &[T], mut each: impl FnMut(&mut Self, &T)) {
        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                self.ws0("");
                self.tke(",");
                self.ws0(" ");
            } else {
                self.ws0("");
            }
            each(self, item);
        }
        if self.coin() {
            self.ws0("");
            self.comma();
        }
        self.ws0("");
    }

    pub fn ty(&mut self, t: &Ty) {
        self.within("type definition", |o| o.ty_text(t));
    }

    fn ty_text(&mut self, t: &Ty) {
        match t {
            Ty::Prim(p) => self.el(p, "builtinType"),
            Ty::Vec(t) => self.wrapped("vec", t),
            Ty::Set(t) => self.wrapped("hash_set", t),
            Ty::Opt(t) => self.wrapped("option", t),
            Ty::NonZero(t) => self.wrapped("non_zero", t),
            Ty::Map(k, v) => {
                self.text_map();
                self.ty(k);
                self.sp0("");
                self.tke(",");
                self.sp0(" ");
                self.ty(v);
                self.ws0("");
                self.tke(">");
            }
            Ty::Tuple(ts) => {
                self.tke("(");
                self.list(ts, |o, t| o.ty(t));
                self.tke(")");
            }
            Ty::Array(t, n) => {
                self.tke("[");
                self.ws0("");
                self.ty(t);
                self.ws0("");
                self.tke(";");
                self.ws0(" ");
                self.put(&n.to_string());
                self.ws0("");
                self.tke("]");
            }
            Ty::Ext { path, name, generics } => {
                for p in path {
                    self.el(p, "namespace");
                    self.tke("::");
                }
                self.el(name, "type");
                if !generics.is_empty() {
                    self.tke("<");
                    self.list(generics, |o, t| o.ty(t));
                    self.tke(">");
                }
            }
        }
    }

    fn text_map(&mut self) {
        let at = self.text.len();
        self.tk("hash_map<");
        self.marks.push(Mark { start: at, end: at + 8, kind: "builtinType", declares: false });
        self.marks.push(Mark { start: at + 8, end: at + 9, kind: "angle", declares: false });
    }

    fn wrapped(&mut self, name: &str, t: &Ty) {
        self.el(name, "builtinType");
        self.tke("<");
        self.ty(t);
        self.ws0("");
        self.tke(">");
    }

    pub fn lit(&mut self, l: &Lit) {
        let (start, from) = (self.text.len(), self.marks.len());
        self.within("literal", |o| o.lit_text(l));
        self.unmark(from);
        let kind = match l {
            Lit::Bool(_) => "boolean",
            Lit::Int(_) | Lit::Float(_) => "number",
            Lit::Str(_) => "string",
            Lit::Bytes(_) => "bytes",
        };
        self.marks.push(Mark { start, end: self.text.len(), kind, declares: false });
    }

    fn lit_text(&mut self, l: &Lit) {
        match l {
            Lit::Bool(b) => self.put(&b.to_string()),
            Lit::Int(i) => {
                if *i >= 0 {
                    match self.below(4) {
                        1 => self.put("+"),
                        2 => self.put("00"),
                        _ => {}
                    }
                }
                let mut t = i.to_string();
                if *i < 0 && self.below(6) == 1 {
                    t.insert(1, '0');
                }
                self.put(&t);
            }
            Lit::Float(f) => {
                let exp = self.below(3);
                let mut t = match exp {
                    0 => format!("{f:?}"),
                    1 => format!("{f:e}"),
                    _ => format!("{f:E}"),
                };
                if !t.contains('.') {
                    match t.find(['e', 'E']) {
                        Some(at) => t.insert_str(at, ".0"),
                        None => t.push_str(".0"),
                    }
                }
                if exp > 0
                    && let Some(at) = t.find(['e', 'E'])
                {
                    let digits = at + 1 + usize::from(t[at + 1..].starts_with('-'));
                    if self.below(5) == 1 {
                        t.insert(digits, '0');
                    }
                    if digits == at + 1 && self.below(2) == 1 {
                        t.insert(digits, '+');
                    }
                    if self.below(5) == 1 {
                        t.insert_str(at, "00");
                    }
                }
                if self.below(6) == 1 {
                    t.insert(usize::from(t.starts_with('-')), '0');
                }
                if !t.starts_with('-') && self.below(5) == 1 {
                    t.insert(0, '+');
                }
                self.put(&t);
            }
            Lit::Str(s) => {
                self.put("\"");
                for c in s.chars() {
                    if self.below(12) == 1 {
                        let gap = ["\\\n   ", "\\ ", "\\\t", "\\  \n\n\t", "\\\n"][self.below(5)];
                        self.put(gap);
                        // blanks and line breaks after the backslash are skipped, so the next
                        // character must not be one of them in raw form
                        if matches!(c, ' ' | '\t' | '\r' | '\n') {
                            self.put(&format!("\\u{{{:x}}}", c as u32));
                            continue;
                        }
                    }
                    let short = match c {
                        '\n' => Some("\\n"),
                        '\r' => Some("\\r"),
                        '\t' => Some("\\t"),
                        '\u{8}' => Some("\\b"),
                        '\u{c}' => Some("\\f"),
                        '/' => Some("\\/"),
                        '"' => Some("\\\""),
                        '\\' => Some("\\\\"),
                        _ => None,
                    };
                    let must = matches!(c, '"' | '\\');
                    match self.below(4) {
                        0 | 3 if !must => self.put(&c.to_string()),
                        1 | 0 | 3 if short.is_some() => self.put(short.unwrap()),
                        2 if !must || self.coin() => {
                            let u = if self.coin() { format!("\\u{{{:06X}}}", c as u32) } else { format!("\\u{{{:x}}}", c as u32) };
                            self.put(&u);
                        }
                        _ => match short {
                            Some(s) => self.put(s),
                            None => self.put(&c.to_string()),
                        },
                    }
                }
                self.put("\"");
            }
            Lit::Bytes(b) => {
                self.tke("[");
                let b = b.clone();
                self.list(&b, |o, v| o.put(&v.to_string()));
                self.tke("]");
            }
        }
    }

    fn id(&mut self, id: Option<u32>) {
        if let Some(id) = id {
            self.sp0(" ");
            let start = self.text.len();
            self.within("id", |o| {
                o.tk("@");
                o.put(&id.to_string());
            });
            self.marks.push(Mark { start, end: self.text.len(), kind: "identifier", declares: false });
        }
    }

    fn fields(&mut self, f: &Fields, indent: &str) {
        match f {
            Fields::Named(_) => self.sp0(" "),
            Fields::Unnamed(_) => self.sp0(""),
            Fields::Unit => {}
        }
        self.within("fields", |o| o.field_list(f, indent));
    }

    fn field_list(&mut self, f: &Fields, indent: &str) {
        match f {
            Fields::Named(list) => {
                self.tke("{");
                let inner = format!("{indent}    ");
                for (i, f) in list.iter().enumerate() {
                    if i > 0 {
                        self.ws0("");
                        self.tke(",");
                    }
                    self.ws0("\n");
                    self.comment(&f.comment, &inner);
                    self.sp0(&inner);
                    self.decl(&f.name, "property");
                    self.sp0("");
                    self.tke(":");
                    self.sp0(" ");
                    self.ty(&f.ty);
                    self.id(f.id);
                }
                if self.coin() {
                    self.ws0("");
                    self.comma();
                }
                self.ws0("\n");
                self.tke("}");
            }
            Fields::Unnamed(list) => {
                self.tke("(");
                self.list(list, |o, f| {
                    o.ty(&f.ty);
                    o.id(f.id);
                });
                self.tke(")");
            }
            Fields::Unit => {}
        }
    }

    fn generics(&mut self, g: &[String]) {
        if !g.is_empty() {
            self.within("generics", |o| {
                o.tke("<");
                o.list(g, |o, g| o.decl(g, "typeParameter"));
                o.tke(">");
            });
        }
    }

    fn attr_list(&mut self, list: &[Attr]) {
        for (i, a) in list.iter().enumerate() {
            if i > 0 {
                self.ws0("");
                self.tke(",");
                self.ws0(" ");
            } else {
                self.ws0("");
            }
            self.put(&a.name);
            match &a.value {
                AttrVal::Unit => {}
                AttrVal::Single(l) => {
                    self.sp0(" ");
                    self.tke("=");
                    self.sp0(" ");
                    self.lit(l);
                }
                AttrVal::Multi(m) => {
                    self.tke("(");
                    self.attr_list(m);
                    self.tke(")");
                }
            }
        }
        if self.coin() {
            self.comma();
        }
        self.ws0("");
    }

    fn attrs(&mut self, list: &[Attr]) {
        let from = self.marks.len();
        self.within("attribute", |o| o.attr_lists(list));
        self.unmark(from);
    }

    fn attr_lists(&mut self, list: &[Attr]) {
        let mut rest = list;
        while !rest.is_empty() {
            let n = if self.coin() { 1 + self.below(rest.len()) } else { rest.len() };
            self.tk("#[");
            self.attr_list(&rest[..n]);
            self.tke("]");
            self.put("\n");
            rest = &rest[n..];
        }
    }

    pub fn def(&mut self, d: &Def, indent: &str) {
        self.def_text(d, indent);
        let start = self.open.pop().unwrap();
        let kind = match d {
            Def::Mod { .. } => "mod",
            Def::Struct { .. } => "struct",
            Def::Enum { .. } => "enum",
            Def::Alias { .. } => "type",
            Def::Const { .. } => "const",
            Def::Use { .. } => "use",
        };
        self.spans.push(Span { start, end: self.text.len(), kind });
    }

    fn within(&mut self, kind: &'static str, f: impl FnOnce(&mut Self)) {
        let start = self.text.len();
        f(self);
        if self.text.len() > start {
            self.spans.push(Span { start, end: self.text.len(), kind });
        }
    }

    fn keyword(&mut self, s: &str) {
        self.open.push(self.text.len());
        self.tke(s);
    }

    fn def_text(&mut self, d: &Def, indent: &str) {
        self.comment(d.comment(), indent);
        match d {
            Def::Mod { name, defs, .. } => {
                self.sp0(indent);
                self.keyword("mod");
                self.sp1();
                self.decl(name, "namespace");
                self.sp0(" ");
                self.tke("{");
                self.all_defs(defs, &format!("{indent}    "));
                self.ws0("\n");
                self.tke("}");
            }
            Def::Struct { attrs, name, generics, fields, .. } => {
                self.attrs(attrs);
                self.sp0(indent);
                self.keyword("struct");
                self.sp1();
                self.decl(name, "struct");
                self.generics(generics);
                self.fields(fields, indent);
            }
            Def::Enum { attrs, name, generics, variants, .. } => {
                self.attrs(attrs);
                self.sp0(indent);
                self.keyword("enum");
                self.sp1();
                self.decl(name, "enum");
                self.generics(generics);
                self.sp0(" ");
                self.tke("{");
                let inner = format!("{indent}    ");
                for (i, v) in variants.iter().enumerate() {
                    if i > 0 {
                        self.ws0("");
                        self.tke(",");
                    }
                    self.ws0("\n");
                    self.comment(&v.comment, &inner);
                    self.sp0(&inner);
                    self.decl(&v.name, "enumMember");
                    self.fields(&v.fields, &inner);
                    self.id(v.id);
                }
                if self.coin() {
                    self.ws0("");
                    self.comma();
                }
                self.ws0("\n");
                self.tke("}");
            }
            Def::Alias { name, generics, target, .. } => {
                self.sp0(indent);
                self.keyword("type");
                self.sp1();
                self.decl(name, "typeAlias");
                self.generics(generics);
                self.sp0(" ");
                self.tke("=");
                self.sp0(" ");
                self.ty(target);
                self.sp0("");
                self.tke(";");
            }
            Def::Const { name, ty, value, .. } => {
                self.sp0(indent);
                self.keyword("const");
                self.sp1();
                self.decl(name, "variable");
                self.tke(":");
                self.sp0(" ");
                self.ty(ty);
                self.sp0(" ");
                self.tke("=");
                self.sp0(" ");
                self.lit(value);
                self.tke(";");
            }
            Def::Use { segments, element } => {
                self.sp0(indent);
                self.keyword("use");
                self.sp1();
                for (i, s) in segments.iter().enumerate() {
                    if i > 0 {
                        self.tke("::");
                    }
                    self.el(s, "namespace");
                }
                if let Some(e) = element {
                    self.tke("::");
                    self.el(e, "type");
                }
                self.tke(";");
            }
        }
    }

    fn all_defs(&mut self, defs: &[Def], indent: &str) {
        for (i, d) in defs.iter().enumerate() {
            if i == 0 {
                self.ws0("\n");
            } else if matches!(&defs[i - 1], Def::Struct { fields: Fields::Unit, .. }) {
                // only a line break or blank can end the name of a unit struct
                self.choose("\n", WS1);
            } else {
                self.ws0("\n");
            }
            self.def(d, indent);
        }
    }
}

/// Write the whole schema.
pub fn schema(m: &Schema, style: Style<'_>) -> String {
    with_tokens(m, style).0
}

/// The text together with the places of its mandatory tokens.
pub fn with_tokens(m: &Schema, style: Style<'_>) -> (String, Vec<(usize, usize)>) {
    let o = whole(m, style);
    (o.text, o.tokens)
}

fn whole<'a>(m: &Schema, style: Style<'a>) -> Out<'a> {
    let mut o = Out { text: String::new(), tokens: Vec::new(), marks: Vec::new(), spans: Vec::new(), open: Vec::new(), style };
    if !m.comment.is_empty() {
        o.ws0("");
        o.comment(&m.comment, "");
        o.put("\n");
    } else if !m.defs.is_empty() {
        o.ws0("");
    }
    o.all_defs(&m.defs, "");
    // a definition at the very end of the text needs no line break
    o.ws0("\n");
    o
}

/// The text together with the places of its elements.
pub fn with_marks(m: &Schema, style: Style<'_>) -> (String, Vec<Mark>) {
    let o = whole(m, style);
    (o.text, o.marks)
}

/// The text, its mandatory tokens and its nested parts, inner ones first.
pub fn with_spans(m: &Schema, style: Style<'_>) -> (String, Vec<(usize, usize)>, Vec<Span>) {
    let o = whole(m, style);
    (o.text, o.tokens, o.spans)
}

pub fn plain(m: &Schema) -> String {
    schema(m, Style::Plain)
}

pub fn ty_text(t: &Ty) -> String {
    let mut o = Out { text: String::new(), tokens: Vec::new(), marks: Vec::new(), spans: Vec::new(), open: Vec::new(), style: Style::Plain };
    o.ty(t);
    o.text
}

pub fn lit_text(l: &Lit) -> String {
    let mut o = Out { text: String::new(), tokens: Vec::new(), marks: Vec::new(), spans: Vec::new(), open: Vec::new(), style: Style::Plain };
    o.lit(l);
    o.text
}

pub fn def_text(d: &Def) -> String {
    let mut o = Out { text: String::new(), tokens: Vec::new(), marks: Vec::new(), spans: Vec::new(), open: Vec::new(), style: Style::Plain };
    o.def(d, "");
    o.text
}
