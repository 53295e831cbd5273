//! D01, D02: the generated documentation.

use std::collections::{BTreeMap, BTreeSet};

use mabo_compiler as mc;
use mabo_parser::Schema as Ast;
use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};
use sk::{model::*, refs, render, valid};

use crate::{conv, md};

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "D01" => Check::new("D01", "the schema has at least two definitions and one module or comment")
            .part("documented_schemas", 40_000, 400_000, |s, c| documented(s, c, Kind::Words, false))
            .part("arbitrary_comments", 40_000, 400_000, |s, c| documented(s, c, Kind::Any, false))
            .part("large_schemas", 60, 1_200, |s, c| documented(s, c, Kind::Words, true)),
        "D02" => Check::new("D02", "the comments have at least three kinds of Markdown elements")
            .assume(&["Markdown is CommonMark with strikethrough, tables, bare links, task lists, superscript and footnotes, HTML in it being shown as text", "references to definitions stand outside the first block of a comment"])
            .part("markdown", 24_000, 300_000, |s, c| documented(s, c, Kind::Markdown, false)),
        _ => return None,
    })
}

// ---- a small HTML reader ----

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
}

const VOID: &[&str] = &["meta", "link", "br", "hr", "img", "input"];

fn unescape(t: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = t;
    while let Some(at) = rest.find('&') {
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        let end = rest.find(';').filter(|e| *e < 12).ok_or_else(|| format!("bare ampersand in {:?}", rest.chars().take(20).collect::<String>()))?;
        let name = &rest[1..end];
        match name {
            "lt" => out.push('<'),
            "gt" => out.push('>'),
            "amp" => out.push('&'),
            "quot" => out.push('"'),
            "apos" => out.push('\''),
            n => {
                let num = n.strip_prefix('#').ok_or_else(|| format!("unknown entity {n:?}"))?;
                let code = num.strip_prefix('x').map_or_else(|| num.parse().ok(), |h| u32::from_str_radix(h, 16).ok());
                out.push(code.and_then(char::from_u32).ok_or_else(|| format!("invalid entity {n:?}"))?);
            }
        }
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

fn tokens(html: &str) -> Result<Vec<Tok>, String> {
    let mut out = Vec::new();
    let mut rest = html.strip_prefix("<!DOCTYPE html>").ok_or("no document type")?;
    while !rest.is_empty() {
        if !rest.starts_with('<') {
            let end = rest.find('<').unwrap_or(rest.len());
            out.push(Tok::Text(unescape(&rest[..end])?));
            rest = &rest[end..];
            continue;
        }
        // a tag: quotes protect the closing bracket
        let mut quote = false;
        let end = rest
            .char_indices()
            .find(|(_, ch)| {
                quote ^= *ch == '"';
                *ch == '>' && !quote
            })
            .map(|(i, _)| i)
            .ok_or_else(|| format!("tag without end: {:?}", rest.chars().take(30).collect::<String>()))?;
        let tag = &rest[1..end];
        rest = &rest[end + 1..];
        if let Some(name) = tag.strip_prefix('/') {
            out.push(Tok::Close(name.to_owned()));
            continue;
        }
        if tag.starts_with("!--") {
            continue;
        }
        let tag = tag.strip_suffix('/').unwrap_or(tag);
        let (name, mut attrs) = tag.split_once(char::is_whitespace).unwrap_or((tag, ""));
        if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric()) {
            return Err(format!("no tag: <{tag}>"));
        }
        let mut list = Vec::new();
        loop {
            attrs = attrs.trim_start();
            if attrs.is_empty() {
                break;
            }
            let end = attrs.find(|c: char| c == '=' || c.is_whitespace()).unwrap_or(attrs.len());
            let key = attrs[..end].to_owned();
            attrs = &attrs[end..];
            let mut value = String::new();
            if let Some(v) = attrs.strip_prefix("=\"") {
                let end = v.find('"').ok_or_else(|| format!("attribute without end in <{tag}>"))?;
                value = unescape(&v[..end])?;
                attrs = &v[end + 1..];
            } else if attrs.starts_with('=') {
                return Err(format!("attribute without quotes in <{tag}>"));
            }
            list.push((key, value));
        }
        out.push(Tok::Open(name.to_owned(), list));
    }
    Ok(out)
}

/// Element tree.
#[derive(Debug, Default)]
struct Node {
    name: String,
    attrs: Vec<(String, String)>,
    kids: Vec<Kid>,
}

#[derive(Debug)]
enum Kid {
    Node(Node),
    Text(String),
}

impl Node {
    fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    fn has_class(&self, c: &str) -> bool {
        self.attr("class").is_some_and(|v| v.split(' ').any(|x| x == c))
    }
    fn text(&self) -> String {
        self.kids.iter().fold(String::new(), |a, k| {
            a + &match k {
                Kid::Node(n) => n.text(),
                Kid::Text(t) => t.clone(),
            }
        })
    }
    fn nodes(&self) -> impl Iterator<Item = &Node> {
        self.kids.iter().filter_map(|k| if let Kid::Node(n) = k { Some(n) } else { None })
    }
    fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        for n in self.nodes() {
            n.walk(f);
        }
    }
    fn all(&self, p: impl Fn(&Node) -> bool) -> Vec<&Node> {
        let mut out = Vec::new();
        self.walk(&mut |n| {
            if p(n) {
                out.push(n);
            }
        });
        out
    }
}

fn tree(html: &str) -> Result<Node, String> {
    let mut stack = vec![Node::default()];
    for t in tokens(html)? {
        match t {
            Tok::Text(t) => stack.last_mut().unwrap().kids.push(Kid::Text(t)),
            Tok::Open(name, attrs) => {
                let n = Node { name, attrs, kids: vec![] };
                if VOID.contains(&n.name.as_str()) { stack.last_mut().unwrap().kids.push(Kid::Node(n)) } else { stack.push(n) }
            }
            Tok::Close(name) => {
                let n = stack.pop().unwrap();
                if stack.is_empty() || n.name != name {
                    return Err(format!("</{name}> closes <{}>", n.name));
                }
                stack.last_mut().unwrap().kids.push(Kid::Node(n));
            }
        }
    }
    if stack.len() > 1 { Err(format!("<{}> is never closed", stack.last().unwrap().name)) } else { Ok(stack.pop().unwrap()) }
}

/// Elements and attributes that documentation may consist of; everything else can only stem from
/// markup that leaked out of the schema.
const ALLOWED: &[&str] = &[
    "html", "head", "meta", "link", "title", "body", "nav", "main", "div", "h1", "h2", "h3", "h4", "h5", "h6", "a", "span", "pre", "p", "code", "ul", "ol", "li", "table", "thead", "tbody", "tr", "td", "th",
    "strong", "em", "del", "sup", "section", "br", "hr", "img", "input", "blockquote",
];

fn words(t: &str) -> Vec<&str> {
    t.split_whitespace().collect()
}

// ---- the property ----

const WORDS: &[&str] = &["alpha", "lorem", "ipsum", "dolor", "the", "field", "Value", "counts", "x7", "überall", "日本語", "of", "a", "42nd", "word"];

fn plain_comment(s: &mut Src) -> Vec<String> {
    if s.coin() {
        return vec![];
    }
    (0..1 + s.len(3))
        .map(|_| {
            if s.chance(1, 5) {
                return String::new();
            }
            (0..1 + s.len(4)).map(|_| *s.pick(WORDS)).collect::<Vec<_>>().join(" ")
        })
        .collect()
}

fn recomment(s: &mut Src, d: &mut Def, plain_comment: &mut impl FnMut(&mut Src) -> Vec<String>) {
    let fields = |s: &mut Src, f: &mut Fields, plain_comment: &mut dyn FnMut(&mut Src) -> Vec<String>| {
        if let Fields::Named(l) = f {
            l.iter_mut().for_each(|f| f.comment = plain_comment(s));
        }
    };
    match d {
        Def::Mod { comment, defs, .. } => {
            *comment = plain_comment(s);
            defs.iter_mut().for_each(|d| recomment(s, d, plain_comment));
        }
        Def::Struct { comment, fields: f, .. } => {
            *comment = plain_comment(s);
            fields(s, f, plain_comment);
        }
        Def::Enum { comment, variants, .. } => {
            *comment = plain_comment(s);
            for v in variants {
                v.comment = plain_comment(s);
                fields(s, &mut v.fields, plain_comment);
            }
        }
        Def::Alias { comment, .. } | Def::Const { comment, .. } => *comment = plain_comment(s),
        Def::Use { .. } => {}
    }
}

/// What is documented where: file below the output directory, title and kind.
struct Page<'a> {
    def: Option<&'a Def>,
    defs: Option<&'a [Def]>,
    name: &'a str,
    /// Modules around the page, the schema first.
    path: Vec<&'a str>,
}

fn expected<'a>(dir: &str, path: &[&'a str], defs: &'a [Def], out: &mut BTreeMap<String, Page<'a>>) {
    for d in defs {
        let name = d.name();
        let page = |defs| Page { def: Some(d), defs, name, path: path.to_vec() };
        match d {
            Def::Mod { defs, .. } => {
                let mut inner = path.to_vec();
                inner.push(name);
                out.insert(format!("{dir}/{name}/index.html"), Page { path: inner.clone(), ..page(Some(defs.as_slice())) });
                expected(&format!("{dir}/{name}"), &inner, defs, out);
            }
            Def::Struct { .. } => drop(out.insert(format!("{dir}/struct.{name}.html"), page(None))),
            Def::Enum { .. } => drop(out.insert(format!("{dir}/enum.{name}.html"), page(None))),
            Def::Alias { .. } => drop(out.insert(format!("{dir}/alias.{name}.html"), page(None))),
            Def::Const { .. } => drop(out.insert(format!("{dir}/constant.{name}.html"), page(None))),
            Def::Use { .. } => {}
        }
    }
}

/// All files as the command line tool writes them.
fn collect<'a>(o: &'a mabo_doc::Output<'_>, parent: &str, out: &mut Vec<(String, &'a mabo_doc::Output<'a>)>) {
    out.push((format!("{parent}{}", o.file), o));
    for m in &o.modules {
        collect(m, &format!("{parent}{}/", o.name), out);
    }
}

/// Follow a relative link from a file.
fn follow(from: &str, href: &str) -> Option<String> {
    let mut at: Vec<&str> = from.split('/').collect();
    at.pop();
    for seg in href.split('/') {
        match seg {
            ".." => {
                at.pop()?;
            }
            "." | "" => {}
            s => at.push(s),
        }
    }
    Some(at.join("/"))
}

fn kind(d: &Def) -> &'static str {
    match d {
        Def::Mod { .. } => "Modules",
        Def::Struct { .. } => "Structs",
        Def::Enum { .. } => "Enums",
        Def::Alias { .. } => "Aliases",
        Def::Const { .. } => "Constants",
        Def::Use { .. } => "",
    }
}

fn file_of(d: &Def) -> String {
    let n = d.name();
    match d {
        Def::Mod { .. } => format!("{n}/index.html"),
        Def::Struct { .. } => format!("struct.{n}.html"),
        Def::Enum { .. } => format!("enum.{n}.html"),
        Def::Alias { .. } => format!("alias.{n}.html"),
        _ => format!("constant.{n}.html"),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Words,
    Any,
    Markdown,
}

/// What the comments of a schema have to be shown as.
enum Comments {
    Words,
    Any,
    Markdown(BTreeMap<Vec<String>, md::Md>),
}

impl Comments {
    fn shown(&self, at: Option<&Node>, comment: &[String], first: bool) -> Ret {
        match self {
            Self::Any => {}
            Self::Words => {
                let text = at.map(Node::text).unwrap_or_default();
                let want = if first { summary(comment) } else { all_words(comment) };
                ensure!(words(&text) == want, "the comment {comment:?} is shown as {text:?}");
            }
            Self::Markdown(marks) => {
                let none = md::Md::default();
                let md = if comment.is_empty() { &none } else { &marks[comment] };
                let want = if first { &md.first } else { &md.shown };
                let mut got = Vec::new();
                if let Some(n) = at {
                    elements(n, false, &mut got);
                }
                ensure!(got == *want, "the comment {comment:#?} is shown as\n  {}\ninstead of\n  {}", got.join(" "), want.join(" "));
            }
        }
        Ok(())
    }
}

/// Markup and text inside of an element, without what is only there for its looks.
fn elements(n: &Node, raw: bool, out: &mut Vec<String>) {
    for k in &n.kids {
        match k {
            Kid::Text(t) if raw => out.push(format!("|{t}")),
            Kid::Text(t) => out.extend(t.split_whitespace().map(str::to_owned)),
            Kid::Node(n) => {
                let mut tag = format!("<{}", n.name);
                for key in ["href", "src", "alt", "title", "start", "align", "type"] {
                    if let Some(v) = n.attr(key) {
                        tag += &format!(" {key}={v}");
                    }
                }
                if n.attr("checked").is_some() {
                    tag += " checked";
                }
                if let Some(lang) = n.attr("class").filter(|c| n.name == "code" && c.starts_with("language-")) {
                    tag += &format!(" class={lang}");
                }
                out.push(tag + ">");
                elements(n, raw || n.name == "pre", out);
                if !VOID.contains(&n.name.as_str()) {
                    out.push(format!("</{}>", n.name));
                }
            }
        }
    }
}

/// Words of the first paragraph.
fn summary(comment: &[String]) -> Vec<&str> {
    comment.iter().take_while(|l| !l.trim().is_empty()).flat_map(|l| l.split_whitespace()).collect()
}

fn all_words(comment: &[String]) -> Vec<&str> {
    comment.iter().flat_map(|l| l.split_whitespace()).collect()
}

fn without_comments(d: &Def) -> Def {
    fn fields(f: &mut Fields) {
        if let Some(l) = f.list_mut() {
            l.iter_mut().for_each(|f| f.comment.clear());
        }
    }
    let mut d = d.clone();
    match &mut d {
        Def::Struct { comment, fields: f, attrs, .. } => {
            comment.clear();
            attrs.clear();
            fields(f);
        }
        Def::Enum { comment, variants, attrs, .. } => {
            comment.clear();
            attrs.clear();
            for v in variants {
                v.comment.clear();
                fields(&mut v.fields);
            }
        }
        Def::Alias { comment, .. } | Def::Const { comment, .. } | Def::Mod { comment, .. } => comment.clear(),
        Def::Use { .. } => {}
    }
    d
}

fn documented(s: &mut Src, c: &mut Case, kind: Kind, large: bool) -> Ret {
    let decls = 1 + s.below(6);
    let mut m = valid::alone(s, valid::Opts { decls, comments: kind == Kind::Any, ..valid::ANY });
    let mut marks = BTreeMap::new();
    let mut kinds = BTreeSet::new();
    let mut new = |s: &mut Src| match kind {
        Kind::Words => plain_comment(s),
        _ => {
            let md = md::comment(s);
            kinds.extend(md.kinds.iter().copied());
            marks.insert(md.lines.clone(), md.clone());
            md.lines
        }
    };
    if kind != Kind::Any {
        m.comment = new(s);
        for d in &mut m.defs {
            recomment(s, d, &mut new);
        }
    }
    for k in &kinds {
        c.label(k);
    }
    let comments = &match kind {
        Kind::Words => Comments::Words,
        Kind::Any => Comments::Any,
        Kind::Markdown => Comments::Markdown(marks),
    };
    if large {
        c.label(sk::large::grow(s, &mut m, true));
    }
    // float literals take part, whatever the type
    if !refs::violations(&m).is_empty() {
        fail!("generator: invalid schema");
    }
    let stem = *s.pick(&["schema", "my-schema", "a", "types_v2", "v1.2", "a & b", "x<y"]);
    let text = render::plain(&m);
    c.show(|| format!("{stem}.mabo\n{text}"));
    c.key(&text);
    c.nontrivial(kinds.len() >= 3 || kind != Kind::Markdown && m.count() >= 2 && (m.defs.iter().any(|d| matches!(d, Def::Mod { .. }) || !d.comment().is_empty())));
    let file = format!("dir/{stem}.mabo");
    let ast = Ast::parse(&text, Some(file.as_ref())).map_err(|e| format!("does not parse: {e}"))?;
    let si = mc::simplify_schema(&ast);
    let opts = mabo_doc::Opts {};
    let out = no_panic(|| mabo_doc::render_schema(&opts, &si)).map_err(|p| format!("rendering panics: {p}"))?.map_err(|e| format!("rendering fails: {e}"))?;

    // one page per element, nothing else
    let sm = simplified(&m);
    let mut want = BTreeMap::new();
    want.insert(format!("{stem}/index.html"), Page { def: None, defs: Some(&sm.defs), name: stem, path: vec![stem] });
    expected(stem, &[stem], &sm.defs, &mut want);
    let mut files = Vec::new();
    collect(&out, "", &mut files);
    let mut got = BTreeMap::new();
    for (f, o) in &files {
        ensure!(got.insert(f.clone(), *o).is_none(), "the file {f} is written twice");
    }
    for f in want.keys() {
        ensure!(got.contains_key(f), "there is no page {f}, only {:?}", got.keys());
    }
    for f in got.keys() {
        ensure!(want.contains_key(f), "the page {f} documents nothing");
    }
    c.count("pages", got.len() as u64);

    let names = got.keys().map(String::as_str).collect::<Vec<_>>();
    for (file, page) in &want {
        let o = got[file];
        ensure!(o.name == page.name, "{file} is called {:?}", o.name);
        ensure!(o.path.iter().map(|p| &**p).eq(page.path.iter().copied()), "{file} has the path {:?}", o.path);
        let root = tree(&o.content).map_err(|e| format!("{file}: {e}"))?;
        let at = |e: String| format!("{file}: {e}");
        judge(&root, file, page, &sm, &names, comments).map_err(|f| at(f.msg))?;
    }
    Ok(())
}

fn judge(root: &Node, file: &str, page: &Page<'_>, m: &Schema, files: &[&str], comments: &Comments) -> Ret {
    // only what the templates and Markdown produce
    let mut bad = None;
    root.walk(&mut |n| {
        if !n.name.is_empty() && !ALLOWED.contains(&n.name.as_str()) {
            bad = Some(format!("unexpected element <{}>", n.name));
        }
        for (k, v) in &n.attrs {
            if k.starts_with("on") || v.trim_start().to_ascii_lowercase().starts_with("javascript:") {
                bad = Some(format!("unexpected attribute {k}={v:?}"));
            }
        }
    });
    if let Some(b) = bad {
        fail!("{b}");
    }
    let title = root.all(|n| n.name == "title");
    ensure!(title.len() == 1 && title[0].text().contains(page.name), "the title does not name {:?}", page.name);

    // links
    let up = "../".repeat(page.path.len());
    let css = root.all(|n| n.name == "link");
    ensure!(css.len() == 1 && css[0].attr("href") == Some(&format!("{up}assets/style.css")), "wrong style sheet {:?}", css.iter().map(|n| &n.attrs).collect::<Vec<_>>());
    let heads = root.all(|n| n.name == "h2" && n.all(|x| x.name == "a" || x.name == "span").len() > usize::from(page.def.is_none()));
    if page.def.is_some() {
        // the way back to the schema
        let Some(head) = heads.first() else { fail!("no heading") };
        let crumbs: Vec<(String, Option<String>)> =
            head.all(|n| n.name == "a").iter().map(|a| (a.text(), a.attr("href").and_then(|h| follow(file, h)))).collect();
        let around = if page.defs.is_some() { &page.path[..page.path.len() - 1] } else { &page.path[..] };
        let want: Vec<(String, Option<String>)> = (0..around.len()).map(|i| (around[i].to_owned(), Some(format!("{}/index.html", around[..=i].join("/"))))).collect();
        ensure!(crumbs == want, "the way back is {crumbs:?} instead of {want:?}");
        let shown = words(&head.text()).concat();
        ensure!(shown.ends_with(&page.name.to_owned()), "the heading is {shown:?}");
    }

    // contents
    let comment: &[String] = page.def.map_or(&m.comment, |d| d.comment());
    comments.shown(root.all(|n| n.has_class("markdown")).first().copied(), comment, false)?;
    if let Some(defs) = page.defs {
        return listing(root, file, defs, files, comments);
    }
    let Some(def) = page.def else { return Ok(()) };
    let pre = root.all(|n| n.name == "pre" && n.has_class("item-definition"));
    ensure!(pre.len() == 1, "{} definitions are shown", pre.len());
    let shown = pre[0].text();
    let again = Ast::parse(&shown, None).map_err(|e| format!("the shown definition {shown:?} does not parse: {e}"))?;
    let mut again = conv::from_ast(&again);
    // names of positional fields are not part of the schema language
    let mut want = without_comments(def);
    let anonymous = |f: &mut Fields| {
        if let Fields::Unnamed(l) = f {
            l.iter_mut().for_each(|f| f.name.clear());
        }
    };
    for d in again.defs.iter_mut().chain([&mut want]) {
        match d {
            Def::Struct { fields, .. } => anonymous(fields),
            Def::Enum { variants, .. } => variants.iter_mut().for_each(|v| anonymous(&mut v.fields)),
            _ => {}
        }
    }
    ensure!(again.defs.len() == 1 && again.defs[0] == want, "the definition is shown as {:?} instead of {want:?}", again.defs);

    match def {
        Def::Struct { fields, .. } => {
            let text = words(&root.text()).join(" ");
            let next = fields.list().iter().filter_map(|f| f.id).max();
            match (text.split_once("The next free ID is "), next) {
                (Some((_, t)), Some(n)) => {
                    let id: u64 = t.split(' ').next().and_then(|t| t.parse().ok()).unwrap_or(0);
                    ensure!(n == u32::MAX || id == u64::from(n) + 1, "the next free ID is given as {id}, but the largest is {n}");
                }
                (None, None) => {}
                (a, b) => fail!("next free ID: {:?}, largest {b:?}", a.map(|a| a.1)),
            }
            let shown = root.all(|n| n.name == "li" && n.has_class("field-definition"));
            fields_shown(&shown, fields, comments)?;
        }
        Def::Enum { variants, .. } => {
            let shown = root.all(|n| n.name == "li" && n.has_class("field-definition"));
            ensure!(shown.len() == variants.len(), "{} variants are shown instead of {}", shown.len(), variants.len());
            for (n, v) in shown.iter().zip(variants) {
                let code = n.nodes().find(|n| n.name == "code").map(|n| words(&n.text()).join(" "));
                let want = format!("{} @{}", v.name, v.id.unwrap());
                ensure!(code.as_deref() == Some(&want), "the variant {want} is shown as {code:?}");
                comments.shown(n.nodes().find(|n| n.has_class("markdown")), &v.comment, false).map_err(|e| format!("variant {}: {}", v.name, e.msg))?;
                let inner = n.all(|x| x.name == "li" && x.nodes().any(|c| c.name == "code" && c.nodes().any(|s| s.has_class("field-name"))));
                fields_shown(&inner, &v.fields, comments)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// The printed size of a type, with the lists in it told by their indentation.
fn size_elements(text: &str) -> Vec<String> {
    fn inline(t: &str, out: &mut Vec<String>) {
        for w in t.split_whitespace() {
            let marks = [("**", "strong"), ("`", "code"), ("_", "em")];
            match marks.iter().find_map(|(m, tag)| Some((tag, w.strip_prefix(m)?.strip_suffix(m)?))) {
                Some((tag, w)) => out.extend([format!("<{tag}>"), w.to_owned(), format!("</{tag}>")]),
                None => out.push(w.to_owned()),
            }
        }
    }
    let mut out = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    for (i, line) in text.lines().enumerate() {
        if i == 0 {
            out.push("<p>".to_owned());
            inline(line, &mut out);
            out.push("</p>".to_owned());
            continue;
        }
        let item = line.trim_start();
        let indent = line.len() - item.len();
        while open.last().is_some_and(|o| *o > indent) {
            open.pop();
            out.extend(["</li>".to_owned(), "</ul>".to_owned()]);
        }
        if open.last() == Some(&indent) {
            out.push("</li>".to_owned());
        } else {
            open.push(indent);
            out.push("<ul>".to_owned());
        }
        out.push("<li>".to_owned());
        inline(item.strip_prefix("- ").unwrap_or(item), &mut out);
    }
    open.iter().for_each(|_| out.extend(["</li>".to_owned(), "</ul>".to_owned()]));
    out
}

fn fields_shown(shown: &[&Node], fields: &Fields, comments: &Comments) -> Ret {
    ensure!(shown.len() == fields.list().len(), "{} fields are shown instead of {}", shown.len(), fields.list().len());
    for (n, f) in shown.iter().zip(fields.list()) {
        let Some(code) = n.nodes().find(|n| n.name == "code") else { fail!("no description of {}", f.name) };
        let part = |class: &str| code.all(|n| n.has_class(class)).first().map(|n| n.text()).unwrap_or_default();
        let (name, ty, id) = (part("field-name"), part("field-type"), part("field-id"));
        ensure!(name == f.name, "the field {} is called {name:?}", f.name);
        ensure!(id == format!("@{}", f.id.unwrap()), "the field {} has the ID {id:?} instead of {:?}", f.name, f.id);
        let alone = format!("struct A({ty})");
        let ast = Ast::parse(&alone, None).map_err(|_| format!("the field {} is shown with the type {ty:?}", f.name))?;
        match &conv::from_ast(&ast).defs[..] {
            [Def::Struct { fields: Fields::Unnamed(l), .. }] if l.len() == 1 && l[0].ty == f.ty => {}
            _ => fail!("the field {} is shown with the type {ty:?} instead of {}", f.name, render::ty_text(&f.ty)),
        }
        let sizes = n.nodes().any(|x| x.text().contains("The size range is:"));
        ensure!(sizes != matches!(f.ty, Ty::Ext { .. }), "size of the field {}: shown is {sizes}", f.name);
        if let mc::simplify::Definition::Struct(s) = &mc::simplify_schema(&ast).definitions[0] {
            if let Some(size) = mabo_meta::wire_size(&s.fields.fields[0].ty) {
                let mut text = String::new();
                size.print(&mut text, 0);
                let mut got = Vec::new();
                n.all(|n| n.has_class("markdown-sm")).iter().for_each(|n| elements(n, false, &mut got));
                let want = size_elements(&text);
                ensure!(got == want, "the size of the field {} is shown as\n  {}\ninstead of\n  {}", f.name, got.join(" "), want.join(" "));
            }
        }
        comments.shown(n.nodes().find(|n| n.has_class("markdown")), &f.comment, false).map_err(|e| format!("field {}: {}", f.name, e.msg))?;
    }
    Ok(())
}

/// Page of a module: every element is listed under its kind, in order, with its summary.
fn listing(root: &Node, file: &str, defs: &[Def], files: &[&str], comments: &Comments) -> Ret {
    let sections = root.all(|n| n.has_class("section"));
    for title in ["Modules", "Structs", "Enums", "Aliases", "Constants"] {
        let want: Vec<&Def> = defs.iter().filter(|d| kind(d) == title).collect();
        let rows: Vec<&Node> = sections
            .iter()
            .filter(|n| n.nodes().any(|h| h.name == "h3" && h.text().trim() == title))
            .flat_map(|n| n.nodes().filter(|n| n.name == "table").flat_map(Node::nodes))
            .collect();
        ensure!(rows.len() == want.len(), "{title}: {} are listed instead of {}", rows.len(), want.len());
        for (row, d) in rows.iter().zip(&want) {
            let cells: Vec<&Node> = row.nodes().collect();
            ensure!(cells.len() == 2, "{title}: a row has {} cells", cells.len());
            let links = cells[0].all(|n| n.name == "a");
            ensure!(links.len() == 1 && links[0].text().trim() == d.name(), "{title}: {:?} is listed instead of {:?}", cells[0].text(), d.name());
            let to = links[0].attr("href").and_then(|h| follow(file, h)).unwrap_or_default();
            let dir = file.rsplit_once('/').map_or("", |(d, _)| d);
            ensure!(to == format!("{dir}/{}", file_of(d)) && files.contains(&to.as_str()), "{title}: {} leads to {to}", d.name());
            comments.shown(Some(cells[1]), d.comment(), true).map_err(|e| format!("{title}: summary of {}: {}", d.name(), e.msg))?;
        }
    }
    Ok(())
}
