//! L01–L04: the language server.

use std::{
    cell::RefCell,
    collections::HashMap,
    ops::Range,
    time::{Duration, Instant},
};

use pbt::{Case, Check, Fail, Ret, Src, ensure, fail};
use serde_json::{Value, json};
use sk::{
    defects,
    gen_,
    model::*,
    refs,
    render::{self, Mark, Style},
    valid,
};

use crate::{
    Scratch,
    lsp::{Server, Via, answer_to},
    text::{self, ENCS, Enc, Lines},
};

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "L01" => Check::new("L01", "at least two edits were made")
            .assume(&["documents have no carriage returns apart from line breaks (see KF-lone-cr)", "positions never lie within a character"])
            .part("edits", 12_000, 400_000, edits)
            .part("large_documents", 200, 4_000, large_edits)
            .probe("KF-lone-cr", lone_cr),
        "L02" => Check::new("L02", "the schema has at least two definitions")
            .part("answers", 10_000, 400_000, answers)
            .part("errors", 10_000, 400_000, errors)
            .part("large_documents", 160, 3_000, large_answers)
            .part("settings", 200, 8_000, settings)
            .part("encodings", 150, 6_000, encodings),
        "L03" => Check::new("L03", "at least one message is out of the ordinary").part("abuse", 8_000, 300_000, abuse).part("workspace", 3_000, 60_000, workspace),
        "L04" => Check::new("L04", "a message was sent before the server had all answers").part("order", 500, 15_000, order).part("late", 48, 1_000, late),
        "L05" => Check::new("L05", "the client ends while messages or answers are under way").part("ending", 1_000, 8_000, ending),
        _ => return None,
    })
}

// ---- servers ----

thread_local! {
    static POOL: RefCell<HashMap<(Enc, Via), Server>> = RefCell::new(HashMap::new());
}

/// Run a case on a server that is used by many cases, each with documents of its own.
fn with<T>(enc: Enc, via: Via, f: impl FnOnce(&mut Server, &str) -> Result<T, Fail>) -> Result<T, Fail> {
    let mut server = match POOL.with_borrow_mut(|p| p.remove(&(enc, via))) {
        Some(s) => s,
        None => Server::start(enc, via)?,
    };
    server.used += 1;
    let base = format!("file:///case{}/", server.used);
    let r = f(&mut server, &base)?;
    if server.used < 500 {
        POOL.with_borrow_mut(|p| p.insert((enc, via), server));
    } else {
        server.shutdown()?;
    }
    Ok(r)
}

fn pos((line, character): (u64, u64)) -> Value {
    json!({"line": line, "character": character})
}

fn full(text: &str) -> Value {
    json!({"text": text})
}

fn get_pos(v: &Value) -> Result<(u64, u64), Fail> {
    match (v["line"].as_u64(), v["character"].as_u64()) {
        (Some(l), Some(c)) => Ok((l, c)),
        _ => fail!("{v} is no position"),
    }
}

/// The bytes of a range.
fn get_range(text: &str, v: &Value, enc: Enc) -> Result<Range<usize>, Fail> {
    range_in(&Lines::new(text), v, enc)
}

fn range_in(lines: &Lines, v: &Value, enc: Enc) -> Result<Range<usize>, Fail> {
    let (start, end) = (get_pos(&v["start"])?, get_pos(&v["end"])?);
    match (lines.offset(start, enc), lines.offset(end, enc)) {
        (Some(a), Some(b)) if a <= b => Ok(a..b),
        _ => fail!("range {v} is not within the text ({})", enc.name()),
    }
}

// ---- texts ----

const BITS: &[&str] = &[
    "struct A", "struct B(u8)\n", "enum E { A, B }\n", "mod m {", "}", "{", "/// ä comment 😀\n", "/// x\r\n", "u8", "string", "a: u8, ", "é", "😀", "\u{301}", "\u{2028}", "\n", "\r\n", "\n\n", " ", "", ",", ":",
    "@1", "const A: u8 = 1;\n", "type T = u8;\n", "use a::B;\n", "x", "Foo", "漢字", "\u{b}", "\u{85}", "\u{c}",
];

fn schema_text(s: &mut Src) -> String {
    let m = if s.chance(1, 3) { gen_::wild_schema(s, &gen_::FULL) } else { one(s) };
    text::tidy(&if s.coin() { render::plain(&m) } else { render::schema(&m, Style::Free(s)) })
}

/// A valid schema.
fn one(s: &mut Src) -> Schema {
    valid::alone(s, valid::ANY)
}

fn any_text(s: &mut Src) -> String {
    match s.below(4) {
        0 => {
            let n = s.len(12);
            text::tidy(&(0..n).map(|_| *s.pick(BITS)).collect::<String>())
        }
        1 => String::new(),
        _ => {
            let t = schema_text(s);
            // as some editors end their lines
            if s.chance(1, 5) { t.replace("\r\n", "\n").replace('\n', "\r\n") } else { t }
        }
    }
}

struct Edit {
    at: Range<usize>,
    insert: String,
}

fn edit(s: &mut Src, text: &str) -> Edit {
    let places = text::places(text);
    if s.chance(1, 3) {
        // turn into another text
        let to = any_text(s);
        let pre = text.bytes().zip(to.bytes()).take_while(|(a, b)| a == b).count();
        let pre = places.iter().rev().find(|p| **p <= pre && to.is_char_boundary(**p)).copied().unwrap_or(0);
        // not between the two characters of a line break
        let pre = if pre > 0 && to.as_bytes()[pre - 1] == b'\r' { pre - 1 } else { pre };
        let room = (text.len() - pre).min(to.len() - pre);
        let suf = text.bytes().rev().zip(to.bytes().rev()).take(room).take_while(|(a, b)| a == b).count();
        let suf = (0..=suf).rev().find(|n| to.is_char_boundary(to.len() - n) && places.contains(&(text.len() - n)) && text::places(&to).contains(&(to.len() - n))).unwrap_or(0);
        return Edit { at: pre..text.len() - suf, insert: to[pre..to.len() - suf].to_owned() };
    }
    let mut a = s.below(places.len());
    if s.chance(1, 4) {
        // at the end of a line
        a += places[a..].iter().position(|p| text[*p..].starts_with(['\r', '\n'])).unwrap_or(0);
    }
    let n = match s.below(4) {
        0 | 1 => 0,
        2 => s.below(4),
        _ => s.below(places.len() - a),
    };
    let b = (a + n).min(places.len() - 1);
    let n = s.len(3);
    let insert = text::tidy(&(0..n).map(|_| *s.pick(BITS)).collect::<String>());
    Edit { at: places[a]..places[b], insert }
}

/// A position for the offset: the end of a line may be given by any larger column.
fn place(s: &mut Src, text: &str, at: usize, enc: Enc) -> (u64, u64) {
    let (line, col) = text::position(text, at, enc);
    let rest = &text[at..];
    if rest.is_empty() && s.chance(1, 6) {
        return (line + 1 + s.below(3) as u64, s.below(9) as u64);
    }
    if (rest.is_empty() || rest.starts_with('\n') || rest.starts_with("\r\n")) && s.chance(1, 3) {
        let more = match s.below(3) {
            0 => 1,
            1 => s.below(100) as u64,
            _ => (u64::from(u32::MAX) - col).min(1 << 31) - s.below(3) as u64,
        };
        return (line, col + more);
    }
    (line, col)
}

// ---- L01 ----

struct Doc {
    uri: String,
    text: String,
    version: usize,
}

fn edits(s: &mut Src, c: &mut Case) -> Ret {
    edits_of(s, c, false)
}

fn large_edits(s: &mut Src, c: &mut Case) -> Ret {
    edits_of(s, c, true)
}

fn large_text(s: &mut Src, c: &mut Case) -> String {
    let mut m = one(s);
    c.label(sk::large::grow(s, &mut m, true));
    text::tidy(&if s.coin() { render::plain(&m) } else { render::schema(&m, Style::Free(s)) })
}

fn edits_of(s: &mut Src, c: &mut Case, large: bool) -> Ret {
    let enc = *s.pick(&ENCS);
    let mut log = String::new();
    let mut made = 0;
    let via = Via::any(s, c);
    let r = with(enc, via, |sv, base| {
        let mut docs: Vec<Doc> = Vec::new();
        let mut uris = Vec::new();
        for _ in 0..1 + s.len(6) {
            let kind = s.below(8);
            if docs.is_empty() || (kind == 0 && docs.len() < 3) {
                let doc = Doc { uri: format!("{base}doc{}.mabo", docs.len()), text: if large && docs.is_empty() { large_text(s, c) } else { any_text(s) }, version: 1 };
                log += &format!("open {} with {:?}\n", docs.len(), doc.text);
                sv.open(&doc.uri, &doc.text)?;
                uris.push(doc.uri.clone());
                docs.push(doc);
                check_doc(s, sv, docs.last().unwrap(), enc, false)?;
                continue;
            }
            if kind == 2 && s.coin() {
                // files are deleted: some of the documents, and others that are only named like them
                let gone: Vec<bool> = docs.iter().map(|_| s.chance(1, 2)).collect();
                let mut uris: Vec<String> = Vec::new();
                for (d, _) in docs.iter().zip(&gone).filter(|(_, g)| **g) {
                    sv.close(&d.uri)?;
                    uris.push(d.uri.clone());
                }
                for (d, _) in docs.iter().zip(&gone).filter(|(_, g)| !**g) {
                    uris.extend([base.to_owned(), d.uri.to_uppercase(), format!("{}.bak", d.uri), d.uri[..d.uri.len() - 1].to_owned(), d.uri[1..].to_owned()]);
                }
                s.shuffle(&mut uris);
                log += &format!("delete {uris:?}\n");
                sv.forget(&uris)?;
                for (d, g) in docs.iter_mut().zip(gone) {
                    if g {
                        let (sym, none) = (sv.symbols(&d.uri)?, sv.symbols(&format!("{base}never.mabo"))?);
                        ensure!(sym == none, "there are symbols for a deleted document: {sym}");
                        d.text = any_text(s);
                        d.version = 1;
                        log += &format!("open {} with {:?}\n", d.uri, d.text);
                        sv.open(&d.uri, &d.text)?;
                        sv.notes.retain(|n| !(n["method"] == "last" && n["uri"] == d.uri));
                        check_doc(s, sv, d, enc, false)?;
                    }
                }
                continue;
            }
            let i = s.below(docs.len());
            let doc = &mut docs[i];
            if kind == 1 {
                // close, and open again
                sv.close(&doc.uri)?;
                if s.coin() {
                    doc.text = any_text(s);
                }
                doc.version = 1;
                log += &format!("reopen {i} with {:?}\n", doc.text);
                sv.open(&doc.uri, &doc.text)?;
            } else {
                let mut changes = Vec::new();
                for _ in 0..1 + s.len(3) {
                    made += 1;
                    if s.chance(1, 8) {
                        doc.text = any_text(s);
                        changes.push(full(&doc.text));
                        continue;
                    }
                    let e = edit(s, &doc.text);
                    let (a, b) = (place(s, &doc.text, e.at.start, enc), place(s, &doc.text, e.at.end, enc));
                    let b = if e.at.is_empty() { a } else { b };
                    let mut change = json!({"range": {"start": pos(a), "end": pos(b)}, "text": e.insert});
                    if s.coin() {
                        change["rangeLength"] = json!(Enc::Utf16.units(&doc.text[e.at.clone()]));
                    }
                    changes.push(change);
                    doc.text.replace_range(e.at, &e.insert);
                }
                doc.version += 1;
                log += &format!("change {i} by {}, now {:?}\n", json!(changes), doc.text);
                sv.change(&doc.uri, doc.version, &changes)?;
            }
            check_doc(s, sv, doc, enc, false)?;
        }
        for d in &docs {
            uris.extend(check_doc(s, sv, d, enc, true)?);
        }
        sv.forget(&uris)
    });
    c.show(|| format!("{} {log}", enc.name()));
    c.key((enc, &log));
    c.nontrivial(made >= 2);
    c.count("edits", made);
    r
}

/// Everything the server says about a document.
fn answers_of(sv: &mut Server, uri: &str, hovers: &[(u64, u64)]) -> Result<Value, Fail> {
    let mut h = Vec::new();
    for p in hovers {
        h.push(sv.hover(uri, *p)?);
    }
    Ok(json!({"symbols": sv.symbols(uri)?, "tokens": sv.request("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}}))?.unwrap_or_else(|e| json!({"error": e})), "hovers": h}))
}

/// The answers must be those for a document that is opened with this text.
fn check_doc(s: &mut Src, sv: &mut Server, doc: &Doc, enc: Enc, last: bool) -> Result<Option<String>, Fail> {
    if !last {
        sv.symbols(&doc.uri)?;
        let got = sv.diagnostics(&doc.uri);
        ensure!(got.len() == 1, "diagnostics of the document are published {} times", got.len());
        sv.notes.push_back(json!({"method": "last", "uri": doc.uri, "diagnostics": got[0]}));
        return Ok(None);
    }
    let mut last = None;
    sv.notes.retain(|n| {
        if n["method"] == "last" && n["uri"] == doc.uri {
            last = Some(n["diagnostics"].clone());
            return false;
        }
        true
    });
    let places = text::places(&doc.text);
    let hovers: Vec<(u64, u64)> = (0..s.below(5)).map(|_| text::position(&doc.text, places[s.below(places.len())], enc)).collect();
    let got = answers_of(sv, &doc.uri, &hovers)?;
    let fresh = format!("{}.fresh", doc.uri);
    sv.open(&fresh, &doc.text)?;
    let want = answers_of(sv, &fresh, &hovers)?;
    ensure!(got == want, "the answers are {got}, but for a document opened with the same text {want}");
    let d = sv.diagnostics(&fresh);
    ensure!(d.len() == 1, "diagnostics of the new document are published {} times", d.len());
    let want = d[0].to_string().replace(&fresh, &doc.uri);
    let got = last.unwrap_or_default().to_string();
    ensure!(got == want, "the diagnostics are {got}, but for a document opened with the same text {want}");
    Ok(Some(fresh))
}

/// A carriage return on its own ends a line as well.
fn lone_cr() -> Result<(), String> {
    with(Enc::Utf16, Via::Pipe, |sv, base| {
        let uri = format!("{base}cr.mabo");
        sv.open(&uri, "struct A\r\nstruct B\rstruct C\n")?;
        sv.change(&uri, 2, &[json!({"range": {"start": pos((2, 7)), "end": pos((2, 8))}, "text": "D"})])?;
        let sym = sv.symbols(&uri)?;
        let names: Vec<&str> = sym.as_array().into_iter().flatten().filter_map(|s| s["name"].as_str()).collect();
        ensure!(names == ["A", "B", "D"], "after renaming C on the third line of \"struct A\\r\\nstruct B\\rstruct C\\n\" to D, the symbols are {names:?}");
        Ok(())
    })
    .map_err(|e| e.msg)
}

// ---- L02 ----

/// The marks the server has to report as tokens (`true`), or may.
fn token_marks(m: &Schema, marks: &[Mark]) -> Vec<(Mark, bool)> {
    let mut out = Vec::new();
    let mut params = false;
    let mut import = false;
    for (i, k) in marks.iter().enumerate() {
        let prev = i.checked_sub(1).map(|p| marks[p]);
        let mut must = i >= m.comment.len();
        match k.kind {
            "string" | "bytes" => must = false,
            "keyword" => import = false,
            "angle" if params => {
                params = false;
                must = false;
            }
            "angle" if prev.is_some_and(|p| p.declares && matches!(p.kind, "struct" | "enum" | "typeAlias")) => {
                params = true;
                must = false;
            }
            _ => {}
        }
        if k.kind == "keyword" {
            // an import follows if a name does that is not introduced by it
            import = marks.get(i + 1).is_some_and(|n| n.kind == "namespace" && !n.declares);
        }
        if import && (k.kind == "semicolon" || (k.kind == "doubleColon" && marks.get(i + 1).is_none_or(|n| n.kind != "type"))) {
            must = false;
        }
        out.push((*k, must));
    }
    out
}

fn check_tokens(sv: &Server, m: &Schema, text: &str, marks: &[Mark], tokens: &Value) -> Ret {
    let legend = |what: &str| -> Vec<String> { sv.capabilities["semanticTokensProvider"]["legend"][what].as_array().into_iter().flatten().map(|v| v.as_str().unwrap_or_default().to_owned()).collect() };
    let (types, mods) = (legend("tokenTypes"), legend("tokenModifiers"));
    let data: Vec<u64> = tokens["data"].as_array().ok_or_else(|| Fail::new(format!("no tokens: {tokens}")))?.iter().filter_map(Value::as_u64).collect();
    let marks = token_marks(m, marks);
    ensure!(marks.windows(2).all(|w| w[0].0.end <= w[1].0.start), "marks are out of order");
    let lines = Lines::new(text);
    let (mut line, mut col, mut end) = (0, 0, 0);
    let mut seen = vec![false; marks.len()];
    for t in data.chunks(5) {
        if t[0] > 0 {
            col = 0;
        }
        line += t[0];
        col += t[1];
        let (Some(a), Some(b)) = (lines.offset((line, col), sv.enc), lines.offset((line, col + t[2]), sv.enc)) else {
            fail!("token at line {line}, column {col}, length {} is not within the text", t[2])
        };
        ensure!(a >= end, "token {:?} at {a} starts before the end of the one before, {end}", &text[a..b]);
        end = b;
        let ty = types.get(t[3] as usize).map(String::as_str).unwrap_or_default();
        let modifiers: Vec<&str> = mods.iter().enumerate().filter(|(i, _)| t[4] >> i & 1 == 1).map(|(_, m)| &m[..]).collect();
        ensure!(t[4] >> mods.len() == 0, "token {:?} has unknown modifiers {:b}", &text[a..b], t[4]);
        // the first element that doesn't end before
        let near = marks.partition_point(|(k, _)| k.end <= a);
        let hit = (near..marks.len()).next().filter(|i| marks[*i].0.start == a && marks[*i].0.end == b);
        let Some(hit) = hit else {
            // whatever else is there must not be part of an element
            ensure!(marks[near..].iter().take_while(|(k, _)| k.start < b).all(|(k, _)| k.end <= a || b <= k.start || k.kind == "string" || k.kind == "bytes"), "token {:?} at {a} ({ty}) is not the whole element", &text[a..b]);
            continue;
        };
        let k = marks[hit].0;
        seen[hit] = true;
        if k.kind == "string" || k.kind == "bytes" {
            continue;
        }
        ensure!(ty == k.kind, "{:?} at {a} is a token of type {ty} instead of {}", &text[a..b], k.kind);
        let want: &[&str] = match k.kind {
            "variable" => &["declaration", "static", "constant"],
            "comment" => &["documentation"],
            _ if k.declares => &["declaration"],
            _ => &[],
        };
        ensure!(want.iter().all(|w| modifiers.contains(w)) && modifiers.len() == want.len(), "{:?} at {a} has the modifiers {modifiers:?} instead of {want:?}", &text[a..b]);
    }
    for ((k, must), seen) in marks.iter().zip(seen) {
        ensure!(seen || !must, "there is no token for {:?} at {} ({})", &text[k.start..k.end], k.start, k.kind);
    }
    Ok(())
}

/// Definition names in the order of the text.
fn is_symbol(k: &Mark) -> bool {
    k.declares && k.kind != "typeParameter"
}

struct Symbols<'a> {
    text: &'a str,
    lines: Lines<'a>,
    enc: Enc,
    marks: Vec<Mark>,
    at: usize,
}

fn squash(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace() && *c != ',').collect()
}

impl Symbols<'_> {
    fn same(&self, v: &Value) -> Result<Range<usize>, Fail> {
        let r = range_in(&self.lines, &v["range"], self.enc)?;
        let sel = range_in(&self.lines, &v["selectionRange"], self.enc)?;
        ensure!(r.start <= sel.start && sel.end <= r.end, "the selection range of {v} is not within its range");
        Ok(sel)
    }
    fn head(&mut self, v: &Value, name: &str, kind: u64) -> Ret {
        ensure!(v["name"] == name && v["kind"] == kind, "symbol {name} of kind {kind} is listed as {} of kind {}", v["name"], v["kind"]);
        let sel = self.same(v)?;
        let k = self.marks[self.at];
        self.at += 1;
        ensure!(sel == (k.start..k.end), "symbol {name} is placed at {sel:?} instead of {:?}", k.start..k.end);
        Ok(())
    }
    fn children<'v>(&self, v: &'v Value, n: usize) -> Result<&'v [Value], Fail> {
        let list = v["children"].as_array().map_or(&[][..], |v| v);
        ensure!(list.len() == n, "{} has {} symbols instead of {n}", v["name"], list.len());
        Ok(list)
    }
    fn fields(&mut self, v: &Value, f: &Fields) -> Ret {
        let list = self.children(v, f.list().len())?;
        let mut last = 0;
        for (i, (f1, v)) in f.list().iter().zip(list).enumerate() {
            if let Fields::Named(_) = f {
                self.head(v, &f1.name, 7)?;
                self.children(v, 0)?;
            } else {
                ensure!(v["name"] == i.to_string() && v["kind"] == 7, "field {i} is listed as {} of kind {}", v["name"], v["kind"]);
                let r = self.same(v)?;
                let (got, ty) = (squash(&self.text[r.clone()]), squash(&render::ty_text(&f1.ty)));
                let id = f1.id.map_or(String::new(), |i| format!("@{i}"));
                ensure!(r.start >= last && (got == ty || got == ty + &id), "field {i} is placed at {:?}", &self.text[r]);
                last = r.end;
            }
        }
        Ok(())
    }
    fn defs(&mut self, list: &[Value], defs: &[Def]) -> Ret {
        ensure!(list.len() == defs.len(), "{} symbols instead of {}", list.len(), defs.len());
        for (v, d) in list.iter().zip(defs) {
            match d {
                Def::Mod { name, defs, .. } => {
                    self.head(v, name, 2)?;
                    let list = self.children(v, defs.len())?;
                    self.defs(list, defs)?;
                }
                Def::Struct { name, fields, .. } => {
                    self.head(v, name, 23)?;
                    self.fields(v, fields)?;
                }
                Def::Enum { name, variants, .. } => {
                    self.head(v, name, 10)?;
                    let list = self.children(v, variants.len())?;
                    for (v, x) in list.iter().zip(variants) {
                        self.head(v, &x.name, 22)?;
                        self.fields(v, &x.fields)?;
                    }
                }
                Def::Alias { name, .. } => self.head(v, name, 13)?,
                Def::Const { name, .. } => self.head(v, name, 14)?,
                Def::Use { segments, element } => {
                    let path: Vec<&str> = segments.iter().chain(element).map(|s| &s[..]).collect();
                    let path = path.join("::");
                    ensure!(v["name"] == path && v["kind"] == 1, "import {path} is listed as {} of kind {}", v["name"], v["kind"]);
                    let sel = self.same(v)?;
                    ensure!(squash(&self.text[sel.clone()]) == path, "import {path} is placed at {:?}", &self.text[sel]);
                }
            }
        }
        Ok(())
    }
}

/// What to say about every name, in the order of the text.
fn hover_texts(m: &Schema, next_id: bool, wire_size: bool) -> Vec<String> {
    fn comment(c: &[String]) -> String {
        c.iter().map(|l| format!("{l}\n")).collect()
    }
    fn next(ids: impl Iterator<Item = Option<u32>>) -> u32 {
        derive_ids(ids).into_iter().map(|i| u32::try_from(i).unwrap_or(u32::MAX)).max().unwrap_or(0).saturating_add(1)
    }
    struct H {
        out: Vec<String>,
        next_id: bool,
        wire_size: bool,
    }
    impl H {
        fn head(&mut self, c: &[String], f: &Fields) {
            let mut t = comment(c);
            if self.next_id && !matches!(f, Fields::Unit) {
                t += &format!("- next ID: `{}`\n", next(f.list().iter().map(|f| f.id)));
            }
            self.out.push(t);
            if let Fields::Named(list) = f {
                for f in list {
                    let mut t = comment(&f.comment);
                    if self.wire_size {
                        t += "### Wire size\n\n";
                        t += &size(&f.ty);
                    }
                    self.out.push(t);
                }
            }
        }
        fn defs(&mut self, defs: &[Def]) {
            for d in defs {
                match d {
                    Def::Mod { comment: c, defs, .. } => {
                        self.out.push(comment(c));
                        self.defs(defs);
                    }
                    Def::Struct { comment, fields, .. } => self.head(comment, fields),
                    Def::Enum { comment: c, variants, .. } => {
                        let mut t = comment(c);
                        if self.next_id {
                            t += &format!("- next ID: `{}`\n", next(variants.iter().map(|v| v.id)));
                        }
                        self.out.push(t);
                        for v in variants {
                            self.head(&v.comment, &v.fields);
                        }
                    }
                    Def::Alias { comment: c, .. } | Def::Const { comment: c, .. } => self.out.push(comment(c)),
                    Def::Use { .. } => {}
                }
            }
        }
    }
    let mut h = H { out: Vec::new(), next_id, wire_size };
    h.defs(&m.defs);
    h.out
}

/// Decided by M01.
fn size(ty: &Ty) -> String {
    let text = format!("struct A {{ a: {} }}", render::ty_text(ty));
    let ast = mabo_parser::Schema::parse(&text, None).expect("type");
    let simple = mabo_compiler::simplify_schema(&ast);
    let mabo_compiler::simplify::Definition::Struct(s) = &simple.definitions[0] else { unreachable!() };
    let mut out = String::new();
    match mabo_meta::wire_size(&s.fields.fields[0].ty) {
        Some(size) => size.print(&mut out, 0),
        None => out += "_unknown_",
    }
    out
}

fn check_hover(sv: &mut Server, uri: &str, text: &str, marks: &[Mark], at: usize, texts: &[String]) -> Ret {
    let got = sv.hover(uri, text::position(text, at, sv.enc))?;
    let hit = marks.iter().filter(|k| is_symbol(k)).position(|k| k.start <= at && at < k.end);
    match hit {
        None => ensure!(got.is_null(), "there is information {got} at {at}, where no name is"),
        Some(i) => {
            let k = marks.iter().filter(|k| is_symbol(k)).nth(i).unwrap();
            let value = got["contents"]["value"].as_str().unwrap_or_default();
            let name = &text[k.start..k.end];
            ensure!(value == texts[i], "the information about {name} is {got} instead of {:?}", texts[i]);
            let r = get_range(text, &got["range"], sv.enc)?;
            ensure!(r == (k.start..k.end), "the information about {name} at {:?} is given for {r:?}", k.start..k.end);
        }
    }
    Ok(())
}

fn answers(s: &mut Src, c: &mut Case) -> Ret {
    let m = one(s);
    answers_for(m, s, c)
}

fn large_answers(s: &mut Src, c: &mut Case) -> Ret {
    let mut m = one(s);
    c.label(sk::large::grow(s, &mut m, true));
    answers_for(m, s, c)
}

fn answers_for(m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    let enc = *s.pick(&ENCS);
    let (text, marks) = if s.chance(1, 4) { render::with_marks(&m, Style::Plain) } else { render::with_marks(&m, Style::Free(s)) };
    c.show(|| format!("{}\n{text}", enc.name()));
    c.key((enc, &text));
    c.nontrivial(m.count() >= 2);
    let via = Via::any(s, c);
    with(enc, via, |sv, base| {
        let uri = format!("{base}a.mabo");
        sv.open(&uri, &text)?;
        let symbols = sv.symbols(&uri)?;
        let d = sv.diagnostics(&uri);
        ensure!(d.len() == 1 && d[0].as_array().is_some_and(Vec::is_empty), "the diagnostics of a valid schema are {d:?}");
        let mut check = Symbols { text: &text, lines: Lines::new(&text), enc, marks: marks.iter().filter(|k| is_symbol(k)).copied().collect(), at: 0 };
        check.defs(symbols.as_array().map_or(&[][..], |v| v), &m.defs)?;
        let tokens = sv.tokens(&uri)?;
        check_tokens(sv, &m, &text, &marks, &tokens)?;
        let texts = hover_texts(&m, true, true);
        let places = text::places(&text);
        for _ in 0..1 + s.below(4) {
            check_hover(sv, &uri, &text, &marks, places[s.below(places.len())], &texts)?;
        }
        let names: Vec<&Mark> = marks.iter().filter(|k| k.declares).collect();
        for _ in 0..if names.is_empty() { 0 } else { 1 + s.below(4) } {
            let k = names[s.below(names.len())];
            let at = *s.pick(&[k.start, k.end - 1, k.end]);
            check_hover(sv, &uri, &text, &marks, at, &texts)?;
        }
        sv.forget(&[uri])
    })
}

/// Where the library places the complaint and the first use (C04 decides these).
fn places_of(e: &mabo_compiler::validate::Error) -> (Range<usize>, Option<Range<usize>>) {
    use mabo_compiler::validate::{DuplicateFieldId as F, DuplicateId as I, DuplicateName as N, Error as E, InvalidGenericType as G};
    let (first, second) = match e {
        E::DuplicateId(I::EnumVariant(d)) => (&d.first, &d.second),
        E::DuplicateId(I::Field(F::Named(d))) => (&d.first, &d.second),
        E::DuplicateId(I::Field(F::Unnamed(d))) => (&d.first, &d.second),
        E::DuplicateName(N::EnumVariant(d)) => (&d.first, &d.second),
        E::DuplicateName(N::Field(d)) => (&d.first, &d.second),
        E::DuplicateName(N::InModule(d)) => (&d.first, &d.second),
        E::InvalidGeneric(G::Duplicate(d)) => (&d.first, &d.second),
        E::InvalidGeneric(G::Unused(d)) => return (d.declared.clone(), None),
        E::TupleSize(d) => return (d.declared.clone(), None),
    };
    (second.clone(), Some(first.clone()))
}

fn offsets(e: &dyn miette::Diagnostic, out: &mut Vec<usize>) {
    out.extend(e.labels().into_iter().flatten().map(|l| l.offset()));
    e.related().into_iter().flatten().chain(e.diagnostic_source()).for_each(|e| offsets(e, out));
}

fn errors(s: &mut Src, c: &mut Case) -> Ret {
    let enc = *s.pick(&ENCS);
    let mut m = one(s);
    let spoil = s.chance(2, 3);
    if spoil {
        for _ in 0..12 {
            defects::break_schema(s, &mut m);
            // one defect only, so that there is no choice which to report
            match refs::violations(&m).len() {
                0 => {}
                1 => break,
                _ => m = one(s),
            }
        }
    }
    let (mut text, tokens) = render::with_tokens(&m, Style::Free(s));
    if !spoil {
        if tokens.is_empty() {
            return Ok(());
        }
        match s.below(3) {
            0 => {
                let (a, b) = tokens[s.below(tokens.len())];
                text.replace_range(a..b, "");
            }
            1 => {
                let (a, _) = tokens[s.below(tokens.len())];
                text.insert_str(a, s.pick(&["é", "😀", "%", "}", "@", "漢", "\"", "/// ä", "\u{0}"]));
            }
            _ => {
                let places = text::places(&text);
                text.truncate(places[s.below(places.len())]);
            }
        }
    }
    c.show(|| format!("{}\n{text}", enc.name()));
    c.key((enc, &text));
    c.nontrivial(m.count() >= 2);
    // the place that is reported, and the one it refers to; or the places that come into question
    let mut at = Vec::new();
    let mut exact = None;
    let parsed = mabo_parser::Schema::parse(&text, None);
    let syntax = parsed.is_err();
    match parsed {
        Ok(ast) => exact = mabo_compiler::validate_schema(&ast).err().map(|e| places_of(&e)),
        Err(e) => {
            // the place where no alternative of the grammar fits is not shown, but known
            let all = format!("{e:?}");
            let stop = all.split("Parser(").skip(1).find_map(|t| t[..t.find(')')?].trim_matches([' ', '\n', ',']).parse::<usize>().ok());
            if stop.is_some() || !all.contains("Parser") {
                offsets(&e, &mut at);
                at.extend(stop);
            }
        }
    }
    let ok = !syntax && exact.is_none();
    c.label(match &exact {
        None if ok => "still valid",
        None if at.is_empty() => "syntax, place unknown",
        None => "syntax",
        Some((_, None)) => "one place",
        Some(_) => "two places",
    });
    let single = refs::violations(&m).len() == 1;
    let via = Via::any(s, c);
    with(enc, via, |sv, base| {
        let uri = format!("{base}a.mabo");
        sv.open(&uri, &text)?;
        let symbols = sv.symbols(&uri)?;
        let tokens = sv.tokens(&uri)?;
        let places = text::places(&text);
        let hover = sv.hover(&uri, text::position(&text, places[s.below(places.len())], enc))?;
        let d = sv.diagnostics(&uri);
        ensure!(d.len() == 1, "diagnostics are published {} times", d.len());
        let list = d[0].as_array().cloned().unwrap_or_default();
        if ok {
            ensure!(list.is_empty(), "the diagnostics of a valid schema are {list:?}");
            return sv.forget(&[uri]);
        }
        ensure!(list.len() == 1, "there are {} diagnostics instead of one: {list:?}", list.len());
        let r = get_range(&text, &list[0]["range"], enc)?;
        ensure!(list[0]["message"].as_str().is_some_and(|m| !m.is_empty()), "the diagnostic {} has no message", list[0]);
        if let Some((place, first)) = exact.filter(|_| single) {
            ensure!(r == place, "the defect is reported at {r:?} ({:?}) instead of {place:?} ({:?})", &text[r.clone()], &text[place.clone()]);
            let rel = list[0]["relatedInformation"].as_array().map_or(&[][..], |v| v);
            match first {
                None => ensure!(rel.is_empty(), "the defect is related to {rel:?}"),
                Some(first) => {
                    ensure!(rel.len() == 1, "the defect is related to {rel:?} instead of {first:?}");
                    let rel = &rel[0]["location"];
                    ensure!(rel["uri"] == uri, "the first use is reported in {}", rel["uri"]);
                    let f = get_range(&text, &rel["range"], enc)?;
                    ensure!(f == first, "the first use is reported at {f:?} ({:?}) instead of {first:?} ({:?})", &text[f.clone()], &text[first.clone()]);
                }
            }
        } else if !at.is_empty() {
            ensure!(at.contains(&r.start), "the error is reported at {r:?} ({:?}), but the library at {at:?}", &text[r.clone()]);
        }
        ensure!(symbols.as_array().is_some_and(Vec::is_empty) && tokens["data"].as_array().is_some_and(Vec::is_empty) && hover.is_null(), "answers for an invalid schema: {symbols} {tokens} {hover}");
        sv.forget(&[uri])
    })
}

/// What is shown can be configured, at any time.
fn settings(s: &mut Src, c: &mut Case) -> Ret {
    let enc = *s.pick(&ENCS);
    let m = one(s);
    let (text, marks) = render::with_marks(&m, Style::Plain);
    let names: Vec<usize> = marks.iter().filter(|k| is_symbol(k)).map(|k| k.start).collect();
    if names.is_empty() {
        return Ok(());
    }
    c.show(|| format!("{}\n{text}", enc.name()));
    c.key((enc, &text));
    c.nontrivial(m.count() >= 2);
    let via = Via::any(s, c);
    let mut sv = Server::spawn(enc, via);
    let pair = |s: &mut Src| (s.coin(), s.coin());
    // what is not given is shown
    let value = |s: &mut Src, (next, size): (bool, bool)| {
        let mut hover = json!({"showNextId": next, "showWireSize": size});
        let keys = hover.as_object_mut().unwrap();
        keys.retain(|_, shown| *shown != json!(true) || s.chance(2, 3));
        if s.chance(1, 4) {
            keys.insert("somethingElse".to_owned(), json!(1));
        }
        if keys.is_empty() && s.coin() {
            return json!({});
        }
        json!({ "hover": hover })
    };
    let mut now = pair(s);
    sv.answers.lock().unwrap().settings = value(s, now);
    sv.initialize(Server::init_params(&[enc.name()], &Value::Null))?;
    let asked = settled(&mut sv)?;
    for m in ["workspace/configuration", "client/registerCapability"] {
        ensure!(asked.iter().any(|a| a == m), "there is no {m} after initialization, only {asked:?}");
    }
    sv.open("file:///a.mabo", &text)?;
    for _ in 0..1 + s.below(4) {
        let texts = hover_texts(&m, now.0, now.1);
        for _ in 0..4 {
            check_hover(&mut sv, "file:///a.mabo", &text, &marks, names[s.below(names.len())], &texts)?;
        }
        now = pair(s);
        sv.answers.lock().unwrap().settings = value(s, now);
        sv.notify("workspace/didChangeConfiguration", json!({"settings": null}))?;
        let asked = settled(&mut sv)?;
        ensure!(asked.iter().any(|a| a == "workspace/configuration"), "the settings are not asked for after they have changed, only {asked:?}");
    }
    sv.shutdown()
}

/// The requests of the server so far (which are answered meanwhile).
fn settled(sv: &mut Server) -> Result<Vec<String>, Fail> {
    // messages are handled in order: after this one, the ones before are done
    sv.symbols("file:///none.mabo")?;
    Ok(std::mem::take(&mut sv.asked))
}

fn encodings(s: &mut Src, c: &mut Case) -> Ret {
    let mut list: Vec<&str> = vec!["utf-8", "utf-16", "utf-32", "utf-7", "UTF-8", "x"];
    s.shuffle(&mut list);
    list.truncate(s.below(5));
    let m = one(s);
    let text = render::plain(&m);
    let text = format!("/// ä😀é\nstruct A0 {{\n/// 😀\n a: u8 }} struct B0\n{text}");
    c.show(|| format!("{list:?} {text}"));
    c.key((&list, &text));
    c.nontrivial(list.len() > 1);
    let via = Via::any(s, c);
    let mut sv = Server::spawn(Enc::Utf16, via);
    let mut params = Server::init_params(&list, &Value::Null);
    if list.is_empty() {
        params["capabilities"] = json!({});
    }
    sv.initialize(params)?;
    let name = sv.capabilities["positionEncoding"].as_str().unwrap_or("utf-16").to_owned();
    let Some(enc) = ENCS.into_iter().find(|e| e.name() == name) else { fail!("positions are encoded as {name}, of {list:?}") };
    ensure!(list.contains(&&name[..]) || name == "utf-16", "the encoding is {name}, but the client knows only {list:?}");
    sv.enc = enc;
    let uri = "file:///a.mabo";
    sv.open(uri, "")?;
    // a text that only fits the encoding
    sv.change(uri, 2, &[full("/// ä😀é x\n"), json!({"range": {"start": pos((0, enc.units("/// ä😀é"))), "end": pos((0, enc.units("/// ä😀é x")))}, "text": ""})])?;
    let at = text::position("/// ä😀é\n", "/// ä😀é\n".len(), enc);
    sv.change(uri, 3, &[json!({"range": {"start": pos(at), "end": pos(at)}, "text": &text["/// ä😀é\n".len()..]})])?;
    let got = answers_of(&mut sv, uri, &[])?;
    sv.open("file:///b.mabo", &text)?;
    let want = answers_of(&mut sv, "file:///b.mabo", &[])?;
    ensure!(got == want, "after edits in {name}, the answers are {got} instead of {want}");
    sv.shutdown()
}

// ---- L03 ----

fn wild_pos(s: &mut Src) -> Value {
    let n = |s: &mut Src| match s.below(4) {
        0 => s.below(4) as u64,
        1 => s.below(40) as u64,
        2 => u64::from(u32::MAX) - s.below(3) as u64,
        _ => s.uint(32) as u64,
    };
    let line = if s.coin() { s.below(4) as u64 } else { n(s) };
    pos((line, n(s)))
}

fn wild_text(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.string(40),
        1 => {
            let n = s.len(20);
            (0..n).map(|_| if s.chance(1, 8) { "\r" } else { *s.pick(BITS) }).collect()
        }
        2 => {
            // a schema with something in it that does not belong there
            let mut t = schema_text(s);
            let places = text::places(&t);
            let at = places[s.below(places.len())];
            let n = 1 + s.len(2);
            let bits: String = (0..n).map(|_| *s.pick(BITS)).collect();
            t.insert_str(at, &bits);
            t
        }
        _ => schema_text(s),
    }
}

const NOTIFICATIONS: &[&str] = &["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "workspace/didDeleteFiles", "workspace/didChangeConfiguration"];
const REQUESTS: &[&str] = &["textDocument/hover", "textDocument/documentSymbol", "textDocument/semanticTokens/full"];

fn ill_typed(s: &mut Src) -> Value {
    match s.below(7) {
        0 => json!({"textDocument": 5}),
        1 => json!([]),
        2 => json!({}),
        3 => Value::Null,
        4 => json!({"textDocument": {"uri": s.string(8)}, "position": {"line": -1, "character": 0}}),
        5 => json!({"textDocument": {"uri": "file:///x.mabo", "languageId": 1, "version": "1", "text": null}, "contentChanges": {}}),
        _ => json!({"files": [s.string(4)], "settings": s.string(4)}),
    }
}

/// Identifiers are any whole numbers and strings.
fn request_id(s: &mut Src) -> Value {
    match s.below(5) {
        0 => json!(s.int(32) as i32),
        1 => json!(*s.pick(&[0, -1, i32::MIN, i32::MAX])),
        2 => json!(s.below(4).to_string()),
        _ => json!(s.string(8)),
    }
}

fn abuse(s: &mut Src, c: &mut Case) -> Ret {
    let enc = *s.pick(&ENCS);
    let mut log = String::new();
    let mut odd = 0;
    let via = Via::any(s, c);
    let r = with(enc, via, |sv, base| {
        let uris: Vec<String> = ["a.mabo", "b.mabo", "c d.mabo", "%C3%A4.mabo"].iter().map(|n| format!("{base}{}", n.replace(' ', "%20"))).collect();
        let mut all = uris.clone();
        // a document that nothing is done to
        let own = Doc { uri: format!("{base}own.mabo"), text: any_text(s), version: 1 };
        log += &format!("open {} with {:?}\n", own.uri, own.text);
        sv.open(&own.uri, &own.text)?;
        check_doc(s, sv, &own, enc, false)?;
        all.push(own.uri.clone());
        for _ in 0..1 + s.len(8) {
            let uri = s.pick(&uris).clone();
            match s.below(10) {
                0 | 1 => {
                    let t = wild_text(s);
                    log += &format!("open {uri} with {t:?}\n");
                    sv.open(&uri, &t)?;
                }
                2..=4 => {
                    odd += 1;
                    let changes: Vec<Value> = (0..s.len(3)).map(|_| if s.chance(1, 5) { full(&wild_text(s)) } else { json!({"range": {"start": wild_pos(s), "end": wild_pos(s)}, "text": wild_text(s)}) }).collect();
                    log += &format!("change {uri} by {}\n", json!(changes));
                    sv.change(&uri, 2, &changes)?;
                }
                5 => {
 let (method, params) = match s.below(6) {
                        5 => (*s.pick(NOTIFICATIONS), ill_typed(s)),
                        0 => ("textDocument/didClose", json!({"textDocument": {"uri": uri}})),
                        1 => ("workspace/didDeleteFiles", json!({"files": [{"uri": uri}]})),
                        2 => ("textDocument/didChange", json!({"textDocument": 5})),
                        3 => ("textDocument/didOpen", json!([])),
                        _ => ("$/whatever", json!({"a": 1})),
                    };
                    odd += 1;
                    log += &format!("{method} {params}\n");
                    sv.notify(method, params)?;
                }
                6 => {
                    // an answer nobody waits for
                    let id = request_id(s);
                    let v = if s.coin() { json!({"jsonrpc": "2.0", "id": id, "result": ill_typed(s)}) } else { json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "x"}}) };
                    odd += 1;
                    log += &format!("answer {v}\n");
                    sv.send(&v)?;
                }
                _ => {
                    let at = wild_pos(s);
                    if s.chance(1, 3) {
                        sv.next_id = Some(request_id(s));
                    }
                    let (method, params) = match s.below(8) {
                        6 => (*s.pick(REQUESTS), ill_typed(s)),
                        7 => (*s.pick(NOTIFICATIONS), json!({"textDocument": {"uri": uri}})),
                        0 | 1 => ("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": at})),
                        2 => ("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}})),
                        3 => ("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}})),
                        4 => ("textDocument/hover", json!({"position": -1})),
                        _ => (*s.pick(&["textDocument/rename", "$/whatever", "x", "", "workspace/symbol", "window/logMessage"]), json!({})),
                    };
                    odd += 1;
                    log += &format!("{method} {params} as {:?}\n", sv.next_id);
                    let _ = sv.request(method, params)?;
                }
            }
        }
        // afterwards everything is as usual
        let t = any_text(s);
        let uri = s.pick(&uris).clone();
        log += &format!("finally {uri} with {t:?}\n");
        let _ = sv.request("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}))?;
        sv.notes.retain(|n| n["method"] == "last");
        all.extend(check_doc(s, sv, &own, enc, true)?);
        sv.open(&uri, &t)?;
        let doc = Doc { uri, text: t, version: 1 };
        check_doc(s, sv, &doc, enc, false)?;
        all.extend(check_doc(s, sv, &doc, enc, true)?);
        sv.forget(&all)?;
        sv.notes.clear();
        Ok(())
    });
    c.show(|| format!("{} {log}", enc.name()));
    c.key((enc, &log));
    c.nontrivial(odd > 0);
    r
}

/// Projects of the workspace are loaded when the server starts, whatever is in them.
fn workspace(s: &mut Src, c: &mut Case) -> Ret {
    const BASIC: &str = "[package]\nname = \"p\"\nfiles = [\"*.mabo\"]\n";
    const DEEP: &str = "[package]\nname = \"p\"\nfiles = [\"**/*.mabo\", \"x\"]\n";
    let enc = *s.pick(&ENCS);
    let scratch = Scratch::new();
    let root = scratch.0.join(*s.pick(&["w", "w w", "ü%41", "a+b,c"]));
    let mut tomls: HashMap<&str, &str> = HashMap::new();
    let mut files: HashMap<(&str, String), Vec<u8>> = HashMap::new();
    for i in 0..1 + s.below(4) {
        let sub = *s.pick(&["", "p/", "q q/", "ü/", "p/r/"]);
        let name = format!("{}{i}.mabo", s.pick(&["a", "b c", "ü", "%41", "é[x]", "-_~"]));
        let body = match s.below(5) {
            0 => s.bytes(30),
            1 => wild_text(s).into_bytes(),
            _ => any_text(s).into_bytes(),
        };
        if s.chance(2, 3) {
            tomls.insert(sub, if s.chance(1, 10) { *s.pick(&["[package", ""]) } else { *s.pick(&[BASIC, DEEP]) });
        }
        files.insert((sub, name), body);
    }
    let mut names: Vec<_> = files.keys().cloned().collect();
    names.sort();
    let mut shown = format!("{} {}\n", enc.name(), root.file_name().unwrap().display());
    let put = |name: &str, b: &[u8]| {
        let p = root.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).and_then(|()| std::fs::write(p, b)).map_err(|e| Fail::new(e.to_string()))
    };
    put("other.txt", b"")?;
    let mut dirs: Vec<_> = tomls.keys().copied().collect();
    dirs.sort_unstable();
    for d in dirs {
        put(&format!("{d}Mabo.toml"), tomls[d].as_bytes())?;
        shown += &format!("{d:?} {:?}\n", tomls[d]);
    }
    for k in &names {
        put(&format!("{}{}", k.0, k.1), &files[k])?;
        shown += &format!("{k:?} {:?}\n", String::from_utf8_lossy(&files[k]));
    }
    c.show(|| shown.clone());
    c.key(&shown);
    // discovery stops at projects that can't be loaded (see J01)
    let good = tomls.values().all(|t| [BASIC, DEEP].contains(t));
    let selected = |d: &str| tomls.iter().any(|(p, t)| *p == d || *t == DEEP && d.starts_with(p));
    let uri = |p: &str| {
        let mut out = "file://".to_owned();
        for b in root.join(p).to_str().unwrap().bytes() {
            if b.is_ascii_alphanumeric() || b"-._~/".contains(&b) { out.push(b.into()) } else { out += &format!("%{b:02X}") }
        }
        out
    };
    let via = Via::any(s, c);
    let unheard = s.chance(1, 4);
    c.label_if(unheard, "standard error closed");
    let mut sv = if unheard { Server::spawn_unheard(enc, via) } else { Server::spawn(enc, via) };
    let folders = json!([{"uri": uri("").trim_end_matches('/'), "name": "w"}, {"uri": "file:///does/not/exist", "name": "x"}]);
    sv.initialize(Server::init_params(&[enc.name()], &folders))?;
    let mut known = 0;
    for k in &names {
        let uri = uri(&format!("{}{}", k.0, k.1));
        let text = std::str::from_utf8(&files[k]).ok();
        // nothing is said about other files, which may be read once they are asked for
        let before = (sv.symbols(&uri)?, sv.tokens(&uri)?["data"].clone());
        let (true, Some(text)) = (good && selected(k.0), text) else { continue };
        known += 1;
        let copy = "untitled:copy.mabo";
        sv.open(copy, text)?;
        let want = (sv.symbols(copy)?, sv.tokens(copy)?["data"].clone());
        ensure!(before == want, "the answers for {uri} are {before:?} instead of {want:?}");
    }
    c.nontrivial(known > 0);
    c.count("files of projects", known);
    let mut doc = Doc { uri: uri("a0.mabo"), text: any_text(s), version: 1 };
    if s.coin() {
        // what the client has counts, not what is on disk
        let k = s.pick(&names);
        doc.uri = uri(&format!("{}{}", k.0, k.1));
    }
    sv.open(&doc.uri, &doc.text)?;
    check_doc(s, &mut sv, &doc, enc, false)?;
    check_doc(s, &mut sv, &doc, enc, true)?;
    sv.shutdown()
}

// ---- L04 ----

/// Clients don't wait for the server: messages overlap with its own requests.
fn order(s: &mut Src, c: &mut Case) -> Ret {
    let enc = *s.pick(&ENCS);
    let via = Via::any(s, c);
    let mut sv = Server::spawn(enc, via);
    sv.answers.lock().unwrap().hold = true;
    let r = sv.request("initialize", Server::init_params(&[enc.name()], &Value::Null))?.map_err(|e| format!("initialize fails: {e}"))?;
    sv.capabilities = r["capabilities"].clone();
    // the script, independent of when things happen
    let mut docs: Vec<Doc> = Vec::new();
    let mut script: Vec<(String, Value, bool)> = vec![("initialized".into(), json!({}), false)];
    for _ in 0..1 + s.len(7) {
        let kind = s.below(6);
        if docs.is_empty() || kind == 0 {
            let doc = Doc { uri: format!("file:///d{}.mabo", docs.len()), text: any_text(s), version: 1 };
            script.push(("textDocument/didOpen".into(), json!({"textDocument": {"uri": doc.uri, "languageId": "mabo", "version": 1, "text": doc.text}}), false));
            docs.push(doc);
            continue;
        }
        let i = s.below(docs.len());
        let d = &mut docs[i];
        match kind {
            1 | 2 => {
                let e = edit(s, &d.text);
                let range = json!({"start": pos(text::position(&d.text, e.at.start, enc)), "end": pos(text::position(&d.text, e.at.end, enc))});
                d.version += 1;
                script.push(("textDocument/didChange".into(), json!({"textDocument": {"uri": d.uri, "version": d.version}, "contentChanges": [{"range": range, "text": e.insert}]}), false));
                d.text.replace_range(e.at, &e.insert);
            }
            3 => script.push(("workspace/didChangeConfiguration".into(), json!({"settings": null}), false)),
            4 => script.push(("textDocument/documentSymbol".into(), json!({"textDocument": {"uri": d.uri}}), true)),
            _ => script.push(("textDocument/semanticTokens/full".into(), json!({"textDocument": {"uri": d.uri}}), true)),
        }
    }
    // how many messages are sent before each answer
    let never = s.chance(1, 25);
    let lag: Vec<usize> = (0..8).map(|_| s.len(6)).collect();
    c.show(|| format!("{} lag {lag:?} never {never} {}", enc.name(), json!(script.iter().map(|(m, p, _)| json!([m, p])).collect::<Vec<_>>())));
    c.key(format!("{lag:?} {never} {script:?}"));
    c.nontrivial(script.len() > 1 && lag[0] > 0);
    let mut asked = Vec::new();
    let mut wait = 0;
    let mut round = 0;
    for (method, params, req) in &script {
        if *req {
            asked.push(sv.ask(method, params.clone())?);
        } else {
            sv.notify(method, params.clone())?;
        }
        wait += 1;
        if !never && wait > lag[round % lag.len()] {
            wait = 0;
            round += 1;
            give(&mut sv)?;
        }
    }
    // from now on it gets its answers at once, unless the client never answers at all
    if !never {
        sv.answers.lock().unwrap().hold = false;
        give(&mut sv)?;
    }
    for id in asked {
        let _ = sv.answer(&id)?.map_err(|e| Fail::new(format!("request {id} fails: {e}")))?;
    }
    sv.answers.lock().unwrap().hold = false;
    give(&mut sv)?;
    for d in &docs {
        sv.symbols(&d.uri)?;
        let got = sv.diagnostics(&d.uri);
        ensure!(got.len() == d.version, "there are {} diagnostics for {} instead of {}", got.len(), d.uri, d.version);
        sv.notes.push_back(json!({"method": "last", "uri": d.uri, "diagnostics": got.last()}));
        check_doc(s, &mut sv, d, enc, true)?;
    }
    sv.shutdown()
}

/// How a client takes its leave.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
enum Leave {
    /// As it should, waiting for the answer to its request to shut down.
    Politely,
    /// All at once.
    Hastily,
    /// Without such a request.
    Exit,
    /// By ending the connection, maybe within a message.
    HangUp(&'static str),
}

const STUMPS: &[&str] = &["", "", "Content-Length: 50\r\n", "Content-Length: 50\r\n\r\n{\"jsonrpc\": \"2.0\"", "Conte", "Content-Length: 2\r\n\r\n{}", "\r\n", "Content-Length: x\r\n\r\n"];

/// The server ends when the client wants it to, and not before all is answered.
fn ending(s: &mut Src, c: &mut Case) -> Ret {
    let enc = *s.pick(&ENCS);
    let via = Via::any(s, c);
    let leave = match s.below(5) {
        0 | 1 => Leave::Politely,
        2 => Leave::Hastily,
        3 => Leave::Exit,
        _ => Leave::HangUp(*s.pick(STUMPS)),
    };
    c.label(match leave {
        Leave::Politely => "politely",
        Leave::Hastily => "hastily",
        Leave::Exit => "exit only",
        Leave::HangUp(_) => "hanging up",
    });
    // messages, answers to the server given meanwhile, and messages after the request to shut down
    // a client that reads late, and more than fits in between
    let deaf = leave != Leave::Politely && s.chance(1, 5);
    let text = if deaf && s.coin() { (0..s.range(300, 1500)).map(|i| format!("struct A{i}(u8)\n")).collect() } else { any_text(s) };
    c.label_if(deaf, "reads late");
    let uri = "file:///a.mabo";
    let config = s.chance(1, 4);
    let mut script: Vec<(&str, Value, bool)> = vec![("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": text}}), false)];
    for _ in 0..s.len(6) {
        script.push(match s.below(6) {
            0 if config => ("workspace/didChangeConfiguration", json!({"settings": null}), false),
            0 | 1 => ("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": [full(&any_text(s))]}), false),
            2 => ("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}), true),
            3 => ("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}}), true),
            4 => ("workspace/whatever", json!({}), true),
            _ => ("$/setTrace", json!({"value": "off"}), false),
        });
    }
    let after: Vec<bool> = if s.chance(1, 3) { (0..1 + s.len(3)).map(|_| s.coin()).collect() } else { vec![] };
    // the server's own requests: answered at once, only after all of that, or never
    let answers = s.weighted(&[16, 5, if script.iter().filter(|m| m.0.ends_with("Configuration")).count() < 2 { 1 } else { 0 }]);
    let unheard = s.chance(1, 8);
    c.show(|| format!("{} {via:?} {leave:?}, answers {answers}, messages after {after:?}, unheard {unheard}, deaf {deaf}: {}", enc.name(), json!(script.iter().map(|(m, p, _)| json!([m, p])).collect::<Vec<_>>())));
    c.key((enc, via, leave, answers, format!("{script:?} {after:?}")));
    c.nontrivial(answers > 0 || leave != Leave::Politely || script.last().is_some_and(|m| m.2));
    let mut sv = if unheard { Server::spawn_unheard(enc, via) } else { Server::spawn(enc, via) };
    sv.answers.lock().unwrap().hold = answers > 0;
    if s.chance(1, 20) {
        // without having introduced itself
        let stump = match leave {
            Leave::HangUp(stump) => stump,
            _ => "",
        };
        sv.hang_up(stump.as_bytes());
        c.label("before initialization");
        return gently(sv.end()?, stump);
    }
    let r = sv.request("initialize", Server::init_params(&[enc.name()], &Value::Null))?.map_err(|e| format!("initialize fails: {e}"))?;
    sv.capabilities = r["capabilities"].clone();
    sv.notify("initialized", json!({}))?;
    sv.answers.lock().unwrap().deaf = deaf;
    let mut asked = Vec::new();
    for (method, params, req) in &script {
        if *req {
            asked.push((sv.ask(method, params.clone())?, method.ends_with("whatever")));
        } else {
            sv.notify(method, params.clone())?;
        }
    }
    let shut = match leave {
        Leave::Politely | Leave::Hastily => Some(sv.ask("shutdown", Value::Null)?),
        _ => None,
    };
    let mut late = Vec::new();
    let collect = |sv: &mut Server, asked: Vec<(Value, bool)>| -> Ret {
        for (id, unknown) in asked {
            match sv.answer(&id)? {
                Err(e) if !unknown => fail!("request {id} fails: {e}"),
                Ok(v) if unknown => fail!("an unknown request is answered with {v}"),
                _ => {}
            }
        }
        if let Some(id) = &shut {
            let r = sv.answer(id)?;
            ensure!(r == Ok(Value::Null), "the request to shut down is answered with {r:?}");
        }
        Ok(())
    };
    if leave == Leave::Politely {
        if answers == 1 && s.coin() {
            give(&mut sv)?;
        }
        collect(&mut sv, std::mem::take(&mut asked))?;
    }
    if shut.is_some() {
        for &req in &after {
            if req {
                late.push(sv.ask("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}))?);
            } else {
                sv.notify("$/setTrace", json!({"value": "off"}))?;
            }
        }
    }
    if answers == 1 {
        give(&mut sv)?;
    }
    match leave {
        Leave::HangUp(stump) => sv.hang_up(stump.as_bytes()),
        _ => {
            sv.notify("exit", Value::Null)?;
            if s.coin() {
                sv.hang_up(b"");
            }
        }
    }
    if deaf {
        std::thread::sleep(Duration::from_millis(20 + s.below(60) as u64));
        sv.answers.lock().unwrap().deaf = false;
    }
    // what is under way on a socket is lost if it's closed before everything was read from it, and
    // the library doesn't wait for the writer once it has read a broken message
    let whole = via == Via::Pipe && !matches!(leave, Leave::HangUp(stump) if !stump.is_empty());
    if whole || leave == Leave::Politely && after.is_empty() && answers == 0 {
        if leave != Leave::Politely {
            collect(&mut sv, asked)?;
        }
        for id in late {
            let r = sv.answer(&id)?;
            ensure!(r.is_err(), "a request after the one to shut down is answered with {r:?}");
        }
    }
    let status = sv.end()?;
    ensure!(shut.is_none() || status.success(), "the server ends with {status} after shutdown and exit");
    gently(status, if let Leave::HangUp(stump) = leave { stump } else { "" })
}

/// Ended by itself, without a panic. What broken messages do is up to the library that reads them.
fn gently(status: std::process::ExitStatus, stump: &str) -> Ret {
    ensure!(status.code().is_some_and(|c| c != 101 || !stump.is_empty()), "the server ends with {status}");
    Ok(())
}

/// What becomes of a question for the settings.
#[derive(Clone, Copy, Debug)]
enum Reply {
    Prompt,
    Failed,
    /// Only when the server doesn't wait for it anymore.
    Late { before_next: bool },
}

/// Answers that the server doesn't wait for anymore aren't taken for others.
fn late(s: &mut Src, c: &mut Case) -> Ret {
    // how long the server waits for an answer
    const PATIENCE: Duration = Duration::from_secs(2);
    let enc = *s.pick(&ENCS);
    let m = one(s);
    let (text, marks) = render::with_marks(&m, Style::Plain);
    let names: Vec<usize> = marks.iter().filter(|k| is_symbol(k)).map(|k| k.start).collect();
    if names.is_empty() {
        return Ok(());
    }
    let steps = 2 + s.below(5);
    let mut replies: Vec<(Reply, (bool, bool))> = (0..steps).map(|_| (if s.chance(1, 5) { Reply::Failed } else { Reply::Prompt }, (s.coin(), s.coin()))).collect();
    for _ in 0..1 + s.below(2) {
        let i = s.below(steps);
        replies[i].0 = Reply::Late { before_next: s.chance(2, 3) };
    }
    c.show(|| format!("{} {replies:?}\n{text}", enc.name()));
    c.key((enc, format!("{replies:?}"), &text));
    c.nontrivial(replies.windows(2).any(|w| matches!(w[0].0, Reply::Late { .. }) && w[0].1 != w[1].1));
    let via = Via::any(s, c);
    let mut sv = Server::spawn(enc, via);
    let value = |(next, size): (bool, bool)| json!({"hover": {"showNextId": next, "showWireSize": size}});
    sv.answers.lock().unwrap().hold = true;
    let r = sv.request("initialize", Server::init_params(&[enc.name()], &Value::Null))?.map_err(|e| format!("initialize fails: {e}"))?;
    sv.capabilities = r["capabilities"].clone();
    let mut now = Some((true, true));
    let mut stale: Vec<Value> = Vec::new();
    // no question is sent before this
    let mut since = Instant::now();
    for (i, (reply, v)) in replies.iter().enumerate() {
        if i == 0 {
            sv.notify("initialized", json!({}))?;
        } else {
            sv.notify("workspace/didChangeConfiguration", json!({"settings": null}))?;
        }
        let q = question(&mut sv, "workspace/configuration")?;
        let good = answer_to(&q, &value(*v));
        let answer = match reply {
            Reply::Late { before_next } => {
                if i == 0 {
                    // it goes on to this once it gives up
                    let q = question(&mut sv, "client/registerCapability")?;
                    sv.send(&answer_to(&q, &Value::Null))?;
                }
                // the next question follows once the server has given up on this one
                if *before_next { stale.insert(0, good) } else { stale.push(good) }
                since += PATIENCE;
                continue;
            }
            Reply::Failed => json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32603, "message": "failed"}}),
            Reply::Prompt => good,
        };
        let (before, after) = match i.checked_sub(1).map(|p| replies[p].0) {
            Some(Reply::Late { before_next: true }) => (std::mem::take(&mut stale), Vec::new()),
            Some(Reply::Late { before_next: false }) => (Vec::new(), std::mem::take(&mut stale)),
            _ => Default::default(),
        };
        for a in before.iter().chain([&answer]).chain(&after) {
            sv.send(a)?;
        }
        if i == 0 {
            let q = question(&mut sv, "client/registerCapability")?;
            sv.send(&answer_to(&q, &Value::Null))?;
        }
        sv.symbols("file:///none.mabo")?;
        match reply {
            // it may have come too late on a machine under load
            _ if since.elapsed() > PATIENCE * 3 / 4 => {
                c.label("too slow");
                now = None;
            }
            Reply::Prompt => now = Some(*v),
            _ => {}
        }
        look(s, &mut sv, &m, &text, &marks, &names, now)?;
        since = Instant::now();
    }
    // (after this, it doesn't wait for the last one either)
    look(s, &mut sv, &m, &text, &marks, &names, now)?;
    for a in stale {
        sv.send(&a)?;
    }
    look(s, &mut sv, &m, &text, &marks, &names, now)?;
    sv.answers.lock().unwrap().hold = false;
    give(&mut sv)?;
    sv.shutdown()
}

/// The settings that are in effect.
fn look(s: &mut Src, sv: &mut Server, m: &Schema, text: &str, marks: &[Mark], names: &[usize], now: Option<(bool, bool)>) -> Ret {
    let uri = "file:///a.mabo";
    sv.open(uri, text)?;
    if let Some(now) = now {
        let texts = hover_texts(m, now.0, now.1);
        for _ in 0..3 {
            check_hover(sv, uri, text, marks, names[s.below(names.len())], &texts)?;
        }
    }
    Ok(())
}

/// Wait for a request of the server.
fn question(sv: &mut Server, method: &str) -> Result<Value, Fail> {
    let end = Instant::now() + Duration::from_secs(60);
    while Instant::now() < end {
        {
            let held = &mut sv.answers.lock().unwrap().held;
            if let Some(i) = held.iter().position(|q| q["method"] == method) {
                return Ok(held.remove(i));
            }
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    Err(Fail::new(format!("there is no {method} within a minute")))
}

/// Answer what the server has asked so far.
fn give(sv: &mut Server) -> Ret {
    let (held, settings) = {
        let mut a = sv.answers.lock().unwrap();
        (std::mem::take(&mut a.held), a.settings.clone())
    };
    for q in held {
        sv.send(&answer_to(&q, &settings))?;
    }
    Ok(())
}
