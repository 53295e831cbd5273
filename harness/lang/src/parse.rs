//! P01–P05: the parser, the formatter and source locations.

use mabo_parser as mp;
use mabo_parser::{Schema as Ast, Spanned, token::Delimiter};
use miette::{Diagnostic, GraphicalReportHandler, GraphicalTheme};
use pbt::{Case, Check, Ret, Src, ensure, fail, no_panic};

use sk::{
    gen_::{self, FULL},
    model::*,
    render::{self, Style},
};

use crate::conv::*;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "P01" => Check::new("P01", "the text has at least 8 characters and the parser got past the first definition or rejected the text")
            .assume(&[
                "type nesting up to 64 levels (deeper nesting exhausts the stack, see the known findings)",
                "text up to 4 KiB, and some up to about 1 MiB",
            ])
            .part("work_of_nesting", 12_000, 60_000, work)
            .part("arbitrary_text", 240_000, 1_500_000, arbitrary)
            .part("token_soup", 360_000, 2_500_000, soup)
            .part("damaged_schemas", 360_000, 2_500_000, damaged)
            .part("raw_bytes", 120_000, 600_000, raw_bytes)
            .part("deep_nesting", 1_800, 6_000, deep)
            .part("large_texts", 300, 3_000, large_text)
            .probe("KF-label-end", || {
                let text = "struct Abcdefgh(u8)\nstruct b(u8)\n";
                let e = Ast::parse(text, None).err().ok_or("accepted")?;
                let mut l = Vec::new();
                labels(&e, &mut l);
                if l.contains(&(20, 13)) { Ok(()) } else { Err(format!("no label covers the second declaration, 20+13: {l:?}")) }
            })
            .probe("KF-deep-nesting", deep_nesting)
            .probe("KF-long-lines", || {
                let text = format!("struct A({}foo bar)", "u8, ".repeat(20_000));
                let e = Ast::parse(&text, None).err().ok_or("accepted")?;
                rendered(None, &e).map_err(|e| e.msg)
            }),
        "P02" => Check::new("P02", "the schema has at least two definitions or a type nested two levels")
            .assume(&["layouts: every combination of optional blanks, line breaks, trailing commas and escape forms the grammar allows"])
            .part("schemas_in_free_layout", 240_000, 1_500_000, free_layout)
            .part("types", 240_000, 1_500_000, types)
            .part("literals", 360_000, 2_000_000, literals)
            .part("large_schemas", 400, 4_000, |s, c| {
                let m = large_schema(s, c);
                free_layout_of(m, s, c)
            }),
        "P03" => Check::new("P03", "the text without the defect is accepted")
            .part("missing_token", 240_000, 1_200_000, |s, c| token_defect(s, c, false))
            .part("stray_token", 180_000, 900_000, |s, c| token_defect(s, c, true))
            .part("wrong_name", 180_000, 900_000, wrong_name)
            .part("wrong_character", 180_000, 900_000, wrong_character)
            .part("wrong_number", 120_000, 600_000, wrong_number)
            .part("wrong_definition", 180_000, 900_000, wrong_def),
        "P06" => Check::new("P06", "the text without the mistake is accepted")
            .assume(&["one mistake per text: a character that no schema can contain, between two tokens, or a name that starts with a wrong character"])
            .part("stray_character", 180_000, 900_000, stray_located)
            .part("first_character", 180_000, 900_000, first_character)
            .part("name_of_declaration", 120_000, 600_000, name_located),
        "P04" => Check::new("P04", "the schema has at least two definitions or a type nested two levels")
            .assume(&["attributes on structs and enums only; float literals are finite (the language has no way to write others)"])
            .part("format_then_parse", 240_000, 1_500_000, fmt_round_trip)
            .part("large_schemas", 300, 3_000, |s, c| {
                let m = large_schema(s, c);
                fmt_of(m, s, c)
            })
            .part("whatever_parses", 240_000, 1_500_000, fmt_accepted)
            .part("numbers", 120_000, 600_000, fmt_numbers)
            .probe("KF-fmt-attributes", || fmt_keeps("#[a]\nmod m {\n    struct A\n}\n", "#[a]"))
            .probe("KF-fmt-import-comment", || fmt_keeps("struct A(u8)\n\n/// kept?\nuse a::B;\n", "kept?")),
        "P05" => Check::new("P05", "the schema has at least two definitions or a type nested two levels")
            .part("spans", 240_000, 1_500_000, spans)
            .part("large_schemas", 400, 4_000, |s, c| {
                let m = large_schema(s, c);
                spans_of(m, s, c)
            }),
        _ => return None,
    })
}

// ---- P01 ----

const SOUP: &[&str] = &[
    "struct", "enum", "mod", "type", "const", "use", "vec<", "hash_map<", "hash_set<", "option<", "non_zero<", "box<string>", "u8", "u128", "f64",
    "string", "&string", "bytes", "bool", "true", "false", "A", "Foo", "a", "foo_bar", "MAX", "{", "}", "(", ")", "[", "]", "<", ">", ",", ":", "::", ";", "=", "@1", "@",
    "1", "-1", "1.5", "\"x\"", "\"", "[1, 2]", "/// c\n", "///", "#[a]\n", "#[", "\n", "\n", " ", " ", "\t", "\r\n", "é", "😀", "\u{0}", "@99999999999", "\\", "\"\\u{", "_", "&", "//",
];

fn soup_text(s: &mut Src, max: usize) -> String {
    let mut t = String::new();
    for _ in 0..s.len(max) {
        t.push_str(s.pick(SOUP));
        if s.coin() {
            t.push(' ');
        }
    }
    t
}

fn arbitrary(s: &mut Src, c: &mut Case) -> Ret {
    let mut t = String::new();
    for _ in 0..s.len(20) {
        if s.coin() {
            t.push_str(&s.string(12));
        } else {
            t.push_str(s.pick(SOUP));
        }
    }
    total(c, &t)
}

fn soup(s: &mut Src, c: &mut Case) -> Ret {
    let t = soup_text(s, 60);
    total(c, &t)
}

fn large_text(s: &mut Src, c: &mut Case) -> Ret {
    let m = large_schema(s, c);
    let mut t = render::plain(&m);
    if s.chance(3, 4) {
        // one defect, anywhere
        let mut at = if s.coin() { s.below(t.len() + 1) } else { t.len() - s.below(t.len().min(200)) };
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        match s.below(3) {
            0 => t.truncate(at),
            1 => t.insert(at, s.char()),
            _ => t.insert_str(at, s.pick(SOUP)),
        }
    }
    total(c, &t)
}

fn damaged(s: &mut Src, c: &mut Case) -> Ret {
    let t = damaged_text(s);
    total(c, &t)
}

fn damaged_text(s: &mut Src) -> String {
    let m = gen_::wild_schema(s, &FULL);
    let t = if s.coin() { render::plain(&m) } else { render::schema(&m, Style::Free(s)) };
    let mut chars: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.len(4) {
        let at = s.below(chars.len() + 1);
        match s.below(7) {
            0 => chars.truncate(at),
            1 if at < chars.len() => {
                chars.remove(at);
            }
            2 => chars.insert(at, s.char()),
            3 => {
                let ins: Vec<char> = soup_text(s, 3).chars().collect();
                chars.splice(at..at, ins);
            }
            4 if at < chars.len() => {
                let n = (1 + s.len(20)).min(chars.len() - at);
                chars.drain(at..at + n);
            }
            5 if at < chars.len() => {
                let n = (1 + s.len(20)).min(chars.len() - at);
                let dup: Vec<char> = chars[at..at + n].to_vec();
                chars.splice(at..at, dup);
            }
            _ if at < chars.len() => chars[at] = s.char(),
            _ => {}
        }
    }
    chars.into_iter().take(4096).collect()
}

fn raw_bytes(s: &mut Src, c: &mut Case) -> Ret {
    let mut b = if s.coin() { soup_text(s, 20) } else { render::schema(&gen_::wild_schema(s, &FULL), Style::Free(s)) }.into_bytes();
    match s.below(12) {
        // marks of encodings
        0 => drop(b.splice(0..0, *b"\xef\xbb\xbf")),
        1 => drop(b.splice(0..0, *b"\xff\xfe")),
        2 => b.extend(b"\xef\xbb\xbf"),
        3 => b.push(*s.pick(&[0, 0x1a, 0xa0, 0x80, 0xc2, 0xff])),
        _ => {}
    }
    for _ in 0..s.len(4) {
        let at = s.below(b.len() + 1);
        b.insert(at, s.byte());
    }
    c.show(|| format!("{b:?}"));
    c.key(&b);
    c.nontrivial(b.len() >= 8);
    let got = no_panic(|| mp::from_slice(&b, None).is_ok()).map_err(|p| format!("parsing bytes panics: {p}"))?;
    match std::str::from_utf8(&b) {
        Ok(t) => {
            c.label("utf-8");
            ensure!(got == mp::from_str(t, None).is_ok(), "bytes and text are judged differently");
        }
        Err(_) => ensure!(!got, "bytes that are not UTF-8 are accepted"),
    }
    Ok(())
}

fn deep(s: &mut Src, c: &mut Case) -> Ret {
    let n = 1 + s.below(64);
    let mut t = String::from("u8");
    let mut lits = String::from("1");
    for _ in 0..n {
        t = match s.below(6) {
            0 => format!("vec<{t}>"),
            1 => format!("option<{t}>"),
            2 => format!("({t}, u8)"),
            3 => format!("[{t}; 2]"),
            4 => format!("hash_map<u8, {t}>"),
            _ => format!("Foo<{t}>"),
        };
        lits = format!("a({lits})");
    }
    let lits = lits.replace("(1)", "");
    let mut text = format!("#[{lits}]\nstruct A(\n{t})");
    if s.coin() {
        let mut at = s.below(text.len());
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        text.remove(at);
    }
    let m = s.below(40);
    for i in 0..m {
        text = format!("mod m{i} {{ {text} }}\n");
    }
    total(c, &text)
}

/// A few shapes repeated twice as often may take a few times the work, but not a power of it.
fn work(s: &mut Src, c: &mut Case) -> Ret {
    const TYPES: &[(&str, &str)] = &[
        ("vec<", ">"), ("option<", ">"), ("(", ", u8)"), ("(u8, ", ")"), ("[", "; 2]"), ("hash_map<u8, ", ">"), ("hash_map<", ", u8>"), ("Foo<", ">"), ("a::Foo<u8, ", ">"),
        ("hash_set<", ">"), ("non_zero<", ">"), ("(", ")"),
    ];
    const DEFS: &[(&str, &str)] = &[("mod m {", "}"), ("mod m { const A: u8 = 1; ", "}"), ("mod m {", " struct A }"), ("/// c\nmod m {", "}")];
    const ATTRS: &[(&str, &str)] = &[("a(", ")"), ("a(b, ", ")"), ("a(", ", b = 1)")];
    const LEAVES: &[&str] = &["u8", "u8", "Foo", "", "1", "vec", "Foo<", "(", "u8, u8", "?"];
    let around = s.below(7);
    let list = match around {
        0 => DEFS,
        1 => ATTRS,
        _ => TYPES,
    };
    let cycle: Vec<(&str, &str)> = (0..1 + s.below(3)).map(|_| *s.pick(list)).collect();
    let leaf = match around {
        0 => *s.pick(&["struct A", "struct A(u8)", "", "struct", "enum A {"]),
        1 => *s.pick(&["a", "a = 1", "", "1", "a = "]),
        _ => *s.pick(LEAVES),
    };
    let closed = s.chance(2, 3);
    let text = |depth: usize| {
        let mut t = leaf.to_owned();
        for i in 0..depth {
            let (a, b) = cycle[i % cycle.len()];
            t = format!("{a}{t}{}", if closed { b } else { "" });
        }
        match around {
            0 => t,
            1 => format!("#[{t}]\nstruct A"),
            2 => format!("struct A({t} @1)"),
            3 => format!("struct A {{ a: {t} @1 }}"),
            4 => format!("enum A {{ B({t}) @1, C {{ a: {t} }} }}"),
            5 => format!("type A = {t};"),
            _ => format!("const A: {t} = 1;"),
        }
    };
    let (small, large) = (text(5), text(10));
    c.show(|| large.clone());
    c.key(&large);
    c.label(if closed { "closed" } else { "left open" });
    let mut accepted = false;
    let mut cost = |t: &str| {
        let (n, r) = crate::allocations(|| no_panic(|| Ast::parse(t, None).map(drop).map_err(drop)));
        r.map(|r| {
            accepted |= r.is_ok();
            n
        })
        .map_err(|p| format!("the parser panics: {p}"))
    };
    // what is set up once doesn't count
    cost("")?;
    let (a, b) = (cost(&small)?, cost(&large)?);
    c.label(if accepted { "accepted" } else { "rejected" });
    c.nontrivial(b > 10);
    ensure!(b <= 6 * a + 300, "parsing takes {a} allocations at 5 levels and {b} at 10");
    Ok(())
}

/// The parser decides, and whatever it complains about points into the text.
fn total(c: &mut Case, text: &str) -> Ret {
    c.show(|| text.to_owned());
    c.key(text);
    let parsed = no_panic(|| Ast::parse(text, Some("test.mabo".as_ref()))).map_err(|p| format!("the parser panics: {p}"))?;
    match parsed {
        Ok(ast) => {
            c.label("accepted");
            c.nontrivial(text.len() >= 8 && ast.definitions.len() > 1);
            ensure!(ast.source == text, "the schema does not keep its source");
            no_panic(|| (ast.to_string(), format!("{ast:?}").len())).map_err(|p| format!("printing the schema panics: {p}"))?;
        }
        Err(e) => {
            c.label("rejected");
            c.nontrivial(text.len() >= 8);
            report(Some(c), text, &e)?;
        }
    }
    Ok(())
}

pub fn labels(e: &dyn Diagnostic, out: &mut Vec<(usize, usize)>) {
    out.extend(e.labels().into_iter().flatten().map(|l| (l.offset(), l.len())));
    for r in e.related().into_iter().flatten() {
        labels(r, out);
    }
    if let Some(d) = e.diagnostic_source() {
        labels(d, out);
    }
}

/// Every location of the report lies within the text, and the report can be shown.
pub fn report(mut c: Option<&mut Case>, text: &str, e: &dyn Diagnostic) -> Ret {
    let mut l = Vec::new();
    labels(e, &mut l);
    for (at, len) in &l {
        let end = at + len;
        ensure!(end <= text.len(), "label {at}+{len} is beyond the text ({} bytes): {e}", text.len());
        ensure!(text.is_char_boundary(*at), "label {at}+{len} starts within a character: {e}");
        if !text.is_char_boundary(end) {
            // the end is the distance from the start instead of a place in the text
            let relative = text[*at..].char_indices().any(|(p, ch)| matches!(ch, '}' | '\n' | ';' | ',') && p + 1 == end);
            ensure!(relative, "label {at}+{len} ends within a character: {e}");
            if let Some(c) = &mut c {
                c.known("KF-label-end", || format!("label {at}+{len} ends within a character: {e}"))?;
            }
        }
    }
    rendered(c, e)
}

/// Bytes of the longest line in the sources of the report and those related to it.
fn longest_line(e: &dyn Diagnostic) -> usize {
    let own = e.source_code().and_then(|s| {
        let all = s.read_span(&(0, 0).into(), 0, usize::MAX / 2).ok()?;
        all.data().split(|b| *b == b'\n').map(<[u8]>::len).max()
    });
    e.related().into_iter().flatten().chain(e.diagnostic_source()).map(longest_line).chain(own).max().unwrap_or(0)
}

/// The error has a message and can be shown with the sources it refers to.
pub fn rendered(c: Option<&mut Case>, e: &dyn Diagnostic) -> Ret {
    ensure!(!e.to_string().is_empty(), "error without a message");
    let shown = no_panic(|| {
        let mut out = String::new();
        GraphicalReportHandler::new_themed(GraphicalTheme::unicode_nocolor()).render_report(&mut out, e).map(|()| out)
    });
    match shown {
        Ok(Ok(t)) => {
            ensure!(!t.trim().is_empty(), "empty report");
            ensure!(!t.contains("Failed to read contents"), "the report cannot read the source: {t}");
        }
        Ok(Err(_)) => fail!("the report cannot be shown"),
        Err(p) => {
            // in the library that shows the reports, for lines that are longer than it can indent
            let long = p.contains("Formatting argument out of range") && longest_line(e) > 65_000;
            match c {
                Some(c) if long => c.known("KF-long-lines", || format!("showing the report panics: {p}"))?,
                _ => fail!("showing the report panics: {p}"),
            }
        }
    }
    if let Some(src) = e.source_code() {
        let read = src.read_span(&(0, 0).into(), 0, usize::MAX / 2).map(|c| c.data().len());
        ensure!(read.is_ok(), "the report does not carry the source");
    }
    Ok(())
}

/// The text the report shows is the one that was given, so that its locations mean the same there.
fn carries(e: &dyn Diagnostic, text: &str) -> Ret {
    let Some(src) = e.source_code() else { fail!("the report does not carry the source") };
    let Ok(all) = src.read_span(&(0, 0).into(), 0, usize::MAX / 2) else { fail!("the report does not carry the source") };
    let shown = String::from_utf8_lossy(all.data());
    ensure!(all.span().offset() == 0 && shown == text, "the report shows another text: {shown:?}");
    Ok(())
}

/// Runs in a process of its own, as the stack overflow ends it.
fn deep_nesting() -> Result<(), String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let st = std::process::Command::new(me)
        .env("LANG_DEEP", "20000")
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    if st.success() { Ok(()) } else { Err(format!("parsing 20000 nested types ends the process: {st}")) }
}

pub fn deep_child(n: usize) {
    let text = format!("struct A({}u8{})", "vec<".repeat(n), ">".repeat(n));
    let ok = Ast::parse(&text, None).map(std::mem::forget).is_ok();
    std::process::exit(i32::from(!ok && n < 64));
}

// ---- P02 ----

fn rich(m: &Schema) -> bool {
    let mut deep = false;
    m.walk(&mut |_, d| {
        let mut t = Vec::new();
        def_types(d, &mut t);
        deep |= t.iter().any(|t| t.depth() > 1);
    });
    deep || m.count() > 1
}

pub fn def_types<'a>(d: &'a Def, out: &mut Vec<&'a Ty>) {
    match d {
        Def::Struct { fields, .. } => out.extend(fields.list().iter().map(|f| &f.ty)),
        Def::Enum { variants, .. } => out.extend(variants.iter().flat_map(|v| v.fields.list()).map(|f| &f.ty)),
        Def::Alias { target, .. } => out.push(target),
        Def::Const { ty, .. } => out.push(ty),
        Def::Mod { .. } | Def::Use { .. } => {}
    }
}

fn parse<'a>(text: &'a str) -> Result<Ast<'a>, String> {
    no_panic(|| Ast::parse(text, None)).map_err(|p| format!("the parser panics: {p}"))?.map_err(|e| {
        let mut out = String::new();
        let _ = GraphicalReportHandler::new_themed(GraphicalTheme::none()).render_report(&mut out, &e);
        format!("valid schema rejected: {e}\n{out}")
    })
}

fn same(want: &Schema, got: &Schema) -> Ret {
    if want == got {
        return Ok(());
    }
    ensure!(want.comment == got.comment, "schema comment: expected {:?}, got {:?}", want.comment, got.comment);
    ensure!(want.defs.len() == got.defs.len(), "expected {} definitions, got {}", want.defs.len(), got.defs.len());
    for (w, g) in want.defs.iter().zip(&got.defs) {
        ensure!(w == g, "definition differs:\n  expected {w:?}\n  got      {g:?}");
    }
    fail!("schemas differ")
}

fn large_schema(s: &mut Src, c: &mut Case) -> Schema {
    let mut m = gen_::wild_schema(s, &FULL);
    c.label(sk::large::grow(s, &mut m, false));
    m
}

fn free_layout(s: &mut Src, c: &mut Case) -> Ret {
    let m = gen_::wild_schema(s, &FULL);
    free_layout_of(m, s, c)
}

fn free_layout_of(m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    let text = render::schema(&m, Style::Free(s));
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(rich(&m));
    let ast = parse(&text)?;
    same(&m, &from_ast(&ast))
}

fn types(s: &mut Src, c: &mut Case) -> Ret {
    let t = gen_::wild_ty(s, 5);
    let m = Schema {
        comment: vec![],
        defs: vec![Def::Struct {
            comment: vec![],
            attrs: vec![],
            name: "A".into(),
            generics: vec![],
            fields: Fields::Named(vec![Field { comment: vec![], name: "a".into(), ty: t.clone(), id: None }]),
        }],
    };
    let text = render::schema(&m, Style::Free(s));
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(t.depth() > 2);
    let ast = parse(&text)?;
    same(&m, &from_ast(&ast))
}

fn literals(s: &mut Src, c: &mut Case) -> Ret {
    let v = gen_::lit(s);
    let m = Schema { comment: vec![], defs: vec![Def::Const { comment: vec![], name: "A".into(), ty: Ty::Prim("u8"), value: v.clone() }] };
    let text = render::schema(&m, Style::Free(s));
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(!matches!(v, Lit::Bool(_)));
    let ast = parse(&text)?;
    same(&m, &from_ast(&ast))
}

// ---- P03 ----

fn must_reject(c: &mut Case, good: &str, bad: &str, what: &str) -> Ret {
    c.show(|| format!("{what}\n{bad}"));
    c.key(bad);
    c.nontrivial(no_panic(|| Ast::parse(good, None).is_ok()).unwrap_or(false));
    match no_panic(|| Ast::parse(bad, Some("bad.mabo".as_ref()))).map_err(|p| format!("the parser panics: {p}"))? {
        Ok(ast) => fail!("accepted although {what}; read as:\n{ast}"),
        Err(e) => report(None, bad, &e),
    }
}

fn token_defect(s: &mut Src, c: &mut Case, insert: bool) -> Ret {
    let m = gen_::wild_schema(s, &FULL);
    let (text, tokens) = if s.coin() { render::with_tokens(&m, Style::Plain) } else { render::with_tokens(&m, Style::Free(s)) };
    if tokens.is_empty() {
        c.show(|| text.clone());
        return Ok(());
    }
    let (a, b) = *s.pick(&tokens);
    let mut bad = text.clone();
    let what;
    if insert {
        let t = *s.pick(&[":", ";", "<", ">", "=", "#", "$", "?", "!", "%", "|", "~", "^", "."]);
        let at = if s.coin() { a } else { b };
        bad.insert_str(at, t);
        what = format!("{t:?} is inserted at byte {at}");
    } else {
        what = format!("{:?} at byte {a} is missing", &text[a..b]);
        bad.replace_range(a..b, " ");
    }
    must_reject(c, &text, &bad, &what)
}

/// Errors of a report from the outside in: what they are about, and where.
fn chain(e: &dyn Diagnostic, out: &mut Vec<(String, Vec<usize>)>) {
    let kind = e.url().map_or_else(|| e.to_string(), |u| u.to_string().rsplit('/').next().unwrap_or_default().to_owned());
    out.push((kind, e.labels().into_iter().flatten().map(|l| l.offset()).collect()));
    for r in e.related().into_iter().flatten() {
        chain(r, out);
    }
    if let Some(d) = e.diagnostic_source() {
        chain(d, out);
    }
}

/// What no schema can contain is reported where it is.
fn stray_located(s: &mut Src, c: &mut Case) -> Ret {
    let m = gen_::wild_schema(s, &FULL);
    let (text, tokens, spans) = if s.coin() { render::with_spans(&m, Style::Plain) } else { render::with_spans(&m, Style::Free(s)) };
    if tokens.is_empty() {
        c.show(|| text.clone());
        return Ok(());
    }
    let (a, b) = *s.pick(&tokens);
    let at = if s.coin() { a } else { b };
    let t = *s.pick(&["$", "?", "!", "%", "|", "~", "^"]);
    let mut bad = text.clone();
    bad.insert_str(at, t);
    c.show(|| format!("{t:?} is inserted at byte {at}\n{bad}"));
    c.key(&bad);
    c.nontrivial(no_panic(|| Ast::parse(&text, None).is_ok()).unwrap_or(false));
    let Err(e) = no_panic(|| Ast::parse(&bad, None)).map_err(|p| format!("the parser panics: {p}"))? else { fail!("accepted") };
    carries(&e, &bad)?;
    let mut errors = Vec::new();
    // a constant has to end behind its value
    if text[at..].starts_with(';') && spans.iter().any(|s| s.kind == "const" && s.end == at + 1) {
        c.label("end_of_constant");
        coded(&e, &mut errors);
        ensure!(errors.iter().any(|(c, p)| c == "mabo::parse::const_def::char" && *p == [at]), "no missing semicolon at {at}: {errors:?}");
        errors.clear();
    }
    chain(&e, &mut errors);
    located(at, &spans, &errors).map_err(|f| format!("{}\nreported is {errors:?}", f.msg).into())
}

const KINDS: &[(&str, &str)] = &[
    ("struct.ParseModuleError.html", "mod"),
    ("struct.ParseStructError.html", "struct"),
    ("struct.ParseEnumError.html", "enum"),
    ("struct.ParseAliasError.html", "type"),
    ("struct.ParseConstError.html", "const"),
    ("struct.ParseImportError.html", "use"),
    ("struct.ParseFieldsError.html", "fields"),
    ("struct.ParseGenericsError.html", "generics"),
    ("struct.ParseTypeError.html", "type definition"),
    ("struct.ParseLiteralError.html", "literal"),
    ("struct.ParseIdError.html", "id"),
    ("struct.ParseAttributeError.html", "attribute"),
];

fn located(at: usize, spans: &[render::Span], errors: &[(String, Vec<usize>)]) -> Ret {
    // elements around the mistake, the outermost first
    let mut around: Vec<&render::Span> = spans.iter().filter(|s| s.start <= at && at <= s.end).collect();
    around.sort_by_key(|s| (s.start, usize::MAX - s.end));
    let mut last = 0;
    let mut offset = None;
    let mut rest = around.iter();
    for (kind, places) in errors {
        for p in places {
            ensure!(*p <= at, "{kind} is reported at {p}, behind the mistake at {at}");
            last = last.max(*p);
        }
        if let Some((_, p)) = kind.split_once(" at offset ") {
            let p = p.parse().unwrap_or(usize::MAX);
            ensure!(p <= at, "{kind} is behind the mistake at {at}");
            offset = Some(p);
        }
        if let Some((_, k)) = KINDS.iter().find(|(u, _)| u == kind) {
            // some are reported where parsing ended instead of their start, and what is missing at the mistake
            let loose = matches!(*k, "enum" | "type" | "generics");
            let Some(span) = rest.clone().find(|s| s.kind == *k && if loose { places.iter().all(|p| *p >= s.start) } else { places.contains(&s.start) }) else {
                ensure!(places == &[at] && !matches!(*k, "enum" | "type"), "an error of a {k} at {places:?}, but the mistake at {at} is in {around:?}");
                continue;
            };
            rest.by_ref().find(|s| std::ptr::eq(**s, *span));
        }
    }
    // every declaration that has begun takes part
    let kinds = |name: &str| errors.iter().filter(|(u, _)| KINDS.iter().any(|(k, n)| k == u && *n == name)).count();
    for name in ["mod", "enum", "type", "const", "use"] {
        let begun = around.iter().filter(|s| s.kind == name && s.start + name.len() < at && at < s.end).count();
        ensure!(kinds(name) >= begun, "{} errors of a {name} instead of {begun}", kinds(name));
    }
    let last = offset.unwrap_or(last);
    // the innermost definition or list of fields that has begun and can't end before the mistake
    let inside = around
        .iter()
        .filter(|s| at < s.end && matches!(s.kind, "mod" | "enum" | "type" | "const" | "use" | "fields"))
        .filter(|s| s.start + if s.kind == "fields" { 0 } else { s.kind.len() } < at)
        .map(|s| s.start)
        .max()
        .unwrap_or(0);
    ensure!(last >= inside, "reported is {last}, in front of the element at {inside} with the mistake at {at}");
    Ok(())
}

/// A name that starts with a wrong character is reported at that character, by kind.
fn first_character(s: &mut Src, c: &mut Case) -> Ret {
    let m = gen_::wild_schema(s, &FULL);
    let (text, marks) = if s.coin() { render::with_marks(&m, Style::Plain) } else { render::with_marks(&m, Style::Free(s)) };
    let names: Vec<_> = marks.iter().filter(|m| m.declares).collect();
    if names.is_empty() {
        c.show(|| text.clone());
        return Ok(());
    }
    let mark = *s.pick(&names);
    let (code, first) = match mark.kind {
        "namespace" => ("mabo::parse::module::invalid_name", "A"),
        "struct" => ("mabo::parse::struct_def::invalid_name", "a"),
        "enum" => ("mabo::parse::enum_def::invalid_name", "a"),
        "enumMember" => ("mabo::parse::enum_def::invalid_name", "a"),
        "typeAlias" => ("mabo::parse::alias_def::invalid_name", "a"),
        "variable" => ("mabo::parse::const_def::invalid_name", "a"),
        "property" => ("mabo::parse::fields::named::invalid_name", "A"),
        "typeParameter" => ("mabo::parse::generics::invalid_name", "a"),
        k => fail!("generator: {k}"),
    };
    let first = *s.pick(&[first, "1", "_", "é", "É", "-", "$", "."]);
    let mut bad = text.clone();
    bad.replace_range(mark.start..mark.start + 1, first);
    c.label(mark.kind);
    c.show(|| format!("{first:?} at byte {}\n{bad}", mark.start));
    c.key(&bad);
    c.nontrivial(no_panic(|| Ast::parse(&text, None).is_ok()).unwrap_or(false));
    let Err(e) = no_panic(|| Ast::parse(&bad, None)).map_err(|p| format!("the parser panics: {p}"))? else { fail!("accepted") };
    carries(&e, &bad)?;
    let mut errors = Vec::new();
    coded(&e, &mut errors);
    if !errors.iter().any(|(c, p)| c == code && *p == [mark.start]) {
        // behind a comma nothing is expected for sure: what is there is left over
        ensure!(matches!(mark.kind, "enumMember" | "property" | "typeParameter"), "no {code} at {}: {errors:?}", mark.start);
        let at = errors.last().and_then(|(e, _)| e.split_once(" at offset ")).and_then(|(_, p)| p.parse::<usize>().ok()).unwrap_or(usize::MAX);
        let between = bad.get(at..mark.start).map(|t| t.lines().all(|l| l.trim().is_empty() || l.trim_start().starts_with("///")));
        ensure!(between == Some(true), "neither {code} at {0} nor an end at {0}: {errors:?}", mark.start);
        c.label("left_over");
    }
    Ok(())
}

/// Codes of a report with the places they are given for.
fn coded(e: &dyn Diagnostic, out: &mut Vec<(String, Vec<usize>)>) {
    out.push((e.code().map_or_else(|| e.to_string(), |c| c.to_string()), e.labels().into_iter().flatten().map(|l| l.offset()).collect()));
    for r in e.related().into_iter().flatten() {
        coded(r, out);
    }
    if let Some(d) = e.diagnostic_source() {
        coded(d, out);
    }
}

fn wrong_name(s: &mut Src, c: &mut Case) -> Ret {
    let mut m = gen_::wild_schema(s, &FULL);
    let good = render::plain(&m);
    let upper: &[&str] = &["a", "aB", "1A", "_A", "A_b", "Éa", "A-B", "", "A b", "AÉ", "A.B"];
    let lower: &[&str] = &["A", "Ab", "1a", "_a", "aB", "a-b", "éa", "", "aé", "a b", "a.b"];
    let segment: &[&str] = &["1a", "_a", "aB", "a-b", "éa", "", "aé", "a b", "a.b"];
    let constant: &[&str] = &["a", "aB", "1A", "_A", "Ab", "A-B", "É", "", "A B", "A.B"];
    let mut names: Vec<(&mut String, &[&str], &str)> = Vec::new();
    fn fields<'a>(f: &'a mut Fields, lower: &'static [&'static str], out: &mut Vec<(&'a mut String, &'static [&'static str], &'static str)>) {
        if let Fields::Named(l) = f {
            for f in l {
                out.push((&mut f.name, lower, "field"));
            }
        }
    }
    let upper: &'static [&'static str] = Box::leak(upper.to_vec().into_boxed_slice());
    let lower: &'static [&'static str] = Box::leak(lower.to_vec().into_boxed_slice());
    fn go<'a>(
        defs: &'a mut [Def],
        sets: [&'static [&'static str]; 4],
        out: &mut Vec<(&'a mut String, &'static [&'static str], &'static str)>,
    ) {
        let [upper, lower, segment, constant] = sets;
        for d in defs {
            match d {
                Def::Mod { name, defs, .. } => {
                    out.push((name, lower, "module"));
                    go(defs, sets, out);
                }
                Def::Struct { name, generics, fields: f, .. } => {
                    out.push((name, upper, "struct"));
                    out.extend(generics.iter_mut().map(|g| (g, upper, "generic")));
                    fields(f, lower, out);
                }
                Def::Enum { name, generics, variants, .. } => {
                    out.push((name, upper, "enum"));
                    out.extend(generics.iter_mut().map(|g| (g, upper, "generic")));
                    for v in variants {
                        // a missing name at the end of a list is a trailing comma
                        out.push((&mut v.name, &upper[..7], "variant"));
                        fields(&mut v.fields, lower, out);
                    }
                }
                Def::Alias { name, generics, .. } => {
                    out.push((name, upper, "alias"));
                    out.extend(generics.iter_mut().map(|g| (g, &upper[..7], "generic")));
                }
                Def::Const { name, .. } => out.push((name, constant, "constant")),
                Def::Use { segments, element } => {
                    out.extend(segments.iter_mut().map(|g| (g, segment, "import segment")));
                    if let Some(e) = element {
                        out.push((e, &["1A", "_A", "A-B", "Éa", "", "A b", "A.B", "A::B"], "import element"));
                    }
                }
            }
        }
    }
    let segment: &'static [&'static str] = Box::leak(segment.to_vec().into_boxed_slice());
    let constant: &'static [&'static str] = Box::leak(constant.to_vec().into_boxed_slice());
    go(&mut m.defs, [upper, lower, segment, constant], &mut names);
    if names.is_empty() {
        c.show(|| good.clone());
        return Ok(());
    }
    let at = s.below(names.len());
    let (name, bad, kind) = &mut names[at];
    let bad = *s.pick(bad);
    let kind = *kind;
    if kind == "generic" && bad.is_empty() {
        // may be a trailing comma
        c.show(|| good.clone());
        return Ok(());
    }
    **name = bad.to_owned();
    let text = render::plain(&m);
    must_reject(c, &good, &text, &format!("{bad:?} is no {kind} name"))
}

/// Any name, declared or used, with one character too many that no name of its kind has.
fn wrong_character(s: &mut Src, c: &mut Case) -> Ret {
    const NEVER: &[char] = &['é', 'É', 'ß', 'ǅ', '²', '½', '٣', 'ª', '中', 'Ａ', 'ａ', '１', 'Ⅷ', '\u{301}', '\u{200d}', '\u{a0}', '\u{3000}', '\u{feff}', '＿', '‿', '-', '$', '.', '\'', '"', '\\', '\0', '\u{b}'];
    let m = gen_::wild_schema(s, &FULL);
    let (text, marks) = if s.coin() { render::with_marks(&m, Style::Plain) } else { render::with_marks(&m, Style::Free(s)) };
    let names: Vec<_> = marks.iter().filter(|m| m.declares || matches!(m.kind, "namespace" | "type")).filter(|m| m.end > m.start).collect();
    if names.is_empty() {
        c.show(|| text.clone());
        return Ok(());
    }
    let mark = *s.pick(&names);
    let own = s.coin();
    let ch = match mark.kind {
        "namespace" | "property" if own => (b'A' + s.below(26) as u8) as char,
        "variable" if own => (b'a' + s.below(26) as u8) as char,
        "struct" | "enum" | "enumMember" | "typeAlias" | "typeParameter" if own => '_',
        _ => *s.pick(NEVER),
    };
    // (in front of a name, it may become one of another kind)
    let at = mark.start + 1 + s.below(mark.end - mark.start);
    let mut bad = text.clone();
    bad.insert(at, ch);
    c.label(mark.kind);
    must_reject(c, &text, &bad, &format!("{ch:?} at byte {at} belongs to no name"))
}

/// A declaration that starts with a wrong name is reported at exactly that place, by kind.
fn name_located(s: &mut Src, c: &mut Case) -> Ret {
    let mut m = Schema { comment: gen_::comment(s, &FULL), defs: vec![] };
    let before = gen_::wild_schema(s, &FULL);
    m.defs = before.defs;
    let (start, _) = render::with_tokens(&m, Style::Free(s));
    let gap = if start.is_empty() { "" } else { "\n" };
    let rest = if s.coin() { "\n\nstruct Last(u8)\n" } else { "" };
    let upper = ["a", "aB", "1A", "_A", "Éa", "-", "foo"];
    let lower = ["A", "Ab", "1a", "_a", "éa", "-", "Foo"];
    let (keyword, bad, tail, code) = match s.below(5) {
        0 => ("struct", *s.pick(&upper), "(u8)", "mabo::parse::struct_def::invalid_name"),
        1 => ("enum", *s.pick(&upper), " { A }", "mabo::parse::enum_def::invalid_name"),
        2 => ("type", *s.pick(&upper), " = u8;", "mabo::parse::alias_def::invalid_name"),
        3 => ("const", *s.pick(&["a", "aB", "1A", "_A", "É", "-"]), ": u8 = 1;", "mabo::parse::const_def::invalid_name"),
        _ => ("mod", *s.pick(&lower), " { }", "mabo::parse::module::invalid_name"),
    };
    let blanks = *s.pick(&[" ", "  ", "\t"]);
    let decl = start.len() + gap.len();
    let name = decl + keyword.len() + blanks.len();
    let text = format!("{start}{gap}{keyword}{blanks}{bad}{tail}{rest}");
    c.show(|| text.clone());
    c.key(&text);
    c.label(keyword);
    c.nontrivial(decl > 0);
    match no_panic(|| Ast::parse(&text, None)).map_err(|p| format!("the parser panics: {p}"))? {
        Ok(_) => fail!("{bad:?} is accepted as the name of a {keyword}"),
        Err(e) => {
            let mut l = Vec::new();
            labels(&e, &mut l);
            let mut codes = Vec::new();
            all_codes(&e, &mut codes);
            ensure!(l.iter().any(|(at, _)| *at == name), "no label at the wrong name (byte {name}): {l:?}");
            let whole = matches!(keyword, "struct" | "const" | "mod");
            ensure!(!whole || l.iter().any(|(at, _)| *at == decl), "no label at the declaration (byte {decl}): {l:?}");
            ensure!(codes.iter().any(|c| c == code), "the report lacks {code}: {codes:?}");
            Ok(())
        }
    }
}

fn all_codes(e: &dyn Diagnostic, out: &mut Vec<String>) {
    out.extend(e.code().map(|c| c.to_string()));
    for r in e.related().into_iter().flatten() {
        all_codes(r, out);
    }
    if let Some(d) = e.diagnostic_source() {
        all_codes(d, out);
    }
}

fn wrong_number(s: &mut Src, c: &mut Case) -> Ret {
    let m = gen_::wild_schema(s, &FULL);
    let (text, tokens) = render::with_tokens(&m, Style::Plain);
    let places: Vec<(usize, &str)> =
        tokens.iter().filter_map(|(a, b)| match &text[*a..*b] {
            "@" => Some((*b, "id")),
            ";" if text[*b..].starts_with(' ') && text[b + 1..].starts_with(|c: char| c.is_ascii_digit()) => Some((*b + 1, "size")),
            _ => None,
        }).collect();
    if places.is_empty() {
        c.show(|| text.clone());
        return Ok(());
    }
    let (at, kind) = *s.pick(&places);
    let len = text[at..].bytes().take_while(u8::is_ascii_digit).count();
    let big = (u128::from(u32::MAX) + 1 + s.uint(64)).to_string();
    let number = match s.below(8) {
        0 | 1 => &big,
        2 => "-1",
        3 => "",
        4 => "1_000",
        5 => "0x10",
        6 => "1.0",
        _ => "x",
    };
    let mut bad = text.clone();
    bad.replace_range(at..at + len, number);
    must_reject(c, &text, &bad, &format!("{number:?} is no {kind}"))
}

const BAD_TYPES: &[&str] = &[
    "u7", "u256", "int", "str", "usize", "f16", "char", "&str", "&u8", "& string", "box<u8>", "box<vec<u8>>", "box<A>", "vec", "vec<>", "option<>", "hash_map<u8>", "hash_map<u8, u8, u8>",
    "hash_map<u8 u8>", "hash_set<u8, u8>", "hash_set<>", "()", "[u8]", "[u8; ]", "[u8; -1]", "[u8; 4294967296]", "[u8, 3]", "[; 3]", "non_zero<>", "non_zero<u8, u8>", "vec<u8", "*u8", "u8?", "A<>",
    "a::b", "A::", "::A", "a::", "A::B", "(u8", "u8)", "(u8 u8)", "(, u8)", "(u8,, u8)", "A<,>", "A<u8", "vec(u8)", "vec[u8]", "Vec{u8}", "1", "", "'a", "u8 u8", "mut u8", "option", "non_zero",
];

const BAD_LITS: &[&str] = &[
    "1_000", "0x10", ".5", "\"abc", "\"\\q\"", "\"\\u{110000}\"", "\"\\u{d800}\"", "\"\\u{}\"", "\"\\u{1234567}\"", "\"\\u41\"", "\"\\x41\"", "'a'", "[256]", "[-1]", "[]", "[1 2]", "[1,,2]", "[,]", "[1, 2", "tru", "True",
    "FALSE", "null", "None", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "", "--1", "+-1", "1 2", "\"a\" \"b\"", "- 1", "1u8", "(1)", "A", "{}", "abc", "[\"a\"]", "[true]", "[1.0]",
    "1.0e309", "-1.0e400", "1.7976931348623159e308", "10000.0E305", "1.0e99999999999999999999", "+2.0e+308", "1.5e", "1.5e+", "1e5", "1.", "1.e5", "1.5e5.0", "+", "-", "1.5f64", "inf", "NaN", "-inf",
];

const BAD_DEFS: &[&str] = &[
    "struct A {}", "struct A()", "enum A {}", "enum A", "enum A(u8)", "struct A<>(u8)", "enum A<> { B }", "struct A { a }", "struct A { : u8 }", "struct A { a: }", "struct A(a: u8)", "struct A { u8 }",
    "struct A { a: u8,, }", "struct A { , a: u8 }", "struct A(,)", "struct A { a: u8 b: u8 }", "struct A { a: u8; b: u8 }", "struct A(u8 u8)", "enum A { B C }", "enum A { B,, C }", "enum A { b }", "enum A { B: u8 }", "enum A { B = 1 }",
    "mod a", "mod a;", "mod {}", "mod a { struct }", "mod a {", "mod a }", "type A;", "type A = u8", "type A = ;", "type = u8;", "type A u8;", "const A = 1;", "const A: u8;", "const A: u8 = 1", "const : u8 = 1;", "const A: = 1;", "const A u8 = 1;",
    "use ;", "use a::;", "use ::a;", "use a:b;", "use a::B::c;", "use a::B::C;", "use a", "use a::*;", "use a::{B, C};", "use a as b;", "struct", "enum", "mod", "type", "const", "use", "Struct A(u8)", "pub struct A(u8)", "fn a() {}",
    "structA(u8)", "enumA { B }", "moda { struct A }", "struct A(u8 @)", "struct A(u8 1)", "struct A(@1 u8)", "struct A { a @1: u8 }", "struct A { a: @1 u8 }", "struct A(u8) @1", "enum A { @1 B }", "enum A { B @1 (u8) }", "struct A @1",
    "// comment", "/* comment */", "# comment", "a", "A", "1", ";", "struct A(u8);", "enum A { B };", "struct A {", "struct A }", "struct A(", "struct A { a: u8 )", "struct A(u8 }", "struct A<T", "struct A T>", "struct A<T>>", "struct A<1>(u8)",
    "struct A<T U>(u8)", "struct A<t>(u8)", "struct A<vec<u8>>(u8)", "impl A {}", "union A { a: u8 }", "struct A { #[a]\n a: u8 }x", "#[a]", "#[a]\n", "/// only a comment at the end", "struct A : u8", "type A { u8 }", "const a: u8 = 1;", "extern A;",
];

fn wrong_def(s: &mut Src, c: &mut Case) -> Ret {
    let m = Schema { comment: vec![], defs: gen_::wild_schema(s, &FULL).defs };
    let good = render::plain(&m);
    let (bad, what) = match s.below(3) {
        0 => {
            let t = *s.pick(BAD_TYPES);
            let depth = s.below(3);
            let mut full = t.to_owned();
            for _ in 0..depth {
                full = match s.below(5) {
                    0 => format!("vec<{full}>"),
                    1 => format!("option<{full}>"),
                    2 => format!("[{full}; 4]"),
                    3 => format!("(u8, {full})"),
                    _ => format!("hash_map<u8, {full}>"),
                };
            }
            let d = match s.below(5) {
                0 => format!("struct A {{ a: {full} }}"),
                1 => format!("struct A {{ a: {full} @1, b: u8 }}"),
                2 => format!("enum A {{ B(u8, {full} @3), C }}"),
                3 => format!("type A = {full};"),
                _ => format!("const A: {full} = 1;"),
            };
            // an empty last element is a trailing comma
            if t.is_empty() && depth > 0 { ("struct A(:)".to_owned(), "(".to_owned()) } else if t.is_empty() && d.starts_with("enum") { ("struct A(:)".to_owned(), "(".to_owned()) } else { (d, format!("{t:?} is no type")) }
        }
        1 => {
            let l = *s.pick(BAD_LITS);
            if s.chance(1, 3) { (format!("#[a = {l}]\nstruct A(u8)"), format!("{l:?} is no literal")) } else { (format!("const A: u8 = {l};"), format!("{l:?} is no literal")) }
        }
        _ => {
            let d = *s.pick(BAD_DEFS);
            (d.to_owned(), format!("{d:?} is no definition"))
        }
    };
    // what the text continues with must not complete the definition
    let text = if s.coin() { format!("{good}{bad}") } else { format!("{good}{bad}\n\nstruct Last(u8)\n") };
    if text.ends_with("Last(u8)\n") && (bad.ends_with(']') || bad.ends_with("]\n") || bad.starts_with("///")) || matches!(&*bad, "mod" | "enum" | "type" | "const" | "use") && false {
        c.show(|| good.clone());
        return Ok(());
    }
    must_reject(c, &good, &text, &what)
}

// ---- P04 ----

/// The part of a schema the formatter promises to keep: everything but attributes and comments
/// where it has no room for them (see the known findings).
fn fmt_round_trip(s: &mut Src, c: &mut Case) -> Ret {
    let m = gen_::wild_schema(s, &FULL);
    fmt_of(m, s, c)
}

fn fmt_of(m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    let text = if s.coin() { render::plain(&m) } else { render::schema(&m, Style::Free(s)) };
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(rich(&m));
    let ast = parse(&text)?;
    let printed = no_panic(|| ast.to_string()).map_err(|p| format!("formatting panics: {p}"))?;
    let again = parse(&printed).map_err(|e| format!("the formatted text does not parse: {e}\n{printed}"))?;
    same(&from_ast(&ast), &from_ast(&again)).map_err(|e| format!("formatting changes the schema: {}\n{printed}", e.msg))?;
    let twice = again.to_string();
    ensure!(twice == printed, "formatting is not stable:\n--- first\n{printed}\n--- second\n{twice}");
    for d in &ast.definitions {
        pieces(&printed, d, 0)?;
    }
    layout(&printed, &again.definitions, 0)?;
    // formatting decides the layout, not the input's layout
    let plain = render::plain(&m);
    let from_plain = parse(&plain)?.to_string();
    ensure!(commaless(&from_plain) == commaless(&printed), "the result depends on the layout of the input:\n--- from free layout\n{printed}\n--- from plain layout\n{from_plain}");
    Ok(())
}

/// A text nobody may have meant as a schema keeps its meaning as well if the parser accepts it.
fn fmt_accepted(s: &mut Src, c: &mut Case) -> Ret {
    let text = match s.below(4) {
        0 => soup_text(s, 12),
        1 => {
            let t = *s.pick(BAD_DEFS);
            format!("{t} {}", soup_text(s, 4))
        }
        _ => damaged_text(s),
    };
    keeps(c, &text)
}

/// Numbers of any magnitude and length, in every form they may have.
fn fmt_numbers(s: &mut Src, c: &mut Case) -> Ret {
    let digits = |s: &mut Src, most: usize| -> String {
        let n = 1 + s.len(most);
        let zeros = s.chance(1, 4);
        (0..n).map(|_| if zeros { '0' } else { (b'0' + s.below(10) as u8) as char }).collect()
    };
    let mut n = (*s.pick(&["", "", "", "-", "-", "+"])).to_owned();
    let long = if s.chance(1, 8) { 400 } else { 24 };
    n += &digits(s, long);
    if s.chance(3, 4) {
        n.push('.');
        n += &digits(s, long);
        if s.chance(3, 4) {
            n += *s.pick(&["e", "E", "e+", "e-", "E-"]);
            let most = if s.chance(1, 16) { 30 } else { 3 };
            n += &digits(s, most);
        }
    }
    let ty = if n.contains('.') { "f64" } else { "i128" };
    let text = format!("const A: {ty} = {n};");
    let fits = if ty == "f64" { n.parse().is_ok_and(f64::is_finite) } else { n.parse::<i128>().is_ok() };
    c.label_if(!fits, "no such number");
    ensure!(no_panic(|| Ast::parse(&text, None).is_ok()) == Ok(fits), "{}: {text}", if fits { "a number is rejected" } else { "a number that the type of the literal doesn't have is accepted" });
    keeps(c, &text)
}

fn keeps(c: &mut Case, text: &str) -> Ret {
    c.show(|| text.to_owned());
    c.key(&text);
    let Ok(ast) = no_panic(|| Ast::parse(text, None)).map_err(|p| format!("the parser panics: {p}"))? else { return Ok(()) };
    c.nontrivial(!ast.definitions.is_empty());
    c.label("accepted");
    let printed = no_panic(|| ast.to_string()).map_err(|p| format!("formatting panics: {p}"))?;
    let again = parse(&printed).map_err(|e| format!("the formatted text does not parse: {e}\n{printed}"))?;
    same(&from_ast(&ast), &from_ast(&again)).map_err(|e| format!("formatting changes the schema: {}\n{printed}", e.msg))?;
    let twice = again.to_string();
    ensure!(twice == printed, "formatting is not stable:\n--- first\n{printed}\n--- second\n{twice}");
    Ok(())
}

/// Every definition, field and variant of a formatted schema starts its own line, as does the brace
/// at its end, all of them behind the indentation of their level.
fn layout(text: &str, defs: &[mp::Definition<'_>], level: usize) -> Ret {
    let starts = |x: &dyn Spanned, level: usize, what: &str| {
        let r: At = x.span().into();
        let line = text[..r.start].rfind('\n').map_or(0, |i| i + 1);
        ensure!(text[line..r.start] == " ".repeat(4 * level), "{what} doesn't start a line at level {level}:\n{text}");
        Ok(())
    };
    let closes = |x: &mp::token::Brace, level: usize| {
        let r: At = x.close().into();
        let line = text[..r.end].rfind('\n').map_or(0, |i| i + 1);
        ensure!(text[line..r.end] == format!("{}}}", " ".repeat(4 * level)), "a closing brace doesn't stand at the start of a line at level {level}:\n{text}");
        Ok(())
    };
    let comments = |c: &mp::Comment<'_>, level: usize| c.0.iter().try_for_each(|l| starts(l, level, "a comment"));
    let fields = |f: &mp::Fields<'_>, level: usize| {
        if let mp::Fields::Named(brace, l) = f {
            closes(brace, level)?;
            for f in l.values() {
                comments(&f.comment, level + 1)?;
                starts(&f.name, level + 1, "a field")?;
            }
        }
        Ret::Ok(())
    };
    for d in defs {
        match d {
            mp::Definition::Module(m) => {
                comments(&m.comment, level)?;
                starts(&m.keyword, level, "a module")?;
                layout(text, &m.definitions, level + 1)?;
                closes(&m.brace, level)?;
            }
            mp::Definition::Struct(s) => {
                comments(&s.comment, level)?;
                starts(&s.keyword, level, "a struct")?;
                fields(&s.fields, level)?;
            }
            mp::Definition::Enum(e) => {
                comments(&e.comment, level)?;
                starts(&e.keyword, level, "an enum")?;
                for v in e.variants.values() {
                    comments(&v.comment, level + 1)?;
                    starts(&v.name, level + 1, "a variant")?;
                    fields(&v.fields, level + 1)?;
                }
                closes(&e.brace, level)?;
            }
            mp::Definition::TypeAlias(a) => {
                comments(&a.comment, level)?;
                starts(&a.keyword, level, "an alias")?;
            }
            mp::Definition::Const(c) => {
                comments(&c.comment, level)?;
                starts(&c.keyword, level, "a constant")?;
            }
            mp::Definition::Import(i) => starts(&i.keyword, level, "an import")?,
        }
    }
    Ok(())
}

/// Whatever is printed on its own is printed the way it is as part of the schema, less the indentation.
fn pieces(whole: &str, d: &mp::Definition<'_>, level: usize) -> Ret {
    let piece = |x: &dyn std::fmt::Display, level: usize, what: &str| {
        let text = x.to_string();
        let placed = text.trim_end_matches('\n').split('\n').map(|l| if l.is_empty() { l.to_owned() } else { format!("{}{l}", " ".repeat(4 * level)) }).collect::<Vec<_>>().join("\n");
        ensure!(whole.contains(&placed), "{what} printed on its own is not what it is in the schema:\n--- alone\n{text}\n--- schema\n{whole}");
        Ok(())
    };
    let fields = |f: &mp::Fields<'_>, level: usize| {
        match f {
            mp::Fields::Named(_, l) => l.values().try_for_each(|f| {
                piece(f, level, "a field")?;
                piece(&f.comment, level, "a comment")?;
                piece(&f.ty, 0, "a type")
            }),
            mp::Fields::Unnamed(_, l) => l.values().try_for_each(|f| {
                piece(f, 0, "a field")?;
                piece(&f.ty.value, 0, "a type")
            }),
            mp::Fields::Unit => Ok(()),
        }
    };
    piece(d, level, "a definition")?;
    match d {
        mp::Definition::Module(m) => {
            piece(m, level, "a module")?;
            for d in &m.definitions {
                pieces(whole, d, level + 1)?;
            }
        }
        mp::Definition::Struct(s) => {
            piece(s, level, "a struct")?;
            fields(&s.fields, level + 1)?;
        }
        mp::Definition::Enum(e) => {
            piece(e, level, "an enum")?;
            for v in e.variants.values() {
                piece(v, level + 1, "a variant")?;
                fields(&v.fields, level + 2)?;
            }
        }
        mp::Definition::TypeAlias(a) => {
            piece(a, level, "an alias")?;
            piece(&a.target, 0, "a type")?;
        }
        mp::Definition::Const(c) => piece(c, level, "a constant")?,
        mp::Definition::Import(_) => {}
    }
    Ok(())
}

/// Without trailing commas, which the formatter keeps as they were.
fn commaless(t: &str) -> String {
    let mut out = String::new();
    for (i, c) in t.char_indices() {
        if c == ',' && t[i + 1..].trim_start().starts_with(['}', ')', ']', '>']) {
            continue;
        }
        out.push(c);
    }
    out
}

fn fmt_keeps(text: &str, what: &str) -> Result<(), String> {
    let ast = Ast::parse(text, None).map_err(|e| e.to_string())?;
    let printed = ast.to_string();
    if printed.contains(what) { Ok(()) } else { Err(format!("{what:?} is lost when formatting {text:?}")) }
}

// ---- P05 ----

struct Spans<'a> {
    text: &'a str,
    seen: u64,
    /// End of the last element, in the order in which the definition lists them.
    last: usize,
    /// Every single token and name, none of which may share text.
    leaves: Vec<(usize, usize)>,
}

type At = std::ops::Range<usize>;

impl Spans<'_> {
    fn range(&mut self, s: &impl Spanned) -> Result<At, String> {
        let r: At = s.span().into();
        self.seen += 1;
        if r.start > r.end || r.end > self.text.len() || !self.text.is_char_boundary(r.start) || !self.text.is_char_boundary(r.end) {
            return Err(format!("span {r:?} is not within the text"));
        }
        Ok(r)
    }
    fn is(&mut self, s: &impl Spanned, want: &str, what: &str) -> Result<At, String> {
        let r = self.range(s)?;
        let got = &self.text[r.clone()];
        if what != "import path" {
            self.leaves.push((r.start, r.end));
            if what != "closing delimiter" {
                self.in_order(&r, what)?;
            }
        }
        if got == want { Ok(r) } else { Err(format!("{what}: span {r:?} covers {got:?} instead of {want:?}")) }
    }
    fn in_order(&mut self, r: &At, what: &str) -> Result<(), String> {
        if r.start < self.last {
            return Err(format!("{what}: span {r:?} lies before the end of the element in front of it, {}", self.last));
        }
        self.last = r.end;
        Ok(())
    }
    fn delim(&mut self, d: &impl Delimiter, open: &str, close: &str) -> Result<At, String> {
        let o = self.is(&d.open(), open, "opening delimiter")?;
        let c = self.is(&d.close(), close, "closing delimiter")?;
        let r = self.range(&d.range())?;
        if r != (o.start..c.end) {
            return Err(format!("delimiter range {r:?} instead of {:?}", o.start..c.end));
        }
        Ok(r)
    }
    fn within(outer: &At, inner: &At, what: &str) -> Result<(), String> {
        if outer.start <= inner.start && inner.end <= outer.end { Ok(()) } else { Err(format!("{what}: {inner:?} is outside {outer:?}")) }
    }

    fn comment(&mut self, c: &mp::Comment<'_>) -> Result<(), String> {
        for l in &c.0 {
            let r = self.range(l)?;
            let got = &self.text[r.clone()];
            // from the marker to the end of the line
            let got = got.strip_prefix("///").ok_or_else(|| format!("comment span {r:?} covers {got:?}"))?;
            let got = got.strip_prefix(' ').unwrap_or(got);
            self.in_order(&r, "comment")?;
            if got != l.value {
                return Err(format!("comment: span {r:?} covers {got:?} instead of {:?}", l.value));
            }
        }
        Ok(())
    }

    fn ty(&mut self, t: &mp::Type<'_>) -> Result<At, String> {
        use mp::DataType as D;
        let r = self.range(t)?;
        let slice = &self.text[r.clone()];
        let alone = format!("struct A({slice})");
        let back = Ast::parse(&alone, None).map_err(|_| format!("type span {r:?} covers {slice:?}, which is no type"))?;
        let mp::Definition::Struct(st) = &back.definitions[0] else { return Err("not a struct".into()) };
        let mp::Fields::Unnamed(_, f) = &st.fields else { return Err("no fields".into()) };
        let f: Vec<_> = f.values().collect();
        if f.len() != 1 || ty(&f[0].ty) != ty(t) || f[0].id.is_some() || slice.trim() != slice {
            return Err(format!("type span {r:?} covers {slice:?}, which is not the type {:?}", ty(t)));
        }
        let mut kids: Vec<At> = Vec::new();
        match &t.value {
            D::Vec { angle, ty, .. } | D::HashSet { angle, ty, .. } | D::Option { angle, ty, .. } | D::NonZero { angle, ty, .. } => {
                kids.push(self.delim(angle, "<", ">")?);
                kids.push(self.ty(ty)?);
            }
            D::HashMap { angle, key, comma, value, .. } => {
                kids.push(self.delim(angle, "<", ">")?);
                kids.push(self.ty(key)?);
                kids.push(self.is(comma, ",", "comma")?);
                kids.push(self.ty(value)?);
            }
            D::Tuple { paren, types } => {
                kids.push(self.delim(paren, "(", ")")?);
                for (t, comma) in types.iter() {
                    kids.push(self.ty(t)?);
                    if let Some(c) = comma {
                        kids.push(self.is(&c, ",", "comma")?);
                    }
                }
            }
            D::Array { bracket, ty, semicolon, .. } => {
                kids.push(self.delim(bracket, "[", "]")?);
                kids.push(self.ty(ty)?);
                kids.push(self.is(semicolon, ";", "semicolon")?);
            }
            D::External(e) => {
                for (n, c) in &e.path {
                    kids.push(self.is(n, n.get(), "path segment")?);
                    kids.push(self.is(c, "::", "separator")?);
                }
                kids.push(self.is(&e.name, e.name.get(), "type name")?);
                if let Some(a) = &e.angle {
                    kids.push(self.delim(a, "<", ">")?);
                }
                if let Some(g) = &e.generics {
                    for (t, comma) in g.iter() {
                        kids.push(self.ty(t)?);
                        if let Some(c) = comma {
                            kids.push(self.is(&c, ",", "comma")?);
                        }
                    }
                }
            }
            _ => self.in_order(&r, "type")?,
        }
        for k in &kids {
            Self::within(&r, k, "part of a type")?;
        }
        Ok(r)
    }

    fn id(&mut self, id: Option<&mp::Id>) -> Result<Option<At>, String> {
        id.map(|id| self.is(id, &format!("@{}", id.get()), "id")).transpose()
    }

    fn generics(&mut self, g: Option<&mp::Generics<'_>>) -> Result<(), String> {
        if let Some(g) = g {
            let r = self.delim(&g.angle, "<", ">")?;
            for (n, comma) in g.types.iter() {
                let n = self.is(n, n.get(), "generic")?;
                Self::within(&r, &n, "generic")?;
                if let Some(c) = comma {
                    let c = self.is(&c, ",", "comma")?;
                    Self::within(&r, &c, "comma")?;
                }
            }
        }
        Ok(())
    }

    fn fields(&mut self, f: &mp::Fields<'_>) -> Result<Option<At>, String> {
        match f {
            mp::Fields::Named(brace, list) => {
                let r = self.delim(brace, "{", "}")?;
                for (f, comma) in list.iter() {
                    self.comment(&f.comment)?;
                    let whole = self.range(f)?;
                    Self::within(&r, &whole, "field")?;
                    let n = self.is(&f.name, f.name.get(), "field name")?;
                    let c = self.is(&f.colon, ":", "colon")?;
                    let t = self.ty(&f.ty)?;
                    let i = self.id(f.id.as_ref())?;
                    for k in [&n, &c, &t].into_iter().chain(&i) {
                        Self::within(&whole, k, "part of a field")?;
                    }
                    let end = i.as_ref().unwrap_or(&t).end;
                    if whole != (n.start..end) {
                        return Err(format!("field span {whole:?} instead of {:?}", n.start..end));
                    }
                    if let Some(c) = comma {
                        self.is(&c, ",", "comma")?;
                    }
                }
                Ok(Some(r))
            }
            mp::Fields::Unnamed(paren, list) => {
                let r = self.delim(paren, "(", ")")?;
                for (f, comma) in list.iter() {
                    let whole = self.range(f)?;
                    Self::within(&r, &whole, "field")?;
                    let t = self.ty(&f.ty)?;
                    let i = self.id(f.id.as_ref())?;
                    for k in [&t].into_iter().chain(&i) {
                        Self::within(&whole, k, "part of a field")?;
                    }
                    let end = i.as_ref().unwrap_or(&t).end;
                    if whole != (t.start..end) {
                        return Err(format!("field span {whole:?} instead of {:?}", t.start..end));
                    }
                    if let Some(c) = comma {
                        self.is(&c, ",", "comma")?;
                    }
                }
                Ok(Some(r))
            }
            mp::Fields::Unit => Ok(None),
        }
    }

    fn def(&mut self, d: &mp::Definition<'_>) -> Result<(), String> {
        match d {
            mp::Definition::Module(m) => {
                self.comment(&m.comment)?;
                self.is(&m.keyword, "mod", "keyword")?;
                self.is(&m.name, m.name.get(), "module name")?;
                self.delim(&m.brace, "{", "}")?;
                for d in &m.definitions {
                    self.def(d)?;
                }
            }
            mp::Definition::Struct(s) => {
                self.comment(&s.comment)?;
                self.is(&s.keyword, "struct", "keyword")?;
                self.is(&s.name, s.name.get(), "struct name")?;
                self.generics(s.generics.as_ref())?;
                self.fields(&s.fields)?;
            }
            mp::Definition::Enum(e) => {
                self.comment(&e.comment)?;
                self.is(&e.keyword, "enum", "keyword")?;
                self.is(&e.name, e.name.get(), "enum name")?;
                self.generics(e.generics.as_ref())?;
                let r = self.delim(&e.brace, "{", "}")?;
                for (v, comma) in e.variants.iter() {
                    self.comment(&v.comment)?;
                    let whole = self.range(v)?;
                    Self::within(&r, &whole, "variant")?;
                    let n = self.is(&v.name, v.name.get(), "variant name")?;
                    let f = self.fields(&v.fields)?;
                    let i = self.id(v.id.as_ref())?;
                    for k in [&n].into_iter().chain(&f).chain(&i) {
                        Self::within(&whole, k, "part of a variant")?;
                    }
                    let end = i.as_ref().or(f.as_ref()).unwrap_or(&n).end;
                    if whole != (n.start..end) {
                        return Err(format!("variant span {whole:?} instead of {:?}", n.start..end));
                    }
                    if let Some(c) = comma {
                        self.is(&c, ",", "comma")?;
                    }
                }
            }
            mp::Definition::TypeAlias(a) => {
                self.comment(&a.comment)?;
                self.is(&a.keyword, "type", "keyword")?;
                self.is(&a.name, a.name.get(), "alias name")?;
                self.generics(a.generics.as_ref())?;
                self.is(&a.equal, "=", "equal sign")?;
                self.ty(&a.target)?;
                self.is(&a.semicolon, ";", "semicolon")?;
            }
            mp::Definition::Const(k) => {
                self.comment(&k.comment)?;
                self.is(&k.keyword, "const", "keyword")?;
                self.is(&k.name, k.name.get(), "constant name")?;
                self.is(&k.colon, ":", "colon")?;
                self.ty(&k.ty)?;
                let equal = self.is(&k.equal, "=", "equal sign")?;
                let r = self.range(&k.value)?;
                self.in_order(&r, "literal")?;
                // nothing but blanks around it: the literal is all of what is between the two
                let semi: At = k.semicolon.span().into();
                for gap in [equal.end..r.start, r.end..semi.start] {
                    if self.text.get(gap.clone()).is_none_or(|t| !t.trim().is_empty()) {
                        return Err(format!("literal span {r:?} leaves out {:?}", self.text.get(gap)));
                    }
                }
                let slice = &self.text[r.clone()];
                let alone = format!("const A: u8 = {slice};");
                let back = Ast::parse(&alone, None).map_err(|_| format!("literal span {r:?} covers {slice:?}, which is no literal"))?;
                let mp::Definition::Const(b) = &back.definitions[0] else { return Err("not a constant".into()) };
                if lit(&b.value.value) != lit(&k.value.value) || slice.trim() != slice {
                    return Err(format!("literal span {r:?} covers {slice:?}"));
                }
                self.is(&k.semicolon, ";", "semicolon")?;
            }
            mp::Definition::Import(u) => {
                self.is(&u.keyword, "use", "keyword")?;
                let mut full = u.segments.iter().map(|s| s.get().to_owned()).collect::<Vec<_>>().join("::");
                for s in &u.segments {
                    self.is(s, s.get(), "import segment")?;
                }
                if let Some((c, e)) = &u.element {
                    self.is(c, "::", "separator")?;
                    self.is(e, e.get(), "import element")?;
                    full = format!("{full}::{}", e.get());
                }
                self.is(&u.full, &full, "import path")?;
                self.is(&u.semicolon, ";", "semicolon")?;
            }
        }
        Ok(())
    }
}

fn spans(s: &mut Src, c: &mut Case) -> Ret {
    let m = gen_::wild_schema(s, &FULL);
    spans_of(m, s, c)
}

fn spans_of(m: Schema, s: &mut Src, c: &mut Case) -> Ret {
    let text = if s.chance(1, 4) { render::plain(&m) } else { render::schema(&m, Style::Free(s)) };
    c.show(|| text.clone());
    c.key(&text);
    c.nontrivial(rich(&m));
    let ast = parse(&text)?;
    let mut sp = Spans { text: &text, seen: 0, last: 0, leaves: Vec::new() };
    sp.comment(&ast.comment)?;
    for d in &ast.definitions {
        sp.def(d)?;
    }
    c.count("spans", sp.seen);
    sp.leaves.sort_unstable();
    if let Some(w) = sp.leaves.windows(2).find(|w| w[0].1 > w[1].0) {
        fail!("two elements share text: {:?} and {:?}", w[0], w[1]);
    }
    Ok(())
}
