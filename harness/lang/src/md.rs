//! Model of the Markdown in comments: text together with the elements it has to be shown as.

use pbt::Src;

/// Words without meaning for Markdown, some of them close to it.
const WORDS: &[&str] = &[
    "alpha", "lorem", "ipsum", "dolor", "the", "field", "Value", "counts", "x7", "überall", "日本語", "of", "a", "42nd", "word", "snake_case_name", "a<b", "x&y", "\"quoted\"", "it's", "1.5", "2 * 3", "c++", "#tag", "50%", "(see)",
];

/// Markdown text, line by line, and what it is shown as: tags, words, and raw text where white
/// space counts.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Md {
    pub lines: Vec<String>,
    pub shown: Vec<String>,
    /// The same for the lines up to the first blank one.
    pub first: Vec<String>,
    pub kinds: Vec<&'static str>,
}

struct Gen<'a> {
    s: &'a mut Src,
    /// Definitions at the end are in reach.
    refs: bool,
    notes: Vec<String>,
    links: Vec<(String, String)>,
    kinds: Vec<&'static str>,
}

/// A piece of text without line breaks, with what it is shown as.
type Piece = (String, Vec<String>);

fn open(name: &str) -> String {
    format!("<{name}>")
}

fn close(name: &str) -> String {
    format!("</{name}>")
}

fn wrap(name: &str, inner: Vec<String>) -> Vec<String> {
    let mut out = vec![open(name)];
    out.extend(inner);
    out.push(close(name));
    out
}

impl Gen<'_> {
    fn word(&mut self) -> &'static str {
        self.s.pick(WORDS)
    }

    fn safe(&mut self) -> &'static str {
        self.s.pick(&WORDS[..15])
    }

    fn safe_words(&mut self, most: usize) -> Vec<&'static str> {
        (0..1 + self.s.len(most)).map(|_| self.safe()).collect()
    }

    fn piece(&mut self, table: bool) -> Piece {
        let strs = |l: &[&str]| l.iter().map(|w| (*w).to_owned()).collect::<Vec<_>>();
        match self.s.weighted(&[12, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2]) {
            1 => {
                self.kinds.push("strong");
                let (a, b) = (self.safe(), self.safe());
                if self.s.chance(1, 3) {
                    let e = self.safe();
                    let mut inner = strs(&[a]);
                    inner.extend(wrap("em", strs(&[e])));
                    inner.push(b.to_owned());
                    return (format!("**{a} *{e}* {b}**"), wrap("strong", inner));
                }
                let m = *self.s.pick(&["**", "__"]);
                (format!("{m}{a} {b}{m}"), wrap("strong", strs(&[a, b])))
            }
            2 => {
                self.kinds.push("em");
                let w = self.safe_words(2);
                let m = *self.s.pick(&["*", "_"]);
                (format!("{m}{}{m}", w.join(" ")), wrap("em", strs(&w)))
            }
            3 => {
                self.kinds.push("code");
                let w = (0..1 + self.s.len(2)).map(|_| *self.s.pick(&["x", "<b>", "*c*", "a_b", "&amp;", "[l](u)", "~~n~~", "^2^", "\\n"])).collect::<Vec<_>>();
                let m = *self.s.pick(&["`", "``"]);
                (format!("{m}{}{m}", w.join(" ")), wrap("code", strs(&w)))
            }
            4 => {
                self.kinds.push("strike");
                let w = self.safe_words(2);
                (format!("~~{}~~", w.join(" ")), wrap("del", strs(&w)))
            }
            5 => {
                self.kinds.push("link");
                let w = self.safe_words(2);
                let url = *self.s.pick(&["https://example.org/a", "other.html", "#part", "../up/a.html?x=1&y=2"]);
                let (title, shown) = if self.s.chance(1, 3) { (" \"The Title\"", " title=The Title") } else { ("", "") };
                let mut out = vec![format!("<a href={url}{shown}>")];
                out.extend(strs(&w));
                out.push(close("a"));
                (format!("[{}]({url}{title})", w.join(" ")), out)
            }
            6 => {
                self.kinds.push("image");
                let w = self.safe_words(1);
                (format!("![{}](pic.png)", w.join(" ")), vec![format!("<img src=pic.png alt={}>", w.join(" "))])
            }
            7 => {
                self.kinds.push("bare_link");
                match self.s.below(4) {
                    0 => ("www.example.org/x".into(), vec!["<a href=http://www.example.org/x>".into(), "www.example.org/x".into(), close("a")]),
                    1 => ("me@example.org".into(), vec!["<a href=mailto:me@example.org>".into(), "me@example.org".into(), close("a")]),
                    2 => ("<https://example.org/y>".into(), vec!["<a href=https://example.org/y>".into(), "https://example.org/y".into(), close("a")]),
                    _ => ("https://example.org/x?a=b".into(), vec!["<a href=https://example.org/x?a=b>".into(), "https://example.org/x?a=b".into(), close("a")]),
                }
            }
            8 => {
                self.kinds.push("superscript");
                let w = self.safe();
                let mut out = strs(&[w]);
                out.extend(wrap("sup", strs(&["2"])));
                (format!("{w}^2^"), out)
            }
            9 => {
                self.kinds.push("html");
                let w = self.safe();
                let tag = *self.s.pick(&["<b>", "</b>", "<script>", "<br/>", "<title>", "<!--c-->"]);
                (format!("{w}{tag}{w}"), vec![format!("{w}{tag}{w}")])
            }
            10 => {
                self.kinds.push("entity");
                let (t, w) = *self.s.pick(&[("&amp;", "&"), ("&copy;", "©"), ("&lt;b&gt;", "<b>"), ("&#65;", "A"), ("&quot;", "\""), ("&amp;lt;", "&lt;")]);
                (t.into(), strs(&[w]))
            }
            11 => {
                self.kinds.push("escape");
                let (t, w) = *self.s.pick(&[("\\*a\\*", "*a*"), ("\\`x\\`", "`x`"), ("\\[n\\]", "[n]"), ("\\_y\\_", "_y_"), ("x\\^2", "x^2"), ("\\# no", "# no"), ("1\\. one", "1. one"), ("\\<i>", "<i>"), ("back\\slash", "back\\slash")]);
                (t.into(), w.split(' ').map(str::to_owned).collect())
            }
            12 if table => {
                self.kinds.push("escape");
                ("a\\|b".into(), strs(&["a|b"]))
            }
            13 if self.refs => {
                self.kinds.push("footnote");
                let n = self.notes.len() + 1;
                let label = format!("{}{n}", self.s.pick(&["n", "note-", ""]));
                let w = self.safe();
                let out = vec![w.to_owned(), open("sup"), format!("<a href=#fn-{label}>"), n.to_string(), close("a"), close("sup")];
                self.notes.push(label.clone());
                (format!("{w}[^{label}]"), out)
            }
            14 if self.refs => {
                self.kinds.push("reference");
                let w = self.safe_words(2);
                let label = format!("ref {}", self.links.len());
                let url = format!("https://example.org/{}", self.links.len());
                let mut out = vec![format!("<a href={url}>")];
                out.extend(strs(&w));
                out.push(close("a"));
                self.links.push((label.clone(), url));
                (format!("[{}][{label}]", w.join(" ")), out)
            }
            _ => {
                let w = self.word();
                (w.into(), w.split(' ').map(str::to_owned).collect())
            }
        }
    }

    /// Text that starts with a word, in a single line.
    fn line(&mut self, most: usize, table: bool) -> Piece {
        let w = self.safe();
        let (mut text, mut out) = (w.to_owned(), vec![w.to_owned()]);
        for _ in 0..self.s.len(most) {
            let (t, o) = self.piece(table);
            text.push(' ');
            text += &t;
            out.extend(o);
        }
        (text, out)
    }

    /// Text in one or several lines.
    fn text(&mut self) -> (Vec<String>, Vec<String>) {
        let (line, mut out) = self.line(4, false);
        let mut lines = vec![line];
        for _ in 0..self.s.len(2) {
            if self.s.chance(1, 4) {
                self.kinds.push("hard_break");
                let mark = *self.s.pick(&["\\", "  "]);
                let w = self.safe();
                lines.last_mut().unwrap().push_str(&format!(" {w}{mark}"));
                out.extend([w.to_owned(), open("br")]);
            }
            let (line, o) = self.line(3, false);
            lines.push(line);
            out.extend(o);
        }
        (lines, out)
    }

    fn code_lines(&mut self, blank: bool) -> Vec<String> {
        let mut lines: Vec<String> = (0..1 + self.s.len(3))
            .map(|_| {
                let text = *self.s.pick(&["let x = 1;", "<b>&amp;</b>", "# no heading", "- no list", "/// comment", "*a* ~~b~~", "a  b", "| x |"]);
                format!("{}{text}", " ".repeat(self.s.below(6)))
            })
            .collect();
        if blank && lines.len() > 1 && self.s.coin() {
            lines.insert(1, String::new());
        }
        lines
    }

    /// A list whose elements hold text, and maybe another list.
    fn tight(&mut self, depth: usize, inner: bool) -> (Vec<String>, Vec<String>) {
        let ordered = self.s.coin();
        let start = if !ordered || inner { 1 } else { *self.s.pick(&[1, 1, 0, 7, 42]) };
        let bullet = *self.s.pick(&["-", "*", "+"]);
        let dot = *self.s.pick(&[".", ")"]);
        let tasks = !ordered && self.s.chance(1, 3);
        self.kinds.push(if ordered { "ordered_list" } else { "list" });
        let name = if ordered { "ol" } else { "ul" };
        let mut out = vec![if start == 1 { open(name) } else { format!("<{name} start={start}>") }];
        let mut lines = Vec::new();
        for i in 0..1 + self.s.len(2) {
            let marker = if ordered { format!("{}{dot} ", start + i) } else { format!("{bullet} ") };
            let pad = " ".repeat(marker.len());
            out.push(open("li"));
            let (mut item, shown) = self.text();
            if tasks && self.s.chance(3, 4) {
                self.kinds.push("task");
                let done = self.s.coin();
                item[0] = format!("[{}] {}", if done { "x" } else { " " }, item[0]);
                out.push(if done { "<input type=checkbox checked>".into() } else { "<input type=checkbox>".to_owned() });
            }
            out.extend(shown);
            if depth > 0 && self.s.chance(1, 3) {
                let (l, o) = self.tight(depth - 1, true);
                item.extend(l);
                out.extend(o);
            }
            out.push(close("li"));
            lines.extend(item.iter().enumerate().map(|(i, l)| format!("{}{l}", if i == 0 { &marker } else { &pad })));
        }
        out.push(close(name));
        (lines, out)
    }

    fn table(&mut self) -> (Vec<String>, Vec<String>) {
        self.kinds.push("table");
        let n = 1 + self.s.below(3);
        let align: Vec<(&str, &str)> = (0..n).map(|_| *self.s.pick(&[("---", ""), (":--", " align=left"), ("--:", " align=right"), (":-:", " align=center")])).collect();
        let mut row = |name: &str| {
            let mut out = vec![open("tr")];
            let mut cells = Vec::new();
            for (_, a) in &align {
                let (t, o) = self.line(2, true);
                out.push(format!("<{name}{a}>"));
                out.extend(o);
                out.push(close(name));
                cells.push(t);
            }
            out.push(close("tr"));
            (format!("| {} |", cells.join(" | ")), out)
        };
        let (head, shown) = row("th");
        let rows: Vec<_> = (0..2).map(|_| row("td")).collect();
        let keep = self.s.below(3);
        let mut lines = vec![head, format!("| {} |", align.iter().map(|a| a.0).collect::<Vec<_>>().join(" | "))];
        let mut out = vec![open("table"), open("thead")];
        out.extend(shown);
        out.push(close("thead"));
        // references of rows that are left out would be missing
        let keep = if self.refs { 2 } else { keep };
        if keep > 0 {
            out.push(open("tbody"));
            for (t, o) in rows.into_iter().take(keep) {
                lines.push(t);
                out.extend(o);
            }
            out.push(close("tbody"));
        }
        out.push(close("table"));
        (lines, out)
    }

    /// A block; without blank lines in it if it is the first one.
    fn block(&mut self, first: bool, after_list: bool, depth: usize) -> (Vec<String>, Vec<String>, bool) {
        let deep = u64::from(depth > 0);
        let list = 3 * u64::from(!after_list);
        let later = u64::from(!first);
        let (lines, out) = match self.s.weighted(&[6, 2, 2 * deep, list, list * deep * later, 2, 1 - u64::from(after_list || first), 1, 2]) {
            1 => {
                self.kinds.push("heading");
                let level = 1 + self.s.below(6);
                let (t, o) = self.line(2, false);
                if level < 3 && self.s.coin() {
                    (vec![t, if level == 1 { "===".into() } else { "-----".into() }], wrap(&format!("h{level}"), o))
                } else {
                    (vec![format!("{} {t}", "#".repeat(level))], wrap(&format!("h{level}"), o))
                }
            }
            2 => {
                self.kinds.push("quote");
                let (l, o) = if first {
                    let (l, o, _) = self.block(true, false, 0);
                    (l, o)
                } else {
                    self.blocks(2, depth - 1)
                };
                (l.iter().map(|l| format!("> {l}").trim_end_matches(if l.is_empty() { ' ' } else { '\n' }).to_owned()).collect(), wrap("blockquote", o))
            }
            3 => {
                let (l, o) = self.tight(if first { 1 } else { depth }, false);
                return (l, o, true);
            }
            4 => {
                self.kinds.push("loose_list");
                let ordered = self.s.coin();
                let name = if ordered { "ol" } else { "ul" };
                let mut lines: Vec<String> = Vec::new();
                let mut out = vec![open(name)];
                for i in 0..2 + self.s.len(1) {
                    let marker = if ordered { format!("{}. ", i + 1) } else { "- ".into() };
                    let pad = " ".repeat(marker.len());
                    if i > 0 {
                        lines.push(String::new());
                    }
                    let (mut item, shown) = self.text();
                    let mut shown = wrap("p", shown);
                    if self.s.coin() {
                        let (l, o) = self.blocks(1, depth - 1);
                        item.push(String::new());
                        item.extend(l);
                        shown.extend(o);
                    }
                    lines.extend(item.iter().enumerate().map(|(i, l)| if l.is_empty() { String::new() } else { format!("{}{l}", if i == 0 { &marker } else { &pad }) }));
                    out.extend(wrap("li", shown));
                }
                out.push(close(name));
                return (lines, out, true);
            }
            5 => {
                self.kinds.push("fenced_code");
                let mark = *self.s.pick(&["```", "~~~", "````"]);
                let lang = *self.s.pick(&["", "rust", "mabo"]);
                let code = self.code_lines(!first);
                let raw = format!("|{}\n", code.join("\n"));
                let mut lines = vec![format!("{mark}{lang}")];
                lines.extend(code);
                lines.push(mark.to_owned());
                let tag = if lang.is_empty() { "<code>".to_owned() } else { format!("<code class=language-{lang}>") };
                (lines, vec![open("pre"), tag, raw, close("code"), close("pre")])
            }
            6 => {
                self.kinds.push("indented_code");
                let mut code = self.code_lines(true);
                code[0] = code[0].trim_start().to_owned();
                let raw = format!("|{}\n", code.join("\n"));
                let lines = code.iter().map(|l| if l.is_empty() { String::new() } else { format!("    {l}") }).collect();
                // another one right behind it would continue it
                return (lines, vec![open("pre"), open("code"), raw, close("code"), close("pre")], true);
            }
            7 => {
                self.kinds.push("rule");
                (vec![(*self.s.pick(&["***", "---", "_ _ _"])).to_owned()], vec![open("hr")])
            }
            8 => self.table(),
            _ => {
                let (l, o) = self.text();
                (l, wrap("p", o))
            }
        };
        (lines, out, false)
    }

    fn blocks(&mut self, most: usize, depth: usize) -> (Vec<String>, Vec<String>) {
        let (mut lines, mut out) = (Vec::new(), Vec::new());
        let mut list = false;
        for i in 0..1 + self.s.len(most) {
            let (l, o, is_list) = self.block(false, list, depth);
            if i > 0 {
                lines.push(String::new());
            }
            lines.extend(l);
            out.extend(o);
            list = is_list;
        }
        (lines, out)
    }
}

/// A comment with any of the elements that Markdown has.
pub fn comment(s: &mut Src) -> Md {
    if s.chance(1, 4) {
        return Md::default();
    }
    let mut g = Gen { s, refs: false, notes: vec![], links: vec![], kinds: vec![] };
    let (mut lines, mut shown, mut list) = g.block(true, false, 1);
    let first = shown.clone();
    g.refs = true;
    for _ in 0..g.s.len(3) {
        let (l, o, is_list) = g.block(false, list, 2);
        lines.extend((0..1 + g.s.below(2)).map(|_| String::new()));
        lines.extend(l);
        shown.extend(o);
        list = is_list;
    }
    // definitions in any order
    g.refs = false;
    let mut ends = Vec::new();
    for (label, url) in std::mem::take(&mut g.links) {
        ends.push(vec![format!("[{label}]: {url}")]);
    }
    let notes = std::mem::take(&mut g.notes);
    if !notes.is_empty() {
        shown.extend([open("section"), open("ol")]);
        for label in notes {
            let (t, o) = g.line(3, false);
            ends.push(vec![format!("[^{label}]: {t}")]);
            shown.extend([open("li"), open("p")]);
            shown.extend(o);
            shown.extend([format!("<a href=#fnref-{label}>"), "↩".to_owned(), close("a"), close("p"), close("li")]);
        }
        shown.extend([close("ol"), close("section")]);
    }
    g.s.shuffle(&mut ends);
    for e in ends {
        lines.push(String::new());
        lines.extend(e);
    }
    let mut kinds = g.kinds;
    kinds.sort_unstable();
    kinds.dedup();
    Md { lines, shown, first, kinds }
}
