//! Texts as an editor sees them: positions in lines and columns, and edits.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Enc {
    Utf8,
    Utf16,
    Utf32,
}

pub const ENCS: [Enc; 3] = [Enc::Utf16, Enc::Utf8, Enc::Utf32];

impl Enc {
    pub fn name(self) -> &'static str {
        match self {
            Enc::Utf8 => "utf-8",
            Enc::Utf16 => "utf-16",
            Enc::Utf32 => "utf-32",
        }
    }
    pub fn units(self, text: &str) -> u64 {
        (match self {
            Enc::Utf8 => text.len(),
            Enc::Utf16 => text.chars().map(char::len_utf16).sum(),
            Enc::Utf32 => text.chars().count(),
        }) as u64
    }
}

/// Position of a byte offset.
pub fn position(text: &str, offset: usize, enc: Enc) -> (u64, u64) {
    let before = &text[..offset];
    let line = before.matches('\n').count() as u64;
    let start = before.rfind('\n').map_or(0, |at| at + 1);
    (line, enc.units(&before[start..]))
}

/// Byte offset of a position.
pub fn offset(text: &str, (line, col): (u64, u64), enc: Enc) -> Option<usize> {
    let mut start = 0;
    for _ in 0..line {
        start += text[start..].find('\n')? + 1;
    }
    let rest = &text[start..];
    let line = &rest[..rest.find('\n').unwrap_or(rest.len())];
    let mut units = 0;
    for (i, c) in line.char_indices() {
        if units == col {
            return Some(start + i);
        }
        units += enc.units(&line[i..i + c.len_utf8()]);
    }
    (units == col).then_some(start + line.len())
}

/// The places where lines start, for many positions in large texts.
pub struct Lines<'a> {
    text: &'a str,
    starts: Vec<usize>,
}

impl<'a> Lines<'a> {
    pub fn new(text: &'a str) -> Self {
        Self { text, starts: std::iter::once(0).chain(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect() }
    }
    pub fn offset(&self, (line, col): (u64, u64), enc: Enc) -> Option<usize> {
        let line = usize::try_from(line).ok()?;
        let start = *self.starts.get(line)?;
        let end = self.starts.get(line + 1).map_or(self.text.len(), |e| e - 1);
        let line = &self.text[start..end];
        if line.is_ascii() {
            return (col <= line.len() as u64).then_some(start + col as usize);
        }
        offset(line, (0, col), enc).map(|at| start + at)
    }
}

/// The offsets at which the text can be edited: between characters, but not within a line break.
pub fn places(text: &str) -> Vec<usize> {
    let b = text.as_bytes();
    (0..=text.len()).filter(|i| text.is_char_boundary(*i) && !(*i > 0 && *i < b.len() && b[i - 1] == b'\r' && b[*i] == b'\n')).collect()
}

/// Without carriage returns that are not part of a line break.
pub fn tidy(text: &str) -> String {
    let mut out = String::new();
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        out.push(if c == '\r' && it.peek() != Some(&'\n') { ' ' } else { c });
    }
    out
}
