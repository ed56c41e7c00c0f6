//! Reference reader: source text to tree, written from the language description.
use crate::model::*;

struct Rd<'s> { src: &'s str, at: usize, file: u32 }

fn blank(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r') }

enum Word { Open, Close, Str { body: String }, Key(String), Sym(String), Num(String) }

struct Tok { w: Word, ws: String, pos: Pos }

impl<'s> Rd<'s> {
    fn rest(&self) -> &'s str { &self.src[self.at..] }

    /// Text between `at` and the next token: (whitespace in effect, start of the token if any).
    fn gap(&self) -> (String, Option<usize>) {
        let mut ws = String::new();
        let mut i = self.at;
        loop {
            let Some(c) = self.src[i..].chars().next() else { return (ws, None) };
            if c == ';' {
                // A comment, and whatever whitespace precedes it, counts for nothing; its newline stays.
                match self.src[i..].find('\n') {
                    None => return (ws, None),
                    Some(n) => { ws.clear(); i += n; }
                }
            } else if blank(c) { ws.push(c); i += 1 } else { return (ws, Some(i)) }
        }
    }

    fn eof(&self) -> bool { self.gap().1.is_none() }

    fn line_of(&self, off: usize) -> u32 { 1 + self.src[..off].matches('\n').count() as u32 }

    fn pos(&self, from: usize, to: usize) -> Pos {
        Pos { file: self.file, off: from as u32, len: (to - from) as u32, line: self.line_of(from) }
    }

    /// End of the word starting at `i`.
    fn word_end(&self, mut i: usize) -> usize {
        loop {
            let Some(c) = self.src[i..].chars().next() else { return i };
            match c {
                '(' | ')' | '"' => return i,
                c if blank(c) => return i,
                '\\' => {
                    i += 1;
                    if let Some(e) = self.src[i..].chars().next() { i += e.len_utf8() }
                }
                c => i += c.len_utf8(),
            }
        }
    }

    fn token(&self) -> R<(Tok, usize)> {
        let (ws, start) = self.gap();
        let s = start.expect("token at end of text");
        let rest = &self.src[s..];
        let c = rest.chars().next().unwrap();
        let (w, end) = match c {
            '(' => (Word::Open, s + 1),
            ')' => (Word::Close, s + 1),
            '"' => {
                let q = if rest.starts_with("\"\"\"") { "\"\"\"" } else { "\"" };
                let mut i = s + q.len();
                loop {
                    let r = &self.src[i..];
                    if r.starts_with(q) { break }
                    let mut cs = r.chars();
                    match cs.next() {
                        None => return err_at(self.pos(s, s + q.len())),
                        Some('\\') => { i += 1; if let Some(e) = cs.next() { i += e.len_utf8() } }
                        Some(c) => i += c.len_utf8(),
                    }
                }
                (Word::Str { body: self.src[s + q.len()..i].to_string() }, i + q.len())
            }
            ':' => { let e = self.word_end(s + 1); (Word::Key(self.src[s + 1..e].to_string()), e) }
            c => {
                let e = self.word_end(s);
                let mut text = String::new();
                let mut cs = self.src[s..e].chars();
                while let Some(c) = cs.next() { if c == '\\' { if let Some(x) = cs.next() { text.push(x) } } else { text.push(c) } }
                (if c.is_ascii_digit() || c == '+' || c == '-' { Word::Num(text) } else { Word::Sym(text) }, e)
            }
        };
        Ok((Tok { w, ws, pos: self.pos(s, end) }, end))
    }

    fn node(&mut self) -> R<N> {
        let (t, end) = self.token()?;
        let Tok { w, ws, pos } = t;
        match w {
            Word::Close => err_at(pos),
            Word::Sym(v) => { self.at = end; Ok(N::Atom { k: K::Sym, v, ws, pos }) }
            Word::Num(v) => { self.at = end; Ok(N::Atom { k: K::Num, v, ws, pos }) }
            Word::Str { body } => match unescape(&body) {
                Some(v) => { self.at = end; Ok(N::Atom { k: K::Str, v, ws, pos }) }
                None => err_at(pos),
            },
            Word::Key(kw) => {
                self.at = end;
                if self.eof() { return err_at(pos) }
                let (next, _) = self.token()?;
                if matches!(next.w, Word::Close) { return err_at(pos) }
                let val = self.node()?;
                Ok(N::Attr { kw, val: Box::new(val), ws, pos })
            }
            Word::Open => {
                self.at = end;
                let mut items = vec![];
                loop {
                    if self.eof() { return err_at(pos) }
                    let (t, e) = self.token()?;
                    if matches!(t.w, Word::Close) {
                        self.at = e;
                        return Ok(N::List { items, ws, pos, end_ws: t.ws, end: t.pos });
                    }
                    items.push(self.node()?);
                }
            }
        }
    }
}

/// Decode the escapes of a string.
pub fn unescape(s: &str) -> Option<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let hex = |t: &[char]| -> Option<char> {
        if t.is_empty() || !t.iter().all(|c| c.is_ascii_hexdigit()) { return None }
        let mut n: u32 = 0;
        for c in t { n = n.checked_mul(16)?.checked_add(c.to_digit(16)?)?; }
        char::from_u32(n)
    };
    while i < cs.len() {
        if cs[i] != '\\' { out.push(cs[i]); i += 1; continue }
        let e = *cs.get(i + 1)?;
        i += 2;
        out.push(match e {
            'a' => '\x07', 'b' => '\x08', 't' => '\t', 'n' => '\n', 'v' => '\x0b', 'f' => '\x0c', 'r' => '\r', 'e' => '\x1b',
            '\'' | '"' | '`' | '\\' => e,
            'x' => { let c = hex(cs.get(i..i + 2)?)?; i += 2; c }
            'u' if cs.get(i) == Some(&'{') => {
                let n = cs[i..].iter().position(|c| *c == '}')?;
                let c = hex(&cs[i + 1..i + n])?;
                i += n + 1;
                c
            }
            'u' => { let c = hex(cs.get(i..i + 4)?)?; i += 4; c }
            '0'..='7' => {
                let mut n = e.to_digit(8)?;
                for _ in 0..2 {
                    match cs.get(i).and_then(|c| c.to_digit(8)) { Some(d) => { n = n * 8 + d; i += 1 } None => break }
                }
                char::from_u32(n)?
            }
            _ => return None,
        });
    }
    Some(out)
}

pub fn read(file: u32, src: &str) -> R<Vec<N>> {
    let mut r = Rd { src, at: 0, file };
    let _ = r.rest();
    let mut out = vec![];
    while !r.eof() { out.push(r.node()?) }
    Ok(out)
}
