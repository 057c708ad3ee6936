//! The transport between an author's source text and the parser: what arrives
//! may be cut off, or have parts lost, repeated, reordered, overwritten.
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum Fault {
    Truncate,
    TruncateToken,
    BlockLost,
    BlockRepeated,
    BlocksSwapped,
    BlockZeroed,
    BlockStale,
    BitFlip,
    CharLost,
    CharRepeated,
    CharInserted,
    CharReplaced,
    TokenLost,
    TokenRepeated,
    TokensSwapped,
    TokenReplaced,
    TokenInserted,
    Spliced,
    Misdecoded,
    LineEndings,
    HeadLost,
    LinesReordered,
    RunInserted,
    DigitsReplaced,
    EscapeInserted,
}

pub const FAULTS: [Fault; 25] = [
    Fault::Truncate, Fault::TruncateToken, Fault::BlockLost, Fault::BlockRepeated, Fault::BlocksSwapped,
    Fault::BlockZeroed, Fault::BlockStale, Fault::BitFlip, Fault::CharLost, Fault::CharRepeated,
    Fault::CharInserted, Fault::CharReplaced, Fault::TokenLost, Fault::TokenRepeated, Fault::TokensSwapped,
    Fault::TokenReplaced, Fault::TokenInserted, Fault::Spliced, Fault::Misdecoded, Fault::LineEndings,
    Fault::HeadLost, Fault::LinesReordered, Fault::RunInserted, Fault::DigitsReplaced, Fault::EscapeInserted,
];

/// Words that are most likely to disturb the parser's state.
pub const HOSTILE: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "`", "${", "'", "\"", "/", "/*", "*/", "//", "\\", ";", ",", ".", "...", "?", ":", "=>",
    "=", "==", "+", "++", "--", "-", "*", "**", "!", "~", "<", ">", "<<", "&&", "|", "\n", "\r", "\u{2028}", "\0", "@",
    "#", "async", "await", "yield", "get", "set", "of", "in", "let", "var", "const", "new", "class", "function", "super",
    "this", "null", "true", "if", "else", "for", "while", "do", "return", "throw", "try", "catch", "finally", "switch",
    "case", "default", "break", "continue", "import", "export", "from", "as", "typeof", "void", "delete", "instanceof",
    "extends", "static", "with", "debugger", "target", "0", "1", "0x", "1e", ".5", "08", "'use strict'", "``", "/a/", "\\u",
    "\\u{", "\\u0061", "\\x", "<!--", "-->", "a", "x", "$", "_", "\u{feff}", "é", "𠮷", "yield*", "async x", "()", "{}", "[]",
    "=> {", ") =>", "...a", "a:", "enum", "eval", "arguments", "implements", "interface", "package", "private", "public",
    "protected", "constructor", "\t", " ", "\u{a0}", "0b", "0o", "1.", "1..", "\u{10ffff}", "\u{7f}", "\u{85}", "\u{fffe}",
];

/// Values at or beyond the borders of what a number, code unit or code point holds.
pub const DIGITS: &[&str] = &[
    "", "0", "00", "1", "7", "8", "9", "09", "D800", "dbff", "DC00", "dfff", "D83D", "FFFF", "fffe", "10000", "10FFFF", "110000", "7fffffff",
    "80000000", "FFFFFFFF", "100000000", "777", "400", "377", "1777777", "7777777777", "9223372036854775807",
    "9223372036854775808", "18446744073709551616", "7FFFFFFFFFFFFFFF", "8000000000000000", "FFFFFFFFFFFFFFFFF",
    "999999999999999999999999999999", "777777777777777777777777", "0000000000000041", "1e400", "1e-400", "e", "1E", "fg", "0x", "_1",
];

/// Escapes and the like as they look when only part of a sequence arrives.
pub const ESCAPES: &[&str] = &[
    "\\uD83D\\uDE00", "\\ud800", "\\uDFFF", "\\uffff", "\\u004", "\\u", "\\u{", "\\u{}", "\\u{D800}", "\\u{10FFFF}", "\\u{110000}",
    "\\u{FFFFFFFFF}", "\\u{0041", "\\x", "\\x4", "\\xff", "\\0", "\\00", "\\08", "\\777", "\\400", "\\1777777777777777777777777", "\\8", "\\",
    "\\\n", "\\\r\n", "\\\r", "\\\u{2028}", "\\'", "\\\"", "\\`", "\\$", "\\/", "\\]", "[", "]", "$", "${", "\\u0061", "\\u0030", "\\u002d", "\\u{61}",
];

/// Rough lexical pieces: words, numbers, blanks, single characters.
pub fn pieces(t: &[char]) -> Vec<(usize, usize)> {
    let class = |c: char| {
        if c.is_alphanumeric() || c == '_' || c == '$' {
            1
        } else if c.is_whitespace() {
            2
        } else {
            0
        }
    };
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let k = class(t[i]);
        let mut j = i + 1;
        while k != 0 && j < t.len() && class(t[j]) == k {
            j += 1;
        }
        v.push((i, j));
        i = j;
    }
    v
}

fn word(rng: &mut Rng, dict: &[String]) -> Vec<char> {
    if rng.chance(1, 3) {
        rng.pick(dict).chars().collect()
    } else {
        rng.pick(HOSTILE).chars().collect()
    }
}

fn block(rng: &mut Rng, n: usize) -> (usize, usize) {
    // aligned blocks as a transport would lose them, or arbitrary ranges
    let size = *rng.pick(&[1, 2, 4, 8, 16, 32, 64, 128, 512]);
    let size = size.min(n);
    let start = if rng.chance(1, 2) { (rng.below(n) / size) * size } else { rng.below(n) };
    (start, (start + size).min(n))
}

/// Applies one fault of kind `f`. Returns a description, or None if it does not apply.
pub fn apply(f: Fault, t: &mut Vec<char>, other: &[char], dict: &[String], rng: &mut Rng) -> Option<String> {
    let n = t.len();
    if n == 0 && !matches!(f, Fault::CharInserted | Fault::TokenInserted | Fault::Spliced) {
        return None;
    }
    let d = match f {
        Fault::Truncate => {
            let k = if rng.chance(1, 4) { n - 1 - rng.below(n.min(6)) } else { rng.below(n) };
            t.truncate(k);
            format!("cut at {}", k)
        }
        Fault::TruncateToken => {
            let p = pieces(t);
            let k = rng.pick(&p).1;
            t.truncate(k);
            format!("cut after token at {}", k)
        }
        Fault::HeadLost => {
            let k = rng.range(1, n);
            t.drain(..k);
            format!("first {} lost", k)
        }
        Fault::BlockLost => {
            let (a, b) = block(rng, n);
            t.drain(a..b);
            format!("block {}..{} lost", a, b)
        }
        Fault::BlockRepeated => {
            let (a, b) = block(rng, n);
            let c: Vec<char> = t[a..b].to_vec();
            t.splice(b..b, c);
            format!("block {}..{} repeated", a, b)
        }
        Fault::BlocksSwapped => {
            let (a, b) = block(rng, n);
            let w = b - a;
            if b + w > n {
                return None;
            }
            for i in 0..w {
                t.swap(a + i, b + i);
            }
            format!("blocks {}..{}..{} swapped", a, b, b + w)
        }
        Fault::BlockZeroed => {
            let (a, b) = block(rng, n);
            for c in &mut t[a..b] {
                *c = '\0';
            }
            format!("block {}..{} zeroed", a, b)
        }
        Fault::BlockStale => {
            if other.is_empty() {
                return None;
            }
            let (a, b) = block(rng, n);
            for i in a..b {
                t[i] = other[i % other.len()];
            }
            format!("block {}..{} stale", a, b)
        }
        Fault::BitFlip => {
            let s: String = t.iter().collect();
            let mut bytes = s.into_bytes();
            let i = rng.below(bytes.len());
            let bit = rng.below(8);
            bytes[i] ^= 1 << bit;
            *t = String::from_utf8_lossy(&bytes).chars().collect();
            format!("bit {} of byte {} flipped", bit, i)
        }
        Fault::CharLost => {
            let i = rng.below(n);
            t.remove(i);
            format!("char {} lost", i)
        }
        Fault::CharRepeated => {
            let i = rng.below(n);
            let c = t[i];
            let k = *rng.pick(&[1, 1, 2, 3, 16]);
            t.splice(i..i, std::iter::repeat(c).take(k));
            format!("char {} repeated {}", i, k)
        }
        Fault::CharInserted => {
            let i = rng.below(n + 1);
            let w = word(rng, dict);
            let c = w[0];
            t.insert(i, c);
            format!("char {:?} inserted at {}", c, i)
        }
        Fault::CharReplaced => {
            let i = rng.below(n);
            let c = if rng.chance(1, 4) {
                char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}')
            } else {
                word(rng, dict)[0]
            };
            t[i] = c;
            format!("char {} replaced by {:?}", i, c)
        }
        Fault::TokenLost => {
            let p = pieces(t);
            let (a, b) = *rng.pick(&p);
            t.drain(a..b);
            format!("token {}..{} lost", a, b)
        }
        Fault::TokenRepeated => {
            let p = pieces(t);
            let (a, b) = *rng.pick(&p);
            let mut c = vec![' '];
            c.extend_from_slice(&t[a..b]);
            t.splice(b..b, c);
            format!("token {}..{} repeated", a, b)
        }
        Fault::TokensSwapped => {
            let p = pieces(t);
            if p.len() < 2 {
                return None;
            }
            let i = rng.below(p.len() - 1);
            let j = (i + 1 + rng.below(3)).min(p.len() - 1);
            let (a, b) = p[i];
            let (c, d) = p[j];
            let mut v: Vec<char> = t[c..d].to_vec();
            v.extend_from_slice(&t[b..c]);
            v.extend_from_slice(&t[a..b]);
            t.splice(a..d, v);
            format!("tokens at {} and {} swapped", a, c)
        }
        Fault::TokenReplaced => {
            let p = pieces(t);
            let (a, b) = *rng.pick(&p);
            let w = word(rng, dict);
            let ds = format!("token {}..{} replaced by {:?}", a, b, w.iter().collect::<String>());
            t.splice(a..b, w);
            ds
        }
        Fault::TokenInserted => {
            let p = pieces(t);
            let at = if p.is_empty() { 0 } else { rng.pick(&p).1 };
            let mut w = word(rng, dict);
            let ds = format!("token {:?} inserted at {}", w.iter().collect::<String>(), at);
            if rng.chance(1, 2) {
                w.insert(0, ' ');
                w.push(' ');
            }
            t.splice(at..at, w);
            ds
        }
        Fault::Spliced => {
            if other.is_empty() {
                return None;
            }
            let a = rng.below(n + 1);
            let b = rng.below(other.len());
            t.truncate(a);
            t.extend_from_slice(&other[b..]);
            format!("first {} joined to the tail of another source from {}", a, b)
        }
        Fault::DigitsReplaced => {
            let mut runs = vec![];
            let mut i = 0;
            while i < n {
                let mut j = i;
                while j < n && t[j].is_ascii_hexdigit() {
                    j += 1;
                }
                if j > i && (j - i > 1 || t[i].is_ascii_digit()) {
                    runs.push((i, j));
                }
                i = j + 1;
            }
            if runs.is_empty() {
                return None;
            }
            let (a, b) = *rng.pick(&runs);
            let w: Vec<char> = rng.pick(DIGITS).chars().collect();
            let ds = format!("digits {}..{} replaced by {:?}", a, b, w.iter().collect::<String>());
            t.splice(a..b, w);
            ds
        }
        Fault::EscapeInserted => {
            // next to something that may hold an escape: quote, slash, backslash, word
            let at: Vec<usize> = (0..n).filter(|&i| matches!(t[i], '\'' | '"' | '`' | '/' | '\\' | '}') || t[i].is_alphabetic()).collect();
            let i = if at.is_empty() { rng.below(n) } else { *rng.pick(&at) + rng.below(2) };
            let w: Vec<char> = rng.pick(ESCAPES).chars().collect();
            let ds = format!("escape {:?} inserted at {}", w.iter().collect::<String>(), i);
            t.splice(i..i, w);
            ds
        }
        Fault::Misdecoded => {
            let s: String = t.iter().collect();
            *t = s.bytes().map(|b| b as char).collect();
            "decoded as Latin-1".to_string()
        }
        Fault::LineEndings => {
            let to = *rng.pick(&["\r", "\r\n", "\u{2028}", "\u{2029}", "", " ", "\n\n"]);
            let mut v = vec![];
            for &c in t.iter() {
                if c == '\n' {
                    v.extend(to.chars());
                } else {
                    v.push(c);
                }
            }
            *t = v;
            format!("line endings became {:?}", to)
        }
        Fault::LinesReordered => {
            let s: String = t.iter().collect();
            let mut l: Vec<&str> = s.split('\n').collect();
            if l.len() < 2 {
                return None;
            }
            let i = rng.below(l.len());
            let j = rng.below(l.len());
            l.swap(i, j);
            *t = l.join("\n").chars().collect();
            format!("lines {} and {} swapped", i, j)
        }
        Fault::RunInserted => {
            let i = rng.below(n + 1);
            let w = word(rng, dict);
            let k = *rng.pick(&[2, 3, 4, 8, 16, 32, 40]);
            let mut v = vec![];
            for _ in 0..k {
                v.extend_from_slice(&w);
                if rng.chance(1, 8) {
                    v.push(' ');
                }
            }
            t.splice(i..i, v);
            format!("{:?} x{} inserted at {}", w.iter().collect::<String>(), k, i)
        }
    };
    Some(d)
}

/// Deepest bracket nesting of a text, counted roughly (anything that opens).
pub fn nesting(t: &[char]) -> usize {
    let (mut d, mut m) = (0usize, 0usize);
    for &c in t {
        match c {
            '(' | '[' | '{' => {
                d += 1;
                m = m.max(d);
            }
            ')' | ']' | '}' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}
