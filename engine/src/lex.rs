//! Tokeniser for one logical line of textual LLVM IR.

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    Local(&'a str),
    Global(&'a str),
    Meta,
    Word(&'a str),
    Int(&'a str),
    CStr(&'a str),
    Str(&'a str),
    P(u8),
    Hash,
}

pub fn lex(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(s.len() / 5);
    let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                // comment to end of line
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                out.push(if c == b'%' { T::Local(&s[st..en]) } else { T::Global(&s[st..en]) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                i = j;
                out.push(T::Meta);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                i = j;
                out.push(T::Hash);
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::CStr(&s[st..j]));
                i = j + 1;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                let mut j = i + 1;
                while j < b.len() && (is_id(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                out.push(T::Int(&s[st..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                let mut j = i;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(T::Word(&s[st..j]));
                i = j;
            }
            _ => {
                out.push(T::P(c));
                i += 1;
            }
        }
    }
    out
}
