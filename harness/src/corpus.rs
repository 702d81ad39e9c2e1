//! Real-world programs used as seeds, and an independent tokenizer for them.

use std::path::PathBuf;

pub fn corpus() -> Vec<(String, Vec<u8>)> {
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_owned())).join("corpus");
    let mut v = vec![];
    let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let b = std::fs::read(&p).unwrap();
        let n = p.file_name().unwrap().to_string_lossy().into_owned();
        if n.ends_with(".txt") {
            for (i, s) in String::from_utf8(b).unwrap().split("\n%%%%\n").enumerate() {
                v.push((format!("{}#{}", n, i), s.as_bytes().to_vec()));
            }
        } else {
            v.push((n, b));
        }
    }
    v
}

thread_local! {
    static CORPUS: Vec<(String, Vec<u8>)> = corpus();
}

pub fn pick(r: &mut crate::rng::Rng) -> (String, Vec<u8>) {
    CORPUS.with(|c| r.pick(c).clone())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Word,
    Label,
    Num,
    Str,
    Sym,
    Comment,
    Space,
    Eol,
    Other,
}

#[derive(Clone, Debug)]
pub struct T {
    pub k: K,
    pub s: String,
}

fn word(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

pub fn tokens(src: &str) -> Vec<T> {
    let c: Vec<char> = src.chars().collect();
    let mut v: Vec<T> = vec![];
    let mut i = 0;
    while i < c.len() {
        let st = i;
        let k = match c[i] {
            '\n' => {
                i += 1;
                K::Eol
            }
            ' ' | '\t' | '\r' => {
                while i < c.len() && matches!(c[i], ' ' | '\t' | '\r') {
                    i += 1;
                }
                K::Space
            }
            '"' => {
                i += 1;
                while i < c.len() && c[i] != '"' && c[i] != '\n' {
                    if c[i] == '\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i = (i + 1).min(c.len());
                K::Str
            }
            '\'' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
                K::Comment
            }
            '@' => {
                i += 1;
                while i < c.len() && word(c[i]) {
                    i += 1;
                }
                K::Label
            }
            '&' => {
                i += 1;
                while i < c.len() && word(c[i]) {
                    i += 1;
                }
                K::Num
            }
            ch if ch.is_ascii_digit() => {
                while i < c.len() && (word(c[i]) || c[i] == '.') {
                    i += 1;
                }
                K::Num
            }
            ch if word(ch) => {
                while i < c.len() && word(c[i]) {
                    i += 1;
                }
                let t: String = c[st..i].iter().collect();
                if t.eq_ignore_ascii_case("rem") && i < c.len() && !"?#%$".contains(c[i]) || (t.eq_ignore_ascii_case("rem") && i == c.len()) {
                    while i < c.len() && c[i] != '\n' {
                        i += 1;
                    }
                    K::Comment
                } else {
                    if i < c.len() && "?#%$".contains(c[i]) {
                        i += 1;
                    }
                    K::Word
                }
            }
            '<' | '>' => {
                i += 1;
                if i < c.len() && (c[i] == '=' || c[i] == '<' || c[i] == '>') && !(c[st] == '>' && c[i] == '<') {
                    i += 1;
                }
                K::Sym
            }
            ':' | '(' | ')' | '=' | ';' | ',' | '+' | '-' | '*' | '/' | '^' => {
                i += 1;
                K::Sym
            }
            _ => {
                i += 1;
                K::Other
            }
        };
        v.push(T { k, s: c[st..i.min(c.len())].iter().collect() });
        i = i.min(c.len());
    }
    v
}

pub fn join(t: &[T]) -> String {
    t.iter().map(|t| t.s.as_str()).collect()
}
