use super::core::q;
use super::templates::{self, Kind, TPLS};
use super::{c07::ALLCAPS, known};
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Event, Input, Mailbox, Runtime};

// ---------------------------------------------------------------------------------------------
// reference lexer: RFC 5228 section 2 with the control character escapes of this implementation
// ---------------------------------------------------------------------------------------------
#[derive(Clone, PartialEq, Eq, Debug)]
enum Tok {
    /// identifier, number or anything else made of word characters (in lower case)
    Word(String),
    /// identifier written as a tag
    Tag(String),
    Str(Vec<u8>),
    P(char),
}
fn word_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"_.$".contains(&c)
}
fn lex(s: &[u8]) -> Option<Vec<Tok>> {
    let mut t = vec![];
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b'#' => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' => {
                if s.get(i + 1) != Some(&b'*') {
                    return None;
                }
                let e = s[i + 2..].windows(2).position(|w| w == b"*/")?;
                i += 2 + e + 2;
            }
            b'"' => {
                let mut v = vec![];
                i += 1;
                loop {
                    match *s.get(i)? {
                        b'"' => break,
                        b'\\' => {
                            i += 1;
                            v.push(match *s.get(i)? {
                                b'n' => b'\n',
                                b'r' => b'\r',
                                b't' => b'\t',
                                c => c,
                            });
                        }
                        c => v.push(c),
                    }
                    i += 1;
                }
                i += 1;
                t.push(Tok::Str(v));
            }
            b':' if s.get(i + 1).is_some_and(|c| c.is_ascii_alphabetic()) => {
                let b = i + 1;
                i = b;
                while i < s.len() && word_char(s[i]) {
                    i += 1;
                }
                t.push(Tok::Tag(String::from_utf8_lossy(&s[b..i]).to_ascii_lowercase()));
            }
            c if word_char(c) => {
                let b = i;
                while i < s.len() && word_char(s[i]) {
                    i += 1;
                }
                let w = String::from_utf8_lossy(&s[b..i]).to_ascii_lowercase();
                if w == "text" && s.get(i) == Some(&b':') {
                    i += 1;
                    while matches!(s.get(i), Some(b' ' | b'\t')) {
                        i += 1;
                    }
                    if s.get(i) == Some(&b'#') {
                        while i < s.len() && s[i] != b'\n' {
                            i += 1;
                        }
                    }
                    if s.get(i) == Some(&b'\r') && s.get(i + 1) == Some(&b'\n') {
                        i += 1;
                    }
                    if s.get(i) != Some(&b'\n') {
                        return None;
                    }
                    i += 1;
                    let mut v = vec![];
                    loop {
                        let e = s[i..].iter().position(|&c| c == b'\n')? + i + 1;
                        let line = &s[i..e];
                        i = e;
                        if line == b".\n" || line == b".\r\n" {
                            break;
                        }
                        v.extend_from_slice(line.strip_prefix(b"..").map(|_| &line[1..]).unwrap_or(line));
                    }
                    t.push(Tok::Str(v));
                } else {
                    t.push(Tok::Word(w));
                }
            }
            c @ (b'(' | b')' | b'[' | b']' | b'{' | b'}' | b',' | b';' | b':') => {
                t.push(Tok::P(c as char));
                i += 1;
            }
            _ => return None,
        }
    }
    Some(t)
}
/// what a script of fileinto, keep and stop commands does; None if it is none
fn meaning(t: &[Tok]) -> Option<Vec<(Vec<u8>, bool)>> {
    let mut out = vec![];
    let mut stopped = false;
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            Tok::Word(w) if w == "fileinto" => {
                i += 1;
                let mut copy = false;
                if matches!(t.get(i), Some(Tok::Tag(w)) if w == "copy") {
                    copy = true;
                    i += 1;
                }
                let Some(Tok::Str(s)) = t.get(i) else { return None };
                if !stopped {
                    out.push((s.clone(), copy));
                }
                i += 1;
            }
            Tok::Word(w) if w == "stop" => {
                stopped = true;
                i += 1;
            }
            _ => return None,
        }
        if t.get(i) != Some(&Tok::P(';')) {
            return None;
        }
        i += 1;
    }
    Some(out)
}
/// does a text contain something like a variable reference?
fn reference(s: &[u8]) -> bool {
    s.windows(2).enumerate().any(|(i, w)| w == b"${" && s[i + 2..].iter().position(|c| *c == b'}').is_some_and(|e| e > 0))
}
fn folders(o: &[Ob]) -> Option<Vec<String>> {
    let mut v = vec![];
    for o in o {
        match o {
            Ob::Ev(Event::FileInto { folder, .. }) => v.push(folder.clone()),
            Ob::Ev(Event::Keep { .. }) => (),
            _ => return None,
        }
    }
    Some(v)
}
const SIMPLE: &[u8] = b"Subject: x\r\n\r\nbody\r\n";

/// every text over a vocabulary, as it stands, behind a prefix and before a suffix
fn texts(name: &str, vocab: &'static [&'static str], prefix: &'static str, suffix: &'static str, n: usize) -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = Runtime::new();
    let k = vocab.len();
    radix(
        &format!("text-{name}-{n}"),
        &format!("every sequence of up to {n} of {vocab:?} between {prefix:?} and {suffix:?}: compiles exactly if the reference lexer and grammar accept it, and then denotes the same commands and strings"),
        vec![nwords(k, n) as usize],
        move |v, cx| {
            let body: String = word(k, v[0] as u64).into_iter().map(|i| vocab[i]).collect();
            let src = format!("require [\"fileinto\", \"copy\"];{prefix}{body}{suffix}");
            let toks = lex(&src.as_bytes()["require [\"fileinto\", \"copy\"];".len()..]);
            let want = toks.as_ref().and_then(|t| meaning(t));
            cx.state(&toks.is_some().then(|| format!("{toks:?}")));
            if toks.iter().flatten().any(|t| matches!(t, Tok::Str(s) if reference(s))) {
                // what a reference means without the extension is left open
                return Ok(());
            }
            let g = compile(&c, &src);
            cx.step(1);
            let bad = |what: String| Err(Fail::new(format!("text:{src}"), format!("{what}\n{src:?}\nreference tokens {toks:?}")));
            match (g, want) {
                (Ok(sc), Some(w)) => {
                    let got = run_with(&rt, &sc, SIMPLE, |_| (), yes);
                    cx.trace();
                    let w: Vec<String> = w.into_iter().map(|x| String::from_utf8_lossy(&x.0).into_owned()).collect();
                    cx.outcome(&w);
                    if folders(&got).as_ref() != Some(&w) {
                        return bad(format!("want {w:?}\n    {}", show_all(&got)));
                    }
                    Ok(())
                }
                (Err(Ob::CompileErr(e)), None) => {
                    cx.outcome(&e.split(" at ").next().map(|s| s.to_string()));
                    Ok(())
                }
                (Ok(_), None) => bad("compiles although it is no script".into()),
                (Err(o), _) => bad(format!("does not compile: {}", show(&o))),
            }
        },
    )
}

/// every value in each of its spellings
fn spellings(n: usize) -> Box<dyn Suite> {
    const A: &[&str] = &["\"", "\\", ".", "\n", "\r\n", "$", "{", "}", "5", "v", "-", "é"];
    let k = A.len();
    let c = Compiler::new();
    let rt = known::runtime(Runtime::new());
    radix(
        &format!("spellings-{n}"),
        &format!("every text of up to {n} of {A:?} as a quoted string, with every character escaped that may be, and as a multi-line literal with the dots stuffed that must be, without and with the extensions that give meaning to its braces"),
        vec![nwords(k, n) as usize, 2],
        move |v, cx| {
            let t: String = word(k, v[0] as u64).into_iter().map(|i| A[i]).collect();
            let req = if v[1] == 0 { "require \"fileinto\";" } else { "require [\"fileinto\", \"variables\", \"encoded-character\"]; set \"v\" \"val\";" };
            let mut sp = vec![format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\""))];
            let mut e = String::from("\"");
            let mut last = ' ';
            for c in t.chars() {
                // an escaped brace does not open a reference
                if c.is_ascii() && c != '\n' && c != '\r' && !(c == '{' && last == '$') && c != 'v' {
                    e.push('\\');
                }
                e.push(c);
                last = c;
            }
            e.push('"');
            sp.push(e);
            if let Some(b) = t.strip_suffix('\n') {
                let _ = b;
                let stuffed: String = t.split_inclusive('\n').map(|l| if l.starts_with('.') { format!(".{l}") } else { l.to_string() }).collect();
                sp.push(format!("text:\n{stuffed}.\n"));
                sp.push(format!("TEXT: # a \"comment\"\r\n{stuffed}.\r\n"));
                // only a line that is a dot or starts with two has to be stuffed
                let bare: String = t.split_inclusive('\n').map(|l| if l.starts_with("..") || l == ".\n" || l == ".\r\n" { format!(".{l}") } else { l.to_string() }).collect();
                sp.push(format!("text: \t\n{bare}.\n"));
            }
            let want = if !t.contains("${") { Some(t.clone()) } else if v[1] == 1 { expand(&t, &|n| if n.eq_ignore_ascii_case("v") { "val".into() } else { String::new() }) } else if reference(t.as_bytes()) { None } else { Some(t.clone()) };
            let mut first: Option<Vec<String>> = None;
            for s in sp {
                let src = format!("{req} fileinto {s};");
                cx.state(&src);
                cx.trace();
                cx.step(1);
                let got = run_script(&c, &rt, &src, SIMPLE, |_| (), yes);
                let f = folders(&got);
                cx.outcome(&f);
                let ok = match (&f, &want) {
                    (Some(f), Some(w)) => v[1] == 0 && w.contains("${") || f.len() == 1 && &f[0] == w,
                    (_, None) => true,
                    _ => false,
                };
                let same = first.is_none() || first == f;
                if !ok || !same {
                    return Err(Fail::new(format!("spelling:{t:?}"), format!("{src}\nwant {want:?}, other spelling {first:?}\n    {}", show_all(&got))));
                }
                first = f;
            }
            Ok(())
        },
    )
}
/// variable references in a text; None when a reference is of a kind this reference leaves open
fn expand(t: &str, var: &dyn Fn(&str) -> String) -> Option<String> {
    let mut o = String::new();
    let mut r = t;
    while let Some(p) = r.find("${") {
        o.push_str(&r[..p]);
        r = &r[p + 2..];
        let n = r.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(r.len());
        let name = &r[..n];
        // namespaces, lists and dashes are left open
        if r[n..].starts_with(['.', '-', '[', ']', '*']) {
            return None;
        }
        if n > 0 && r[n..].starts_with('}') {
            if name.starts_with(|c: char| c.is_ascii_digit()) {
                if name.parse::<u32>().ok().filter(|n| *n < 30).is_none() {
                    return None;
                }
            } else {
                o.push_str(&var(name));
            }
            r = &r[n + 1..];
        } else {
            o.push_str("${");
        }
    }
    o.push_str(r);
    Some(o)
}

// ---------------------------------------------------------------------------------------------
// encoded characters
// ---------------------------------------------------------------------------------------------
enum Enc {
    Text(Vec<u8>),
    /// a well-formed sequence that names no character
    Invalid,
}
fn decode(s: &[u8]) -> Enc {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with(b"${") {
            match sequence(&s[i + 2..]) {
                Some((n, Some(v))) => {
                    o.extend(v);
                    i += 2 + n;
                    continue;
                }
                Some((_, None)) => return Enc::Invalid,
                None => (),
            }
        }
        o.push(s[i]);
        i += 1;
    }
    Enc::Text(o)
}
/// `hex:` or `unicode:`, numbers separated by blanks, `}`
fn sequence(s: &[u8]) -> Option<(usize, Option<Vec<u8>>)> {
    let (uni, mut i) = if s.len() >= 4 && s[..4].eq_ignore_ascii_case(b"hex:") {
        (false, 4)
    } else if s.len() >= 8 && s[..8].eq_ignore_ascii_case(b"unicode:") {
        (true, 8)
    } else {
        return None;
    };
    let e = i + s[i..].iter().position(|&c| c == b'}')?;
    let body = &s[i..e];
    i = e + 1;
    if !body.iter().all(|c| c.is_ascii_hexdigit() || b" \t\r\n".contains(c)) {
        return None;
    }
    let mut out = vec![];
    let mut valid = true;
    let mut any = false;
    for n in std::str::from_utf8(body).unwrap().split_ascii_whitespace() {
        any = true;
        if uni {
            match u32::from_str_radix(n, 16).ok().and_then(char::from_u32) {
                Some(c) => out.extend(c.to_string().bytes()),
                None => valid = false,
            }
        } else if n.len() <= 2 {
            out.push(u8::from_str_radix(n, 16).unwrap());
        } else {
            return None;
        }
    }
    any.then_some((i, valid.then_some(out)))
}
fn encoded(name: &str, vocab: &'static [&'static str], n: usize) -> Box<dyn Suite> {
    let k = vocab.len();
    let c = Compiler::new();
    let rt = known::runtime(Runtime::new());
    radix(
        &format!("encoded-{name}-{n}"),
        &format!("every sequence of up to {n} of {vocab:?} in a quoted string and a multi-line literal, with encoded-character alone and together with variables, against the grammar of encoded characters followed by the expansion of variables; a variable's value is not decoded again"),
        vec![nwords(k, n) as usize, 2],
        move |v, cx| {
            let t: String = word(k, v[0] as u64).into_iter().map(|i| vocab[i]).collect();
            let vars = v[1] == 1;
            if !vars {
                // what a reference means without the extension is left open
                if let Enc::Text(d) = decode(t.as_bytes()) {
                    let d = String::from_utf8_lossy(&d).into_owned();
                    if expand(&d, &|_| "?".into()).is_none_or(|x| x != d) {
                        return Ok(());
                    }
                }
            }
            let want = match decode(t.as_bytes()) {
                Enc::Text(d) => match String::from_utf8(d) {
                    Ok(d) if vars => match expand(&d, &|n| if n == "z" { "${hex:41}${z}".into() } else { String::new() }) {
                        Some(x) => Some(x),
                        None => return Ok(()),
                    },
                    Ok(d) => Some(d),
                    Err(_) => return Ok(()),
                },
                Enc::Invalid => None,
            };
            let req = if vars { "require [\"fileinto\", \"encoded-character\", \"variables\"]; set \"z\" \"${global.z}\";" } else { "require [\"fileinto\", \"encoded-character\"];" };
            for (sp, nl) in [(q(&t), ""), (format!("text:\n{t}\n.\n"), "\n")] {
                let src = format!("{req} fileinto {sp};");
                cx.state(&src);
                cx.trace();
                cx.step(1);
                let got = run_script(&c, &rt, &src, SIMPLE, |ctx| ctx.set_global_variable("z", "${hex:41}${z}"), yes);
                let f = folders(&got);
                cx.outcome(&f);
                let ok = match &want {
                    Some(w) => f.as_ref().is_some_and(|f| f.len() == 1 && f[0] == format!("{w}{nl}")),
                    None => matches!(&got[0], Ob::CompileErr(_)),
                };
                if !ok {
                    return Err(Fail::new(format!("encoded:{t}"), format!("{src}\nwant {want:?}\n    {}", show_all(&got))));
                }
            }
            Ok(())
        },
    )
}
/// every code point, in both forms
fn codepoints() -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = known::runtime(Runtime::new());
    radix(
        "code points",
        "every code point from 0 to 10FFFF (16 to a string) and the surrogates, as unicode sequences and as the hex sequence of its bytes, with one or several numbers in a sequence",
        vec![0x110000 / 16, 2],
        move |v, cx| {
            let cps: Vec<u32> = (0..16).map(|i| (v[0] * 16 + i) as u32).collect();
            let chars: Option<String> = cps.iter().map(|c| char::from_u32(*c)).collect();
            let t = match (v[1], &chars) {
                (0, _) => format!("${{unicode:{}}}", cps.iter().map(|c| format!("{c:x}")).collect::<Vec<_>>().join(" ")),
                (_, Some(s)) => s.chars().map(|c| format!("${{HEX:{}}}", c.to_string().bytes().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(" "))).collect(),
                _ => return Ok(()),
            };
            let src = format!("require [\"fileinto\", \"encoded-character\"]; fileinto \"{t}\";");
            cx.state(&v);
            cx.trace();
            cx.step(1);
            let got = run_script(&c, &rt, &src, SIMPLE, |_| (), yes);
            let f = folders(&got);
            cx.outcome(&f.is_some());
            let ok = match &chars {
                Some(s) => f.as_ref().is_some_and(|f| f.len() == 1 && &f[0] == s),
                None => matches!(&got[0], Ob::CompileErr(_)),
            };
            if ok {
                Ok(())
            } else {
                Err(Fail::new("codepoint", format!("{src}\n    {}", show_all(&got))))
            }
        },
    )
}

// ---------------------------------------------------------------------------------------------
// numbers
// ---------------------------------------------------------------------------------------------
fn value(w: &str) -> Option<Option<u64>> {
    let (d, m) = match w.as_bytes().last()?.to_ascii_lowercase() {
        b'k' => (&w[..w.len() - 1], 1u64 << 10),
        b'm' => (&w[..w.len() - 1], 1 << 20),
        b'g' => (&w[..w.len() - 1], 1 << 30),
        _ => (w, 1),
    };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some(d.parse::<u64>().ok().and_then(|n| n.checked_mul(m)))
}
fn numbers(n: usize) -> Box<dyn Suite> {
    const A: &[&str] = &["0", "1", "9", "K", "k", "M", "g", "_", "."];
    let mut items: Vec<String> = (0..nwords(A.len(), n)).map(|i| word(A.len(), i).into_iter().map(|i| A[i]).collect()).filter(|s: &String| !s.is_empty()).collect();
    for b in [1u64, 1 << 10, 1 << 20, 1 << 30] {
        let top = u64::MAX / b;
        for d in 0..3 {
            let suffix = ["", "K", "M", "G"][[1u64, 1 << 10, 1 << 20, 1 << 30].iter().position(|x| *x == b).unwrap()];
            items.push(format!("{}{suffix}", top - d));
            items.push(format!("{}{suffix}", top as u128 + 1 + d as u128));
            items.push(format!("{}{suffix}", (1u64 << 31) - 1 + d));
            items.push(format!("{}{suffix}", (1u64 << 32) - 1 + d));
            items.push(format!("000{}{suffix}", (1u64 << 31) - 1 + d));
        }
    }
    let c = Compiler::new();
    let rt = Runtime::new();
    list(
        &format!("numbers-{n}"),
        &format!("every text of up to {n} of {A:?} and the values around the powers of two and the largest number, where a number is expected: it denotes its digits times its suffix, too large a number is not wrapped around, and anything else is refused"),
        items,
        move |w, cx| {
            let src = format!("require [\"fileinto\", \"duplicate\"]; if duplicate :uniqueid \"u\" :seconds {w} {{ keep; }}");
            cx.state(w);
            cx.trace();
            cx.step(1);
            let got = run_script(&c, &rt, &src, SIMPLE, |_| (), yes);
            let e = got.iter().find_map(|o| match o {
                Ob::Ev(Event::DuplicateId { expiry, .. }) => Some(*expiry),
                _ => None,
            });
            cx.outcome(&e);
            let refused = matches!(&got[0], Ob::CompileErr(_));
            let ok = match value(w) {
                None => refused,
                Some(None) => refused || e.is_some_and(|e| e > i64::MAX as u64),
                // the largest number of all may be refused
                Some(Some(n)) if n >= u64::MAX - 1 => refused || e == Some(n),
                Some(Some(n)) => e == Some(n),
            };
            if ok {
                Ok(())
            } else {
                Err(Fail::new(format!("number:{w}"), format!("{src}\nvalue {:?}\n    {}", value(w), show_all(&got))))
            }
        },
    )
}
fn sizes() -> Box<dyn Suite> {
    let c = Compiler::new();
    let rt = Runtime::new();
    let lens = [1usize, 2, 1023, 1024, 1025, 2047, 2048, 2049, 9216, 1048575, 1048576, 1048577];
    let nums = ["0", "1", "2", "1023", "1024", "1025", "1k", "1K", "01K", "2K", "2k", "9K", "1M", "1m", "1048576", "1024K", "1G", "4G", "17179869183G"];
    let mut items = vec![];
    for l in lens {
        for n in nums {
            for t in [":over", ":under", ":OVER", ":Under"] {
                items.push((l, n, t));
            }
        }
    }
    list("sizes", "size :over and :under with numbers in every notation on messages around each power of 1024", items, move |(l, n, t), cx| {
        let mut m = vec![b'x'; *l];
        if *l > 14 {
            m[..14].copy_from_slice(b"Subject: x\r\n\r\n");
        }
        let src = format!("require \"fileinto\"; if size {t} {n} {{ fileinto \"y\"; }}");
        cx.state(&(l, n, t));
        cx.trace();
        cx.step(1);
        let got = run_script(&c, &rt, &src, &m, |_| (), yes);
        let f = folders(&got);
        cx.outcome(&f);
        let v = value(n).unwrap().unwrap();
        let want = if t.eq_ignore_ascii_case(":over") { (*l as u64) > v } else { (*l as u64) < v };
        if f.as_ref().map(|f| f.len()) == Some(want as usize) {
            Ok(())
        } else {
            Err(Fail::new("size", format!("{src}\n{l} bytes\n    {}", show_all(&got))))
        }
    })
}

// ---------------------------------------------------------------------------------------------
// layout
// ---------------------------------------------------------------------------------------------
/// script text as a list of tokens, each spelt as it was written
pub fn split(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut t = vec![];
    let mut i = 0;
    while i < b.len() {
        let s0 = i;
        match b[i] {
            b' ' | b'\n' => {
                i += 1;
                continue;
            }
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            b':' => {
                i += 1;
                while i < b.len() && word_char(b[i]) {
                    i += 1;
                }
            }
            c if word_char(c) => {
                while i < b.len() && word_char(b[i]) {
                    i += 1;
                }
            }
            _ => i += 1,
        }
        t.push(s[s0..i].to_string());
    }
    t
}
pub const MORE: &[&str] = &[
    "if allof (header :is \"Subject\" \"Hello World\", not anyof (size :over 1M, exists [\"X-None\", \"Subject\"])) { fileinto \"a\"; if true { fileinto :copy \"b\"; } elsif false { stop; } else { keep; } } else { discard; } fileinto \"end\";",
    "set \"v\" \"x\"; while \"1 < 3\" { set \"v\" \"${v}y\"; break; } fileinto \"${v}\";",
    "foreverypart :name \"n\" { foreverypart { if header :mime :type \"Content-Type\" \"text\" { break :name \"n\"; } fileinto \"p\"; } } fileinto \"e\";",
    "if not not true { fileinto \"a\"; }",
    "if anyof(not false) { stop; }",
    "if not allof (true, false, not false) { fileinto \"1\"; } elsif true { fileinto \"2\"; } fileinto \"3\";",
    "set :lower :upperfirst \"v\" \"ABC\"; fileinto \"${v}\"; set :length \"w\" \"${v}\"; fileinto \"${w}\";",
    "setflag [\"a\", \"b\"]; addflag \"c\"; keep; removeflag [\"a\"]; fileinto :flags [\"x\", \"y\"] \"m\";",
    "if ihave \"vnd.nothing\" { nothing :unknown \"x\" [\"y\"] 5 { more; } } else { fileinto \"e\"; }",
    "global [\"g\", \"h\"]; set \"g\" \"1\"; if string :is \"${g}${h}\" \"1\" { return; } keep;",
    "redirect :copy \"a@b.example\"; redirect \"c@d.example\"; error \"failed\"; keep;",
];
struct Case {
    name: String,
    pre: String,
    toks: Vec<String>,
    base: Vec<Ob>,
}
fn allcaps() -> Vec<String> {
    ALLCAPS.split('"').skip(1).step_by(2).map(|s| s.to_string()).chain(["ihave", "comparator-i;octet", "comparator-i;ascii-casemap", "comparator-i;ascii-numeric"].map(String::from)).collect()
}
fn rt() -> Runtime {
    let mut rt = known::runtime(Runtime::new()).with_max_redirects(9).with_max_out_messages(9);
    for c in allcaps() {
        rt = rt.with_capability(c.as_str());
    }
    rt
}
fn host(e: &Event) -> Input {
    match e {
        Event::IncludeScript { .. } => Input::False,
        _ => Input::True,
    }
}
fn run(c: &Compiler, rt: &Runtime, src: &str) -> Vec<Ob> {
    scrub_obs(run_script(c, rt, src, known::MSG.as_bytes(), known::prep, host))
}
fn cases() -> Vec<Case> {
    let c = Compiler::new();
    let rt = rt();
    let pre = format!("require [{}]; ", { let mut v: Vec<String> = allcaps().iter().map(|c| q(c)).collect(); v.sort(); v.dedup(); v.join(", ") });
    let mut out = vec![];
    let vals: &[&str] = &["Subject", "a@b.example", "2030-01-01T00:00:00Z", "mailto:a@b.example", "NEVER", "/"];
    for (name, body) in TPLS.iter().map(|t| (t.text.to_string(), vals.iter().map(|v| templates::body(t, v)).find(|b| !matches!(run(&c, &rt, &format!("{pre}{b}")).first(), Some(Ob::CompileErr(_)) | None)).unwrap_or_default())).chain(MORE.iter().map(|m| (m.to_string(), m.to_string()))) {
        if name.contains("test_unknown") || body.is_empty() {
            continue;
        }
        let toks = split(&body);
        let base = run(&c, &rt, &format!("{pre}{}", toks.join(" ")));
        out.push(Case { name, pre: pre.clone(), toks, base });
    }
    out
}
fn is_str(t: &str) -> bool {
    t.starts_with('"')
}
/// may two tokens stand next to each other without white space?
fn joins(a: &str, b: &str) -> bool {
    let (x, y) = (a.as_bytes()[a.len() - 1], b.as_bytes()[0]);
    word_char(x) && !is_str(a) && word_char(y)
}
const SEPS: &[&str] = &["", " ", "\n", "\r\n", "\t", "  \t ", "# comment \" ; } */ text:\n", "#\n", "/* c */", "/**/", "/***/", "/* \" # text:\n.\r\n; { /* **/", " /* a */ # b\r\n\n", "/*/*/", "\r\n\r\n"];
fn compare(c: &Compiler, rt: &Runtime, k: &Case, src: &str, cx: &mut Cx) -> Result<(), Fail> {
    cx.state(&src);
    cx.trace();
    cx.step(1);
    let got = run(c, rt, &format!("{}{src}", k.pre));
    cx.outcome(&hash_obs(&got));
    if got == k.base {
        Ok(())
    } else {
        Err(Fail::new(format!("layout:{}", k.name), format!("{src}\n{}", diff(&k.base, &got))))
    }
}
fn layout(pairs: usize) -> Box<dyn Suite> {
    let cs = cases();
    let mut items = vec![];
    for (i, k) in cs.iter().enumerate() {
        let g = k.toks.len() + 1;
        // one separator everywhere, then a deviation in one place, then in two
        for s in 0..SEPS.len() {
            items.push((i, vec![], s));
            for p in 0..g {
                items.push((i, vec![(p, s)], 1));
                items.push((i, vec![(p, s)], 0));
                if s < pairs {
                    for p2 in 0..p {
                        for s2 in 0..pairs {
                            items.push((i, vec![(p, s), (p2, s2)], 1));
                        }
                    }
                }
            }
        }
    }
    let c = Compiler::new();
    let rt = rt();
    list(
        &format!("layout-{pairs}"),
        &format!("{} scripts covering every command, test and argument: each of {} kinds of white space and comments (none where tokens can stand together) everywhere, in every single gap, and the first {pairs} in every pair of gaps", cs.len(), SEPS.len()),
        items,
        move |(i, dev, all), cx| {
            let k = &cs[*i];
            let sep = |p: usize, s: usize| -> &str {
                if SEPS[s].is_empty() && p > 0 && p < k.toks.len() && joins(&k.toks[p - 1], &k.toks[p]) {
                    " "
                } else {
                    SEPS[s]
                }
            };
            let mut src = String::new();
            for p in 0..=k.toks.len() {
                let s = dev.iter().find(|d| d.0 == p).map(|d| d.1).unwrap_or(*all);
                src.push_str(sep(p, s));
                if let Some(t) = k.toks.get(p) {
                    src.push_str(t);
                }
            }
            compare(&c, &rt, k, &src, cx)
        },
    )
}
fn recase(t: &str, m: usize) -> String {
    t.char_indices()
        .map(|(i, c)| match m {
            0 => c.to_ascii_uppercase(),
            1 if i <= 1 => c.to_ascii_uppercase(),
            2 if i % 2 == 0 => c.to_ascii_uppercase(),
            3 if i % 2 == 1 => c.to_ascii_uppercase(),
            4 if i + 1 == t.len() => c.to_ascii_uppercase(),
            _ => c,
        })
        .collect()
}
fn respelling() -> Box<dyn Suite> {
    let cs = cases();
    // (case, what, token or all)
    let mut items = vec![];
    for (i, k) in cs.iter().enumerate() {
        for p in 0..=k.toks.len() {
            for w in 0..8 {
                items.push((i, w, p));
            }
        }
    }
    let c = Compiler::new();
    let rt = rt();
    list(
        "spelling",
        &format!("the same {} scripts with one token or all of them spelt differently: keywords and tags in five mixtures of upper and lower case, strings with every character escaped, single strings as lists of one, numbers with leading zeros", cs.len()),
        items,
        move |(i, w, p), cx| {
            let k = &cs[*i];
            let mut listed = false;
            let src = k
                .toks
                .iter()
                .enumerate()
                .map(|(j, t)| {
                    if j != *p && *p < k.toks.len() {
                        return t.clone();
                    }
                    match w {
                        0..=4 if !is_str(t) => recase(t, *w),
                        5 if is_str(t) => {
                            let mut o = String::new();
                            let mut esc = true;
                            let inner = &t[1..t.len() - 1];
                            for c in inner.chars() {
                                if esc && c != '\\' && !"nrt{".contains(c) && c.is_ascii() {
                                    o.push('\\');
                                }
                                esc = c != '\\' || !esc;
                                o.push(c);
                            }
                            format!("\"{o}\"")
                        }
                        6 if is_str(t) && *p < k.toks.len() => {
                            listed = true;
                            format!("[{t}]")
                        }
                        7 if t.as_bytes()[0].is_ascii_digit() => format!("00{t}"),
                        _ => t.clone(),
                    }
                })
                .collect::<Vec<_>>()
                .join(" ");
            if listed {
                let got = run(&c, &rt, &format!("{}{src}", k.pre));
                if matches!(got.first(), Some(Ob::CompileErr(_))) {
                    cx.outcome(&"single");
                    return Ok(());
                }
            }
            if k.name.starts_with("eval ") || k.name.starts_with("let ") || k.name.contains("while") {
                // expressions have their own lexer
                if *w == 5 {
                    return Ok(());
                }
            }
            compare(&c, &rt, k, &src, cx)
        },
    )
}
/// words that are almost keywords
fn near() -> Box<dyn Suite> {
    let cs = cases();
    let mut known: Vec<String> = cs.iter().flat_map(|k| k.toks.iter()).filter(|t| !is_str(t) && t.len() > 1).cloned().collect();
    known.extend(["mailboxidexists", "specialuse_exists", "true", "false", "not", "if", "else"].map(String::from));
    // spellings that exist
    known.extend([":address", ":addresses", ":header", ":zone", ":comparator", "addresses", ":contenttype", ":content"].map(String::from));
    known.sort();
    known.dedup();
    let mut items = vec![];
    for (i, k) in cs.iter().enumerate() {
        if k.name.contains("ihave") || k.name.contains("nothing") {
            continue;
        }
        for (p, t) in k.toks.iter().enumerate() {
            if is_str(t) || t.len() < 2 || t.as_bytes()[0].is_ascii_digit() {
                continue;
            }
            for m in 0..12 {
                items.push((i, p, m));
            }
        }
    }
    let c = Compiler::new();
    list(
        "near",
        "the same scripts (without ihave) with a keyword or tag cut short, lengthened or changed in one character: no longer accepted unless that is another keyword",
        items,
        move |(i, p, m), cx| {
            let k = &cs[*i];
            let t = &k.toks[*p];
            let n = match m {
                0 => t[..t.len() - 1].to_string(),
                1 => format!("{t}s"),
                2 => format!("{t}_"),
                3 => format!("{t}1"),
                4 => format!("{t}."),
                5 => format!("{t}$"),
                6 => format!("{t}{}", &t[t.len() - 1..]),
                7 => t.replacen(&t[t.len() - 1..], "q", 1),
                8 if t.starts_with(':') => format!(":x{}", &t[1..]),
                8 => format!("x{t}"),
                9 if t.starts_with(':') => t[1..].to_string(),
                9 => format!(":{t}"),
                10 if t.starts_with(':') => format!("::{}", &t[1..]),
                10 => format!("_{t}"),
                _ if t.starts_with(':') => format!(": {}", &t[1..]),
                _ => format!("{} {}", &t[..1], &t[1..]),
            };
            if known.contains(&n) || n.len() < 2 && !n.is_empty() {
                return Ok(());
            }
            let mut toks = k.toks.clone();
            toks[*p] = n;
            let pre: String = k.pre.replace("\"ihave\", ", "");
            let src = format!("{pre}{}", toks.join(" "));
            cx.state(&(i, p, m));
            cx.step(1);
            match compile(&c, &src) {
                Err(Ob::CompileErr(e)) => {
                    cx.outcome(&e);
                    Ok(())
                }
                o => Err(Fail::new(format!("near:{}", toks[*p]), format!("{}\n    {}", toks.join(" "), o.err().map(|o| show(&o)).unwrap_or("compiles".into())))),
            }
        },
    )
}
#[allow(unused)]
fn _unused(_: Mailbox, _: Kind) {}
pub fn property(thorough: bool) -> Property {
    const STR: &[&str] = &["\"", "\\", "n", "{", "}", "$", "5", ".", "-", "\n", " ", ";", "#", "/*", "é"];
    const MULTI: &[&str] = &[".", "\n", "\r", "a", "5", "-", "$", "{", "\"", " ", ";"];
    const TOKS: &[&str] = &["fileinto", "\"a\"", "\"", "\\", "text:", "\n", "\r\n", ".", ";", " ", "/*", "*/", "#", ":copy", "stop", "5"];
    const E1: &[&str] = &["${hex:", "${unicode:", "40", "9", "040", "7b", "24", " ", "\r\n", "}", "$", "{", "z"];
    const E2: &[&str] = &["${", "hex", ":", "UniCode", "40", "7B", "d800", "200000", "fffffffff", "c3", "a9", " ", "\t", "}", "$", "z"];
    let n = |q: usize, t: usize| if thorough { t } else { q };
    Property {
        id: "C27",
        level: "model_checking",
        technique: "exhaustive enumeration of script texts over small vocabularies on the real compiler and interpreter against a reference lexer, of all spellings of each text, and of all layouts of scripts covering the whole language",
        assumptions: vec![
            "\\n, \\r and \\t in quoted strings denote control characters (an extension of this implementation)".into(),
            "references that start with a digit, contain a namespace, dash or bracket are left open, and so is a brace escaped behind a dollar sign".into(),
            "sequences of bytes that are not UTF-8 are left open".into(),
        ],
        suites: vec![
            texts("quoted", STR, "fileinto \"", "\";", n(5, 6)),
            texts("multiline", MULTI, "fileinto text:\n", "\n.\n;", n(5, 6)),
            texts("tokens", TOKS, "", "", n(5, 6)),
            texts("tokens-after", TOKS, "fileinto ", ";", n(4, 6)),
            spellings(n(4, 6)),
            encoded("numbers", E1, n(5, 6)),
            encoded("words", E2, n(4, 5)),
            codepoints(),
            numbers(n(5, 6)),
            sizes(),
            layout(n(3, 9)),
            respelling(),
            near(),
        ],
    }
}
