use super::c20;
use crate::eng::*;
use crate::harness::*;
use sieve::{Compiler, Event};
use std::sync::Arc;

// ---------------------------------------------------------------------------
// Structure: a reference recogniser over tokens
// ---------------------------------------------------------------------------
const TOK: &[&str] = &[
    "if", "elsif", "else", "foreverypart", "while", "not", "true", "anyof", "allof", "exists", "\"1\"", "[", "]", ",", "(", ")", "{", "}", ";", "keep", "break", ":flags",
];
const ORDER: &[&str] = &["continue", ":name", "fileinto", "return", "false"];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stop {
    /// the text ends too early; so many closing tokens are missing at least
    End(usize),
    Bad,
    /// follows the grammar, but its meaning is not settled
    Open,
}
type P<T> = Result<T, Stop>;
struct Rec<'a> {
    /// parentheses around a test (an extension) were seen
    paren: bool,
    t: &'a [&'a str],
    p: usize,
    /// true for a loop over parts, with the label if it has one
    blocks: Vec<(char, bool)>,
    depth: usize,
}
impl<'a> Rec<'a> {
    fn peek(&self) -> Option<&'a str> {
        self.t.get(self.p).copied()
    }
    fn eof<T>(&self, more: usize) -> P<T> {
        Err(Stop::End(self.blocks.len() + self.depth + more))
    }
    fn next(&mut self, more: usize) -> P<&'a str> {
        match self.peek() {
            Some(t) => {
                self.p += 1;
                Ok(t)
            }
            None => self.eof(more),
        }
    }
    fn want(&mut self, w: &str, more: usize) -> P<()> {
        if self.next(more)? == w {
            Ok(())
        } else {
            Err(Stop::Bad)
        }
    }
    fn strings(&mut self, more: usize) -> P<()> {
        match self.next(more + 1)? {
            "\"1\"" => Ok(()),
            "[" => loop {
                if self.next(more + 2)? != "\"1\"" {
                    return Err(Stop::Bad);
                }
                match self.next(more + 1)? {
                    "]" => return Ok(()),
                    "," => (),
                    _ => return Err(Stop::Bad),
                }
            },
            _ => Err(Stop::Bad),
        }
    }
    fn test(&mut self, more: usize) -> P<()> {
        match self.next(more + 1)? {
            "true" | "false" => Ok(()),
            "not" => self.test(more),
            "exists" => self.strings(more),
            "(" => {
                self.paren = true;
                self.test(more + 1)?;
                self.want(")", more + 1)
            }
            "anyof" | "allof" => {
                self.want("(", more + 3)?;
                loop {
                    self.test(more + 1)?;
                    match self.next(more + 1)? {
                        ")" => return Ok(()),
                        "," => (),
                        _ => return Err(Stop::Bad),
                    }
                }
            }
            _ => Err(Stop::Bad),
        }
    }
    fn block(&mut self, kind: char, labelled: bool) -> P<()> {
        self.want("{", 2)?;
        self.blocks.push((kind, labelled));
        self.commands()?;
        self.want("}", 0)?;
        self.blocks.pop();
        Ok(())
    }
    fn label(&mut self) -> P<bool> {
        if self.peek() == Some(":name") {
            self.p += 1;
            if self.next(3)? != "\"1\"" {
                return Err(if self.t[self.p - 1] == "[" { Stop::Open } else { Stop::Bad });
            }
            return Ok(true);
        }
        Ok(false)
    }
    fn commands(&mut self) -> P<()> {
        loop {
            let Some(t) = self.peek() else {
                return if self.blocks.is_empty() { Ok(()) } else { self.eof(0) };
            };
            if t == "}" {
                return if self.blocks.is_empty() { Err(Stop::Bad) } else { Ok(()) };
            }
            self.p += 1;
            match t {
                "keep" => {
                    if self.peek() == Some(":flags") {
                        self.p += 1;
                        self.strings(1)?;
                    }
                    self.want(";", 1)?;
                }
                "return" => self.want(";", 1)?,
                "fileinto" => {
                    match self.next(2)? {
                        "\"1\"" => (),
                        "[" => return Err(Stop::Bad),
                        ":flags" => {
                            self.strings(2)?;
                            if self.next(2)? != "\"1\"" {
                                return Err(Stop::Bad);
                            }
                        }
                        _ => return Err(Stop::Bad),
                    }
                    self.want(";", 1)?;
                }
                "break" => {
                    if self.peek() == Some(":name") {
                        self.label()?;
                        if !self.blocks.iter().any(|b| b.1) {
                            return Err(Stop::Bad);
                        }
                    } else if !self.blocks.iter().any(|b| b.0 != 'i') {
                        return Err(Stop::Bad);
                    }
                    self.want(";", 1)?;
                }
                "continue" => {
                    if !self.blocks.iter().any(|b| b.0 == 'w') {
                        return Err(Stop::Bad);
                    }
                    self.want(";", 1)?;
                }
                "foreverypart" => {
                    let labelled = self.label()?;
                    if labelled && self.blocks.iter().any(|b| b.1) {
                        return Err(Stop::Open);
                    }
                    self.block('f', labelled)?;
                }
                "while" => {
                    if self.next(3)? != "\"1\"" {
                        return Err(if self.t[self.p - 1] == "[" { Stop::Open } else { Stop::Bad });
                    }
                    self.block('w', false)?;
                }
                "if" => {
                    self.test(2)?;
                    self.block('i', false)?;
                    while self.peek() == Some("elsif") {
                        self.p += 1;
                        self.test(2)?;
                        self.block('i', false)?;
                    }
                    if self.peek() == Some("else") {
                        self.p += 1;
                        self.block('i', false)?;
                    }
                }
                _ => return Err(Stop::Bad),
            }
        }
    }
}
fn judge(t: &[&str]) -> P<()> {
    let mut r = Rec { paren: false, t, p: 0, blocks: vec![], depth: 0 };
    r.commands()?;
    if r.paren { Err(Stop::Open) } else { Ok(()) }
}
fn comp() -> Compiler {
    Compiler::new()
}
const REQ: &str = "require [\"foreverypart\", \"vnd.stalwart.while\", \"vnd.stalwart.expressions\", \"imap4flags\", \"fileinto\", \"include\"];\n";
fn check(c: &Compiler, t: &[&str], cx: &mut Cx) -> Res {
    let want = judge(t);
    cx.step(1);
    cx.trace();
    cx.outcome(&format!("{want:?}"));
    if want == Err(Stop::Open) {
        return Ok(());
    }
    let text = t.join(" ");
    let got = match compile(c, &format!("{REQ}{text}")) {
        Ok(_) => true,
        Err(Ob::CompileErr(..)) => false,
        Err(o) => return Err(Fail::new("crash", format!("{text}\n{}", show(&o)))),
    };
    if got != want.is_ok() {
        return Err(Fail::new(text.clone(), format!("{text}\nis {} and was {}", if want.is_ok() { "well-formed" } else { "malformed" }, if got { "accepted" } else { "refused" })));
    }
    Ok(())
}
fn sequences(n: usize) -> Box<dyn Suite> {
    let c = comp();
    radix(
        &format!("sequences-{n}"),
        &format!("every sequence of up to {n} of {TOK:?}: accepted exactly if the reference recogniser accepts it"),
        vec![nwords(TOK.len(), n) as usize],
        move |v, cx| {
            let t: Vec<&str> = word(TOK.len(), v[0] as u64).iter().map(|&i| TOK[i]).collect();
            cx.state(&t);
            check(&c, &t, cx)
        },
    )
}
/// all scripts of up to n tokens the grammar accepts that start with the given tokens
fn accepted(pre: &mut Vec<&'static str>, toks: &[&'static str], n: usize, f: &mut dyn FnMut(&[&'static str])) {
    match judge(pre) {
        Ok(()) => f(pre),
        Err(Stop::End(more)) if pre.len() + more <= n => (),
        _ => return,
    }
    if pre.len() < n {
        for t in toks {
            pre.push(t);
            accepted(pre, toks, n, f);
            pre.pop();
        }
    }
}
fn edited(name: &str, toks: Vec<&'static str>, n: usize) -> Box<dyn Suite> {
    let mut all: Vec<Vec<&'static str>> = vec![];
    accepted(&mut vec![], &toks, n, &mut |t| all.push(t.to_vec()));
    let c = comp();
    list(
        &format!("edited-{name}-{n}"),
        &format!("every well-formed script of up to {n} of {toks:?} and everything made from it by dropping, doubling, adding or replacing one token or exchanging two neighbours: accepted exactly if the reference recogniser accepts it"),
        all,
        move |t, cx| {
            cx.state(t);
            check(&c, t, cx)?;
            let mut u: Vec<&str> = t.clone();
            for i in 0..=t.len() {
                if i < t.len() {
                    let x = u.remove(i);
                    check(&c, &u, cx)?;
                    u.insert(i, x);
                    if i + 1 < t.len() && u[i] != u[i + 1] {
                        u.swap(i, i + 1);
                        check(&c, &u, cx)?;
                        u.swap(i, i + 1);
                    }
                    for y in &toks {
                        if *y != x {
                            u[i] = y;
                            check(&c, &u, cx)?;
                        }
                    }
                    u[i] = x;
                }
                for y in &toks {
                    u.insert(i, y);
                    check(&c, &u, cx)?;
                    u.remove(i);
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------
// Arguments: signatures of all commands and tests
// ---------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    /// no value
    F,
    /// one string
    S(&'static str),
    /// strings
    L(&'static str),
    /// number
    N(&'static str),
}
use A::*;
struct Sig {
    word: &'static str,
    test: bool,
    /// tag, group (0: may be repeated, which is open), value
    tags: Vec<(&'static str, u8, A)>,
    /// alternative lists of positional arguments
    pos: Vec<Vec<A>>,
    /// is the combination of tags allowed (None: open)
    post: fn(&[&str]) -> Option<bool>,
}
fn any(_: &[&str]) -> Option<bool> {
    Some(true)
}
fn mime(t: &[&str]) -> Option<bool> {
    let has = |x: &str| t.contains(&x);
    if [":anychild", ":type", ":subtype", ":contenttype", ":param"].iter().any(|x| has(x)) && !has(":mime") {
        return Some(false);
    }
    if has(":last") && !has(":index") {
        return None;
    }
    Some(true)
}
fn fcc(t: &[&str]) -> Option<bool> {
    Some(t.contains(&":fcc") || ![":create", ":flags", ":specialuse", ":mailboxid"].iter().any(|x| t.contains(x)))
}
fn by(t: &[&str]) -> Option<bool> {
    let has = |x: &str| t.contains(&x);
    if (has(":bytrace") || has(":bymode")) && !has(":bytimerelative") && !has(":bytimeabsolute") {
        return None;
    }
    Some(true)
}
fn mods(t: &[&str]) -> Option<bool> {
    let both = |a: &str, b: &str| t.contains(&a) && t.contains(&b);
    (!both(":lower", ":upper") && !both(":lowerfirst", ":upperfirst") && !both(":quotewildcard", ":quoteregex")).then_some(true)
}
fn sized(t: &[&str]) -> Option<bool> {
    Some(!t.is_empty())
}
const HOW: &[(&str, u8, A)] = &[(":is", 1, F), (":contains", 1, F), (":matches", 1, F), (":value", 1, S("gt")), (":count", 1, S("eq")), (":regex", 1, F), (":comparator", 2, S("i;octet"))];
const WHICH: &[(&str, u8, A)] = &[(":index", 3, N("1")), (":last", 4, F), (":mime", 5, F), (":anychild", 6, F)];
const KEEPING: &[(&str, u8, A)] = &[(":create", 20, F), (":flags", 21, L("x")), (":mailboxid", 22, S("id")), (":specialuse", 23, S("\\\\Sent"))];
const MODS: &[(&str, u8, A)] = &[(":lower", 0, F), (":upper", 0, F), (":lowerfirst", 0, F), (":upperfirst", 0, F), (":quotewildcard", 0, F), (":quoteregex", 0, F), (":length", 0, F)];
fn cat(l: &[&[(&'static str, u8, A)]]) -> Vec<(&'static str, u8, A)> {
    l.concat()
}
fn sigs() -> Vec<Sig> {
    let mut v = vec![];
    let mut add = |word, test, tags, pos, post| v.push(Sig { word, test, tags, pos, post });
    let l = (":list", 1, F);
    let parts: &[(&str, u8, A)] = &[(":all", 7, F), (":localpart", 7, F), (":domain", 7, F), (":user", 7, F), (":detail", 7, F)];
    // tests
    add("address", true, cat(&[HOW, &[l], WHICH, parts]), vec![vec![L("from"), L("a@b.cc")]], mime as fn(&[&str]) -> Option<bool>);
    add("header", true, cat(&[HOW, &[l], WHICH, &[(":type", 7, F), (":subtype", 7, F), (":contenttype", 7, F), (":param", 7, L("charset"))]]), vec![vec![L("subject"), L("s")]], mime);
    add("exists", true, cat(&[&WHICH[2..]]), vec![vec![L("from")]], mime);
    add("size", true, vec![(":over", 1, N("1")), (":under", 1, N("1"))], vec![vec![]], sized);
    add("envelope", true, cat(&[HOW, &[l], parts]), vec![vec![L("from"), L("a@b.cc")]], any);
    add("body", true, cat(&[HOW, &[(":raw", 7, F), (":text", 7, F), (":content", 7, L("text"))]]), vec![vec![L("b")]], any);
    add("date", true, cat(&[HOW, &[l], WHICH, &[(":zone", 7, S("+0100")), (":originalzone", 7, F)]]), vec![vec![S("date"), S("year"), L("2020")]], mime);
    add("currentdate", true, cat(&[HOW, &[l], &[(":zone", 7, S("+0100"))]]), vec![vec![S("year"), L("2020")]], any);
    add("duplicate", true, vec![(":handle", 1, S("h")), (":header", 2, S("subject")), (":uniqueid", 2, S("u")), (":seconds", 3, N("5")), (":last", 4, F)], vec![vec![]], any);
    add("environment", true, cat(&[HOW]), vec![vec![S("name"), L("n")]], any);
    add("valid_ext_list", true, vec![], vec![vec![L("tag:x")]], any);
    add("hasflag", true, cat(&[HOW]), vec![vec![L("x")], vec![L("v"), L("x")]], any);
    add("ihave", true, vec![], vec![vec![L("fileinto")]], any);
    add("mailboxexists", true, vec![], vec![vec![L("m")]], any);
    add("metadata", true, cat(&[HOW]), vec![vec![S("m"), S("/private/x"), L("v")]], any);
    add("metadataexists", true, vec![], vec![vec![S("m"), L("/private/x")]], any);
    add("servermetadata", true, cat(&[HOW]), vec![vec![S("/private/x"), L("v")]], any);
    add("servermetadataexists", true, vec![], vec![vec![L("/private/x")]], any);
    add("mailboxidexists", true, vec![], vec![vec![L("id")]], any);
    add("specialuse_exists", true, vec![], vec![vec![L("\\\\Sent")], vec![S("m"), L("\\\\Sent")]], any);
    add("valid_notify_method", true, vec![], vec![vec![L("mailto:a@b.cc")]], any);
    add("notify_method_capability", true, cat(&[HOW]), vec![vec![S("mailto:a@b.cc"), S("online"), L("yes")]], any);
    add("spamtest", true, cat(&[HOW, &[(":percent", 3, F)]]), vec![vec![S("1")]], any);
    add("virustest", true, cat(&[HOW]), vec![vec![S("1")]], any);
    add("string", true, cat(&[HOW, &[l]]), vec![vec![L("a"), L("b")]], any);
    add("convert", true, vec![], vec![vec![S("image/tiff"), S("image/jpeg"), L("pix-x=320")]], any);
    add("true", true, vec![], vec![vec![]], any);
    add("false", true, vec![], vec![vec![]], any);
    add("eval", true, vec![], vec![vec![S("1")]], any);
    // commands
    add("keep", false, vec![(":flags", 1, L("x"))], vec![vec![]], any);
    add("discard", false, vec![], vec![vec![]], any);
    add("stop", false, vec![], vec![vec![]], any);
    add("return", false, vec![], vec![vec![]], any);
    add("fileinto", false, cat(&[&[(":copy", 1, F)], KEEPING]), vec![vec![S("f")]], any);
    add(
        "redirect",
        false,
        vec![(":copy", 1, F), (":list", 2, F), (":bytrace", 3, F), (":bymode", 4, S("notify")), (":bytimerelative", 5, N("60")), (":bytimeabsolute", 5, S("2030-01-01T00:00:00Z")), (":ret", 6, S("full")), (":notify", 7, S("never"))],
        vec![vec![S("a@b.cc")]],
        by,
    );
    add("reject", false, vec![], vec![vec![S("r")]], any);
    add("ereject", false, vec![], vec![vec![S("r")]], any);
    add("error", false, vec![], vec![vec![S("e")]], any);
    add("global", false, vec![], vec![vec![L("gg")]], any);
    add("set", false, cat(&[MODS, &[(":encodeurl", 0, F)]]), vec![vec![S("v"), S("t")]], mods);
    add("let", false, vec![], vec![vec![S("v"), S("1")]], any);
    add("eval", false, vec![], vec![vec![S("1")]], any);
    for w in ["setflag", "addflag", "removeflag"] {
        add(w, false, vec![], vec![vec![L("x")], vec![S("v"), L("x")]], any);
    }
    add("addheader", false, vec![(":last", 1, F)], vec![vec![S("X-A"), S("v")]], any);
    add("deleteheader", false, cat(&[HOW, WHICH]), vec![vec![S("X-A")], vec![S("X-A"), L("v")]], mime);
    add("include", false, vec![(":once", 1, F), (":optional", 2, F), (":personal", 3, F), (":global", 3, F)], vec![vec![S("i")]], any);
    add("replace", false, vec![(":mime", 1, F), (":subject", 2, S("s")), (":from", 3, S("a@b.cc"))], vec![vec![S("r")]], any);
    add("enclose", false, vec![(":subject", 1, S("s")), (":headers", 2, L("X-A: b"))], vec![vec![S("r")]], any);
    add("extracttext", false, cat(&[&[(":first", 1, N("3"))], MODS]), vec![vec![S("v")]], mods);
    add("convert", false, vec![], vec![vec![S("image/tiff"), S("image/jpeg"), L("pix-x=320")]], any);
    add(
        "notify",
        false,
        cat(&[&[(":from", 1, S("a@b.cc")), (":importance", 2, S("1")), (":options", 3, L("o=1")), (":message", 4, S("m")), (":fcc", 5, S("Sent"))], KEEPING]),
        vec![vec![S("mailto:a@b.cc")]],
        fcc,
    );
    add(
        "vacation",
        false,
        cat(&[
            &[(":days", 1, N("7")), (":seconds", 1, N("7")), (":subject", 2, S("s")), (":from", 3, S("me@own.example")), (":addresses", 4, L("a@b.cc")), (":mime", 5, F), (":handle", 6, S("h")), (":fcc", 7, S("Sent"))],
            KEEPING,
        ]),
        vec![vec![S("r")]],
        fcc,
    );
    v
}
/// units of an argument list: tags of the signature, a foreign tag, and values
const VALUES: &[char] = &['s', '1', '2', 'n'];
#[derive(Clone)]
struct Walk {
    tags: Vec<usize>,
    /// tag waiting for its value
    pending: Option<usize>,
    pos: Vec<char>,
    errors: usize,
    open: bool,
    text: String,
}
fn value(kind: char, a: A) -> String {
    let t = match a {
        S(t) | L(t) => t,
        _ => "x",
    };
    match kind {
        's' => format!(" \"{t}\""),
        '1' => format!(" [\"{t}\"]"),
        '2' => format!(" [\"{t}\", \"{t}\"]"),
        _ => match a {
            N(n) => format!(" {n}"),
            _ => " 1".into(),
        },
    }
}
/// 0 fits, 1 does not, 2 open
fn fits(kind: char, a: A) -> u8 {
    match (kind, a) {
        ('s', S(_) | L(_)) | ('1' | '2', L(_)) | ('n', N(_)) => 0,
        ('1', S(_)) => 2,
        _ => 1,
    }
}
impl Walk {
    fn new() -> Walk {
        Walk { tags: vec![], pending: None, pos: vec![], errors: 0, open: false, text: String::new() }
    }
    /// unit: index of a tag, tags.len() for a foreign one, then the values
    fn step(&self, s: &Sig, unit: usize) -> Walk {
        let mut w = self.clone();
        let n = s.tags.len();
        if unit <= n {
            w.errors += w.pending.take().is_some() as usize;
            w.open |= !w.pos.is_empty();
            if unit == n {
                w.errors += 1;
                w.text.push_str(if s.word == "size" { " :copy" } else { " :over" });
                return w;
            }
            let (tag, group, a) = s.tags[unit];
            if w.tags.iter().any(|t| s.tags[*t].1 == group && group != 0) {
                w.errors += 1;
            } else if group == 0 && w.tags.contains(&unit) {
                w.open = true;
            }
            w.tags.push(unit);
            w.text.push_str(&format!(" {tag}"));
            if a != F {
                w.pending = Some(unit);
            }
        } else {
            let kind = VALUES[unit - n - 1];
            if let Some(t) = w.pending.take() {
                let a = s.tags[t].2;
                match fits(kind, a) {
                    0 => (),
                    1 => w.errors += 1,
                    _ => w.open = true,
                }
                w.text.push_str(&value(kind, a));
            } else {
                // the texts of the longest list, as far as the kinds agree
                let alt = s.pos.iter().max_by_key(|p| p.len()).unwrap();
                let first = s.pos.iter().map(|p| p.len()).min().unwrap();
                let at = w.pos.len();
                let a = if at < first { s.pos[0].get(at).copied().unwrap_or(S("x")) } else { alt.get(at).copied().unwrap_or(S("x")) };
                w.text.push_str(&value(kind, a));
                w.pos.push(kind);
            }
        }
        w
    }
    /// errors that cannot be repaired any more
    fn least(&self, s: &Sig) -> usize {
        let wrong = s.pos.iter().map(|p| self.pos.iter().enumerate().filter(|(i, k)| p.get(*i).map_or(1, |a| fits(**k, *a)) == 1).count()).min().unwrap();
        self.errors + wrong
    }
    /// Some(accepted), None if open
    fn verdict(&self, s: &Sig) -> Option<bool> {
        if self.pending.is_some() || self.errors > 0 {
            return Some(false);
        }
        let mut open = self.open;
        let mut ok = false;
        for p in &s.pos {
            if p.len() == self.pos.len() {
                let f: Vec<u8> = p.iter().zip(&self.pos).map(|(a, k)| fits(*k, *a)).collect();
                if !f.contains(&1) {
                    if f.contains(&2) {
                        open = true;
                    }
                    ok = true;
                }
            }
        }
        if !ok {
            return Some(false);
        }
        let t: Vec<&str> = self.tags.iter().map(|t| s.tags[*t].0).collect();
        match (s.post)(&t) {
            Some(false) => Some(false),
            None => None,
            Some(true) => (!open).then_some(true),
        }
    }
}
fn script(s: &Sig, args: &str) -> String {
    let w = s.word;
    if s.test {
        format!("if {w}{args} {{ fileinto \"yes\"; }}\n")
    } else {
        format!("{w}{args};\n")
    }
}
fn arguments(n: usize) -> Box<dyn Suite> {
    let all = sigs();
    let mut items = vec![];
    for (i, s) in all.iter().enumerate() {
        items.push((i, None));
        for u in 0..s.tags.len() + 1 + VALUES.len() {
            for u2 in 0..s.tags.len() + 1 + VALUES.len() {
                items.push((i, Some((u, u2))));
            }
        }
    }
    let c = comp();
    let rt = c20::rt();
    let req = c20::req();
    let host = |ev: &Event| sieve::Input::from(!matches!(ev, Event::DuplicateId { .. }));
    let msg = "From: a@b.cc\r\nTo: me@own.example\r\nSubject: s\r\nDate: Wed, 1 Jan 2020 00:00:00 +0000\r\nX-A: v\r\nX-A: w\r\n\r\nb\r\n";
    let run = move |rt: &sieve::Runtime, sc: &Arc<sieve::Sieve>| {
        scrub_obs(run_with(
            rt,
            sc,
            msg.as_bytes(),
            |ctx: &mut sieve::Context| {
                ctx.set_user_address("me@own.example");
                ctx.set_envelope(sieve::Envelope::From, "a@b.cc");
                ctx.set_envelope(sieve::Envelope::To, "me@own.example");
            },
            host,
        ))
    };
    list(
        &format!("arguments-{n}"),
        &format!("{} commands and tests with every sequence of up to {n} arguments (each of its tags, a foreign tag, a string, a list of one, a list of two, a number) with at most one mistake: accepted exactly if its signature allows it, and what is accepted does the same as with its tags in another order", all.len()),
        items,
        move |(i, first), cx| {
            let s = &all[*i];
            let units = s.tags.len() + 1 + VALUES.len();
            let mut stack = vec![];
            match first {
                None => {
                    stack.push((Walk::new(), 0));
                    for u in 0..units {
                        let w = Walk::new().step(s, u);
                        if w.least(s) <= 1 {
                            stack.push((w, n));
                        }
                    }
                }
                Some((a, b)) => {
                    let w = Walk::new().step(s, *a);
                    let w = w.step(s, *b);
                    if w.least(s) <= 1 {
                        stack.push((w, 2));
                    }
                }
            }
            while let Some((w, len)) = stack.pop() {
                cx.step(1);
                cx.state(&(s.word, s.test, &w.text));
                let want = w.verdict(s);
                cx.outcome(&want);
                if let Some(want) = want {
                    let text = script(s, &w.text);
                    cx.trace();
                    let got = match compile(&c, &format!("{req}{text}")) {
                        Ok(sc) => Some(sc),
                        Err(Ob::CompileErr(..)) => None,
                        Err(o) => return Err(Fail::new("crash", format!("{text}\n{}", show(&o)))),
                    };
                    if got.is_some() != want {
                        return Err(Fail::new(
                            format!("{}{}", s.word, w.text),
                            format!("{text}is {} and was {}", if want { "well-formed" } else { "malformed" }, if got.is_some() { "accepted" } else { "refused" }),
                        ));
                    }
                    if let Some(sc) = got {
                        if w.tags.len() > 1 && !w.tags.is_sorted() {
                            // the same with the tags in the order of the table
                            let mut o = Walk::new();
                            let mut tags = w.tags.clone();
                            tags.sort();
                            for t in tags {
                                o = o.step(s, t);
                                // the kind of value that was given
                                if s.tags[t].2 != F {
                                    let given = w.text.split(&format!("{} ", s.tags[t].0)).nth(1).unwrap_or("");
                                    let k = if given.starts_with('"') {
                                        0
                                    } else if given.starts_with('[') {
                                        if given.split(']').next().unwrap_or("").contains(',') { 2 } else { 1 }
                                    } else {
                                        3
                                    };
                                    o = o.step(s, s.tags.len() + 1 + k);
                                }
                            }
                            for k in &w.pos {
                                o = o.step(s, s.tags.len() + 1 + VALUES.iter().position(|v| v == k).unwrap());
                            }
                            let other = script(s, &o.text);
                            let sc2 = compile(&c, &format!("{req}{other}")).map_err(|e| Fail::new("order", format!("{other}\n{}", show(&e))))?;
                            let (a, b) = (run(&rt, &sc), run(&rt, &sc2));
                            if a != b {
                                return Err(Fail::new(format!("{} order", s.word), format!("{text}{other}do not do the same\n{}\n{}", show_all(&a), show_all(&b))));
                            }
                        }
                    }
                }
                if len < n {
                    for u in 0..units {
                        let x = w.step(s, u);
                        if x.least(s) <= 1 && !(len == 0 && first.is_none()) {
                            stack.push((x, len + 1));
                        }
                    }
                }
            }
            Ok(())
        },
    )
}
const LISTS: &[&str] = &["s", ",", "[", "]", "1", ":copy", "("];
fn lists(n: usize) -> Box<dyn Suite> {
    let all = sigs();
    // (signature, tag whose value is replaced or none, alternative, argument)
    let mut items = vec![];
    for (i, s) in all.iter().enumerate() {
        for (t, tag) in s.tags.iter().enumerate() {
            if tag.2 != F {
                items.push((i, Some(t), 0, 0));
            }
        }
        for (k, p) in s.pos.iter().enumerate() {
            for a in 0..p.len() {
                items.push((i, None, k, a));
            }
        }
    }
    let c = comp();
    let req = c20::req();
    let text = |a: A| value(if matches!(a, N(_)) { 'n' } else { 's' }, a);
    list(
        &format!("lists-{n}"),
        &format!("each of the {} arguments of the commands and tests of the table written as [ followed by every sequence of up to {n} of a string and {:?} that does not close the list early: accepted exactly if the argument takes lists and the sequence is a list of strings separated by commas", items.len(), &LISTS[1..]),
        items,
        move |(i, tag, alt, arg), cx| {
            let s = &all[*i];
            let a = match tag {
                Some(t) => s.tags[*t].2,
                None => s.pos[*alt][*arg],
            };
            let one = text(a).trim().to_string();
            let mut wrong = vec![];
            for w in words(LISTS.len(), n) {
                let mut depth = 1;
                let mut early = false;
                let mut good = true;
                let mut strings = 0;
                for (k, x) in w.iter().enumerate() {
                    match LISTS[*x as usize] {
                        "[" => depth += 1,
                        "]" => {
                            depth -= 1;
                            early |= depth <= 0 && k + 1 < w.len();
                        }
                        "s" => strings += 1,
                        _ => (),
                    }
                    good &= if k + 1 == w.len() {
                        LISTS[*x as usize] == "]"
                    } else if k % 2 == 0 {
                        LISTS[*x as usize] == "s"
                    } else {
                        LISTS[*x as usize] == ","
                    };
                }
                if early || strings == 0 || w.is_empty() {
                    // the empty list is open
                    continue;
                }
                good &= w.len() % 2 == 0;
                let want = match a {
                    L(_) => good,
                    S(_) if good && strings == 1 => continue,
                    _ => false,
                };
                let l = w.iter().fold("[".to_string(), |t, x| format!("{t} {}", if LISTS[*x as usize] == "s" { &one } else { LISTS[*x as usize] }));
                cx.state(&(i, tag, alt, arg, &w));
                cx.step(1);
                cx.trace();
                cx.outcome(&(want, w.len()));
                let mut args = String::new();
                if let Some(t) = tag {
                    if s.word != "size" && s.tags[*t].0 != ":fcc" && s.tags.iter().any(|x| x.0 == ":fcc") && KEEPING.iter().any(|k| k.0 == s.tags[*t].0) {
                        args.push_str(" :fcc \"Sent\"");
                    }
                    if s.tags[*t].0 == ":param" {
                        args.push_str(" :mime");
                    }
                    args.push_str(&format!(" {} {l}", s.tags[*t].0));
                    for p in &s.pos[0] {
                        args.push_str(&text(*p));
                    }
                } else {
                    for (k, p) in s.pos[*alt].iter().enumerate() {
                        if k == *arg {
                            args.push_str(&format!(" {l}"));
                        } else {
                            args.push_str(&text(*p));
                        }
                    }
                }
                let t = script(s, &args);
                let got = match compile(&c, &format!("{req}{t}")) {
                    Ok(_) => true,
                    Err(Ob::CompileErr(..)) => false,
                    Err(o) => return Err(Fail::new("crash", format!("{t}\n{}", show(&o)))),
                };
                if got != want {
                    wrong.push(format!("{t}is {} and was {}", if want { "well-formed" } else { "malformed" }, if got { "accepted" } else { "refused" }));
                }
            }
            if let Some(w) = wrong.first() {
                // the key tells one set of misjudged lists from another
                let sum = wrong.iter().flat_map(|w| w.bytes()).fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                return Err(Fail::new(
                    format!("list {} {}: {} misjudged, {sum:x}", s.word, match tag { Some(t) => s.tags[*t].0.to_string(), None => format!("argument {arg}") }, wrong.len()),
                    w.clone(),
                ));
            }
            Ok(())
        },
    )
}
/// true for each place of a script which is not inside a text or a comment
fn outside(s: &[u8]) -> Vec<bool> {
    let mut out = vec![true; s.len() + 1];
    let mut i = 0;
    while i < s.len() {
        let from = i;
        let rest = &s[i..];
        let len = match s[i] {
            b'"' => {
                let mut n = 1;
                while rest[n] != b'"' {
                    n += 1 + (rest[n] == b'\\') as usize;
                }
                n + 1
            }
            b'#' => rest.iter().position(|c| *c == b'\n').map_or(rest.len(), |n| n + 1),
            b'/' => rest.windows(2).position(|w| w == b"*/").unwrap() + 2,
            b't' if rest.starts_with(b"text:") => rest.windows(3).position(|w| w == b"\n.\n").map(|n| n + 3).or(rest.windows(4).position(|w| w == b"\n.\r\n").map(|n| n + 4)).unwrap(),
            _ => 1,
        };
        for j in from + 1..(from + len).min(s.len() + 1) {
            out[j] = false;
        }
        i += len;
    }
    out
}
/// characters that mean nothing
fn junk() -> Box<dyn Suite> {
    let c = Compiler::new().register_functions(&mut c20::fns(&mut sieve::FunctionMap::new()));
    let mut v: Vec<String> = c20::scripts().into_iter().map(|s| s.1).collect();
    v.extend([
        "if true { keep; } elsif not false { stop; } else { discard; } keep;",
        "if anyof ( true , allof(not false, exists [\"a\" , \"b\"] ) ) { keep ; }",
        "foreverypart :name \"l\" { foreverypart { break :name \"l\" ; } break ; }",
        "foreverypart { keep ; }",
        "while \"x < 3\" { let \"x\" \"x + 1\" ; continue ; }",
        "keep :flags [ \"a\" , \"b\" ] ; return ;",
        "fileinto text: # c\na\n.\n; keep # c\n; stop /* c */ ;",
    ].map(String::from));
    let n = v.len();
    let max = v.iter().map(|s| s.len()).max().unwrap() + 1;
    let bytes: Vec<Vec<u8>> = (0..=255u8).filter(|b| !b.is_ascii_alphanumeric() && !b"_.$:\"{};,[]()/# \r\n\t".contains(b)).map(|b| vec![b]).chain([b"/".to_vec(), b"//".to_vec(), b" / ".to_vec(), "\u{a0}".into(), "\u{feff}".into(), b" % ; ".to_vec(), b" @ ".to_vec()]).collect();
    let rq = c20::req();
    radix("junk", &format!("{n} well-formed scripts with each of {} bytes or sequences that have no meaning put at every place outside of texts and comments: refused", bytes.len()), vec![n, max, bytes.len()], move |x, cx| {
        let t = v[x[0]].as_bytes();
        let i = x[1];
        if i > t.len() || !outside(t)[i] {
            return Ok(());
        }
        let b = &bytes[x[2]];
        // the beginning or the end of a comment
        if b.ends_with(b"/") && t.get(i).is_some_and(|c| *c == b'*') || b.starts_with(b"/") && i > 0 && t[i - 1] == b'*' {
            return Ok(());
        }
        let s = [rq.as_bytes(), &t[..i], b, &t[i..]].concat();
        cx.state(&s);
        cx.trace();
        cx.step(1);
        match compile_bytes(&c, &s) {
            Err(Ob::CompileErr(e)) => {
                cx.outcome(&e);
                Ok(())
            }
            _ => Err(Fail::new("junk", format!("{}\nis accepted with {:?} at {i}", v[x[0]], String::from_utf8_lossy(b)))),
        }
    })
}
/// arguments that take certain words only
fn values() -> Box<dyn Suite> {
    let c = Compiler::new().register_functions(&mut c20::fns(&mut sieve::FunctionMap::new()));
    const PARTS: &[&str] = &["year", "month", "day", "date", "julian", "hour", "minute", "second", "time", "iso8601", "std11", "zone", "weekday"];
    const REL: &[&str] = &["gt", "ge", "lt", "le", "eq", "ne"];
    const ENV: &[&str] = &["from", "to", "bytimeabsolute", "bytimerelative", "bymode", "bytrace", "notify", "orcpt", "ret", "envid"];
    const ZONES: &[&str] = &["+0000", "-0000", "+0130", "-0330", "+1400", "-1200"];
    const CMP: &[&str] = &["i;octet", "i;ascii-casemap", "i;ascii-numeric"];
    // (script, the words it takes, letter case does not matter)
    let t: Vec<(&str, &[&str], bool)> = vec![
        ("redirect :bytimerelative 600 :bymode § \"a@b.cc\";", &["notify", "return"], true),
        ("redirect :ret § \"a@b.cc\";", &["full", "hdrs"], true),
        ("redirect :notify § \"a@b.cc\";", &["never", "success", "failure", "delay"], true),
        ("if header :comparator § \"subject\" \"1\" { keep; }", CMP, false),
        ("if address :comparator § \"from\" \"1\" { keep; }", CMP, false),
        ("if envelope :comparator § \"from\" \"1\" { keep; }", CMP, false),
        ("if date :comparator § \"date\" \"year\" \"1\" { keep; }", CMP, false),
        ("if currentdate :comparator § \"year\" \"1\" { keep; }", CMP, false),
        ("if body :comparator § \"1\" { keep; }", CMP, false),
        ("if string :comparator § \"1\" \"1\" { keep; }", CMP, false),
        ("if hasflag :comparator § \"1\" { keep; }", CMP, false),
        ("if environment :comparator § \"host\" \"1\" { keep; }", CMP, false),
        ("if spamtest :comparator § \"1\" { keep; }", CMP, false),
        ("if metadata :comparator § \"m\" \"/private/a\" \"1\" { keep; }", CMP, false),
        ("deleteheader :comparator § \"x-a\" \"1\";", CMP, false),
        ("if header :value § \"subject\" \"1\" { keep; }", REL, false),
        ("if header :count § \"subject\" \"1\" { keep; }", REL, false),
        ("if address :value § \"from\" \"1\" { keep; }", REL, false),
        ("if envelope :count § \"from\" \"1\" { keep; }", REL, false),
        ("if date :value § \"date\" \"year\" \"1\" { keep; }", REL, false),
        ("if currentdate :value § \"year\" \"1\" { keep; }", REL, false),
        ("if string :count § \"1\" \"1\" { keep; }", REL, false),
        ("if hasflag :count § \"1\" { keep; }", REL, false),
        ("if virustest :value § \"1\" { keep; }", REL, false),
        ("deleteheader :value § \"x-a\" \"1\";", REL, false),
        ("if date \"date\" § \"1\" { keep; }", PARTS, false),
        ("if date :mime :anychild \"date\" § \"1\" { keep; }", PARTS, false),
        ("if currentdate § \"1\" { keep; }", PARTS, false),
        ("if currentdate :zone \"+0100\" :value \"ge\" § \"1\" { keep; }", PARTS, false),
        ("if envelope § \"1\" { keep; }", ENV, false),
        ("if envelope [\"from\", §] \"1\" { keep; }", ENV, false),
        ("if envelope [§, \"to\"] \"1\" { keep; }", ENV, false),
        ("if date :zone § \"date\" \"year\" \"1\" { keep; }", ZONES, false),
        ("if currentdate :zone § \"year\" \"1\" { keep; }", ZONES, false),
        (
            "notify :from § \"mailto:a@b.cc\";",
            &["a@b.cc", "<a@b.cc>", "A B <a@b.cc>", "'A B' <a@b.cc>", "x.y@b.c.dd", "Last, First <a@b.cc>", "a.b <c@d.ee>"],
            false,
        ),
        ("addheader § \"v\";", &["X-A", "Subject"], false),
        ("deleteheader §;", &["X-A", "Subject"], false),
    ];
    let bad: &[(&str, &[&str])] = &[
        (":zone", &["", "abc", "+ab00", "UTC", "local", "+1401", "-1201", "+9999", "-9999", "+01:00", "0x10", "1e2e"]),
        (
            ":from",
            &["", "a", "@b.cc", "a@b", "a b.cc", "a@@b.cc", "a@b@c.dd", "<a@b.cc", "a@b.cc>", "a@b.cc <x>", "a@b.cc <>", "a@b.cc <x@y>", "a.b.cc", "<<a@b.cc>>", "'a@b.cc'", "a@b.cc <'x@y.zz'>"],
        ),
        ("addheader", &[""]),
        ("deleteheader", &[""]),
    ];
    // (script, word, accepted)
    let mut all: Vec<(String, String, bool)> = vec![];
    for (t, words, any_case) in &t {
        let mut l: Vec<(String, bool)> = words.iter().map(|w| (w.to_string(), true)).collect();
        if *any_case {
            l.extend(words.iter().flat_map(|w| [w.to_uppercase(), w[..1].to_uppercase() + &w[1..]]).map(|w| (w, true)));
        }
        match bad.iter().find(|b| t.contains(b.0) && !t.contains(":zone \"")) {
            Some(b) => l.extend(b.1.iter().map(|w| (w.to_string(), false))),
            None => {
                let mut near = vec![String::new(), "x".into(), "1".into(), "*".into()];
                for w in *words {
                    for i in 0..w.len() {
                        near.push(format!("{}{}", &w[..i], &w[i + 1..]));
                        near.push(format!("{}{}{}", &w[..i], &w[i..i + 1].repeat(2), &w[i + 1..]));
                        near.push(format!("{}x{}", &w[..i], &w[i + 1..]));
                        near.push(format!("{}x{}", &w[..i], &w[i..]));
                        near.push(format!("{}\u{e9}{}", &w[..i], &w[i + 1..]));
                    }
                    near.push(format!("{w}x"));
                    near.extend(words.iter().map(|v| format!("{w}{v}")));
                }
                near.extend([PARTS, REL, ENV, CMP, &["notify", "return", "full", "hdrs", "never", "success"]].concat().iter().map(|w| w.to_string()));
                l.extend(near.into_iter().filter(|n| !words.iter().any(|w| w.eq_ignore_ascii_case(n))).map(|n| (n, false)));
            }
        }
        l.sort();
        l.dedup();
        all.extend(l.into_iter().map(|(w, ok)| (t.to_string(), w.replace('\'', "\""), ok)));
    }
    let rq = c20::req();
    let n = all.len();
    radix("values", &format!("{} arguments that take certain words, comparators, date parts, zones, addresses or names only, with each of them and everything close to them, the wrong ones also as multi-line text: accepted exactly if it is one of them ({n} pairs)", t.len()), vec![n, 2], move |x, cx| {
        let (t, w, ok) = &all[x[0]];
        let arg = if x[1] == 0 { super::core::q(w) } else if w.is_empty() { return Ok(()) } else { format!("text:\n{w}\n.\n") };
        let ok = *ok;
        // a multi-line text ends in a line break, which may or may not count
        if x[1] == 1 && (ok || w.trim() != w) {
            return Ok(());
        }
        let s = format!("{rq}{}", t.replace('§', &arg));
        cx.state(&s);
        cx.trace();
        cx.step(1);
        let got = compile(&c, &s).is_ok();
        cx.outcome(&(ok, got));
        if got != ok {
            return Err(Fail::new("values", format!("{}\nexpected to be {}", t.replace('§', &arg), if ok { "accepted" } else { "refused" })));
        }
        Ok(())
    })
}
pub fn property(thorough: bool) -> Property {
    Property {
        id: "C30",
        level: "model_checking",
        technique: "exhaustive enumeration of token sequences and argument lists on the real compiler against a reference recogniser of the grammar and a table of the signatures of all commands and tests",
        assumptions: vec![
            "open: tagged arguments behind positional ones, lists of one string where one string is expected, the same modifier of set twice, :last without :index, :bytrace and :bymode without a time, labels used again in an inner loop".into(),
        ],
        suites: if thorough {
            vec![sequences(6), edited("commands", TOK.to_vec(), 13), edited("more", TOK.iter().chain(ORDER).copied().collect(), 12), arguments(6), lists(7), junk(), values()]
        } else {
            vec![sequences(5), edited("commands", TOK.to_vec(), 11), edited("more", TOK.iter().chain(ORDER).copied().collect(), 10), arguments(5), lists(5), junk(), values()]
        },
    }
}
