use super::core::q;
use super::templates::{self, TPLS};
use super::{c07::ALLCAPS, c27, known};
use crate::eng::*;
use crate::harness::*;
use sieve::runtime::Variable;
use sieve::{Compiler, Event, FunctionMap, Input, Runtime, Sieve};
use std::sync::Arc;

pub fn allcaps() -> Vec<String> {
    let mut v: Vec<String> = ALLCAPS.split('"').skip(1).step_by(2).map(|s| s.to_string()).chain(["ihave", "encoded-character", "comparator-i;octet", "comparator-i;ascii-casemap", "comparator-i;ascii-numeric"].map(String::from)).collect();
    v.sort();
    v.dedup();
    v
}
pub fn req() -> String {
    format!("require [{}]; ", allcaps().iter().map(|c| q(c)).collect::<Vec<_>>().join(", "))
}
pub fn rt() -> Runtime {
    let mut rt = known::runtime(Runtime::new()).with_max_redirects(9).with_max_out_messages(9);
    for c in allcaps() {
        rt = rt.with_capability(c.as_str());
    }
    rt
}
/// what went wrong, with the parts that vary left out
fn key(p: &str) -> String {
    let (m, loc) = p.rsplit_once(" at ").unwrap_or((p, ""));
    let file = loc.split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("");
    if file == "comparator.rs" && m.starts_with("Failed to compile regex") {
        return "bad-regex".into();
    }
    if file == "message.rs" && loc.contains("mail-parser") && m.contains("Invalid part ID") {
        return "mail-parser-part-id".into();
    }
    let mut k = String::new();
    for c in m.chars().take(60) {
        if c.is_ascii_digit() {
            if !k.ends_with('#') {
                k.push('#');
            }
        } else {
            k.push(if c.is_ascii_graphic() { c } else { '_' });
        }
    }
    format!("{file}:{k}")
}
fn crash(o: &[Ob]) -> Option<String> {
    o.iter().find_map(|o| match o {
        Ob::Panic(p) => Some(key(p)),
        Ob::Overrun => Some("endless".into()),
        _ => None,
    })
}
/// compiles; Err: the compiler crashed or reported a position outside of the text
fn comp(c: &Compiler, s: &[u8]) -> Result<Option<Arc<Sieve>>, Fail> {
    let show = || String::from_utf8_lossy(&s[..s.len().min(2000)]).into_owned();
    match guard(|| c.compile(s)) {
        Ok(Ok(s)) => Ok(Some(Arc::new(s))),
        Ok(Err(e)) => {
            let lines: Vec<&[u8]> = s.split(|c| *c == b'\n').collect();
            let (l, p) = (e.line_num(), e.line_pos());
            let text = guard(|| e.to_string()).map_err(|p| Fail::new(format!("message:{}", key(&p)), format!("showing the error of {}: {p}", show())))?;
            match lines.get(l.wrapping_sub(1)) {
                // a script that is too large has no position
                _ if matches!(e.error_type(), sieve::compiler::ErrorType::ScriptTooLong) => Ok(None),
                Some(t) if p <= t.len() + 1 => Ok(None),
                _ => Err(Fail::new("position", format!("{:?}\n{text}: line {l} position {p} is outside of the text", show()))),
            }
        }
        Err(p) => Err(Fail::new(format!("compile:{}", key(&p)), format!("{:?}\ncompiler panicked: {p}", show()))),
    }
}
/// ways for a host to answer
const HOSTS: &[&str] = &["true", "false", "itself", "stop", "odd"];
fn host<'a>(h: usize, sc: &'a Arc<Sieve>, stop: &'a Arc<Sieve>) -> impl FnMut(&Event) -> Input + 'a {
    let mut n = 0;
    move |e: &Event| {
        n += 1;
        match e {
            Event::IncludeScript { name, .. } => match h {
                0 | 3 => Input::script(name.clone(), stop.clone()),
                1 => Input::False,
                _ => Input::script(name.clone(), sc.clone()),
            },
            Event::Function { .. } => Input::result(match h {
                0 => Variable::Integer(i64::MIN),
                1 => Variable::String(String::new().into()),
                2 => Variable::Float(f64::NAN),
                3 => Variable::Array(vec![].into()),
                _ => Variable::Array(vec![Variable::Float(f64::INFINITY), Variable::String("é".to_string().into()), Variable::Array(vec![Variable::Integer(i64::MAX)].into())].into()),
            }),
            _ => Input::from(match h {
                0 | 2 => true,
                1 | 3 => false,
                _ => n % 2 == 0,
            }),
        }
    }
}
fn judge(rt: &Runtime, sc: &Arc<Sieve>, stop: &Arc<Sieve>, msg: &[u8], h: usize, what: impl Fn() -> String, cx: &mut Cx) -> Res {
    let o = run_with(rt, sc, msg, known::prep, host(h, sc, stop));
    cx.step(o.len() as u64);
    cx.trace();
    cx.outcome(&hash_obs(&o));
    match crash(&o) {
        None => Ok(()),
        Some(k) => Err(Fail::new(format!("run:{k}"), format!("{}\nhost answers: {}\nmessage {:?}\n{}", what(), HOSTS[h], String::from_utf8_lossy(&msg[..msg.len().min(1500)]), show_all(&o[o.len().saturating_sub(3)..])))),
    }
}
fn stop() -> Arc<Sieve> {
    compile(&Compiler::new(), "if true { stop; }").unwrap()
}
const CTX: &[(&str, &str)] = &[("", ""), ("fileinto \"", "\";"), ("if ", " { keep; }"), ("eval \"", "\";"), ("fileinto text:\n", "\n.\n;"), ("if header :matches \"a\" \"", "\" { keep; }"), ("fileinto :copy ", ";"), ("fileinto \"${", "}\";"), ("if header :regex \"a\" \"", "\" { keep; }")];
const SIG: &[u8] = b"aK0\"\\${}[](),;:#/*.\n\r @_-\xc3\xa9\0";
fn bytes(name: &str, alphabet: Vec<u8>, n: usize, ctx: std::ops::Range<usize>) -> Box<dyn Suite> {
    let (c, rt, rq, stop) = (Compiler::new(), rt(), req(), stop());
    radix(&format!("{name}-{n}"), &format!("every text of up to {n} bytes out of {} as a script and in {} places of one, after requires; the position of errors has to lie in the text, and what compiles is run", alphabet.len(), ctx.len()), vec![nwords(alphabet.len(), n) as usize, ctx.len(), 2], move |v, cx| {
        let (pre, post) = CTX[ctx.start + v[1]];
        if v[2] == 1 && v[0] % 8 != 0 {
            return Ok(());
        }
        let mut s = if v[2] == 0 { rq.as_bytes().to_vec() } else { vec![] };
        s.extend(pre.as_bytes());
        s.extend(word(alphabet.len(), v[0] as u64).into_iter().map(|i| alphabet[i]));
        s.extend(post.as_bytes());
        cx.step(1);
        match comp(&c, &s)? {
            None => Ok(()),
            Some(sc) => {
                cx.state(&s);
                judge(&rt, &sc, &stop, known::MSG.as_bytes(), 0, || String::from_utf8_lossy(&s).into_owned(), cx)
            }
        }
    })
}
const TOKENS: &[&str] = &[
    "if", "elsif", "else", "stop", "keep", "true", "not", "anyof", "allof", "require", "include", "return", "foreverypart", "break", "set", "global", "while", "eval", "let", "ihave", "fileinto", "header", "size", "hasflag", ":is", ":matches", ":over", ":copy", ":mime", ":name", "\"v\"", "\"${v}\"", "1", "[", "]", "(", ")", "{", "}", ";", ",",
];
fn tokens(n: usize) -> Box<dyn Suite> {
    let (c, rt, rq, stop) = (Compiler::new(), rt(), req(), stop());
    radix(&format!("tokens-{n}"), &format!("every sequence of up to {n} of {} tokens, run when it compiles", TOKENS.len()), vec![nwords(TOKENS.len(), n) as usize], move |v, cx| {
        let s = rq.clone() + &word(TOKENS.len(), v[0] as u64).into_iter().map(|i| TOKENS[i]).collect::<Vec<_>>().join(" ");
        cx.step(1);
        match comp(&c, s.as_bytes())? {
            None => Ok(()),
            Some(sc) => {
                cx.state(&s);
                // an endless while is ended by the limit on instructions
                let o = run_with(&rt, &sc, known::MSG.as_bytes(), known::prep, host(2, &sc, &stop));
                cx.trace();
                cx.outcome(&hash_obs(&o));
                match crash(&o) {
                    Some(k) if k != "endless" => Err(Fail::new(format!("run:{k}"), format!("{s}\n{}", show_all(&o)))),
                    _ => Ok(()),
                }
            }
        }
    })
}
const VALS: &[&str] = &["Subject", "a@b.example", "2030-01-01T00:00:00Z", "mailto:a@b.example", "NEVER", "/"];
/// every template as a script that compiles
pub fn scripts() -> Vec<(String, String)> {
    let c = Compiler::new();
    let rq = req();
    TPLS.iter()
        .filter(|t| !t.text.contains("test_unknown"))
        .filter_map(|t| VALS.iter().map(|v| templates::body(t, v)).find(|b| c.compile(format!("{rq}{b}").as_bytes()).is_ok()).map(|b| (t.text.to_string(), b)))
        .chain(c27::MORE.iter().map(|m| (m.to_string(), m.to_string())))
        .collect()
}
fn mutants(pairs: bool) -> Box<dyn Suite> {
    const V: &[&str] = &["\"\"", "\"${v}\"", "\"x\"", "[\"x\", \"\"]", "[]", "0", "1", "18446744073709551615", "-1", "4G", ":comparator", ":is", ":count", ":value", ":matches", ":regex", ":list", ":mime", ":anychild", ":index", ":last", ":copy", ":flags", ":create", ":handle", ":zone", ":seconds", ":first", ":all", ":over", ":name", "\"i;octet\"", "\"gt\"", ";", ",", "{", "}", "(", ")", "[", "]", "if", "not", "true", "keep", "text:\nx\n.\n", "#", "/*", "\"", "\u{e9}"];
    let cs: Vec<(String, Vec<String>)> = scripts().into_iter().map(|(n, b)| (n, c27::split(&b))).collect();
    let max = cs.iter().map(|c| c.1.len()).max().unwrap();
    let (c, rt, rq, stop) = (Compiler::new(), rt(), req(), stop());
    let n2 = if pairs { V.len() + 3 } else { 1 };
    radix(if pairs { "mutants-2" } else { "mutants" }, &format!("{} scripts made from every action and test, with a token dropped, doubled, swapped with the next, replaced by or preceded by each of {} others, or with everything behind it cut off{}; run with each way to answer when it compiles", cs.len(), V.len(), if pairs { "; and the next token dropped, doubled or replaced as well" } else { "" }), vec![cs.len(), max, 2 * V.len() + 4, n2], move |v, cx| {
        let t = &cs[v[0]].1;
        let i = v[1];
        if i >= t.len() {
            return Ok(());
        }
        let mut t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        if n2 > 1 {
            if i + 1 >= t.len() {
                return Ok(());
            }
            match v[3] {
                0 => drop(t.remove(i + 1)),
                1 => t.insert(i + 1, t[i + 1]),
                2 => t.truncate(i + 2),
                k => t[i + 1] = V[k - 3],
            }
        }
        match v[2] {
            0 => drop(t.remove(i)),
            1 => t.insert(i, t[i]),
            2 if i + 1 < t.len() => t.swap(i, i + 1),
            2 => return Ok(()),
            3 => t.truncate(i),
            k if k < 4 + V.len() => t[i] = V[k - 4],
            k => t.insert(i, V[k - 4 - V.len()]),
        }
        let s = rq.clone() + &t.join(" ");
        cx.step(1);
        if let Some(sc) = comp(&c, s.as_bytes())? {
            cx.state(&s);
            for h in 0..HOSTS.len() {
                judge(&rt, &sc, &stop, known::MSG.as_bytes(), h, || s[rq.len()..].to_string(), cx)?;
            }
        }
        Ok(())
    })
}
fn respelt(deep: bool) -> Box<dyn Suite> {
    let cs = scripts();
    let max = cs.iter().map(|c| c.1.len()).max().unwrap();
    let b: Vec<u8> = if deep { (0..=255).collect() } else { SIG.to_vec() };
    let (c, rt, rq, stop) = (Compiler::new(), rt(), req(), stop());
    radix("respelt", &format!("the same {} scripts with every byte replaced by or preceded by each of {} bytes, or everything from it on cut off", cs.len(), b.len()), vec![cs.len(), max + 1, 2 * b.len() + 1], move |v, cx| {
        let t = &cs[v[0]].1.as_bytes();
        let i = v[1];
        if i > t.len() || i == t.len() && v[2] >= b.len() {
            return Ok(());
        }
        let mut s = rq.as_bytes().to_vec();
        s.extend(&t[..i]);
        if v[2] < 2 * b.len() {
            s.push(b[v[2] % b.len()]);
            s.extend(&t[i + (v[2] >= b.len()) as usize..]);
        }
        cx.step(1);
        if let Some(sc) = comp(&c, &s)? {
            judge(&rt, &sc, &stop, known::MSG.as_bytes(), 0, || String::from_utf8_lossy(&s).into_owned(), cx)?;
        }
        Ok(())
    })
}
/// lines put before a script, and how many they are
const BEFORE: &[(&str, usize)] = &[
    ("\n\r\n", 2),
    ("# a \" { /* \n", 1),
    ("/* a\n \"\r\n# b */\n", 3),
    ("if header \"a\" \"b\nc\\\"\n\" { keep; }\n", 3),
    ("if header \"a\" text: # c\n..a\nb\n.\n{ keep; }\n", 5),
    ("if header \"a\" \"b\" /* x\ny */ { keep ; }\n  \n", 3),
];
/// where a script is refused
fn moved(deep: bool) -> Box<dyn Suite> {
    let cs = scripts();
    let max = cs.iter().map(|c| c.1.len()).max().unwrap();
    let b: Vec<u8> = if deep { SIG.to_vec() } else { b"\"x;[,1".to_vec() };
    let (c, rq) = (Compiler::new(), req());
    radix("moved", &format!("the {} scripts with every byte replaced by or preceded by each of {} bytes, or cut off there: where the script is refused, it is refused for the same reason and at a place moved by as many lines when each of {} kinds of lines (comments, texts over several lines, commands) is put before it", cs.len(), b.len(), BEFORE.len()), vec![cs.len(), max + 1, 2 * b.len() + 1], move |v, cx| {
        let t = &cs[v[0]].1.as_bytes();
        let i = v[1];
        if i > t.len() || i == t.len() && v[2] >= b.len() {
            return Ok(());
        }
        let mut s = b"\n".to_vec();
        s.extend(rq.as_bytes());
        s.push(b'\n');
        s.extend(&t[..i]);
        if v[2] < 2 * b.len() {
            s.push(b[v[2] % b.len()]);
            s.extend(&t[i + (v[2] >= b.len()) as usize..]);
        }
        let at = |s: &[u8]| guard(|| c.compile(s).err().map(|e| (format!("{:?}", e.error_type()), e.line_num(), e.line_pos()))).map_err(|p| Fail::new("panic", p));
        cx.step(1);
        let Some((what, line, pos)) = at(&s)? else { return Ok(()) };
        cx.state(&(&what, line, pos));
        cx.outcome(&what);
        // columns count from one
        if pos == 0 || pos > s.split(|c| *c == b'\n').nth(line - 1).map_or(0, |l| l.len()) + 1 {
            return Err(Fail::new("moved", format!("{}\nrefused with {what} at {line},{pos}: no such column", String::from_utf8_lossy(&s))));
        }
        if let Some(found) = what.strip_prefix("UnexpectedToken { ").and_then(|w| w.split_once(", found: \"")).map(|w| w.1.strip_suffix("\" }").unwrap()) {
            let l = String::from_utf8_lossy(s.split(|c| *c == b'\n').nth(line - 1).unwrap()).to_lowercase();
            let here = l.get(pos - 1..).unwrap_or("");
            let f = found.to_lowercase();
            if !(here.starts_with(&f) || here.starts_with(f.trim_start_matches(':')) || here.starts_with('"') || here.starts_with("text:") || f.parse::<u64>().is_ok() && here.starts_with(|c: char| c.is_ascii_digit())) {
                return Err(Fail::new(format!("moved:{found}"), format!("{}\nrefused with {what} at {line},{pos}, where there is {here:?}", String::from_utf8_lossy(&s))));
            }
        }
        for (before, n) in BEFORE {
            let long = [before.as_bytes(), &s].concat();
            cx.trace();
            cx.step(1);
            let got = at(&long)?;
            if got != Some((what.clone(), line + n, pos)) {
                return Err(Fail::new("moved", format!("{}\nrefused with {what} at {line},{pos}; with {before:?} before it: {got:?}", String::from_utf8_lossy(&s))));
            }
        }
        Ok(())
    })
}
pub const ODD: &[&str] = &[
    "", " ", "\0", "é", "İ", "ẞ", "𝒳", "\u{feff}", "\u{85}", "*", "?", "**?*", "[", "(", "(a", "a{2,1}", "a{99999}", "(a{999}){999}", "\\", "\\\\", "$", "${", "${}", "${x", "${unicode:41}", "%", "%4", "<", ">", "<>", "<a@b>", "@", "a@", "@b", "a@b@c", "a@b", ":", "::", "mailto:", "mailto:%", "mailto:a@b?x=%zz&&=", "mailto:a@b?subject", "=?", "=?utf-8?b??=", "=?utf-8?q?=?=", "a\r\nb", "\r\n", "\n.\n", "a: b", "-", "--", "-1", "0", "1", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "1e400", "NaN", "0x10", "2000-02-30", "2030-01-01T00:00:00", "2030-01-01T00:00:00+99:99", "\"", "''", "a'b", ".", "..", "/", "INBOX", "tag:", "Subject", "Received", "From", "Content-Type", "text/plain", "multipart/", "message/rfc822", "image", "i;octet", "gt", "true", "\u{1}\u{7f}", "0123456789012345678901234567890123456789",
];
fn values() -> Box<dyn Suite> {
    let mut odd: Vec<String> = ODD.iter().map(|s| s.to_string()).collect();
    odd.push("é".repeat(2000));
    odd.push("a".repeat(4000));
    odd.push("*".repeat(100));
    odd.push("(".repeat(500));
    odd.push("a,".repeat(600));
    let (c, stop, rq) = (Compiler::new(), stop(), req());
    let rts: Vec<Runtime> = vec![rt(), rt().with_max_variable_size(3)];
    radix("values", &format!("every action and test with each of {} odd texts in each place for a text, written out, through a variable, in a list and at a second place, x every way to answer x the usual or tiny variables", odd.len()), vec![TPLS.len(), odd.len(), 6, HOSTS.len(), rts.len()], move |v, cx| {
        let (t, o) = (&TPLS[v[0]], odd[v[1]].as_str());
        let lit = templates::esc(o);
        let pre = format!("set \"v\" {}; ", q(o));
        let s = match v[2] {
            0 => templates::body(t, &lit),
            1 => format!("{pre}{}", templates::body(t, "${v}")),
            2 => format!("{pre}foreverypart {{ {} }}", templates::body(t, "x${v}${v}")),
            3 => format!("if string :matches {} \"*\" {{ {} }}", q(o), templates::body(t, "${0}${1}${2}")),
            4 => format!("{pre}{}", templates::body(t, "Subject").replace("\"Subject\"", "[\"${v}\", \"${v}\"]")),
            _ => format!("{pre} addheader \"X\" \"${{v}}\"; addheader :last \"${{v}}\" \"y\"; {} deleteheader \"X\"; {}", templates::body(t, "X"), templates::body(t, "${v}")),
        };
        if v[3] > 0 && v[2] > 1 && v[4] == 0 {
            return Ok(());
        }
        let s = format!("{rq}{s}");
        match comp(&c, s.as_bytes())? {
            None => Ok(()),
            Some(sc) => {
                cx.state(&s);
                judge(&rts[v[4]], &sc, &stop, known::MSG.as_bytes(), v[3], || s[rq.len()..].to_string(), cx)
            }
        }
    })
}
/// texts with a syntax of their own: (use, pieces, pieces more in the thorough run)
const GRAMMARS: &[(&str, &[&str])] = &[
    ("if valid_notify_method \"V\" { keep; } if notify_method_capability \"V\" \"online\" \"maybe\" { keep; } notify \"V\";", &["mailto:", "a", "@", "%", "4", "0a", "?", "=", "&", "to", "subject", ",", "\u{e9}", " ", "<"]),
    ("notify :message \"m\" \"mailto:V\"; if valid_notify_method \"mailto:V\" { keep; }", &["a", "@", "b", ".", "%", "4", "%40", "?", "=", "&", "cc", "body", ",", "\u{e9}", "<", ">"]),
    ("redirect \"V\"; set \"envelope.from\" \"V\"; if envelope :user \"from\" \"V\" { keep; } if envelope :domain \"from\" \"V\" { keep; }", &["a", "@", "b", ".", "<", ">", "\\\"", "\\\\", " ", ",", ":", "+", "\u{e9}", "\r\n"]),
    ("if string :regex [\"a1\u{e9}\", \"\"] \"V\" { fileinto \"${0}${1}\"; }", &["a", "(", ")", "[", "]", "{", "1", ",", "}", "*", "+", "?", "|", "\\\\", "^", "$", "-", ":", "\u{e9}", "d", "P<n>"]),
    ("if string :matches \"aa\u{e9}a\" \"V\" { fileinto \"${1}${2}${3}\"; } if string :matches \"V\" \"*?a*\" { fileinto \"${1}${2}${3}\"; }", &["*", "?", "\\\\", "a", "\u{e9}", "\u{1f600}", ""]),
    ("if string :contains \"V\" \"a\u{130}\" { keep; } if string :contains \"a\u{130}\u{df}\" \"V\" { keep; } set :lower :upperfirst \"x\" \"V\"; set :upper :lowerfirst :quoteregex \"y\" \"V\"; set :length \"z\" \"V\"; set :encodeurl \"w\" \"V\";", &["a", "\u{130}", "\u{df}", "\u{1f600}", "\\\\", "*", " "]),
    ("if string :value \"ge\" :comparator \"i;ascii-numeric\" \"V\" [\"1\", \"V\"] { keep; } eval \"string - 1\"; if string :count \"lt\" \"V\" \"V\" { keep; } if eval \"global.v + 1 > global.v * 2\" { keep; }", &["0", "1", "9223372036854775807", "-", ".", "e", "+", " ", "a", "inf", "nan", "_", "\u{663}"]),
    ("addheader \"V\" \"x\"; addheader \"X\" \"V\"; if header :is \"V\" \"x\" { keep; } if address :is \"V\" \"x\" { keep; } if exists \"V\" { keep; } if date \"V\" \"year\" \"1\" { keep; } deleteheader \"V\";", &["X", "Date", "-", ":", " ", "\u{e9}", "\r\n", "_", ""]),
    ("addheader \"Date\" \"V\"; if date \"Date\" \"iso8601\" \"x\" { keep; } if date :zone \"-1200\" \"Date\" \"julian\" \"x\" { keep; } if date :originalzone \"Date\" \"std11\" \"x\" { keep; }", &["Tue,", " 1", " 31", " Apr", " Feb", " 2025", " 0", " 99999999999", " 10:00", ":60", " +0200", " -9999", " Z", ";", "("]),
    ("addheader \"To\" \"V\"; if address :user \"To\" \"x\" { keep; } if address :detail \"To\" \"x\" { keep; } fileinto \"${header.to[0].name[-1]}${header.to.addr.local}\";", &["a", "@", "b", "<", ">", "(", ")", "\\\"", ",", ";", ":", "+", "=?utf-8?q?=C3?=", "\u{e9}"]),
    ("addheader \"Content-Type\" \"V\"; if header :mime :type \"Content-Type\" \"x\" { keep; } if header :mime :param [\"a\", \"charset\"] \"Content-Type\" \"x\" { keep; } if body :content \"V\" :contains \"x\" { keep; } if convert \"V\" \"text/html\" [\"V\"] { keep; } foreverypart { extracttext :first 2 \"x\"; }", &["text", "/", "html", ";", "a", "=", "\\\"", "charset", "*0*", "''", "%", " ", "\u{e9}"]),
    ("fileinto \"${V}\"; set \"V\" \"x\"; if true { fileinto \"a${V}b\"; }", &["header", "to", "envelope", "from", "body", "part", "text", "env", "global", ".", "[", "]", "*", "-", "1", "addr", ":"]),
    ("fileinto \"${V}\"; fileinto \"a${hex:V}b\"; fileinto \"${unicode:V}\";", &["hex:", "unicode:", "4", "1", "e9", "d800", "110000", "0", " ", "}", "${", "$", "g", "\u{e9}"]),
    ("fileinto :flags \"V\" \"x\"; setflag \"V\"; addflag [\"V\", \"a\"]; removeflag \"V\"; if hasflag :matches \"*V*\" { keep; } if metadata \"V\" \"V\" \"x\" { keep; } if mailboxexists \"V\" { fileinto \"V\"; }", &["a", "\\\\", "Seen", " ", "/", "\t", "\u{130}", "\r\n", "*", "\u{0}"]),
];
fn grammars(n: usize) -> Box<dyn Suite> {
    let (c, stop, rq) = (Compiler::new(), stop(), req());
    let rt = rt();
    let most = GRAMMARS.iter().map(|g| nwords(g.1.len(), n) as usize).max().unwrap();
    radix(&format!("grammars-{n}"), &format!("{} kinds of text with a syntax of its own (URIs, addresses, patterns, numbers, field names, dates, content types, variables, encoded characters, flags): every text of up to {n} out of up to 21 pieces each, written out and through a variable", GRAMMARS.len()), vec![GRAMMARS.len(), most, 2], move |v, cx| {
        let (t, p) = GRAMMARS[v[0]];
        if v[1] as u64 >= nwords(p.len(), n) {
            return Ok(());
        }
        let text: String = word(p.len(), v[1] as u64).into_iter().map(|i| p[i]).collect();
        let s = if v[2] == 0 { format!("{rq}set \"global.v\" \"{text}\"; {}", t.replace('V', &text)) } else { format!("{rq}set \"global.v\" \"{text}\"; {}", t.replace('V', "${global.v}")) };
        match comp(&c, s.as_bytes())? {
            None => Ok(()),
            Some(sc) => {
                cx.state(&v);
                judge(&rt, &sc, &stop, known::MSG.as_bytes(), 1, || s[rq.len()..].to_string(), cx)
            }
        }
    })
}
/// numbers at the ends of their range wherever a number goes, also inside expressions
fn numbers() -> Box<dyn Suite> {
    const N: &[&str] = &["0", "1", "2", "255", "256", "32767", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "999999999999999999999999", "1K", "18014398509481984K", "17592186044416M", "17179869184G", "8589934591G", "0G"];
    const P: &[&str] = &[
        "if size :over N { keep; }", "if not size :under N { keep; }", "if header :index N \"Subject\" \"x\" { keep; }", "if header :index N :last \"Received\" \"x\" { keep; }", "if date :index N :last \"Date\" \"year\" \"x\" { keep; }", "deleteheader :index N \"Subject\"; keep;", "deleteheader :index N :last \"X\"; keep;", "if duplicate :seconds N { keep; }", "vacation :days N \"x\"; keep;", "vacation :seconds N \"x\"; keep;", "redirect :bytimerelative N \"a@b.example\";", "foreverypart { extracttext :first N \"x\"; } keep;", "if header :value \"ge\" \"Subject\" \"N\" { keep; }", "if header :count \"lt\" :comparator \"i;ascii-numeric\" \"Subject\" \"N\" { keep; }", "if currentdate :zone \"N\" \"hour\" \"x\" { keep; }", "if currentdate :zone \"-N\" \"hour\" \"x\" { keep; }", "if date :zone \"+N\" \"Date\" \"iso8601\" \"x\" { keep; }", "if spamtest :value \"ge\" :comparator \"i;ascii-numeric\" \"N\" { keep; }", "fileinto \"${N}\";", "fileinto \"${unicode:N} ${hex:N}\";", "set :length \"v\" \"N\"; fileinto \"${v}\";", "if address :index N \"From\" \"x\" { keep; }", "if anyof (size :over N, size :under N) { stop; }", "foreverypart :name \"N\" { break :name \"N\"; }", "redirect :bytimeabsolute \"N-01-01T00:00:00Z\" \"a@b.example\";", "fileinto \"${header.subject[N]}${header.received[-N].from}\";",
    ];
    let (c, rt, rq, stop) = (Compiler::new(), rt(), req(), stop());
    radix("numbers", &format!("{} numbers in {} places x every way to answer", N.len(), P.len()), vec![N.len(), P.len(), HOSTS.len()], move |v, cx| {
        let s = rq.clone() + &P[v[1]].replace('N', N[v[0]]);
        if let Some(sc) = comp(&c, s.as_bytes())? {
            cx.state(&s);
            judge(&rt, &sc, &stop, known::MSG.as_bytes(), v[2], || s[rq.len()..].to_string(), cx)?;
        }
        Ok(())
    })
}
pub fn fns(map: &mut FunctionMap) -> FunctionMap {
    fn same<'x>(_: &'x sieve::Context<'x>, mut v: Vec<Variable>) -> Variable {
        v.pop().unwrap_or_default()
    }
    fn list<'x>(_: &'x sieve::Context<'x>, v: Vec<Variable>) -> Variable {
        Variable::Array(v.into())
    }
    std::mem::take(map).with_function_no_args("none", same).with_function("one", same).with_function_args("two", list, 2).with_external_function("ask", 1, 2)
}
fn expressions(n: usize) -> Box<dyn Suite> {
    const T: &[&str] = &["1", "0", "-", "+", "*", "/", "!", "==", "<", ">=", "&&", "||", "(", ")", "[", "]", ",", "'a'", "\\\"b\\\"", "v", "w", "one(", "two(", "none()", "ask(", "9223372036854775807", "1.5", "n", "header.subject", "global.x", ".", "'", "é", "&", "="];
    let mut map = fns(&mut FunctionMap::new());
    let c = Compiler::new().register_functions(&mut map);
    let (rt, rq, stop) = (rt().with_functions(&mut map).with_cpu_limit(200), req(), stop());
    radix(&format!("expressions-{n}"), &format!("every expression of up to {n} out of {} tokens in eval, as a test, in let and in while, x answers to external functions", T.len()), vec![nwords(T.len(), n) as usize, 4], move |v, cx| {
        let e = word(T.len(), v[0] as u64).into_iter().map(|i| T[i]).collect::<Vec<_>>().join(if v[1] == 0 { "" } else { " " });
        let s = match v[1] {
            0 => format!("{rq}set \"v\" \"-9223372036854775808\"; set \"w\" \"x\"; let \"n\" \"0 - 9223372036854775807 - 1\"; let \"m\" \"{e}\"; fileinto \"${{m}}\";"),
            1 => format!("{rq}set \"v\" \"\"; set \"w\" \"é\"; let \"n\" \"two(1, two('a', 2))\"; eval \"{e}\"; keep;"),
            2 => format!("{rq}set \"v\" \"-1\"; set \"w\" \"2\"; let \"n\" \"0.0 - 1.0\"; if not eval \"{e}\" {{ keep; }}"),
            _ => format!("{rq}set \"v\" \"99999999999999999999\"; set \"w\" \"\"; let \"n\" \"two(1, 0)\"; while \"{e}\" {{ let \"n\" \"n + 1\"; }}"),
        };
        cx.step(1);
        if let Some(sc) = comp(&c, s.as_bytes())? {
            cx.state(&s);
            for h in 0..HOSTS.len() {
                judge(&rt, &sc, &stop, known::MSG.as_bytes(), h, || s[rq.len()..].to_string(), cx)?;
                if !e.contains("ask") {
                    break;
                }
            }
        }
        Ok(())
    })
}
fn nests() -> Box<dyn Suite> {
    const F: &[(&str, &str, &str, &str, &str)] = &[
        ("blocks", "", "if true { ", "keep; ", "} "),
        ("tests", "if ", "not ", "true ", "{ keep; }"),
        ("allof", "if ", "allof (", "true", ")"),
        ("anyof", "if ", "anyof (false, ", "true", ")"),
        ("both", "if ", "not anyof (allof (", "true", "))"),
        ("loops", "", "foreverypart { ", "keep; ", "} "),
        ("whiles", "", "while \"1\" { ", "break; ", "} "),
        ("elsif", "if true { keep; } ", "elsif false { stop; } ", "", ""),
        ("unopened", "", "} ", "", ""),
        ("unclosed", "", "{ ", "", ""),
        ("lists", "fileinto ", "[", "\"x\"", "]"),
        ("parens", "", "( ", "", ") "),
        ("expr", "eval \"", "(", "1", ")"),
        ("exprnot", "eval \"", "!", "1", ""),
        ("exprneg", "eval \"", "-", "1", ""),
        ("exprsum", "eval \"1", "+1", "", ""),
        ("exprand", "eval \"1", " && (1", "", ")"),
        ("exprindex", "eval \"v", "[0", "", "]"),
        ("exprcall", "eval \"", "one(", "1", ")"),
        ("regex", "if header :regex \"x\" \"", "(", "a", ")"),
        ("glob", "if header :matches \"x\" \"", "*?", "a", ""),
        ("comment", "", "/* ", "", "*/ "),
        ("refs", "fileinto \"", "${", "v", "}"),
        ("enc", "fileinto \"", "${hex:", "40", "}"),
        ("words", "", "keep ", "", ""),
        ("tags", "fileinto ", ":copy ", "\"x\"", ""),
        ("requires", "", "require \"fileinto\"; ", "", ""),
        ("includes", "", "include \"x\"; ", "", ""),
        ("sets", "", "set \"v\" \"${v}x\"; ", "", ""),
        ("strings", "fileinto [\"\"", ", \"x\"", "", "]"),
    ];
    const D: &[usize] = &[0, 1, 2, 3, 14, 15, 16, 17, 64, 128, 129, 1000, 20000];
    const END: &[&str] = &["", "{ keep; }", ";", "\";", "\" \"x\" { keep; }", "\" { keep; }"];
    radix("nests", &format!("{} kinds of nesting and repetition at depths {D:?}, whole or without the closing half, with the usual limits and with none, in a thread of the usual 2 MB stack", F.len()), vec![F.len(), D.len(), END.len(), 2, 2], move |v, cx| {
        let (name, a, o, m, cl) = F[v[0]];
        let d = D[v[1]];
        let s = format!("{}{a}{}{m}{}{}", req(), o.repeat(d), if v[3] == 0 { cl.repeat(d) } else { String::new() }, END[v[2]]);
        let free = v[4] == 1;
        let r = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || -> Res {
                let mut cx = Cx::default();
                let mut map = fns(&mut FunctionMap::new());
                let mut c = Compiler::new().register_functions(&mut map);
                let mut rt = rt().with_functions(&mut map);
                if free {
                    let m = usize::MAX;
                    c = c.with_max_includes(m).with_max_local_variables(m).with_max_match_variables(m).with_max_nested_blocks(m).with_max_nested_foreverypart(m).with_max_nested_tests(m).with_max_script_size(m).with_max_string_size(m).with_max_variable_name_size(m).with_max_header_size(m);
                    rt = rt.with_max_nested_includes(20);
                }
                match comp(&c, s.as_bytes())? {
                    None => Ok(()),
                    Some(sc) => match judge(&rt, &sc, &stop(), known::MSG.as_bytes(), 2, || format!("{name} x {d}"), &mut cx) {
                        Err(f) if f.key == "run:endless" => Ok(()),
                        r => r,
                    },
                }
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err(Fail::new(format!("nest:{name}"), "panic")));
        cx.state(&(name, d, v[4]));
        cx.trace();
        cx.outcome(&(name, d, v[2], r.is_ok()));
        r
    })
}
/// limits of the compiler: what they are about, a script with n of it, the largest n accepted for a limit of l
type Limit = (&'static str, fn(Compiler, usize) -> Compiler, fn(usize) -> Option<String>, fn(usize) -> Option<usize>);
const LIMITS: &[Limit] = &[
    ("script size", |c, l| c.with_max_script_size(l), |n| (n >= 5).then(|| format!("keep;{}", " ".repeat(n - 5))), |l| Some(l)),
    ("script size in comment", |c, l| c.with_max_script_size(l), |n| (n >= 7).then(|| format!("keep;#{}\n", "x".repeat(n - 7))), |l| Some(l)),
    ("string", |c, l| c.with_max_string_size(l.max(16)), |n| (n >= 9).then(|| format!("require \"fileinto\"; fileinto \"{}\";", "x".repeat(n))), |_| None),
    ("text", |c, l| c.with_max_string_size(l.max(16)), |n| (n >= 9).then(|| format!("require \"fileinto\"; fileinto text:\n{}\n.\n;", "x".repeat(n - 1))), |_| None),
    ("blocks", |c, l| c.with_max_nested_blocks(l), |n| Some(format!("{}keep;{}", "if true {".repeat(n), "}".repeat(n))), |l| Some(l)),
    ("else blocks", |c, l| c.with_max_nested_blocks(l), |n| Some(format!("{}keep;{}", "if true {stop;} else {".repeat(n), "}".repeat(n))), |l| Some(l)),
    ("loops", |c, l| c.with_max_nested_blocks(999).with_max_nested_foreverypart(l), |n| Some(format!("require \"foreverypart\"; {}keep;{}", "foreverypart {".repeat(n), "}".repeat(n))), |_| None),
    ("nots", |c, l| c.with_max_nested_tests(l), |n| Some(format!("if {}true{} {{keep;}}", "not allof (true, ".repeat(n), ")".repeat(n))), |_| None),
    ("test lists", |c, l| c.with_max_nested_tests(l), |n| Some(format!("if {}true{} {{keep;}}", "anyof (".repeat(n), ")".repeat(n))), |_| None),
    ("local variables", |c, l| c.with_max_local_variables(l), |n| Some(format!("require \"variables\"; {}", (0..n).map(|i| format!("set \"v{i}\" \"x\";")).collect::<String>())), |l| Some(l.min(256))),
    ("global name", |c, l| c.with_max_variable_name_size(l), |n| (n > 0).then(|| format!("require [\"variables\", \"include\"]; global \"{}\";", "v".repeat(n))), |_| None),
    ("includes", |c, l| c.with_max_includes(l), |n| Some(format!("require \"include\"; {}", "include \"x\";".repeat(n))), |l| Some(l)),
];
const LV: &[usize] = &[0, 1, 2, 3, 4, 5, 8, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, usize::MAX];
/// what is accepted under a limit is accepted under a higher one and every smaller script is too;
/// what is refused is refused cleanly
fn limits() -> Box<dyn Suite> {
    let cases: Vec<(usize, usize)> = (0..LIMITS.len()).flat_map(|i| (0..LV.len()).map(move |l| (i, l))).collect();
    list("limits", &format!("{} limits of the compiler x {} values x sizes 0..=260: scripts are accepted up to the limit and from there on refused", LIMITS.len(), LV.len()), cases, move |(i, l), cx| {
        let (name, set, make, exact) = LIMITS[*i];
        let l = LV[*l];
        let c = set(Compiler::new(), l);
        let mut ok = true;
        let mut most = None;
        for n in 0..=260 {
            let Some(s) = make(n) else { continue };
            cx.step(1);
            let r = comp(&c, s.as_bytes())?;
            if let Some(sc) = &r {
                most = Some(n);
                judge(&Runtime::new(), sc, &stop(), b"Subject: x\n\nx\n", 0, || s.clone(), cx)?;
            }
            if r.is_some() && !ok {
                return Err(Fail::new("limit", format!("{name}: with a limit of {l}, {n} are accepted and fewer are not")));
            }
            ok = r.is_some();
        }
        cx.state(&(i, l));
        cx.outcome(&(name, most));
        // near the limit on either side, and not far off
        let far = |m: usize| m.saturating_add(1) < l.min(260) || m > l.saturating_add(1);
        match (exact(l), most) {
            (Some(x), m) if make(x.min(260)).is_some() && m != Some(x.min(260)) => Err(Fail::new("limit", format!("{name}: with a limit of {l} the largest accepted is {m:?}"))),
            (None, Some(m)) if far(m) && !(name.starts_with('s') || name == "text") => Err(Fail::new("limit", format!("{name}: with a limit of {l} the largest accepted is {m:?}"))),
            (None, Some(m)) if (name.starts_with('s') || name == "text") && l >= 16 && far(m) => Err(Fail::new("limit", format!("{name}: with a limit of {l} the largest accepted is {m:?}"))),
            _ => Ok(()),
        }
    })
}

const READ: &str = r#"if allof (not header :contains ["Subject", "Content-Type", "X"] "zz", not header :mime :anychild :contenttype :contains "Content-Type" "zz", not header :mime :anychild :param ["boundary", "name"] :is "Content-Type" "zz", not address :domain :contains ["From", "To", "Cc", "Resent-From"] "zz", not date :last "Date" "iso8601" "zz", not date :index 1 :originalzone "Received" "weekday" "zz", not exists ["X", "Y"], not exists :mime :anychild ["Content-ID", "zz"], not size :over 100000, not body :raw :contains "zz", not body :text :contains "zz", not body :content ["text", "multipart", "message/rfc822", ""] :contains "zz", not header :mime :subtype :count "eq" "Content-Type" "77", not address :mime :anychild :localpart "From" "zz") { set "r" "all"; }
foreverypart { extracttext :first 9 "global.t"; set "global.n" "${global.n}.${global.t}"; foreverypart { extracttext :upper "global.t"; if anyof (header :mime :type :is "Content-Type" "multipart", header :index 1 :matches "Subject" "*") { set "global.n" "${global.n}+${global.t}"; break; } } }
fileinto :copy "${r}${global.n}"; let "d" "header.subject"; if eval "header.received[*].date == header.from[-1].name[*]" { set "r" "x"; }
fileinto :copy "${header.subject}${header.from.name}${header.from[*].addr}${header.to[-1].name}${header.received[*].rcvd.ip}${header.date.date}${header.content-type.attr.boundary}${header.content-type.subtype}${header.x:y[*].raw}${header.message-id.id}${body.text}${body.html}${part.text}${part.raw}${header.subject.addr[2]}${d}";
if duplicate :header "Message-ID" { stop; } vacation :subject "v" "x"; notify "mailto:a@b.example"; redirect "a@b.example"; reject "no";"#;
const EDIT: &[(&str, &str)] = &[
    ("add", "addheader \"X\" \"é=?\\r\\n y\"; addheader :last \"Subject\" \"z\";"),
    ("delete", "deleteheader \"Subject\"; deleteheader :index 1 :last \"From\"; deleteheader :contains \"Content-Type\" \"i\";"),
    ("replace", "replace \"new é\\r\\n.\\r\\n\";"),
    ("replace all", "replace :subject \"s\" :from \"f@x.example\" \"n\";"),
    ("replace mime", "replace :mime \"Content-Type: multipart/mixed; boundary=b\\r\\n\\r\\n--b\\r\\n\\r\\nx\\r\\n--b--\";"),
    ("replace empty", "replace :mime \"\";"),
    ("enclose", "enclose :subject \"s\" :headers [\"X: y\", \"zz\", \":\", \"Date:\", \"From: z\"] \"text\";"),
    ("convert", "if convert \"text/html\" \"text/plain\" [\"\"] { addheader \"Y\" \"converted\"; }"),
    ("convert back", "if convert \"text/plain\" \"text/html\" [\"\"] { addheader \"Y\" \"back\"; }"),
    ("extract", "extracttext :first 3 \"global.t\"; addheader \"T\" \"${global.t}${body.text}${part.text}\";"),
    ("keep", "keep;"),
    ("break", "break;"),
    ("test", "if anyof (header :mime :anychild \"Subject\" \"zz\", body :text :contains \"zz\", header :contains \"Subject\" \"zz\", size :over 1K, body :content \"\" \"zz\", body :raw \"zz\") { stop; }"),
];
const LINES: &[&str] = &["", "From: a@b", "Subject: =?utf-8?Q?=C3?=", "Content-Type: multipart/mixed; boundary=b", "Content-Type: message/rfc822", "Content-Type: text/html; charset=x", "Content-Transfer-Encoding: base64", "--b", "--b--", " y", ": x", "zz", "é=\0"];
/// how the message dependency's own check fails, known and outside of this tree
const WRAPS: &[(&str, &str)] = &[("", ""), ("foreverypart { ", "}"), ("foreverypart { foreverypart { ", "} }")];
fn edits(n: usize) -> Vec<String> {
    (0..nwords(EDIT.len(), n))
        .flat_map(|w| {
            let b: String = word(EDIT.len(), w).into_iter().map(|i| EDIT[i].1).collect();
            WRAPS.iter().enumerate().filter_map(move |(k, (a, z))| (k > 0 || !b.contains("break")).then(|| format!("{a}{b}{z} keep; {}", if k == 1 { "foreverypart { extracttext \"t\"; } if body :content \"text\" :contains \"zz\" { stop; } fileinto \"x\";" } else { "" })))
        })
        .collect()
}
fn messages(n: usize, nested: bool) -> Box<dyn Suite> {
    let c = Compiler::new();
    let mut all = vec![READ.to_string()];
    all.push("foreverypart { addheader \"X\" \"y\"; deleteheader \"Subject\"; extracttext \"t\"; foreverypart { replace \"a\"; } } keep;".into());
    all.push("foreverypart { foreverypart { convert \"text/html\" \"text/plain\" [\"\"]; replace :mime \"\"; } addheader :last \"X\" \"y\"; } keep; foreverypart { replace \"x\"; extracttext \"t\"; } keep; enclose \"x\"; addheader \"X\" \"y\"; keep; enclose \"y\"; keep; replace \"x\";".into());
    all.push("convert \"text/html\" \"text/plain\" [\"\"]; keep; replace \"x\"; keep; enclose \"e\"; foreverypart { replace \"y\"; }".into());
    let sc: Vec<Arc<Sieve>> = all.iter().map(|s| compile(&c, &(req() + s)).unwrap_or_else(|e| panic!("{s}: {e:?}"))).collect();
    let (rt, stop) = (rt(), stop());
    let _ = nested;
    radix(&format!("messages-{n}"), &format!("every message of up to {n} lines out of {}, with and without a line end at the end, through {} scripts with all tests, variables and edits", LINES.len(), sc.len()), vec![nwords(LINES.len(), n) as usize, 2, sc.len()], move |v, cx| {
        let mut m = word(LINES.len(), v[0] as u64).into_iter().map(|i| LINES[i]).collect::<Vec<_>>().join("\r\n");
        if v[1] == 1 {
            m += "\r\n";
        }
        cx.state(&(v[0], v[1]));
        judge(&rt, &sc[v[2]], &stop, m.as_bytes(), 0, || all[v[2]].clone(), cx)
    })
}
fn bases() -> Vec<String> {
    let leaf = |t: &str| format!("Content-Type: {t}\r\nSubject: leaf\r\n\r\nbody of {t}\r\n");
    let multi = |b: &str, parts: &[String]| format!("Content-Type: multipart/mixed; boundary={b}\r\nSubject: m{b}\r\n\r\npre\r\n{}--{b}--\r\npost\r\n", parts.iter().map(|p| format!("--{b}\r\n{p}\r\n")).collect::<String>());
    let att = |m: &str| format!("Content-Type: message/rfc822\r\nSubject: att\r\n\r\n{m}");
    let top = |m: &str| format!("From: a@b.example\r\nTo: c@d.example\r\nDate: Tue, 1 Apr 2025 10:00:00 +0200\r\nMIME-Version: 1.0\r\n{m}");
    let (p, h) = (leaf("text/plain"), leaf("text/html"));
    let enc = "Content-Type: text/plain\r\nContent-Transfer-Encoding: base64\r\n\r\nYWJjZA==\r\n".to_string();
    let qp = "Content-Type: text/html\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n<b>=C3=A9</b>=\r\n".to_string();
    vec![
        String::new(),
        "\r\n".into(),
        "Subject: x".into(),
        top(&p),
        top(&h),
        top(&enc),
        top(&qp),
        top(&multi("b", &[])),
        top(&multi("b", &[p.clone()])),
        top(&multi("b", &[p.clone(), h.clone()])),
        top(&multi("b", &[multi("c", &[p.clone(), qp.clone()]), enc.clone()])),
        top(&multi("b", &[att(&p), h.clone()])),
        top(&multi("b", &[att(&multi("c", &[p.clone(), h.clone()])), p.clone()])),
        top(&multi("b", &[att(&att(&p)), h.clone()])),
        top(&att(&p)),
        top(&att(&multi("c", &[h.clone()]))),
        top(&multi("b", &[p.clone(), multi("c", &[h.clone(), multi("d", &[p.clone(), att(&h)])])])),
        top(&multi("b", &[p.clone(), h.clone()])).replace("--b--", ""),
        known::MSG.into(),
    ]
}
fn mutated(deep: bool) -> Box<dyn Suite> {
    const B: &[u8] = b"\r\n :;=\"-<>@,()\\\0\xc3%?";
    let bs = bases();
    let max = bs.iter().map(|b| b.len()).max().unwrap();
    let c = Compiler::new();
    let all = [READ.to_string(), "foreverypart { foreverypart { if convert \"text/html\" \"text/plain\" [\"\"] { keep; } } addheader \"X\" \"y\"; deleteheader \"Subject\"; replace \"x\"; } keep; enclose \"x\"; keep; replace \"y\";".to_string()];
    let sc: Vec<Arc<Sieve>> = all.iter().map(|s| compile(&c, &(req() + s)).unwrap()).collect();
    let (rt, stop) = (rt(), stop());
    let b: Vec<u8> = if deep { (0..=255).collect() } else { B.to_vec() };
    radix("message-bytes", &format!("{} messages of all shapes with each byte replaced by or preceded by each of {}, or everything from it on cut off, or everything before it left out", bs.len(), b.len()), vec![bs.len(), max, 2 * b.len() + 2, sc.len()], move |v, cx| {
        let (m, i) = (bs[v[0]].as_bytes(), v[1]);
        if i >= m.len() {
            return Ok(());
        }
        let mut t = m[..i].to_vec();
        match v[2] {
            0 => {}
            1 => t = m[i..].to_vec(),
            k => {
                t.push(b[(k - 2) % b.len()]);
                t.extend(&m[i + (k - 2 >= b.len()) as usize..]);
            }
        }
        cx.state(&(v[0], v[1], v[2]));
        judge(&rt, &sc[v[3]], &stop, &t, 0, || all[v[3]].clone(), cx)
    })
}
fn editing(n: usize) -> Box<dyn Suite> {
    let bs = bases();
    let c = Compiler::new();
    let all = edits(n);
    let sc: Vec<Arc<Sieve>> = all.iter().map(|s| compile(&c, &(req() + s)).unwrap_or_else(|e| panic!("{s}: {e:?}"))).collect();
    let (rt, stop) = (rt(), stop());
    radix(&format!("edits-{n}"), &format!("every sequence of up to {n} out of {} edits of the message, at the top, in a loop over the parts and in a loop within one, x {} messages of all shapes", EDIT.len(), bs.len()), vec![sc.len(), bs.len()], move |v, cx| {
        cx.state(&(v[0], v[1]));
        judge(&rt, &sc[v[0]], &stop, bs[v[1]].as_bytes(), 0, || all[v[0]].clone(), cx)
    })
}
/// limits of the runtime at their ends
fn ceilings() -> Box<dyn Suite> {
    const S: &[fn(Runtime, usize) -> Runtime] = &[
        |r, n| r.with_max_variable_size(n),
        |r, n| r.with_max_header_size(n),
        |r, n| r.with_cpu_limit(n),
        |r, n| r.with_max_nested_includes(n.min(50)),
        |r, n| r.with_max_redirects(n),
        |r, n| r.with_max_received_headers(n),
        |r, n| r.with_max_out_messages(n),
    ];
    const L: &[usize] = &[0, 1, 2, 3, 7, usize::MAX - 1, usize::MAX];
    let mut all: Vec<String> = scripts().into_iter().map(|s| s.1).collect();
    all.push(READ.into());
    all.extend(edits(1));
    let c = Compiler::new();
    let sc: Vec<Arc<Sieve>> = all.iter().filter_map(|s| compile(&c, &(req() + s)).ok()).collect();
    let stop = stop();
    radix("ceilings", &format!("{} scripts with every action, test and edit, x {} limits of the runtime at {L:?} x every way to answer", sc.len(), S.len()), vec![sc.len(), S.len(), L.len(), HOSTS.len()], move |v, cx| {
        let rt = S[v[1]](rt(), L[v[2]]);
        cx.state(&(v[0], v[1], v[2]));
        match judge(&rt, &sc[v[0]], &stop, known::MSG.as_bytes(), v[3], || format!("{}\nlimit {} = {}", all[v[0]], v[1], L[v[2]]), cx) {
            // scripts that include themselves when neither number of instructions nor depth stops them
            Err(f) if f.key == "run:endless" && v[3] == 2 && all[v[0]].contains("include") => Ok(()),
            r => r,
        }
    })
}
pub fn property(thorough: bool) -> Property {
    let n = |q: usize, t: usize| if thorough { t } else { q };
    Property {
        id: "C20",
        level: "model_checking",
        technique: "exhaustive enumeration of script texts, mutated scripts, messages, limits, host answers and edit sequences on the real compiler and interpreter with debug and overflow checks on, watching for panics, endless runs and bad error positions",
        assumptions: vec!["scripts run with a limit on instructions".into()],
        suites: vec![bytes("bytes", (0..=255).collect(), 2, 0..CTX.len()), bytes("marks", SIG.to_vec(), n(3, 4), 0..CTX.len()), tokens(n(3, 4)), mutants(false), respelt(thorough),
        moved(thorough), values(), numbers(), grammars(if thorough { 5 } else { 4 }), expressions(n(3, 4)), nests(), limits(), messages(n(5, 6), false), mutated(thorough), editing(n(3, 4)), ceilings()],
    }
}
