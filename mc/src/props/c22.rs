use super::c21::{compiler, corpus, host, rkyv_bytes, rkyv_load, runtime, MORE, MSGS, SUB};
use super::{c20, known};
use crate::eng::*;
use crate::harness::*;
use sieve::runtime::Variable;
use sieve::{Context, Event, FunctionMap, Input, Runtime, Sieve};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

/// a compiled script whose patterns have not been compiled yet, like one loaded from a database
fn cold(b: &[u8]) -> Arc<Sieve> {
    Arc::new(rkyv_load(b).unwrap().unwrap())
}
fn prep(k: usize) -> impl FnOnce(&mut Context<'_>) {
    move |c: &mut Context<'_>| {
        if k == 0 {
            return known::prep(c);
        }
        c.set_envelope(sieve::Envelope::From, format!("other{k}@x.example"));
        c.set_envelope(sieve::Envelope::To, "second+d@to.example");
        c.set_user_address("second@to.example");
        c.set_user_full_name(&format!("Full {k}"));
        c.set_env_variable("name", format!("env{k}"));
        c.set_global_variable("g", format!("glob{k}"));
        c.set_global_variable("x", format!("x{k}"));
        c.set_spam_status(if k == 1 { sieve::SpamStatus::Ham } else { sieve::SpamStatus::Spam });
    }
}
struct Run<'a> {
    ctx: Context<'a>,
    next: Option<Input>,
    obs: Vec<Ob>,
    host: Box<dyn FnMut(&Event) -> Input + 'a>,
}
impl<'a> Run<'a> {
    fn new(rt: &'a Runtime, k: usize, s: &Arc<Sieve>, sub: &'a Arc<Sieve>) -> Run<'a> {
        let mut ctx = rt.filter(MSGS[k % MSGS.len()].as_bytes());
        prep(k)(&mut ctx);
        Run { ctx, next: Some(Input::script("", s.clone())), obs: vec![], host: Box::new(host(k % 3, sub)) }
    }
    /// one call of run; false when it is over
    fn step(&mut self) -> bool {
        let Some(i) = self.next.take() else { return false };
        match self.ctx.run(i) {
            None => return false,
            Some(Ok(e)) => {
                self.next = Some((self.host)(&e));
                self.obs.push(Ob::Ev(e));
            }
            Some(Err(e)) => {
                self.next = Some(Input::True);
                self.obs.push(Ob::Err(format!("{e:?}")));
            }
        }
        if self.obs.len() > MAX_EVENTS {
            self.obs.push(Ob::Overrun);
            self.next = None;
        }
        true
    }
    fn end(self) -> Vec<Ob> {
        let mut o = self.obs;
        if self.ctx.has_message_changed() {
            o.push(Ob::Err(format!("changed {}", String::from_utf8_lossy(&scrub(&self.ctx.message().raw_message)))));
        }
        scrub_obs(o)
    }
}
/// on its own, with everything new
fn alone(b: &[u8], subb: &[u8], k: usize) -> Vec<Ob> {
    let (rt, s, sub) = (runtime(), cold(b), cold(subb));
    match guard(|| {
        let mut r = Run::new(&rt, k, &s, &sub);
        while r.step() {}
        r.end()
    }) {
        Ok(v) => v,
        Err(p) => vec![Ob::Panic(p)],
    }
}
struct Pool {
    texts: Vec<String>,
    bytes: Vec<Vec<u8>>,
    /// what each script does on its own as run 0, 1, 2
    want: Vec<Vec<Vec<Ob>>>,
    sub: Vec<u8>,
}
fn pool(texts: Vec<String>) -> Arc<Pool> {
    let c = compiler();
    let sub = rkyv_bytes(&compile(&c, SUB).unwrap()).unwrap();
    let mut p = Pool { texts: vec![], bytes: vec![], want: vec![], sub };
    for t in texts {
        if let Ok(s) = compile(&c, &t) {
            p.bytes.push(rkyv_bytes(&s).unwrap_or_else(|e| panic!("{t} {e}")));
            p.texts.push(t);
        }
    }
    p.want = p.bytes.iter().map(|b| (0..3).map(|k| alone(b, &p.sub, k)).collect()).collect();
    Arc::new(p)
}
fn more() -> Vec<String> {
    let rq = c20::req();
    MORE.iter().chain(EXTRA).map(|m| format!("{rq}{m}")).collect()
}
/// scripts that leave much behind in a context
const EXTRA: &[&str] = &[
    "set \"global.x\" \"A${envelope.from}\"; include :personal \"sub\"; include :personal \"two\"; fileinto \"${global.x}${env.name}\";",
    "include :once :personal \"sub\"; include :once :personal \"sub\"; include :optional :global \"none\"; fileinto \"${global.x}\";",
    "addflag \"f\" \"${envelope.from}\"; setflag \"\\\\Seen\"; keep; addheader \"X-1\" \"${global.g}\"; fileinto \"a\"; if header :regex \"X-1\" \"(g.*)\" { fileinto \"${1}\"; }",
    "if spamtest :value \"ge\" :comparator \"i;ascii-numeric\" \"2\" { fileinto \"spam\"; } if environment :matches \"name\" \"*\" { fileinto \"${1}\"; }",
    "set \"envelope.from\" \"new@x.example\"; if envelope :regex \"from\" \"(n.w)@\" { fileinto \"${1}\"; } redirect :copy \"r@x.example\"; redirect \"s@x.example\"; redirect \"t@x.example\";",
    "foreverypart { if header :regex :mime :subtype \"content-type\" \"(.*)\" { fileinto \"${1}\"; } } replace \"${global.g}\"; if body :regex \"(g?lob.)\" { fileinto \"${1}\"; }",
    "if mailboxexists \"a\" { fileinto \"a\"; } if header :list \"subject\" \"l\" { fileinto \"b\"; } if duplicate { discard; } let \"x\" \"ask(1, 2)\"; fileinto \"${x}\";",
    "vacation :handle \"h${global.g}\" \"away\"; vacation \"no\"; notify \"mailto:a@b.example\"; notify \"mailto:c@d.example\"; stop;",
];
/// every order of n steps of one and m of the other run etc. with at most `switches` changes of run
fn orders(left: &mut Vec<usize>, cur: &mut Vec<usize>, switches: usize, out: &mut Vec<Vec<usize>>, max: usize) {
    if out.len() >= max {
        return;
    }
    if left.iter().all(|l| *l == 0) {
        out.push(cur.clone());
        return;
    }
    let last = cur.last().copied();
    for i in 0..left.len() {
        if left[i] == 0 {
            continue;
        }
        // leaving a run that could go on is what counts
        let cost = last.is_some_and(|l| l != i && left[l] > 0) as usize;
        if cost > switches {
            continue;
        }
        left[i] -= 1;
        cur.push(i);
        orders(left, cur, switches - cost, out, max);
        cur.pop();
        left[i] += 1;
    }
}
fn interleaved(name: &str, what: &str, texts: Vec<String>, runs: usize, switches: usize) -> Box<dyn Suite> {
    let p = pool(texts);
    let n = p.texts.len();
    let mut r = vec![n; runs];
    r.push(2);
    radix(name, &format!("{runs} runs of any of {n} {what}, sharing one runtime and, where it is the same, the compiled script with patterns not compiled yet; every order of their steps with up to {switches} changes of an unfinished run; compared to each run on its own"), r, move |v, cx| {
        // the last number: which run has which message and user
        let who: Vec<usize> = (0..runs).map(|i| if v[runs] == 0 { i } else { (i * 2 + 1) % 3 }).collect();
        let steps: Vec<usize> = (0..runs).map(|i| {
            let o = &p.want[v[i]][who[i]];
            o.iter().filter(|o| matches!(o, Ob::Ev(_)) || matches!(o, Ob::Err(e) if !e.starts_with("changed "))).count() + 1
        }).collect();
        if steps.iter().any(|s| *s > 100) {
            return Ok(());
        }
        let mut all = vec![];
        orders(&mut steps.clone(), &mut vec![], switches, &mut all, 200_000);
        cx.state(&(v, steps));
        let rt = runtime_shared();
        for o in &all {
            let try_it = || -> Result<Vec<Vec<Ob>>, String> {
                guard(|| {
                    let mut scripts: Vec<Arc<Sieve>> = vec![];
                    for i in 0..runs {
                        let s = match (0..i).find(|j| v[*j] == v[i]) {
                            Some(j) => scripts[j].clone(),
                            None => cold(&p.bytes[v[i]]),
                        };
                        scripts.push(s);
                    }
                    let sub = cold(&p.sub);
                    let mut rs: Vec<Run> = (0..runs).map(|i| Run::new(rt, who[i], &scripts[i], &sub)).collect();
                    for i in o {
                        rs[*i].step();
                    }
                    rs.into_iter().map(|mut r| {
                        while r.step() {}
                        r.end()
                    }).collect()
                })
            };
            cx.trace();
            cx.step(o.len() as u64);
            let judge = |got: &Result<Vec<Vec<Ob>>, String>, want: &dyn Fn(usize) -> Vec<Ob>| -> Res {
                let got = match got {
                    Ok(g) => g,
                    Err(e) => {
                        return if (0..runs).any(|i| matches!(p.want[v[i]][who[i]].last(), Some(Ob::Panic(_)))) { Ok(()) } else { Err(Fail::new("panic", format!("{e}\n{:?}", v[..runs].iter().map(|i| &p.texts[*i]).collect::<Vec<_>>()))) };
                    }
                };
                for i in 0..runs {
                    let w = want(i);
                    if got[i] != w {
                        return Err(Fail::new("interleaved", format!("order {o:?}: run {i} as user {} of\n{}\nis different from\n{}\namong\n{}", who[i], p.texts[v[i]], diff(&w, &got[i]), v[..runs].iter().map(|i| p.texts[*i].as_str()).collect::<Vec<_>>().join("\n"))));
                    }
                }
                Ok(())
            };
            let got = try_it();
            if let Ok(g) = &got {
                cx.outcome(&g.iter().map(|o| hash_obs(o)).collect::<Vec<_>>());
            }
            if judge(&got, &|i| p.want[v[i]][who[i]].clone()).is_err() {
                // unless only the clock went on meanwhile
                for t in 0..3 {
                    match judge(&try_it(), &|i| alone(&p.bytes[v[i]], &p.sub, who[i])) {
                        Ok(()) => break,
                        Err(f) if t == 2 => return Err(f),
                        _ => (),
                    }
                }
            }
        }
        Ok(())
    })
}
fn runtime_shared() -> &'static Runtime {
    static R: std::sync::OnceLock<Runtime> = std::sync::OnceLock::new();
    R.get_or_init(runtime)
}
/// the same compiler, runtime and script used again and again against everything new
fn repeated() -> Box<dyn Suite> {
    let v = corpus();
    list("repeated", &format!("{} scripts (as in C21) compiled three times, with a new and a used compiler, and run on {} messages with a new and a used runtime, on new and used compiled scripts, 3 ways to answer", v.len(), MSGS.len()), v, move |t, cx| {
        thread_local!(static C: sieve::Compiler = compiler());
        let (a, b, c) = C.with(|c| (compile(c, t), compile(c, t), compile(&compiler(), t)));
        let (Ok(a), Ok(b), Ok(c)) = (a, b, c) else { return Err(Fail::new("compile", format!("{t} compiles once but not again"))) };
        if a != b || b != c || format!("{a:?}") != format!("{c:?}") && sorted(&format!("{a:?}")) != sorted(&format!("{c:?}")) {
            return Err(Fail::new("compile", format!("{t}\ncompiles to\n{a:?}\nand\n{b:?}\nand\n{c:?}")));
        }
        cx.state(t);
        let sub = C.with(|c| compile(c, SUB).unwrap());
        let used = runtime_shared();
        let new = runtime();
        for k in 0..9 {
            let run = |rt: &Runtime, s: &Arc<Sieve>| {
                guard(|| {
                    let mut ctx = rt.filter(MSGS[k / 3].as_bytes());
                    prep(k % 3)(&mut ctx);
                    let mut o = vec![];
                    drive(&mut ctx, Input::script("", s.clone()), &mut o, &mut host(k % 3, &sub));
                    scrub_obs(o)
                })
            };
            let want = run(&new, &c);
            cx.outcome(&want.as_ref().map(|w| hash_obs(w)).unwrap_or(0));
            for i in 0..3 {
                let mut ok = false;
                let mut last = (want.clone(), want.clone());
                for n in 0..3 {
                    let w = if n == 0 { want.clone() } else { run(&new, &c) };
                    let g = run(if i == 2 { &new } else { used }, if i == 1 { &b } else { &a });
                    cx.trace();
                    if w == g {
                        ok = true;
                        break;
                    }
                    last = (w, g);
                }
                if !ok {
                    return Err(Fail::new("repeated", format!("{t}\nmessage {} answers {}\nfirst {:?}\nthen {:?}", k / 3, k % 3, last.0.map(|o| show_all(&o)), last.1.map(|o| show_all(&o)))));
                }
            }
        }
        Ok(())
    })
}
fn sorted(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.sort();
    v
}
/// histories of runs, one after the other, on one runtime with the same compiled scripts
fn histories(n: usize) -> Box<dyn Suite> {
    let p = pool(more());
    let m = p.texts.len() * 2;
    radix(&format!("histories-{n}"), &format!("every sequence of {n} out of {} scripts as one of 2 users, run one after the other on one runtime with the compiled scripts kept", p.texts.len()), vec![m; n], move |v, cx| {
        let rt = runtime();
        let sub = cold(&p.sub);
        let mut kept: Vec<Option<Arc<Sieve>>> = vec![None; p.texts.len()];
        for i in v {
            let (s, k) = (i / 2, i % 2);
            let sc = kept[s].get_or_insert_with(|| cold(&p.bytes[s])).clone();
            let mut want = p.want[s][k].clone();
            let mut ok = false;
            let mut got = vec![];
            for t in 0..3 {
                got = match guard(|| {
                    let mut r = Run::new(&rt, k, &sc, &sub);
                    while r.step() {}
                    r.end()
                }) {
                    Ok(o) => o,
                    Err(p) => vec![Ob::Panic(p)],
                };
                cx.step(got.len() as u64);
                if got == want {
                    ok = true;
                    break;
                }
                if t < 2 {
                    want = alone(&p.bytes[s], &p.sub, k);
                }
            }
            cx.outcome(&hash_obs(&got));
            if !ok {
                return Err(Fail::new("history", format!("after {v:?}: {}\n{}", p.texts[s], diff(&want, &got))));
            }
        }
        cx.state(v);
        cx.trace();
        Ok(())
    })
}
/// what one compiler was given before makes no difference, also when it was wrong
fn compilers(n: usize) -> Box<dyn Suite> {
    let rq = c20::req();
    let mut v: Vec<String> = more();
    v.extend(MORE.iter().map(|m| m.to_string()));
    v.extend(["", "keep", "if", "require \"none\";", "require [\"variables\", \"fileinto\"]; set \"a\" \"b\"; fileinto \"${a}\";", "fileinto \"${a}\";", "if true { if true { if true { foo; } } }", "global \"a\";", "\"", "text:\n", "foreverypart { foreverypart { foreverypart {", "break;", "require \"include\"; include \"a\"; include \"b\"; include :once \"c\";", "while \"1", "set \"v\" \"1\"; let \"w\" \"v + u\";"].map(String::from));
    v.extend(["set \"v\" \"1\"; let \"w\" \"v + u\";", "if header :regex \"a\" \"(\" { keep; }", "global \"a\"; set \"a\" \"${b}\"; fileinto \"${a}${1}\";", "foreverypart :name \"x\" { break :name \"y\"; }", "function_none();", "eval \"none(1)\";", "let \"v\" \"one(1) + two(1, 2) + none()\"; keep;"].map(|s| format!("{rq}{s}")));
    let want: Vec<Result<Arc<Sieve>, String>> = v.iter().map(|t| compile(&compiler(), t).map_err(|e| format!("{e:?}"))).collect();
    let size = v.len();
    radix(&format!("compilers-{n}"), &format!("every sequence of {n} out of {size} right and wrong scripts given to one compiler"), vec![size; n], move |w, cx| {
        let c = compiler();
        for i in w {
            let got = compile(&c, &v[*i]).map_err(|e| format!("{e:?}"));
            cx.step(1);
            cx.outcome(&(got.is_ok(), i));
            if got != want[*i] {
                return Err(Fail::new("compiler", format!("after {w:?}: {}\nexpected {:?}\ngot {got:?}", v[*i], want[*i])));
            }
        }
        cx.trace();
        cx.state(w);
        Ok(())
    })
}
/// a copy of a context made between two steps goes on like the original, and neither sees the other
fn copies() -> Box<dyn Suite> {
    let p = pool(more().into_iter().chain(corpus().into_iter().step_by(23)).collect());
    radix("copies", &format!("{} scripts: the context copied before every step, both taking every answer (yes and no) from there, in both orders, up to 8 questions; compared to runs from the start with the same answers", p.texts.len()), vec![p.texts.len(), 3, 2], move |v, cx| {
        let (s, k, first) = (v[0], v[1], v[2]);
        let (sub, sc) = (cold(&p.sub), cold(&p.bytes[s]));
        let rt = runtime_shared();
        let asks = |e: &Event| matches!(e, Event::MailboxExists { .. } | Event::ListContains { .. } | Event::DuplicateId { .. } | Event::Function { .. });
        let answer = |e: &Event, a: bool| match e {
            Event::IncludeScript { name, .. } => Input::script(name.clone(), sub.clone()),
            Event::Function { .. } => Input::result((a as i64).into()),
            _ => Input::from(a),
        };
        // from the start with the given answers
        let fresh = |path: &[bool]| {
            let (sub, sc) = (cold(&p.sub), cold(&p.bytes[s]));
            let rt = runtime();
            let mut n = 0;
            let mut o = vec![];
            let r = guard(|| {
                let mut ctx = rt.filter(MSGS[k].as_bytes());
                prep(k)(&mut ctx);
                drive(&mut ctx, Input::script("", sc), &mut o, &mut |e| match e {
                    Event::IncludeScript { name, .. } => Input::script(name.clone(), sub.clone()),
                    e if asks(e) => {
                        n += 1;
                        let a = path.get(n - 1).copied().unwrap_or(true);
                        if matches!(e, Event::Function { .. }) { Input::result((a as i64).into()) } else { Input::from(a) }
                    }
                    _ => Input::True,
                });
            });
            if let Err(e) = r {
                o.push(Ob::Panic(e));
            }
            scrub_obs(o)
        };
        let mut bad = None;
        let r = guard(|| {
            let mut ctx = rt.filter(MSGS[k].as_bytes());
            prep(k)(&mut ctx);
            let mut open: Vec<(Context, Option<Input>, Vec<bool>, Vec<Ob>)> = vec![(ctx, Some(Input::script("", sc.clone())), vec![], vec![])];
            let mut ends = 0;
            while let Some((mut ctx, input, path, mut obs)) = open.pop() {
                cx.step(1);
                let copy = ctx.clone();
                let r = ctx.run(input.unwrap());
                // the copy is only looked at after the original went on
                drop(copy);
                match r {
                    None => {
                        ends += 1;
                        cx.trace();
                        let got = scrub_obs(obs);
                        cx.outcome(&hash_obs(&got));
                        let mut want = fresh(&path);
                        for _ in 0..2 {
                            if want != got {
                                want = fresh(&path);
                            }
                        }
                        if want != got {
                            bad = Some(Fail::new("copies", format!("{}\nanswers {path:?}\n{}", p.texts[s], diff(&want, &got))));
                            return;
                        }
                    }
                    Some(Err(e)) => {
                        obs.push(Ob::Err(format!("{e:?}")));
                        open.push((ctx, Some(Input::True), path, obs));
                    }
                    Some(Ok(e)) => {
                        obs.push(Ob::Ev(e.clone()));
                        if obs.len() > 60 || ends > 300 {
                            return;
                        }
                        if asks(&e) && path.len() < 8 {
                            let c2 = ctx.clone();
                            let (mut p1, mut p2) = (path.clone(), path);
                            p1.push(first == 1);
                            p2.push(first == 0);
                            open.push((c2, Some(answer(&e, first == 1)), p1, obs.clone()));
                            open.push((ctx, Some(answer(&e, first == 0)), p2, obs));
                        } else {
                            // the copy takes over; the original is used up first
                            let c2 = ctx.clone();
                            if first == 1 {
                                let mut n = 0;
                                let mut i = answer(&e, true);
                                while let Some(r) = ctx.run(i) {
                                    n += 1;
                                    i = match &r {
                                        Ok(e) => answer(e, n % 2 == 0),
                                        Err(_) => Input::True,
                                    };
                                    if n > 60 {
                                        break;
                                    }
                                }
                            }
                            open.push((c2, Some(answer(&e, true)), path, obs));
                        }
                    }
                }
            }
        });
        cx.state(v);
        match (bad, r) {
            (Some(f), _) => Err(f),
            (_, Err(p2)) if !matches!(p.want[s][k].last(), Some(Ob::Panic(_))) => Err(Fail::new("panic", format!("{}\n{p2}", p.texts[s]))),
            _ => Ok(()),
        }
    })
}

// ---- threads: one run on each, switched at every call of a function the scripts use

#[derive(Default)]
struct Baton {
    turn: usize,
    order: Vec<usize>,
    at: usize,
    over: [bool; 3],
    log: Vec<usize>,
}
type Shared = Arc<(Mutex<Baton>, Condvar)>;
thread_local!(static ME: RefCell<Option<(Shared, usize)>> = const { RefCell::new(None) });
/// gives the next thread its turn and waits for the next one of this thread
fn pass(end: bool) {
    let Some((b, me)) = ME.with(|m| m.borrow().clone()) else { return };
    let mut g = b.0.lock().unwrap();
    if end {
        g.over[me] = true;
    }
    // threads that are over are left out
    let next = loop {
        if g.at >= g.order.len() {
            break (0..3).find(|t| !g.over[*t]);
        }
        let t = g.order[g.at];
        g.at += 1;
        if !g.over[t] {
            break Some(t);
        }
    };
    if let Some(t) = next {
        g.turn = t;
        g.log.push(t);
    }
    b.1.notify_all();
    if !end {
        while g.turn != me {
            g = b.1.wait(g).unwrap();
        }
    }
}
fn pause<'x>(_: &'x Context<'x>, mut v: Vec<Variable>) -> Variable {
    pass(false);
    v.pop().unwrap_or_default()
}
const STEPS: &[&[&str]] = &[
    &["set \"v\" \"a\"", "set \"global.x\" \"${envelope.from}\"", "set :upper \"v\" \"${v}${global.x}\"", "fileinto \"${v}${global.x}\""],
    &["if header :regex \"subject\" \"(h.l*o)|(pl)\" { P fileinto \"${1}${2}\"; }", "if header :regex \"subject\" \"(h.l*o)|(pl)\" { fileinto \"again${1}${2}\"; }", "if string :regex \"${1}\" \"(.)\" { P fileinto \"${0}\"; }", "keep"],
    &["addflag \"f\" \"A B\"", "addheader \"X-A\" \"${envelope.from}\"", "replace \"new ${global.g}\"", "keep :flags \"${f}\""],
    &["foreverypart { P set \"v\" \"${v}x\"; }", "include :personal \"sub\"", "if mailboxexists \"m\" { P fileinto \"m\"; }", "fileinto \"${v}${global.x}\""],
    &["let \"n\" \"1 + pause(2) * pause(3)\"", "while \"pause(n) < 10\" { let \"n\" \"n + pause(2)\"; }", "fileinto \"${n}\"", "if header :matches \"subject\" \"*l*\" { P fileinto \"${1}-${2}\"; }"],
    &["vacation :handle \"${envelope.from}\" \"v\"", "redirect :copy \"a@b.example\"", "notify \"mailto:x@y.example\"", "ereject \"r\""],
];
fn threads(n: usize, switches: usize) -> Box<dyn Suite> {
    let mut map = FunctionMap::new().with_function("pause", pause);
    let c = sieve::Compiler::new().register_functions(&mut map);
    let rt: &'static Runtime = Box::leak(Box::new(c20::rt().with_functions(&mut map)));
    let rq = c20::req();
    let texts: Vec<String> = STEPS.iter().map(|s| format!("{rq}{}", s.iter().map(|x| format!("eval \"pause(1)\"; {}{} ", x.replace("P ", "eval \"pause(1)\"; "), if x.ends_with('}') { "" } else { ";" })).collect::<String>())).collect();
    let bytes: Vec<Vec<u8>> = texts.iter().map(|t| rkyv_bytes(&compile(&c, t).unwrap_or_else(|e| panic!("{t}: {e:?}"))).unwrap()).collect();
    let subb = rkyv_bytes(&compile(&c, SUB).unwrap()).unwrap();
    // on its own (pause does nothing without a baton)
    let solo = {
        let (bytes, subb) = (bytes.clone(), subb.clone());
        move |s: usize, k: usize| {
            let (sc, sub) = (cold(&bytes[s]), cold(&subb));
            let mut r = Run::new(rt, k, &sc, &sub);
            while r.step() {}
            r.end()
        }
    };
    let want: Vec<Vec<Vec<Ob>>> = (0..texts.len()).map(|s| (0..n).map(|k| solo(s, k)).collect()).collect();
    // how many turns a run takes: counted with a baton of its own
    let turns: Vec<Vec<usize>> = (0..texts.len())
        .map(|s| {
            (0..n)
                .map(|k| {
                    let b: Shared = Arc::new((Mutex::new(Baton { over: [k != 0, k != 1, k != 2], ..Default::default() }), Condvar::new()));
                    b.0.lock().unwrap().turn = k;
                    ME.with(|m| *m.borrow_mut() = Some((b.clone(), k)));
                    let (sc, sub) = (cold(&bytes[s]), cold(&subb));
                    let mut r = Run::new(rt, k, &sc, &sub);
                    loop {
                        pass(false);
                        if !r.step() {
                            break;
                        }
                    }
                    ME.with(|m| *m.borrow_mut() = None);
                    let g = b.0.lock().unwrap();
                    g.log.len()
                })
                .collect()
        })
        .collect();
    let m = texts.len();
    radix(&format!("threads-{n}"), &format!("{n} threads each running one of {m} scripts on the same runtime (with the compiled script shared where it is the same), held and let go before every command, inside conditions, loops and expressions, and between the calls: every order with up to {switches} changes of thread"), vec![m; n], move |v, cx| {
        let mut all = vec![];
        let mut left: Vec<usize> = (0..n).map(|i| turns[v[i]][i]).collect();
        orders(&mut left, &mut vec![], switches, &mut all, 1_000_000);
        cx.state(v);
        let mut seen = 0u64;
        for o in all {
            let mut attempt = 0;
            loop {
                let mut scripts: Vec<Arc<Sieve>> = vec![];
                for i in 0..n {
                    let s = match (0..i).find(|j| v[*j] == v[i]) {
                        Some(j) => scripts[j].clone(),
                        None => cold(&bytes[v[i]]),
                    };
                    scripts.push(s);
                }
                let sub = cold(&subb);
                let mut baton = Baton { order: o.clone(), over: [false, false, n < 3], ..Default::default() };
                baton.turn = o[0];
                baton.at = 1;
                let b: Shared = Arc::new((Mutex::new(baton), Condvar::new()));
                let got: Vec<Vec<Ob>> = std::thread::scope(|t| {
                    let hs: Vec<_> = (0..n)
                        .map(|i| {
                            let (b, sc, sub) = (b.clone(), &scripts[i], &sub);
                            t.spawn(move || {
                                ME.with(|m| *m.borrow_mut() = Some((b.clone(), i)));
                                {
                                    let mut g = b.0.lock().unwrap();
                                    while g.turn != i {
                                        g = b.1.wait(g).unwrap();
                                    }
                                }
                                let r = guard(|| {
                                    let mut r = Run::new(rt, i, sc, sub);
                                    while r.step() {
                                        pass(false);
                                    }
                                    r.end()
                                });
                                pass(true);
                                match r {
                                    Ok(o) => o,
                                    Err(p) => vec![Ob::Panic(p)],
                                }
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                cx.trace();
                cx.step(o.len() as u64);
                seen ^= h64(&b.0.lock().unwrap().log);
                let mut bad = None;
                for i in 0..n {
                    let w = if attempt == 0 { want[v[i]][i].clone() } else { solo(v[i], i) };
                    if got[i] != w {
                        bad = Some(Fail::new("threads", format!("order {o:?} of scripts {v:?}: thread {i} runs\n{}\n{}", texts[v[i]], diff(&w, &got[i]))));
                        break;
                    }
                }
                match bad {
                    None => break,
                    Some(f) if attempt >= 2 => return Err(f),
                    _ => attempt += 1,
                }
            }
        }
        cx.outcome(&seen);
        Ok(())
    })
}

pub fn property(thorough: bool) -> Property {
    let rq = c20::req();
    let few: Vec<String> = [0, 3, 6, 16].iter().map(|i| format!("{rq}{}", MORE[*i])).chain(EXTRA.iter().map(|m| format!("{rq}{m}"))).collect();
    let some = |n: usize| more().into_iter().chain(corpus().into_iter().step_by(n)).collect::<Vec<_>>();
    let mut suites = vec![
        repeated(),
        interleaved("interleaved-2", "longer scripts", more(), 2, if thorough { 6 } else { 4 }),
        interleaved("interleaved-2-wide", "scripts", some(if thorough { 37 } else { 131 }), 2, 2),
        interleaved("interleaved-3", "longer scripts", few[..if thorough { few.len() } else { 7 }].to_vec(), 3, 2),
        histories(if thorough { 3 } else { 2 }),
        compilers(if thorough { 3 } else { 2 }),
        copies(),
        threads(2, if thorough { 4 } else { 3 }),
    ];
    if thorough {
        suites.push(threads(3, 2));
    }
    Property {
        id: "C22",
        level: "model_checking",
        technique: "stateless exploration of the real interpreter: all orders of the steps of several runs (cooperative and on threads under a controlled scheduler) up to a bound on changes of run, all histories of reuse, all trees of copied contexts; oracle: the same run on its own with everything new",
        assumptions: vec!["threads are switched at calls of the library and at function calls in scripts, not inside single instructions".into(), "generated message ids and boundaries and the current date are left out of the comparison; a difference has to persist in three attempts (the clock)".into()],
        suites,
    }
}
