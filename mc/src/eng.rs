//! Drives the real library: compile, run, collect the observable events.
use crate::harness::guard;
use sieve::{Compiler, Context, Event, Input, Runtime, Sieve};
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ob {
    Ev(Event),
    Err(String),
    CompileErr(String),
    Panic(String),
    /// more events than any model behaviour can have
    Overrun,
}

pub fn show_event(e: &Event) -> String {
    match e {
        Event::CreatedMessage { message_id, message } => {
            format!("CreatedMessage#{message_id} {:?}", String::from_utf8_lossy(message))
        }
        e => format!("{e:?}"),
    }
}
pub fn show(o: &Ob) -> String {
    match o {
        Ob::Ev(e) => show_event(e),
        o => format!("{o:?}"),
    }
}
pub fn show_all(o: &[Ob]) -> String {
    o.iter().map(show).collect::<Vec<_>>().join("\n    ")
}
pub fn hash_obs(o: &[Ob]) -> u64 {
    crate::harness::h64(&show_all(o))
}

pub fn compile(c: &Compiler, script: &str) -> Result<Arc<Sieve>, Ob> {
    compile_bytes(c, script.as_bytes())
}
pub fn compile_bytes(c: &Compiler, script: &[u8]) -> Result<Arc<Sieve>, Ob> {
    match guard(|| c.compile(script)) {
        Ok(Ok(s)) => Ok(Arc::new(s)),
        Ok(Err(e)) => Err(Ob::CompileErr(e.to_string())),
        Err(p) => Err(Ob::Panic(format!("compile: {p}"))),
    }
}

pub const MAX_EVENTS: usize = 2000;

/// Runs a script on a message; `host` answers every event.
pub fn run_with<'a>(
    rt: &'a Runtime,
    script: &Arc<Sieve>,
    msg: &'a [u8],
    prep: impl FnOnce(&mut Context<'a>),
    mut host: impl FnMut(&Event) -> Input,
) -> Vec<Ob> {
    let mut obs = Vec::new();
    let r = guard(|| {
        let mut ctx = rt.filter(msg);
        prep(&mut ctx);
        drive(&mut ctx, Input::script("", script.clone()), &mut obs, &mut host);
    });
    if let Err(p) = r {
        obs.push(Ob::Panic(p));
    }
    obs
}

pub fn drive<'a>(
    ctx: &mut Context<'a>,
    input: Input,
    obs: &mut Vec<Ob>,
    host: &mut impl FnMut(&Event) -> Input,
) {
    let mut input = input;
    while let Some(r) = ctx.run(input) {
        match r {
            Ok(ev) => {
                input = host(&ev);
                obs.push(Ob::Ev(ev));
            }
            Err(e) => {
                input = Input::True;
                obs.push(Ob::Err(format!("{e:?}")));
            }
        }
        if obs.len() > MAX_EVENTS {
            obs.push(Ob::Overrun);
            break;
        }
    }
}

/// Compile and run in one go (default host: True to everything).
pub fn run_script<'a>(
    comp: &Compiler,
    rt: &'a Runtime,
    script: &str,
    msg: &'a [u8],
    prep: impl FnOnce(&mut Context<'a>),
    host: impl FnMut(&Event) -> Input,
) -> Vec<Ob> {
    match compile(comp, script) {
        Ok(s) => run_with(rt, &s, msg, prep, host),
        Err(o) => vec![o],
    }
}

pub fn yes(_: &Event) -> Input {
    Input::True
}

pub fn diff(expected: &[Ob], got: &[Ob]) -> String {
    format!("expected:\n    {}\ngot:\n    {}", show_all(expected), show_all(got))
}

/// Replaces the parts of a generated message that legitimately vary from run to run: generated
/// boundaries and message ids (`time.hash.hash`) and the current date.
pub fn scrub(m: &[u8]) -> Vec<u8> {
    let hex = |c: u8| c.is_ascii_digit() || (b'a'..=b'f').contains(&c);
    let run = |i: usize| {
        let mut j = i;
        while j < m.len() && hex(m[j]) {
            j += 1;
        }
        j
    };
    let mut o = Vec::with_capacity(m.len());
    let mut i = 0;
    while i < m.len() {
        if hex(m[i]) && (i == 0 || !hex(m[i - 1])) {
            let a = run(i);
            if a - i >= 15 && m.get(a) == Some(&b'.') {
                let b = run(a + 1);
                if b - a > 8 && m.get(b) == Some(&b'.') {
                    let c = run(b + 1);
                    if c - b > 8 {
                        o.extend_from_slice(b"~UNIQ~");
                        i = c;
                        continue;
                    }
                }
            }
            o.extend_from_slice(&m[i..a]);
            i = a;
            continue;
        }
        if m[i..].starts_with(b"Date: ") && (i == 0 || m[i - 1] == b'\n') {
            let e = m[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(m.len());
            let l = String::from_utf8_lossy(&m[i..e]).into_owned();
            if (2024..2100).any(|y| l.contains(&format!(" {y} "))) {
                o.extend_from_slice(b"Date: ~NOW~\r");
                i = e;
                continue;
            }
        }
        o.push(m[i]);
        i += 1;
    }
    o
}
pub fn scrub_obs(mut v: Vec<Ob>) -> Vec<Ob> {
    let text = |s: &mut String| {
        if s.len() >= 35 && s.contains('.') {
            *s = String::from_utf8_lossy(&scrub(s.as_bytes())).into_owned();
        }
    };
    for o in &mut v {
        match o {
            Ob::Ev(Event::CreatedMessage { message, .. }) => *message = scrub(message),
            Ob::Ev(Event::DuplicateId { id, .. }) => text(id),
            Ob::Ev(Event::FileInto { folder, .. }) => text(folder),
            Ob::Ev(Event::Notify { message, .. }) => text(message),
            Ob::Ev(Event::SetEnvelope { value, .. }) => text(value),
            Ob::Ev(Event::Reject { reason, .. }) => text(reason),
            _ => (),
        }
    }
    v
}
