use super::core::*;
use crate::eng::*;
use crate::harness::*;
use sieve::Sieve;
use std::sync::Arc;

pub struct Pre {
    pub body: String,
    pub sc: Arc<Sieve>,
    pub prog: (B, usize),
}
pub fn precompile(c: &sieve::Compiler, v: Vec<B>, tag: &str) -> Vec<Pre> {
    v.into_iter()
        .map(|b| {
            // distinct labels per script: prefix every mark with the script's tag
            let mut b = b;
            retag(&mut b, tag);
            let mut n = 0;
            number(&mut b, &mut n);
            let src = render(&b);
            match compile(c, &src) {
                Ok(sc) => Pre { body: src[REQ.len()..].to_string(), sc, prog: resolve(&b) },
                Err(e) => panic!("must compile: {}\n{src}", show(&e)),
            }
        })
        .collect()
}
fn retag(b: &mut B, tag: &str) {
    for c in b {
        match c {
            C::Mark(_, t) => t.insert(0, P::T(tag.into())),
            C::If(br, el) => {
                for (_, b) in br {
                    retag(b, tag)
                }
                if let Some(b) = el {
                    retag(b, tag)
                }
            }
            C::ForEvery(_, b) | C::While(_, b) => retag(b, tag),
            _ => (),
        }
    }
}
fn inc(name: &str, global: bool, once: bool, optional: bool) -> C {
    C::Include { name: name.into(), global, once, optional }
}
fn set(n: &str, v: &str) -> C {
    C::Set { name: n.into(), val: s(v), local: false }
}
pub fn matchc(v: &str) -> C {
    C::If(vec![(T::Str(Mt::Matches, vec![s(v)], vec![s("*")]), vec![])], None)
}

#[allow(clippy::type_complexity)]
fn product(
    name: &str,
    bounds: &str,
    dims: Vec<(Vec<(bool, &'static str)>, Vec<B>, bool)>, // names under which the script is known, contents, may be absent
    opts: impl Fn(usize) -> Opts + Sync + Send + 'static,
    nopts: usize,
    msg: Msg,
) -> Box<dyn Suite> {
    let c = compiler();
    let pres: Vec<(Vec<(bool, &'static str)>, Vec<Pre>, bool)> = dims
        .into_iter()
        .enumerate()
        .map(|(i, (n, b, a))| (n, precompile(&c, b, ["", "A", "B", "G"][i]), a))
        .collect();
    let mut rx: Vec<usize> = pres.iter().map(|(_, p, a)| p.len() + *a as usize).collect();
    rx.push(nopts);
    let rts: Vec<_> = (0..nopts).map(|i| runtime().with_max_nested_includes(opts(i).max_nested)).collect();
    radix(name, bounds, rx, move |v, cx| {
        let mut lib = Lib::default();
        for (d, (names, p, _)) in pres.iter().enumerate().skip(1) {
            if let Some(p) = p.get(v[d]) {
                for (g, n) in names {
                    lib.compiled.insert((*g, n.to_string()), p.sc.clone());
                    lib.resolved.insert((*g, n.to_string()), p.prog.clone());
                    if cx.replaying {
                        lib.text.push_str(&format!("--- {}{n}\n{}", if *g { "global:" } else { "" }, p.body));
                    }
                }
            }
        }
        let m = &pres[0].1[v[0]];
        let k = v[v.len() - 1];
        check_compiled(&rts[k], &m.sc, &m.prog, &m.body, &msg, &lib, &opts(k), cx)
            .map_err(|f| Fail::new(format!("{}|{:?}", f.key, v), f.detail))
    })
}

pub fn property(thorough: bool) -> Property {
    let mut suites: Vec<Box<dyn Suite>> = vec![];
    let show_vars = || C::Mark(0, s("[${x}|${1}|${global.g}]"));
    // control flow of inclusion
    let leaves = |extra: Vec<C>| {
        let mut v = vec![mark(), inc("a", false, false, false), inc("a", true, false, false), inc("a", false, true, false), inc("b", false, false, true), C::Return, C::Stop];
        v.extend(extra);
        v
    };
    let g = |l: Vec<C>| Gram { leaves: l, tests: vec![T::Host(0)], max_branches: 1, with_else: false, max_depth: 1, ..Default::default() };
    let nm = if thorough { 4 } else { 3 };
    suites.push(product(
        "control",
        &format!("main script of ≤{nm} nodes × personal script a (≤2) × script b (≤1, or missing) × global script a (≤1), over mark/include (personal, global, :once, :optional)/return/stop/if, max_nested 3"),
        vec![
            (vec![], g(leaves(vec![])).blocks_upto(nm), false),
            (vec![(false, "a")], g(leaves(vec![])).blocks_upto(2), false),
            (vec![(false, "b")], g(leaves(vec![])).blocks_upto(1), true),
            (vec![(true, "a")], g(leaves(vec![])).blocks_upto(1), true),
        ],
        |_| Opts::default(),
        1,
        Msg::simple(),
    ));
    // nesting limit
    let l = vec![mark(), inc("a", false, false, false), inc("b", false, false, false), inc("a", false, true, false), C::Error(s("e"))];
    suites.push(product(
        "nesting",
        "mutually recursive scripts against nesting limits 1..=5 (quick) / 1..=8",
        vec![
            (vec![], g(l.clone()).blocks_upto(2), false),
            (vec![(false, "a")], g(l.clone()).blocks_upto(2), false),
            (vec![(false, "b")], g(l.clone()).blocks_upto(if thorough { 3 } else { 2 }), false),
        ],
        |i| Opts { max_nested: i + 1, ..Default::default() },
        if thorough { 8 } else { 5 },
        Msg::simple(),
    ));
    // variables
    let vl = |t: &str| {
        vec![
            show_vars(),
            set("x", &format!("{t}1${{x}}")),
            C::Set { name: "X".into(), val: s(&format!("{t}l")), local: true },
            set("global.g", &format!("{t}g${{x}}")),
            matchc(&format!("{t}m${{global.g}}")),
            inc("a", false, false, false),
            inc("b", false, false, false),
        ]
    };
    let fin = |v: Vec<B>| {
        v.into_iter()
            .map(|mut b| {
                b.push(C::Mark(0, s("[${x}|${1}|${global.g}]")));
                b
            })
            .collect::<Vec<_>>()
    };
    let vg = |t: &str| Gram { leaves: vl(t), max_depth: 0, ..Default::default() };
    suites.push(product(
        "variables",
        "local, :local, match and global variables across includer (≤3, thorough ≤4 commands) and included scripts (≤2 each), values observed everywhere",
        vec![
            (vec![], fin(vg("M").blocks_upto(if thorough { 4 } else { 3 })), false),
            (vec![(false, "a")], fin(vg("A").blocks_upto(2)), false),
            (vec![(false, "b")], fin(vg("B").blocks_upto(1)), true),
        ],
        |_| Opts { max_nested: 3, ..Default::default() },
        1,
        Msg::simple(),
    ));
    // declared globals (global command), same name local in one script and global in another
    let gl = |t: &str, decl: bool| {
        let g = Gram { leaves: vec![set("v", &format!("{t}${{v}}")), set("V", t), C::Mark(0, s("[${v}|${V}|${global.v}]")), inc("a", false, false, false), inc("b", false, true, false)], max_depth: 0, ..Default::default() };
        g.blocks_upto(if thorough { 3 } else { 2 })
            .into_iter()
            .map(|mut b| {
                if decl {
                    b.insert(0, C::Global(vec!["v".into()]));
                }
                b.push(C::Mark(0, s("[${v}|${V}|${global.v}]")));
                b
            })
            .collect::<Vec<_>>()
    };
    suites.push(product(
        "global-command",
        "scripts with and without `global \"v\"` assigning and reading v in both letter cases",
        vec![
            (vec![], [gl("M", true), gl("m", false)].concat(), false),
            (vec![(false, "a")], [gl("A", true), gl("a", false)].concat(), false),
            (vec![(false, "b")], vec![gl("B", true)[0].clone(), gl("b", false)[0].clone()], false),
        ],
        |_| Opts::default(),
        1,
        Msg::simple(),
    ));
    // inclusion inside loops
    let lg = |inner: bool| Gram {
        leaves: vec![C::MarkPart(0), inc("a", false, false, false), C::Return, C::Stop],
        loop_leaves: vec![C::Break(None)],
        fep: true,
        tests: vec![T::Host(0)],
        max_branches: 1,
        max_depth: if inner { 2 } else { 2 },
        ..Default::default()
    };
    suites.push(product(
        "loops",
        "inclusion from within foreverypart and loops inside included scripts, left normally or by break/return/stop, on a nested multipart message",
        vec![
            (vec![], lg(false).blocks_upto(if thorough { 4 } else { 3 }), false),
            (vec![(false, "a")], lg(true).blocks_upto(3).into_iter().filter(|b| !format!("{b:?}").contains("Include")).collect(), false),
        ],
        |_| Opts { max_nested: 2, ..Default::default() },
        1,
        Msg::tree(&[0, 0, 1]),
    ));
    Property {
        id: "C05",
        level: "model_checking",
        technique: "explicit-state exploration of all small sets of mutually including scripts, each run replayed on the real interpreter",
        assumptions: vec!["the host answers IncludeScript with the script of that name and kind, or with False when there is none".into()],
        suites,
    }
}
