use super::core::{q, runtime, REQ};
use crate::eng::*;
use crate::harness::*;
use sieve::runtime::Variable;
use sieve::{Compiler, Event, FunctionMap, Input, Runtime};
use std::cmp::Ordering;

// ---------------------------------------------------------------- reference model
#[derive(Clone, Debug, PartialEq)]
enum V {
    I(i64),
    F(f64),
    S(String),
    A(Vec<V>),
}
use V::*;
fn b(x: bool) -> V {
    I(x as i64)
}
fn from(v: &Variable) -> V {
    match v {
        Variable::Integer(i) => I(*i),
        Variable::Float(f) => F(*f),
        Variable::String(s) => S(s.to_string()),
        Variable::Array(a) => A(a.iter().map(from).collect()),
    }
}
fn to(v: &V) -> Variable {
    match v {
        I(i) => Variable::Integer(*i),
        F(f) => Variable::Float(*f),
        S(s) => Variable::from(s.clone()),
        A(a) => Variable::Array(a.iter().map(to).collect::<Vec<_>>().into()),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Mul,
    Div,
    Add,
    Sub,
    Gt,
    Ge,
    Lt,
    Le,
    Eq,
    Ne,
    Xor,
    And,
    Or,
}
const OPS: [Op; 13] = [Op::Mul, Op::Div, Op::Add, Op::Sub, Op::Gt, Op::Ge, Op::Lt, Op::Le, Op::Eq, Op::Ne, Op::Xor, Op::And, Op::Or];
impl Op {
    fn text(self) -> &'static str {
        self.spellings()[0]
    }
    fn spellings(self) -> &'static [&'static str] {
        match self {
            Op::Mul => &["*"],
            Op::Div => &["/"],
            Op::Add => &["+"],
            Op::Sub => &["-"],
            Op::Gt => &[">"],
            Op::Ge => &[">=", "=>"],
            Op::Lt => &["<"],
            Op::Le => &["<=", "=<"],
            Op::Eq => &["==", "="],
            Op::Ne => &["!="],
            Op::Xor => &["^"],
            Op::And => &["&&", "&"],
            Op::Or => &["||", "|"],
        }
    }
    fn prec(self) -> u8 {
        match self {
            Op::Mul | Op::Div => 7,
            Op::Add | Op::Sub => 6,
            Op::Gt | Op::Ge | Op::Lt | Op::Le => 5,
            Op::Eq | Op::Ne => 4,
            Op::Xor => 3,
            Op::And => 2,
            Op::Or => 1,
        }
    }
}
fn truth(v: &V) -> bool {
    match v {
        I(i) => *i != 0,
        F(f) => *f != 0.0,
        S(s) => !s.is_empty(),
        A(a) => !a.is_empty(),
    }
}
/// numeric reading of a scalar
fn num(v: &V) -> Option<V> {
    Some(match v {
        S(s) => match (s.parse::<i64>(), s.parse::<f64>()) {
            (Ok(i), _) => I(i),
            (_, Ok(f)) => F(f),
            _ => I(0),
        },
        A(_) => return None,
        n => n.clone(),
    })
}
fn fl(v: &V) -> f64 {
    match v {
        I(i) => *i as f64,
        F(f) => *f,
        _ => unreachable!(),
    }
}
fn text(v: &V) -> String {
    match v {
        I(i) => i.to_string(),
        F(f) => f.to_string(),
        S(s) => s.clone(),
        A(a) => a.iter().map(text).collect::<Vec<_>>().join("\n"),
    }
}
fn same(x: &V, y: &V) -> bool {
    match (x, y) {
        (I(a), I(b)) => a == b,
        (S(a), S(b)) => a == b,
        (A(a), A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (A(_), _) | (_, A(_)) => false,
        _ => match (num(x).unwrap(), num(y).unwrap()) {
            (I(a), I(b)) => a == b,
            (a, b) => fl(&a) == fl(&b),
        },
    }
}
/// None: unordered; Err: no order is defined
fn order(x: &V, y: &V) -> Result<Option<Ordering>, ()> {
    Ok(match (x, y) {
        (S(a), S(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
        (A(a), A(b)) => {
            for (x, y) in a.iter().zip(b) {
                match order(x, y)? {
                    Some(Ordering::Equal) => {}
                    o => return Ok(o),
                }
            }
            Some(a.len().cmp(&b.len()))
        }
        (A(_), _) | (_, A(_)) => return Err(()),
        _ => match (num(x).unwrap(), num(y).unwrap()) {
            (I(a), I(b)) => Some(a.cmp(&b)),
            (a, b) => fl(&a).partial_cmp(&fl(&b)),
        },
    })
}
/// None: the value is not defined (any value is accepted, but the evaluation must go on)
fn binary(op: Op, x: V, y: V) -> Option<V> {
    let arith = |i: fn(i128, i128) -> i128, f: fn(f64, f64) -> f64| -> Option<V> {
        Some(match (num(&x)?, num(&y)?) {
            (I(a), I(b)) => I(i(a as i128, b as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64),
            (a, b) => F(f(fl(&a), fl(&b))),
        })
    };
    let rel = |f: fn(Ordering) -> bool| -> Option<V> { Some(b(order(&x, &y).ok()?.is_some_and(f))) };
    match op {
        Op::Add => match (&x, &y) {
            (A(p), A(q)) => Some(A(p.iter().chain(q).cloned().collect())),
            (A(p), q) => Some(A(p.iter().chain([q]).cloned().collect())),
            (p, A(q)) => Some(A([p].into_iter().chain(q).cloned().collect())),
            (S(p), _) if p.is_empty() => Some(y),
            (_, S(q)) if q.is_empty() => Some(x),
            (S(_), _) | (_, S(_)) => Some(S(text(&x) + &text(&y))),
            _ => arith(|a, b| a + b, |a, b| a + b),
        },
        Op::Sub => match (&x, &y) {
            (A(p), q) => Some(A(p.iter().filter(|e| !same(e, q)).cloned().collect())),
            _ => arith(|a, b| a - b, |a, b| a - b),
        },
        Op::Mul => arith(|a, b| a * b, |a, b| a * b),
        Op::Div => {
            let (p, q) = (fl(&num(&x)?), fl(&num(&y)?));
            Some(F(if q == 0.0 { 0.0 } else { p / q }))
        }
        Op::Eq => Some(b(same(&x, &y))),
        Op::Ne => Some(b(!same(&x, &y))),
        Op::Gt => rel(|o| o == Ordering::Greater),
        Op::Ge => rel(|o| o != Ordering::Less),
        Op::Lt => rel(|o| o == Ordering::Less),
        Op::Le => rel(|o| o != Ordering::Greater),
        Op::Xor => Some(b(truth(&x) != truth(&y))),
        Op::And => Some(b(truth(&x) && truth(&y))),
        Op::Or => Some(b(truth(&x) || truth(&y))),
    }
}
fn unary(not: bool, x: V) -> Option<V> {
    Some(if not {
        b(!truth(&x))
    } else {
        match num(&x)? {
            I(i) => I(i.checked_neg().unwrap_or(i64::MAX)),
            F(f) => F(-f),
            _ => unreachable!(),
        }
    })
}
#[derive(Clone, Debug)]
enum E {
    Lit(&'static str, V),
    /// host function of that many arguments
    Call(Vec<E>),
    /// function of the runtime: sum of its two arguments' numbers
    Sum(Vec<E>),
    Bin(Op, Box<E>, Box<E>),
    Not(Box<E>),
    Neg(Box<E>),
    Arr(Vec<E>),
    At(Box<E>, Box<E>),
}
use E::*;
struct Host {
    calls: Vec<(usize, Vec<V>)>,
    answers: Vec<V>,
    steps: u64,
}
impl Host {
    fn new(answers: Vec<V>) -> Host {
        Host { calls: vec![], answers, steps: 0 }
    }
    fn ask(&mut self, args: Vec<V>) -> V {
        let n = self.calls.len();
        self.calls.push((args.len(), args));
        self.answers[n % self.answers.len()].clone()
    }
}
fn eval(e: &E, h: &mut Host) -> Option<V> {
    h.steps += 1;
    Some(match e {
        Lit(_, v) => v.clone(),
        Call(a) => {
            let a = a.iter().map(|x| eval(x, h)).collect::<Option<Vec<_>>>()?;
            h.ask(a)
        }
        Sum(a) => {
            let mut t = I(0);
            for x in a {
                t = binary(Op::Add, t, num(&eval(x, h)?)?)?;
            }
            t
        }
        Bin(op, x, y) => {
            let x = eval(x, h)?;
            match op {
                // a decided && or || does not look at its right side
                Op::And if !truth(&x) => x,
                Op::Or if truth(&x) => x,
                _ => {
                    let y = eval(y, h)?;
                    binary(*op, x, y)?
                }
            }
        }
        Not(x) => unary(true, eval(x, h)?)?,
        Neg(x) => unary(false, eval(x, h)?)?,
        Arr(x) => A(x.iter().map(|x| eval(x, h)).collect::<Option<Vec<_>>>()?),
        At(x, y) => {
            let x = eval(x, h)?;
            let i = eval(y, h)?;
            match (x, i) {
                (A(a), I(i)) => usize::try_from(i).ok().and_then(|i| a.get(i).cloned()).unwrap_or(S(String::new())),
                _ => return None,
            }
        }
    })
}
fn prec(e: &E) -> u8 {
    match e {
        Bin(op, ..) => op.prec(),
        Not(_) | Neg(_) => 8,
        _ => 9,
    }
}
/// text of an expression with as few parentheses as possible, or around every operation
fn show_e(e: &E, full: bool) -> String {
    let p = |x: &E, need: bool| {
        let t = show_e(x, full);
        if need || full && matches!(x, Bin(..) | Not(_) | Neg(_)) {
            format!("({t})")
        } else {
            t
        }
    };
    let l = |v: &[E]| v.iter().map(|x| show_e(x, full)).collect::<Vec<_>>().join(", ");
    match e {
        Lit(t, _) => t.to_string(),
        Call(a) => format!("f{}({})", a.len(), l(a)),
        Sum(a) => format!("sum({})", l(a)),
        Bin(op, x, y) => format!("{} {} {}", p(x, prec(x) < op.prec()), op.text(), p(y, prec(y) <= op.prec())),
        Not(x) => format!("!{}", p(x, prec(x) < 8)),
        Neg(x) => format!("-{}", p(x, prec(x) < 8)),
        Arr(a) => format!("[{}]", l(a)),
        At(x, y) => format!("{}[{}]", p(x, prec(x) < 9 || matches!(**x, Lit(..))), show_e(y, full)),
    }
}
// ---------------------------------------------------------------- the library
struct L {
    c: Compiler,
    rt: Runtime,
}
const OBS: u32 = 9;
fn functions() -> FunctionMap {
    FunctionMap::new()
        .with_external_function("f0", 0, 0)
        .with_external_function("f1", 1, 1)
        .with_external_function("f2", 2, 2)
        .with_external_function("obs", OBS, 1)
        .with_function_args(
            "sum",
            |_, v| v.iter().fold(Variable::Integer(0), |a, x| a.op_add(x.parse_number())),
            2,
        )
}
impl L {
    fn new() -> L {
        let mut f = functions();
        let c = Compiler::new().register_functions(&mut f);
        let rt = runtime().with_functions(&mut f);
        L { c, rt }
    }
    /// function calls made by the script, the last one being the result
    fn run(&self, script: &str, mut answer: impl FnMut(usize) -> V) -> Result<Vec<(usize, Vec<V>)>, String> {
        let mut calls = vec![];
        let mut n = 0;
        let got = run_script(&self.c, &self.rt, script, b"Subject: hi\r\n\r\nx\r\n", |_| {}, |e| match e {
            Event::Function { id, arguments } => {
                calls.push((*id as usize, arguments.iter().map(from).collect::<Vec<_>>()));
                if *id == OBS {
                    return Input::result(Variable::Integer(1));
                }
                n += 1;
                Input::result(to(&answer(n - 1)))
            }
            _ => Input::True,
        });
        match got.last() {
            Some(Ob::Ev(Event::Keep { .. })) => Ok(calls),
            _ => Err(show_all(&got)),
        }
    }
    /// evaluates one expression and compares calls and value with the model
    fn check(&self, e: &E, t: &str, answers: &[V], cx: &mut Cx) -> Res {
        let mut h = Host::new(answers.to_vec());
        let want = eval(e, &mut h);
        cx.step(h.steps);
        cx.trace();
        let script = format!("{REQ}set \"q\" \"\";\nlet \"r\" {};\neval \"obs(r)\";\n", q(t));
        let bad = |w: String| Err(Fail::new(format!("expression {t} answers {answers:?}"), format!("{t} with answers {answers:?}\n{w}")));
        match self.run(&script, |n| answers[n % answers.len()].clone()) {
            Err(w) => bad(format!("expected {want:?}, the run gave {w}")),
            Ok(calls) => {
                let (last, calls) = calls.split_last().unwrap();
                cx.state(&format!("{:?}", last));
                cx.outcome(&format!("{:?}{:?}", last, calls.len()));
                if let Some(want) = want {
                    let r = (OBS as usize, vec![want]);
                    if format!("{last:?}") != format!("{r:?}") || format!("{calls:?}") != format!("{:?}", h.calls) {
                        return bad(format!("expected {r:?} after calls {:?}\ngot {last:?} after calls {calls:?}", h.calls));
                    }
                }
                Ok(())
            }
        }
    }
}
fn values() -> Vec<V> {
    let mut v: Vec<V> = [0, 1, -1, 2, 3, 7, 10, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, 1 << 53, (1 << 53) + 1, 3037000500].map(I).into();
    v.extend([0.0, -0.0, 1.0, 0.5, -1.5, 2.0, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0, 5e-324].map(F));
    v.extend(["", "a", "b", "ab", "A", "0", "1", "-1", "2", "10", "1.5", "1.0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", " 1", "1x", "é", "1e2", "+1", "."].map(|s| S(s.into())));
    v.extend([vec![], vec![I(0)], vec![I(1)], vec![S("a".into())], vec![S("".into())], vec![I(1), I(2)], vec![F(1.0), S("2".into())], vec![A(vec![I(1)])], vec![S("a".into()), S("b".into()), S("a".into())]].map(A));
    v
}
fn operators() -> Box<dyn Suite> {
    let l = L::new();
    let v = values();
    let n = v.len();
    radix(
        "operators",
        "every operator on all pairs of values: integers at all limits, floating point numbers with zeros, infinities, NaN and precision limits, numeric and other texts, arrays; both kinds of operand come from the host",
        vec![n, n, OPS.len()],
        move |i, cx| {
            let e = Bin(OPS[i[2]], Box::new(Call(vec![])), Box::new(Call(vec![])));
            l.check(&e, &show_e(&e, false), &[v[i[0]].clone(), v[i[1]].clone()], cx)
        },
    )
}
fn indexes() -> Box<dyn Suite> {
    let l = L::new();
    let v = values();
    let n = v.len();
    radix(
        "unary-and-index",
        "!x and -x, !!x, --x, -!x, !-x and x[y] for all (pairs of) values",
        vec![n, n, 7],
        move |i, cx| {
            let x = || Box::new(Call(vec![]));
            let e = match i[2] {
                0 => At(x(), x()),
                _ if i[1] > 0 => return Ok(()),
                1 => Not(x()),
                2 => Neg(x()),
                3 => Not(Box::new(Not(x()))),
                4 => Neg(Box::new(Neg(x()))),
                5 => Neg(Box::new(Not(x()))),
                _ => Not(Box::new(Neg(x()))),
            };
            l.check(&e, &show_e(&e, false), &[v[i[0]].clone(), v[i[1]].clone()], cx)
        },
    )
}
/// shapes of binary trees with n inner nodes
fn shapes(n: usize) -> Vec<Vec<u8>> {
    // prefix code: 1 inner, 0 leaf
    if n == 0 {
        return vec![vec![0]];
    }
    let mut o = vec![];
    for l in 0..n {
        for a in shapes(l) {
            for b in shapes(n - 1 - l) {
                o.push([&[1][..], &a, &b].concat());
            }
        }
    }
    o
}
const LEAVES: [&str; 5] = ["0", "1", "2", "3", "4"];
fn build(shape: &[u8], ops: &[usize], un: (usize, usize), at: &mut usize, op: &mut usize, leaf: &mut usize) -> E {
    let here = *at;
    *at += 1;
    let e = if shape[here] == 1 {
        let o = OPS[ops[*op]];
        *op += 1;
        let x = build(shape, ops, un, at, op, leaf);
        let y = build(shape, ops, un, at, op, leaf);
        Bin(o, Box::new(x), Box::new(y))
    } else {
        *leaf += 1;
        Call(vec![Lit(LEAVES[*leaf - 1], I(*leaf as i64 - 1))])
    };
    match un {
        (1, p) if p == here => Not(Box::new(e)),
        (2, p) if p == here => Neg(Box::new(e)),
        _ => e,
    }
}
fn trees(n: usize, full: bool, unary: bool) -> Box<dyn Suite> {
    let l = L::new();
    let sh = shapes(n);
    let nodes = 2 * n + 1;
    let profiles: Vec<Vec<V>> = (0..1 << (n + 1)).map(|m: usize| (0..=n).map(|i| I(if m >> i & 1 == 1 { [2, 3, 5, 7, 11][i] } else { 0 })).collect()).collect();
    let mut r = vec![sh.len(), if unary { 2 * nodes } else { 1 }, profiles.len()];
    r.extend(vec![13; n]);
    radix(
        &format!("trees-{n}{}{}", if full { "-parenthesised" } else { "" }, if unary { "-unary" } else { "" }),
        &format!("all expressions of {n} binary operators of 13{}, written {}; every operand is a host function that names its place, answering 0 or a prime, in all combinations", if unary { " and one ! or - at any place" } else { "" }, if full { "with all parentheses" } else { "with only the necessary parentheses" }),
        r,
        move |v, cx| {
            let un = if unary { (1 + v[1] % 2, v[1] / 2) } else { (0, 0) };
            let e = build(&sh[v[0]], &v[3..], un, &mut 0, &mut 0, &mut 0);
            // the model numbers the calls as they are made, the answer follows the operand's place
            let t = show_e(&e, full);
            let p = &profiles[v[2]];
            let mut h = Placed { p, calls: vec![] };
            let want = h.eval(&e);
            cx.step(nodes as u64);
            cx.trace();
            let script = format!("{REQ}let \"r\" {};\neval \"obs(r)\";\n", q(&t));
            let bad = |w: String| Err(Fail::new(format!("expression {t} operands {p:?}"), format!("{t} with operands {p:?}\n{w}")));
            let mut calls: Vec<usize> = vec![];
            let mut res = None;
            let got = run_script(&l.c, &l.rt, &script, b"Subject: hi\r\n\r\nx\r\n", |_| {}, |e| match e {
                Event::Function { id: OBS, arguments } => {
                    res = Some(from(&arguments[0]));
                    Input::result(Variable::Integer(1))
                }
                Event::Function { arguments, .. } => {
                    let k = arguments[0].to_integer() as usize;
                    calls.push(k);
                    Input::result(to(&p[k.min(p.len() - 1)]))
                }
                _ => Input::True,
            });
            cx.outcome(&format!("{res:?}{calls:?}"));
            cx.state(&(calls.clone(), format!("{res:?}")));
            if calls != h.calls || format!("{res:?}") != format!("{want:?}") {
                return bad(format!("expected {want:?} after calls {:?}\ngot {res:?} after calls {calls:?}\n{}", h.calls, show_all(&got)));
            }
            Ok(())
        },
    )
}
struct Placed<'a> {
    p: &'a [V],
    calls: Vec<usize>,
}
impl Placed<'_> {
    fn eval(&mut self, e: &E) -> Option<V> {
        Some(match e {
            Call(a) => {
                let Lit(_, I(k)) = a[0] else { unreachable!() };
                self.calls.push(k as usize);
                self.p[k as usize].clone()
            }
            Bin(op, x, y) => {
                let x = self.eval(x)?;
                match op {
                    Op::And if !truth(&x) => x,
                    Op::Or if truth(&x) => x,
                    _ => {
                        let y = self.eval(y)?;
                        binary(*op, x, y)?
                    }
                }
            }
            Not(x) => unary(true, self.eval(x)?)?,
            Neg(x) => unary(false, self.eval(x)?)?,
            _ => unreachable!(),
        })
    }
}
/// all expressions of the full grammar by size
fn grammar(size: usize, cache: &mut Vec<Vec<E>>) {
    for n in cache.len()..=size {
        let mut o: Vec<E> = vec![];
        if n == 1 {
            o = vec![Lit("1", I(1)), Lit("'a'", S("a".into())), Call(vec![]), Arr(vec![])];
        } else if n > 1 {
            for x in &cache[n - 1] {
                o.push(Call(vec![x.clone()]));
                o.push(Not(Box::new(x.clone())));
                o.push(Neg(Box::new(x.clone())));
                o.push(Arr(vec![x.clone()]));
            }
            for k in 1..n - 1 {
                for x in &cache[k] {
                    for y in &cache[n - 1 - k] {
                        o.push(Call(vec![x.clone(), y.clone()]));
                        o.push(Sum(vec![x.clone(), y.clone()]));
                        o.push(Arr(vec![x.clone(), y.clone()]));
                        o.push(At(Box::new(x.clone()), Box::new(y.clone())));
                        for op in [Op::Add, Op::Mul, Op::Or, Op::And] {
                            o.push(Bin(op, Box::new(x.clone()), Box::new(y.clone())));
                        }
                    }
                }
            }
        }
        cache.push(o);
    }
}
fn nested(size: usize) -> Box<dyn Suite> {
    let l = L::new();
    let mut g = vec![];
    grammar(size, &mut g);
    let all: Vec<E> = g.into_iter().flatten().collect();
    let n = all.len();
    radix(
        &format!("nested-{size}"),
        &format!("all {n} expressions of at most {size} nodes: constants, host and runtime functions of 0, 1 and 2 arguments, arrays, element access, ! - + * && ||, arbitrarily nested; host answers of three kinds, with and without redundant parentheses"),
        vec![n, 2, 3],
        move |v, cx| {
            let e = &all[v[0]];
            let answers = [vec![I(0), I(1)], vec![A(vec![I(2), S("z".into())]), I(1), F(0.5)], vec![S("".into()), S("7".into())]];
            l.check(e, &show_e(e, v[1] == 1), &answers[v[2]], cx)
        },
    )
}
/// the same token sequence in all spellings
fn spellings() -> Box<dyn Suite> {
    let l = L::new();
    const GAP: [&str; 4] = ["", " ", "\r\n", "  "];
    let leaves: Vec<(&'static str, V)> = vec![("2", I(2)), ("1.5", F(1.5)), ("'x'", S("x".into())), ("q", S("".into())), ("true", I(1)), ("global.g", S("".into()))];
    let forms: Vec<(Op, &'static str)> = OPS.iter().flat_map(|o| o.spellings().iter().map(move |s| (*o, *s))).collect();
    radix(
        "spellings",
        "operand [unary] operator operand operator operand in every spelling of both operators with no, one or several blanks or line breaks in every gap",
        vec![forms.len(), forms.len(), leaves.len(), leaves.len(), 3, 4, 4, 4, 4],
        move |v, cx| {
            let (o1, t1) = forms[v[0]];
            let (o2, t2) = forms[v[1]];
            let lf = |i: usize| Lit(leaves[i].0, leaves[i].1.clone());
            let y: E = match v[4] {
                0 => lf(v[3]),
                1 => Not(Box::new(lf(v[3]))),
                _ => Neg(Box::new(lf(v[3]))),
            };
            let u = ["", "!", "-"][v[4]];
            let (x, z) = (lf(v[2]), lf(0));
            // precedence climbing by hand: equal precedence groups to the left
            let e = if o2.prec() > o1.prec() {
                Bin(o1, Box::new(x), Box::new(Bin(o2, Box::new(y), Box::new(z))))
            } else {
                Bin(o2, Box::new(Bin(o1, Box::new(x), Box::new(y))), Box::new(z))
            };
            // "*" directly after "2." or "global." cannot occur; "1.5*" neither
            let t = format!("{}{}{t1}{}{u}{}{}{t2}{}2", leaves[v[2]].0, GAP[v[5]], GAP[v[6]], leaves[v[3]].0, GAP[v[7]], GAP[v[8]]);
            // an operator directly followed by a character that continues it is a different operator
            if v[6] == 0 && u == "!" && t1 == "=" {
                // "=!" is = and !
            }
            l.check(&e, &t, &[I(0)], cx)
        },
    )
}
/// where an expression may stand, and what happens around it
fn contexts() -> Box<dyn Suite> {
    let l = L::new();
    // expression of host calls a, b, c with their model
    type F = fn(&[bool; 3], &mut Vec<usize>) -> bool;
    let exprs: Vec<(&'static str, F)> = vec![
        ("f1(0)", |v, c| {
            c.push(0);
            v[0]
        }),
        ("f1(0) && f1(1)", |v, c| {
            c.push(0);
            v[0] && {
                c.push(1);
                v[1]
            }
        }),
        ("f1(0) || f1(1) && f1(2)", |v, c| {
            c.push(0);
            v[0] || {
                c.push(1);
                v[1] && {
                    c.push(2);
                    v[2]
                }
            }
        }),
        ("!(f1(0) || f1(1)) && !f1(2)", |v, c| {
            c.push(0);
            !(v[0] || {
                c.push(1);
                v[1]
            }) && {
                c.push(2);
                !v[2]
            }
        }),
        ("f1(0) + f1(1)", |v, c| {
            c.extend([0, 1]);
            v[0] || v[1]
        }),
        ("1", |_, _| true),
        ("0", |_, _| false),
        ("''", |_, _| false),
        ("[f1(0), f1(1)][0]", |v, c| {
            c.extend([0, 1]);
            v[0]
        }),
    ];
    let n = exprs.len();
    let conn = ["{0}", "not {0}", "allof({0}, {1})", "anyof({0}, {1})", "not allof({0}, not {1})", "anyof(not {0}, {1}, {0})"];
    radix(
        "contexts",
        "nine expressions with host calls as tests (plain, not, allof, anyof), nested in a block, a loop or an included position after other expressions, and as a command, for all answers: exactly the needed calls, in order, and the right branch",
        vec![n, n, conn.len(), 8, 4],
        move |v, cx| {
            let bits = [v[3] & 1 == 1, v[3] & 2 == 2, v[3] & 4 == 4];
            let (t0, f0) = exprs[v[0]];
            let (t1, f1) = exprs[v[1]];
            let mut calls = vec![];
            let a = |c: &mut Vec<usize>| f0(&bits, c);
            let b = |c: &mut Vec<usize>| f1(&bits, c);
            let r = match v[2] {
                0 => a(&mut calls),
                1 => !a(&mut calls),
                2 => a(&mut calls) && b(&mut calls),
                3 => a(&mut calls) || b(&mut calls),
                4 => !(a(&mut calls) && !b(&mut calls)),
                _ => !a(&mut calls) || b(&mut calls) || a(&mut calls),
            };
            let test = conn[v[2]].replace("{0}", &format!("eval \"{t0}\"")).replace("{1}", &format!("eval \"{t1}\""));
            let (script, want): (String, Vec<usize>) = match v[4] {
                0 => (format!("if {test} {{ eval \"obs(1)\"; }} else {{ eval \"obs(2)\"; }}"), [calls, vec![if r { 101 } else { 102 }]].concat()),
                1 => {
                    // a command before and after, their values unused
                    let mut w = vec![];
                    f1(&bits, &mut w);
                    let mut all = w.clone();
                    all.extend(calls);
                    all.push(if r { 101 } else { 102 });
                    all.extend(w);
                    (format!("eval \"{t1}\"; if {test} {{ eval \"obs(1)\"; }} else {{ eval \"obs(2)\"; }} eval \"{t1}\";"), all)
                }
                2 => {
                    if v[2] > 1 {
                        return Ok(());
                    }
                    let t0 = if v[2] == 1 { format!("!({t0})") } else { t0.to_string() };
                    let mut all = calls.clone();
                    if r {
                        all.push(101);
                        all.extend(calls);
                        all.push(101);
                    }
                    // the third round is left by break before the condition is asked again
                    let t = format!("let \"n\" \"0\"; while \"{t0}\" {{ eval \"obs(1)\"; let \"n\" \"n + 1\"; if eval \"n == 2\" {{ break; }} }}");
                    (t, all)
                }
                _ => {
                    let mut w = vec![];
                    f0(&bits, &mut w);
                    let mut all = w;
                    all.extend(calls);
                    all.push(if r { 101 } else { 102 });
                    (format!("let \"x\" \"{t0}\"; if false {{ }} elsif {test} {{ eval \"obs(1)\"; }} else {{ eval \"obs(2)\"; }}"), all)
                }
            };
            let mut got = vec![];
            let o = run_script(&l.c, &l.rt, &format!("{REQ}{script}"), b"Subject: hi\r\n\r\nx\r\n", |_| {}, |e| match e {
                Event::Function { id: OBS, arguments } => {
                    got.push(100 + arguments[0].to_integer() as usize);
                    Input::result(Variable::Integer(1))
                }
                Event::Function { arguments, .. } => {
                    let k = arguments[0].to_integer() as usize;
                    got.push(k);
                    Input::result(Variable::Integer(bits[k.min(2)] as i64))
                }
                _ => Input::True,
            });
            cx.step(want.len() as u64);
            cx.trace();
            cx.outcome(&got);
            cx.state(&got);
            if got != want || !matches!(o.last(), Some(Ob::Ev(Event::Keep { .. }))) {
                return Err(Fail::new(format!("contexts {script} {bits:?}"), format!("{script} answers {bits:?}\nexpected calls {want:?}\ngot {got:?}\n{}", show_all(&o))));
            }
            Ok(())
        },
    )
}
/// malformed texts: rejected, or evaluated to some value
fn texts(len: usize) -> Box<dyn Suite> {
    let l = L::new();
    const TOK: [&str; 16] = ["1", "q", "'s'", "f0()", "f1", "(", ")", "[", "]", ",", "-", "!", "+", "&&", "=", "."];
    let n = nwords(TOK.len(), len);
    radix(
        &format!("texts-{len}"),
        &format!("all sequences of at most {len} tokens out of {TOK:?}: rejected when compiled, or some value"),
        vec![n as usize],
        move |v, cx| {
            let t: String = word(TOK.len(), v[0] as u64).iter().map(|&i| TOK[i]).collect();
            let script = format!("{REQ}let \"r\" {};\nif eval {} {{ eval \"obs(r)\"; }} else {{ eval \"obs(r)\"; }}\n", q(&t), q(&t));
            let mut k = 0;
            let o = run_script(&l.c, &l.rt, &script, b"Subject: hi\r\n\r\nx\r\n", |_| {}, |e| match e {
                Event::Function { id, .. } => {
                    k += (*id == OBS) as u32;
                    Input::result(Variable::Integer(1))
                }
                _ => Input::True,
            });
            cx.step(1);
            cx.trace();
            cx.outcome(&matches!(o[0], Ob::CompileErr(_)));
            match (&o[0], o.last()) {
                (Ob::CompileErr(_), _) => Ok(()),
                (_, Some(Ob::Ev(Event::Keep { .. }))) if k == 1 => Ok(()),
                _ => Err(Fail::new(format!("text {t}"), format!("{t}\n{}", show_all(&o)))),
            }
        },
    )
}
pub fn property(thorough: bool) -> Property {
    let mut s = vec![operators(), indexes(), trees(1, false, true), trees(2, false, true), trees(2, true, true), trees(3, false, false), trees(3, true, false), nested(4), spellings(), contexts(), texts(4)];
    if thorough {
        s.extend([trees(3, false, true), trees(4, false, false), nested(5), texts(5)]);
    }
    Property {
        id: "C12",
        level: "model_checking",
        technique: "exhaustive enumeration of expressions (all trees to a bound, all operators on all pairs of boundary values, all spellings), each compiled and evaluated by the real library with host functions and compared, calls and value, with a reference evaluator of the syntax tree",
        assumptions: vec![
            "division is always floating point and gives 0 for a zero divisor; texts in arithmetic count as the number they spell or 0; a && or || decided by its left side has that side's value".into(),
            "ordering an array against a scalar, arithmetic other than + and - on arrays and element access to non-arrays or by non-integers give an unspecified value (only that the run goes on is checked)".into(),
            "backslashes inside texts of an expression are outside the property".into(),
        ],
        suites: s,
    }
}
