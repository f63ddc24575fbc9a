//! Reference regular expressions: a tiny backtracking matcher over an enumerable AST (leftmost, Perl priorities).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rx {
    Ch(char),
    Any,
    Class(bool, Vec<char>),
    Bol,
    Eol,
    Seq(Vec<Rx>),
    Alt(Vec<Rx>),
    /// min, max (usize::MAX: unbounded), greedy
    Rep(Box<Rx>, usize, usize, bool),
    Grp(Box<Rx>),
}
use Rx::*;
type Caps = Vec<Option<(usize, usize)>>;
impl Rx {
    pub fn text(&self) -> String {
        match self {
            Ch(c) => {
                if c.is_alphanumeric() || *c == ' ' {
                    c.to_string()
                } else {
                    format!("\\{c}")
                }
            }
            Any => ".".into(),
            Class(neg, c) => format!("[{}{}]", if *neg { "^" } else { "" }, c.iter().collect::<String>()),
            Bol => "^".into(),
            Eol => "$".into(),
            Seq(v) => v.iter().map(|x| x.text()).collect(),
            Alt(v) => v.iter().map(|x| x.text()).collect::<Vec<_>>().join("|"),
            Rep(x, a, b, g) => format!(
                "{}{}{}",
                x.text(),
                match (a, b) {
                    (0, 1) => "?".to_string(),
                    (0, &usize::MAX) => "*".to_string(),
                    (1, &usize::MAX) => "+".to_string(),
                    (a, &usize::MAX) => format!("{{{a},}}"),
                    (a, b) if a == b => format!("{{{a}}}"),
                    (a, b) => format!("{{{a},{b}}}"),
                },
                if *g { "" } else { "?" }
            ),
            Grp(x) => format!("({})", x.text()),
        }
    }
    pub fn groups(&self) -> usize {
        match self {
            Seq(v) | Alt(v) => v.iter().map(|x| x.groups()).sum(),
            Rep(x, ..) => x.groups(),
            Grp(x) => 1 + x.groups(),
            _ => 0,
        }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Ch(_) | Any | Class(..) => false,
            Bol | Eol => true,
            Seq(v) => v.iter().all(|x| x.nullable()),
            Alt(v) => v.iter().any(|x| x.nullable()),
            Rep(x, a, ..) => *a == 0 || x.nullable(),
            Grp(x) => x.nullable(),
        }
    }
    fn m(&self, v: &[char], i: usize, base: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match self {
            Ch(c) => v.get(i) == Some(c) && k(i + 1, caps),
            Any => v.get(i).is_some_and(|c| *c != '\n') && k(i + 1, caps),
            Class(neg, cs) => v.get(i).is_some_and(|c| cs.contains(c) != *neg) && k(i + 1, caps),
            Bol => i == 0 && k(i, caps),
            Eol => i == v.len() && k(i, caps),
            Seq(xs) => Self::seq(xs, v, i, base, caps, k),
            Alt(xs) => {
                let mut b = base;
                for x in xs {
                    if x.m(v, i, b, caps, k) {
                        return true;
                    }
                    b += x.groups();
                }
                false
            }
            Rep(x, a, b, g) => Self::rep(x, *a, *b, *g, v, i, base, caps, k),
            Grp(x) => {
                let save = caps[base];
                let ok = x.m(v, i, base + 1, caps, &mut |j, caps| {
                    let s = caps[base];
                    caps[base] = Some((i, j));
                    if k(j, caps) {
                        return true;
                    }
                    caps[base] = s;
                    false
                });
                if !ok {
                    caps[base] = save;
                }
                ok
            }
        }
    }
    fn seq(xs: &[Rx], v: &[char], i: usize, base: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match xs.first() {
            None => k(i, caps),
            Some(x) => x.m(v, i, base, caps, &mut |j, caps| Self::seq(&xs[1..], v, j, base + x.groups(), caps, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(x: &Rx, a: usize, b: usize, g: bool, v: &[char], i: usize, base: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        if a == 0 && !g && k(i, caps) {
            return true;
        }
        if b > 0 {
            let nb = if b == usize::MAX { b } else { b - 1 };
            if x.m(v, i, base, caps, &mut |j, caps| {
                // repeated expressions are never nullable here
                Self::rep(x, a.saturating_sub(1), nb, g, v, j, base, caps, k)
            }) {
                return true;
            }
        }
        a == 0 && g && k(i, caps)
    }
    /// Leftmost match anywhere in the value: text of group 0, 1, …
    pub fn find(&self, value: &str) -> Option<Vec<Option<String>>> {
        let v: Vec<char> = value.chars().collect();
        for s in 0..=v.len() {
            let mut caps: Caps = vec![None; self.groups()];
            let mut end = None;
            if self.m(&v, s, 0, &mut caps, &mut |j, _| {
                end = Some(j);
                true
            }) {
                let t = |(a, b): (usize, usize)| v[a..b].iter().collect::<String>();
                return Some(std::iter::once(Some(t((s, end.unwrap())))).chain(caps.iter().map(|c| c.map(t))).collect());
            }
        }
        None
    }
}
/// All expressions with at most `n` nodes over the given single-character atoms.
pub fn all(atoms: &[Rx], n: usize, anchors: bool) -> Vec<Rx> {
    // by size; "single" expressions can be repeated, sequences and alternatives only inside a group
    let mut one: Vec<Vec<Rx>> = vec![vec![]];
    let mut seqs: Vec<Vec<Rx>> = vec![vec![]];
    for k in 1..=n {
        let mut v = vec![];
        if k == 1 {
            v.extend(atoms.iter().cloned());
        } else {
            for x in &seqs[k - 1] {
                v.push(Grp(Box::new(x.clone())));
            }
            for x in &one[k - 1] {
                if !x.nullable() && !matches!(x, Rep(..)) {
                    for (a, b, g) in [(0, 1, true), (0, usize::MAX, true), (1, usize::MAX, true), (0, usize::MAX, false), (0, 1, false), (2, 2, true)] {
                        v.push(Rep(Box::new(x.clone()), a, b, g));
                    }
                }
            }
        }
        one.push(v);
        // sequences (size = sum) and two-way alternatives (size = sum + 1) of them
        let mut s: Vec<Rx> = one[k].clone();
        for a in 1..k {
            for x in &one[a] {
                for y in &seqs[k - a] {
                    if let Alt(_) = y {
                        continue;
                    }
                    let mut w = vec![x.clone()];
                    match y {
                        Seq(z) => w.extend(z.iter().cloned()),
                        y => w.push(y.clone()),
                    }
                    s.push(Seq(w));
                }
            }
        }
        for a in 1..k.saturating_sub(1) {
            let b = k - 1 - a;
            for x in &seqs[a] {
                for y in &seqs[b] {
                    if !matches!(x, Alt(_)) && !matches!(y, Alt(_)) && b >= 1 {
                        s.push(Alt(vec![x.clone(), y.clone()]));
                    }
                }
            }
        }
        seqs.push(s);
    }
    let mut out: Vec<Rx> = seqs.into_iter().flatten().collect();
    if anchors {
        let mut more = vec![];
        for x in &out {
            let g = match x {
                Alt(_) => Grp(Box::new(x.clone())),
                x => x.clone(),
            };
            more.push(Seq(vec![Bol, g.clone()]));
            more.push(Seq(vec![g.clone(), Eol]));
            more.push(Seq(vec![Bol, g, Eol]));
        }
        out.extend(more);
    }
    out
}
