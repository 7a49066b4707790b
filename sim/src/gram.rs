//! Grammar scenarios and the executable reference model (independent of the library): textbook
//! FIRST/FOLLOW/director sets as naive fixpoints, LL(1) verdict, derivation of a script, ignorables.
use crate::tape::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sym {
    T(String),
    N(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ign {
    Inherit,
    Off,
    On(usize),
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub alts: Vec<Vec<Sym>>,
    pub ign: Ign,
    /// Text of the brace section as the VM must see it; None = no braces.
    pub sect: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Gram {
    /// Names of all non-terminals mentioned; rules[i] is None when i is only referred to.
    pub names: Vec<String>,
    pub rules: Vec<Option<Rule>>,
    pub start: usize,
    /// Order in which the rules are written.
    pub order: Vec<usize>,
    /// Before the k-th written rule, a directive makes this non-terminal ignorable.
    pub directives: Vec<(usize, usize)>,
}

/// Look-ahead: a character, or the end of the script.
pub type Look = Option<char>;

#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub prods: Vec<Vec<Vec<Sym>>>,
    pub start: usize,
}

#[derive(Clone, Debug)]
pub struct Analysis {
    pub nullable: Vec<bool>,
    pub first: Vec<BTreeSet<char>>,
    pub follow: Vec<BTreeSet<Look>>,
    pub table: Vec<BTreeMap<Look, usize>>,
    pub conflicts: BTreeSet<(usize, Look)>,
    pub left_rec: bool,
    /// The rules that are left-recursive.
    pub left_rec_of: BTreeSet<usize>,
    pub undefined: bool,
}

impl Analysis {
    pub fn ll1(&self) -> bool {
        self.conflicts.is_empty() && !self.left_rec && !self.undefined
    }
}

impl Gram {
    pub fn effective_ignore(&self) -> Vec<Option<usize>> {
        let mut eff = vec![None; self.names.len()];
        let mut cur = None;
        for (k, &r) in self.order.iter().enumerate() {
            for (at, nt) in &self.directives {
                if *at == k {
                    cur = Some(*nt);
                }
            }
            eff[r] = match &self.rules[r].as_ref().unwrap().ign {
                Ign::Inherit => cur,
                Ign::Off => None,
                Ign::On(x) => Some(*x),
            };
        }
        eff
    }

    pub fn reachable(&self, from: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::from([from]);
        let mut todo = vec![from];
        while let Some(x) = todo.pop() {
            if let Some(r) = &self.rules[x] {
                for s in r.alts.iter().flatten() {
                    if let Sym::N(y) = s {
                        if seen.insert(*y) {
                            todo.push(*y);
                        }
                    }
                }
            }
        }
        seen
    }

    /// The productions in force: ignorables woven between adjacent parts.
    pub fn flat(&self) -> Flat {
        let eff = self.effective_ignore();
        let mut prods = vec![];
        for (i, r) in self.rules.iter().enumerate() {
            let Some(r) = r else {
                prods.push(vec![]);
                continue;
            };
            let weave = eff[i].filter(|g| !self.reachable(*g).contains(&i));
            prods.push(
                r.alts
                    .iter()
                    .map(|a| match weave {
                        None => a.clone(),
                        Some(g) => {
                            let mut w = vec![];
                            for (k, s) in a.iter().enumerate() {
                                if k > 0 {
                                    w.push(Sym::N(g));
                                }
                                w.push(s.clone());
                            }
                            w
                        }
                    })
                    .collect(),
            );
        }
        Flat {
            prods,
            start: self.start,
        }
    }

    pub fn analyse(&self) -> (Flat, Analysis) {
        let f = self.flat();
        let mut a = analyse(&f);
        a.undefined = self.undefined();
        (f, a)
    }

    pub fn undefined(&self) -> bool {
        let used = |s: &Sym| matches!(s, Sym::N(x) if self.rules[*x].is_none());
        let eff = self.effective_ignore();
        self.rules[self.start].is_none()
            || self
                .rules
                .iter()
                .flatten()
                .any(|r| r.alts.iter().flatten().any(used))
            || eff.iter().flatten().any(|g| self.rules[*g].is_none())
    }

    pub fn text(&self, src: &Src) -> String {
        let ws = |src: &Src, must: bool| -> String {
            match src.below(10) {
                0..=4 => {
                    if must {
                        " ".into()
                    } else {
                        "".into()
                    }
                }
                5..=6 => " ".into(),
                7 => "\n   ".into(),
                8 => blank(src).to_string(),
                _ => "\r\n\u{3000}".into(),
            }
        };
        let mut t = String::new();
        for (k, &i) in self.order.iter().enumerate() {
            for (at, nt) in &self.directives {
                if *at == k {
                    t += &ws(src, false);
                    t += "$IGNORE:";
                    t += &ws(src, false);
                    t += &self.names[*nt];
                    t += &ws(src, false);
                    t += ";";
                }
            }
            let r = self.rules[i].as_ref().unwrap();
            t += &ws(src, false);
            t += &self.names[i];
            t += &ws(src, true);
            t += "->";
            t += &ws(src, false);
            match r.ign {
                Ign::Inherit => {}
                Ign::Off => t += "$[IGNORE:#]",
                Ign::On(g) => t += &format!("$[IGNORE:{}]", self.names[g]),
            }
            for (j, a) in r.alts.iter().enumerate() {
                if j > 0 {
                    t += &ws(src, false);
                    t += "|";
                }
                t += &ws(src, false);
                if a.is_empty() {
                    t += "#";
                }
                for (n, s) in a.iter().enumerate() {
                    match s {
                        Sym::T(x) => {
                            t += &ws(src, false);
                            t += &format!("\"{x}\"");
                        }
                        Sym::N(x) => {
                            t += &ws(src, n > 0 && matches!(a[n - 1], Sym::N(_)));
                            t += &self.names[*x];
                        }
                    }
                }
            }
            if let Some(s) = &r.sect {
                t += &ws(src, false);
                t += "{";
                t += &ws(src, false);
                t += s;
                t += "}";
            }
            t += &ws(src, false);
            t += ";";
        }
        t += &ws(src, false);
        t
    }

    pub fn pretty(&self) -> String {
        let mut s = String::new();
        for (k, &i) in self.order.iter().enumerate() {
            for (at, nt) in &self.directives {
                if *at == k {
                    s += &format!("$IGNORE: {}; ", self.names[*nt]);
                }
            }
            let r = self.rules[i].as_ref().unwrap();
            let alts: Vec<String> = r
                .alts
                .iter()
                .map(|a| {
                    if a.is_empty() {
                        "#".into()
                    } else {
                        a.iter()
                            .map(|x| match x {
                                Sym::T(t) => format!("\"{t}\""),
                                Sym::N(n) => self.names[*n].clone(),
                            })
                            .collect::<Vec<_>>()
                            .join(" ")
                    }
                })
                .collect();
            let ign = match &r.ign {
                Ign::Inherit => "".to_string(),
                Ign::Off => "$[IGNORE:#] ".into(),
                Ign::On(g) => format!("$[IGNORE:{}] ", self.names[*g]),
            };
            let sect = r.sect.as_ref().map(|s| format!(" {{{s}}}")).unwrap_or_default();
            s += &format!("{} -> {}{}{}; ", self.names[i], ign, alts.join(" | "), sect);
        }
        s.trim_end().to_string()
    }
}

pub fn first_of_seq(seq: &[Sym], nullable: &[bool], first: &[BTreeSet<char>]) -> (BTreeSet<char>, bool) {
    let mut out = BTreeSet::new();
    for s in seq {
        match s {
            Sym::T(t) => {
                if let Some(c) = t.chars().next() {
                    out.insert(c);
                    return (out, false);
                }
            }
            Sym::N(n) => {
                out.extend(&first[*n]);
                if !nullable[*n] {
                    return (out, false);
                }
            }
        }
    }
    (out, true)
}

pub fn analyse(f: &Flat) -> Analysis {
    let n = f.prods.len();
    let mut nullable = vec![false; n];
    let mut first: Vec<BTreeSet<char>> = vec![BTreeSet::new(); n];
    loop {
        let mut ch = false;
        for i in 0..n {
            for p in &f.prods[i] {
                let (fs, nu) = first_of_seq(p, &nullable, &first);
                for c in fs {
                    ch |= first[i].insert(c);
                }
                if nu && !nullable[i] {
                    nullable[i] = true;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    let mut follow: Vec<BTreeSet<Look>> = vec![BTreeSet::new(); n];
    follow[f.start].insert(None);
    loop {
        let mut ch = false;
        for i in 0..n {
            for p in &f.prods[i] {
                for (k, s) in p.iter().enumerate() {
                    if let Sym::N(b) = s {
                        let (fs, nu) = first_of_seq(&p[k + 1..], &nullable, &first);
                        for c in fs {
                            ch |= follow[*b].insert(Some(c));
                        }
                        if nu {
                            for l in follow[i].clone() {
                                ch |= follow[*b].insert(l);
                            }
                        }
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    let mut table = vec![BTreeMap::new(); n];
    let mut conflicts = BTreeSet::new();
    for i in 0..n {
        for (j, p) in f.prods[i].iter().enumerate() {
            let (fs, nu) = first_of_seq(p, &nullable, &first);
            let mut dir: BTreeSet<Look> = fs.into_iter().map(Some).collect();
            if nu {
                dir.extend(&follow[i]);
            }
            for l in dir {
                if table[i].insert(l, j).is_some() {
                    conflicts.insert((i, l));
                }
            }
        }
    }
    // left recursion: cycle in the left-corner relation
    let mut lc: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for i in 0..n {
        for p in &f.prods[i] {
            for s in p {
                match s {
                    Sym::T(t) => {
                        if !t.is_empty() {
                            break;
                        }
                    }
                    Sym::N(b) => {
                        lc[i].insert(*b);
                        if !nullable[*b] {
                            break;
                        }
                    }
                }
            }
        }
    }
    let mut reach: Vec<Vec<bool>> = lc.iter().map(|r| (0..n).map(|j| r.contains(&j)).collect()).collect();
    for k in 0..n {
        let via = reach[k].clone();
        for row in reach.iter_mut().filter(|r| r[k]) {
            for (x, y) in row.iter_mut().zip(&via) {
                *x |= *y;
            }
        }
    }
    let left_rec_of: BTreeSet<usize> = (0..n).filter(|i| reach[*i][*i]).collect();
    let left_rec = !left_rec_of.is_empty();
    Analysis {
        nullable,
        first,
        follow,
        table,
        conflicts,
        left_rec,
        left_rec_of,
        undefined: false,
    }
}

/// One step of the unique LL(1) derivation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Open(usize),
    Leaf(String),
    /// Production of this non-terminal completed; the text range consumed (in characters).
    Close(usize, usize, usize),
}

#[derive(Clone, Debug)]
pub struct Derivation {
    pub acts: Vec<Act>,
    /// Ok, or the position of the first character at which nothing derivable can go on.
    pub end: Result<(), usize>,
    /// What stood there in the grammar when it failed.
    pub stop: Option<Stop>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// A rule none of whose alternatives applies.
    Rule(usize),
    /// A character of a literal.
    Char(char),
    /// The derivation was complete, the script was not.
    End,
}

pub fn derive(f: &Flat, a: &Analysis, script: &[char]) -> Derivation {
    enum Job {
        Sym(Sym),
        Close(usize, usize),
    }
    let mut acts = vec![];
    let mut pos = 0;
    let mut todo = vec![Job::Sym(Sym::N(f.start))];
    while let Some(j) = todo.pop() {
        match j {
            Job::Close(nt, from) => acts.push(Act::Close(nt, from, pos)),
            Job::Sym(Sym::T(t)) => {
                for c in t.chars() {
                    if script.get(pos) != Some(&c) {
                        return Derivation { acts, end: Err(pos), stop: Some(Stop::Char(c)) };
                    }
                    pos += 1;
                }
                acts.push(Act::Leaf(t));
            }
            Job::Sym(Sym::N(nt)) => {
                let look = script.get(pos).copied();
                let Some(alt) = a.table[nt].get(&look) else {
                    return Derivation { acts, end: Err(pos), stop: Some(Stop::Rule(nt)) };
                };
                acts.push(Act::Open(nt));
                todo.push(Job::Close(nt, pos));
                for s in f.prods[nt][*alt].iter().rev() {
                    todo.push(Job::Sym(s.clone()));
                }
            }
        }
    }
    let done = pos == script.len();
    Derivation {
        acts,
        end: if done { Ok(()) } else { Err(pos) },
        stop: if done { None } else { Some(Stop::End) },
    }
}

/// Tree shape: data and children.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TNode {
    pub data: String,
    pub kids: Vec<TNode>,
}

impl TNode {
    pub fn show(&self) -> String {
        if self.kids.is_empty() {
            format!("{:?}", self.data)
        } else {
            format!(
                "{:?}[{}]",
                self.data,
                self.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ")
            )
        }
    }
}

// ---------------------------------------------------------------- generation

/// The second line: white space that is not ASCII, marks, controls, and characters whose code equals 'a' or 'b'
/// when cut to 8 or 16 bits or folded to one case.
pub const CHARS: &[char] = &[
    'a', 'b', 'c', 'd', '0', '1', '+', '-', ' ', 'é', '💥', '\n', '#', '|', ';', '{', '}', '$', '>',
    '\u{a0}', '\u{3000}', '\r', '\t', '\0', '\u{fffd}', '\u{feff}', '\u{301}', 'š', '\u{10061}', '\u{10062}', 'A', 'B', '\u{200b}', '\u{85}', 'ª', '٣',
    '\u{10ffff}', '\u{7f}', '\'', ':', '[', ']', ',', '*', '/', '_', '.',
];

/// Content of a terminal literal: no bare quote, escapes balanced.
pub fn gen_terminal(src: &Src, allow_empty: bool) -> String {
    if allow_empty && src.pct(4) {
        return String::new();
    }
    let len = match src.below(400) {
        0..=239 => 1,
        240..=319 => 2,
        320..=398 => src.range(2, 5),
        _ => src.range(6, 280),
    };
    let mut s = String::new();
    for _ in 0..len {
        gen_term_char(src, &mut s);
    }
    s
}

fn gen_term_char(src: &Src, s: &mut String) {
    match src.below(30) {
        0..=22 => s.push(CHARS[src.us(8)]),
        23..=26 => s.push(*src.pick(CHARS)),
        27 => match odd_char(src) {
            '"' | '\\' => s.push('?'),
            c => s.push(c),
        },
        28 => s.push_str("\\\""),
        _ => s.push_str("\\\\"),
    }
}

/// Any character at all, the small ones preferred.
pub fn odd_char(src: &Src) -> char {
    let n = match src.below(8) {
        0..=2 => src.below(0x20),
        3 => src.below(0xa1),
        4 => src.below(0x300),
        5 | 6 => src.below(0x10000),
        _ => src.below(0x110000),
    };
    char::from_u32(n as u32).unwrap_or('\u{4}')
}

/// White space of any kind.
pub const BLANKS: &[char] = &[
    ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{200a}', '\u{2028}', '\u{2029}',
    '\u{202f}', '\u{205f}', '\u{3000}',
];

pub fn blank(src: &Src) -> char {
    *src.pick(BLANKS)
}

/// A rule name of any letters, digits and underscores.
pub fn odd_name(src: &Src) -> String {
    let mut s = String::new();
    let n = src.range(1, 6);
    for i in 0..n {
        // not every number is one of these
        let mut c = odd_char(src);
        for _ in 0..3 {
            if i == 0 && c.is_alphabetic() || i > 0 && c.is_alphanumeric() {
                break;
            }
            c = odd_char(src);
        }
        let ok = i == 0 && c.is_alphabetic() || i > 0 && c.is_alphanumeric();
        s.push(if ok { c } else { *src.pick(if i > 0 { &['_', '7', 'q'] } else { &['j', 'E', 'ñ'] }) });
    }
    // names the generator makes itself
    if s.starts_with('k') && s[1..].chars().all(|c| c.is_ascii_digit()) {
        s += "_";
    }
    s
}

/// A character that is easily taken for `c`.
pub fn like(src: &Src, c: char) -> char {
    let n = c as u32;
    let m = match src.below(6) {
        0 => return c.to_lowercase().next().unwrap(),
        1 => return c.to_uppercase().next().unwrap(),
        2 => n ^ (1 << src.below(21)),
        3 => n.wrapping_add(0x100 * src.range(1, 0x1000) as u32),
        4 => n.wrapping_add(0xfee0), // full width
        _ => n ^ 0x20,
    };
    char::from_u32(m).unwrap_or(c)
}

pub const NAMES: &[&str] = &[
    "start", "a", "b", "list", "list_s", "number", "term", "ws", "Äpfel", "x1", "print", "n_", "start2", "élan",
    "A", "Start", "IGNORE", "x٣", "ª", "a_very_long_name_that_nobody_would_want_to_write_twice_but_may_well_be_generated_by_some_tool", "list_s_",
];

pub struct GenOpt {
    pub max_nt: usize,
    pub max_alts: usize,
    pub max_len: usize,
    pub ignores: u64,
    pub repair: bool,
    pub any_start_name: bool,
    pub undefined: u64,
    pub empty_terminals: bool,
    pub sections: u64,
}

impl Default for GenOpt {
    fn default() -> Self {
        GenOpt {
            max_nt: 7,
            max_alts: 4,
            max_len: 4,
            ignores: 15,
            repair: true,
            any_start_name: false,
            undefined: 0,
            empty_terminals: true,
            sections: 60,
        }
    }
}

pub fn gen_section(src: &Src) -> String {
    let n = if src.below(150) == 0 { src.range(5, 80) as u64 } else { src.below(4) };
    let mut parts = vec![];
    for k in 0..n {
        let mut p = format!("op{k}");
        match src.below(8) {
            0 => p += " x",
            1 => p += "\\}",
            2 => p += "é💥",
            3 => p += "{",
            4 => p += "\\n",
            _ => {}
        }
        parts.push(p);
    }
    let mut s = parts.join(";");
    if src.pct(15) {
        s += " ";
    }
    s
}

fn gen_raw(src: &Src, o: &GenOpt) -> Gram {
    let n = src.range(1, o.max_nt);
    let extra = if src.pct(o.undefined) { 1 } else { 0 };
    let mut names: Vec<String> = vec![];
    let mut pool: Vec<&str> = NAMES.to_vec();
    if !o.any_start_name {
        names.push("start".into());
        pool.remove(0);
    }
    while names.len() < n + extra {
        if src.pct(4) {
            let s = odd_name(src);
            if !names.contains(&s) && !pool.contains(&s.as_str()) && s != "start" {
                names.push(s);
            }
            continue;
        }
        let k = src.us(pool.len());
        names.push(pool.remove(k).to_string());
    }
    let total = names.len();
    let mut rules = vec![];
    for i in 0..n {
        let na = match src.below(6) {
            0..=2 => 1,
            3..=4 => 2,
            _ if src.pct(12) => src.range(o.max_alts, 10),
            _ => src.range(1, o.max_alts),
        };
        let mut alts = vec![];
        for _ in 0..na {
            let mut alt = vec![];
            if !src.pct(18) {
                let len = src.range(1, o.max_len);
                for k in 0..len {
                    if src.pct(45) {
                        // forward references first: less accidental left recursion
                        let t = if k == 0 && o.repair && i + 1 < n && !src.pct(20) {
                            src.range(i + 1, n - 1)
                        } else {
                            src.us(total)
                        };
                        alt.push(Sym::N(t));
                    } else {
                        alt.push(Sym::T(gen_terminal(src, o.empty_terminals)));
                    }
                }
            }
            alts.push(alt);
        }
        let sect = if src.pct(o.sections) { Some(gen_section(src)) } else { None };
        rules.push(Some(Rule {
            alts,
            ign: Ign::Inherit,
            sect,
        }));
    }
    for _ in 0..extra {
        rules.push(None);
    }
    let mut order: Vec<usize> = (0..n).collect();
    if src.pct(40) {
        for i in (1..n).rev() {
            order.swap(i, src.us(i + 1));
        }
    }
    let mut g = Gram {
        names,
        rules,
        start: 0,
        order,
        directives: vec![],
    };
    if src.pct(o.ignores) && src.pct(50) {
        // an ignorable production of its own, in force from some rule on
        let cand = g.names.len();
        g.names.push("skip".into());
        let c = *src.pick(&[' ', '~', '_', '\t']);
        let alts = match src.below(4) {
            0 => vec![vec![Sym::T(c.to_string()), Sym::N(cand)], vec![]],
            1 => vec![vec![Sym::T(c.to_string())], vec![]],
            2 => vec![vec![Sym::T(c.to_string())]],
            _ => vec![vec![Sym::T(c.to_string()), Sym::T("~.".into()), Sym::N(cand)], vec![Sym::T("%".into())], vec![]],
        };
        g.rules.push(Some(Rule { alts, ign: Ign::Inherit, sect: if src.pct(20) { Some(gen_section(src)) } else { None } }));
        let k = src.us(g.order.len() + 1);
        g.order.insert(k, cand);
        if src.pct(70) {
            g.directives.push((if src.pct(60) { 0 } else { src.us(n) }, cand));
        }
        for i in 0..n {
            if src.pct(20) {
                g.rules[i].as_mut().unwrap().ign = if src.pct(70) { Ign::On(cand) } else { Ign::Off };
            }
        }
        if src.pct(8) {
            stretch(src, &mut g, cand);
        }
    } else if src.pct(o.ignores) {
        let cand = src.us(n);
        // make the candidate ignorable-like most of the time
        if src.pct(75) {
            let c = *src.pick(&[' ', '~', '_', '\t']);
            let mut alts = vec![vec![Sym::T(c.to_string())], vec![]];
            if src.pct(50) && cand != 0 {
                alts[0].push(Sym::N(cand));
            }
            if src.pct(15) {
                alts.pop();
            }
            if cand != 0 {
                g.rules[cand].as_mut().unwrap().alts = alts;
            }
        }
        if src.pct(60) {
            g.directives.push((src.us(n), cand));
            if src.pct(20) {
                g.directives.push((src.us(n), src.us(n)));
            }
        }
        for i in 0..n {
            if src.pct(35) {
                g.rules[i].as_mut().unwrap().ign = match src.below(3) {
                    0 => Ign::Off,
                    1 => Ign::On(cand),
                    _ => Ign::On(src.us(n)),
                };
            }
        }
        // directives at one place apply in the order written: keep them sorted by place
        g.directives.sort_by_key(|d| d.0);
        if src.pct(8) {
            stretch(src, &mut g, cand);
        }
    }
    if src.pct(3) {
        let i = src.us(n);
        stretch(src, &mut g, i);
    }
    if src.pct(1) {
        widen(src, &mut g);
    }
    if src.pct(8) {
        // terminals spelled like rules, the start rule often
        for _ in 0..src.range(1, 3) {
            let name = if src.pct(40) { g.names[0].clone() } else { src.pick(&g.names).clone() };
            let i = src.us(g.rules.len());
            if let Some(r) = g.rules[i].as_mut() {
                let mut ts: Vec<&mut String> =
                    r.alts.iter_mut().flatten().filter_map(|s| if let Sym::T(t) = s { Some(t) } else { None }).collect();
                if !ts.is_empty() {
                    let k = src.us(ts.len());
                    *ts[k] = name;
                }
            }
        }
    }
    g
}

/// Put a chain of rules between rule i and its alternatives.
fn stretch(src: &Src, g: &mut Gram, i: usize) {
    let Some(r) = g.rules[i].clone() else { return };
    let k = if src.below(60) == 0 { src.range(120, 300) } else { *src.pick(&[2usize, 3, 6, 9, 13, 20, 34, 70]) };
    let mut at = i;
    for _ in 0..k {
        let new = g.names.len();
        g.names.push(format!("k{new}"));
        let mut alt = vec![Sym::N(new)];
        if src.pct(6) {
            let t = Sym::T(src.pick(FRESH).to_string());
            if src.pct(50) {
                alt.push(t);
            } else {
                alt.insert(0, t);
            }
        }
        g.rules[at].as_mut().unwrap().alts = vec![alt];
        g.rules.push(Some(Rule {
            alts: vec![],
            ign: Ign::Inherit,
            sect: if src.pct(20) { Some(gen_section(src)) } else { None },
        }));
        g.order.push(new);
        at = new;
    }
    g.rules[at].as_mut().unwrap().alts = r.alts;
    if src.pct(50) {
        let n = g.order.len();
        for i in (1..n).rev() {
            g.order.swap(i, src.us(i + 1));
        }
    }
}

/// Give one rule many alternatives, or one alternative many parts.
fn widen(src: &Src, g: &mut Gram) {
    let i = src.us(g.rules.len());
    let Some(r) = g.rules[i].as_mut() else { return };
    let k = if src.pct(6) { src.range(200, 300) } else { src.range(10, 90) };
    if src.pct(50) {
        for j in 0..k {
            let c = char::from_u32(0x4e00 + j as u32).unwrap();
            let tail = if src.pct(20) { gen_terminal(src, false) } else { String::new() };
            let mut alt = vec![Sym::T(format!("{c}{tail}"))];
            if src.pct(20) {
                alt.push(Sym::T(gen_terminal(src, false)));
            }
            r.alts.push(alt);
        }
    } else if let Some(a) = r.alts.last_mut() {
        for _ in 0..k {
            a.push(Sym::T(gen_terminal(src, true)));
        }
    }
}

fn productive(f: &Flat) -> Vec<bool> {
    let n = f.prods.len();
    let mut p = vec![false; n];
    loop {
        let mut ch = false;
        for i in 0..n {
            if !p[i]
                && f.prods[i]
                    .iter()
                    .any(|a| a.iter().all(|s| matches!(s, Sym::T(_)) || matches!(s, Sym::N(x) if p[*x])))
            {
                p[i] = true;
                ch = true;
            }
        }
        if !ch {
            return p;
        }
    }
}

const FRESH: &[char] = &['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z'];

/// A grammar that is LL(1) (after at most a bounded number of repairs), or None.
pub fn gen_ll1(src: &Src, o: &GenOpt) -> Option<(Gram, Flat, Analysis)> {
    let mut g = gen_raw(src, o);
    let mut fresh = 0usize;
    let mut next_fresh = |k: usize| {
        fresh += 1;
        FRESH[(fresh + k) % FRESH.len()]
    };
    for round in 0..40 {
        let (f, a) = g.analyse();
        if a.undefined {
            return None;
        }
        let prod = productive(&f);
        if let Some(i) = (0..f.prods.len()).find(|i| !prod[*i]) {
            // a rule without any finite script: give it one
            let c = next_fresh(0);
            let r = g.rules[i].as_mut().unwrap();
            if r.alts.len() > 2 {
                r.alts[0] = vec![Sym::T(c.to_string())];
            } else {
                r.alts.push(vec![Sym::T(c.to_string())]);
            }
            continue;
        }
        if a.ll1() {
            return Some((g, f, a));
        }
        if a.left_rec {
            // put a terminal in front of every alternative that starts a left-corner cycle (first found)
            let mut done = false;
            for i in 0..g.rules.len() {
                if done {
                    break;
                }
                let sub = f.prods[i].clone();
                for (j, p) in sub.iter().enumerate() {
                    if let Some(Sym::N(b)) = p.iter().find(|s| matches!(s, Sym::N(_))) {
                        let mut probe = f.clone();
                        let c = FRESH[(round + j) % FRESH.len()];
                        probe.prods[i][j].insert(0, Sym::T(c.to_string()));
                        let better = *b <= i || !analyse(&probe).left_rec;
                        if better {
                            let c = next_fresh(j);
                            let alt = &mut g.rules[i].as_mut().unwrap().alts[j];
                            alt.insert(0, Sym::T(c.to_string()));
                            if alt.len() > 5 {
                                alt.truncate(1);
                            }
                            done = true;
                            break;
                        }
                    }
                }
            }
            if !done {
                return None;
            }
            continue;
        }
        let (i, l) = *a.conflicts.iter().next().unwrap();
        // alternatives of rule i that claim l
        let claim: Vec<usize> = (0..f.prods[i].len())
            .filter(|j| {
                let (fs, nu) = first_of_seq(&f.prods[i][*j], &a.nullable, &a.first);
                l.is_some_and(|c| fs.contains(&c)) || (nu && a.follow[i].contains(&l))
            })
            .collect();
        let j = claim[claim.len() - 1 - src.us(claim.len().min(2))];
        let c = next_fresh(i + j);
        let r = g.rules[i].as_mut().unwrap();
        if r.alts.len() > 2 && src.pct(30) {
            r.alts.remove(j);
        } else if src.pct(60) {
            r.alts[j].insert(0, Sym::T(c.to_string()));
            if r.alts[j].len() > 5 {
                r.alts[j].truncate(3);
            }
        } else {
            r.alts[j] = vec![Sym::T(c.to_string())];
        }
    }
    None
}

/// Any grammar, LL(1) or not, defined or not.
pub fn gen_any(src: &Src, o: &GenOpt) -> Gram {
    gen_raw(src, o)
}

/// Length (in derivation height) of the smallest derivation of each non-terminal.
fn heights(f: &Flat) -> Vec<usize> {
    let n = f.prods.len();
    let mut h = vec![usize::MAX; n];
    loop {
        let mut ch = false;
        for i in 0..n {
            for p in &f.prods[i] {
                let m = p
                    .iter()
                    .map(|s| match s {
                        Sym::T(_) => 0,
                        Sym::N(x) => h[*x],
                    })
                    .max()
                    .unwrap_or(0);
                if m != usize::MAX && m + 1 < h[i] {
                    h[i] = m + 1;
                    ch = true;
                }
            }
        }
        if !ch {
            return h;
        }
    }
}

/// A random sentence (in characters).
pub fn gen_sentence(src: &Src, f: &Flat, budget: usize) -> Vec<char> {
    let h = heights(f);
    let mut out = vec![];
    let mut steps = 0usize;
    let mut todo = vec![Sym::N(f.start)];
    while let Some(s) = todo.pop() {
        steps += 1;
        if steps > 4000 || out.len() > 2000 {
            break;
        }
        match s {
            Sym::T(t) => out.extend(t.chars()),
            Sym::N(i) => {
                if f.prods[i].is_empty() || h[i] == usize::MAX {
                    continue;
                }
                let j = if steps + todo.len() < budget {
                    src.us(f.prods[i].len())
                } else {
                    let cost = |p: &Vec<Sym>| {
                        p.iter()
                            .map(|s| match s {
                                Sym::T(_) => 0,
                                Sym::N(x) => h[*x],
                            })
                            .max()
                            .unwrap_or(0)
                    };
                    (0..f.prods[i].len()).min_by_key(|j| cost(&f.prods[i][*j])).unwrap()
                };
                for s in f.prods[i][j].iter().rev() {
                    todo.push(s.clone());
                }
            }
        }
    }
    out
}

/// Damage a text. Returns the kind of fault applied.
pub fn damage(src: &Src, t: &mut Vec<char>, alphabet: &[char]) -> &'static str {
    let n = t.len();
    let kind = match src.below(8) {
        2..=4 if n == 0 => 5,
        6 if n < 2 => 5,
        k => k,
    };
    match kind {
        0 | 1 => {
            let k = src.us(n + 1);
            t.truncate(k);
            "truncate"
        }
        2 => {
            let k = src.us(n);
            t[k] = *src.pick(alphabet);
            "replace_char"
        }
        3 => {
            let k = src.us(n);
            let l = src.range(1, 3.min(n - k).max(1)).min(n - k);
            t.drain(k..k + l);
            "lose_chars"
        }
        4 => {
            let k = src.us(n);
            let l = (1 + src.us(6)).min(n - k);
            let d: Vec<char> = t[k..k + l].to_vec();
            let at = k + l;
            for (i, c) in d.into_iter().enumerate() {
                t.insert(at + i, c);
            }
            "duplicate_chars"
        }
        5 => {
            let k = src.us(n + 1);
            t.insert(k, *src.pick(alphabet));
            "insert_char"
        }
        6 => {
            let k = src.us(n - 1);
            t.swap(k, k + 1);
            "swap_chars"
        }
        _ => {
            let l = src.range(1, 3);
            for _ in 0..l {
                t.push(*src.pick(alphabet));
            }
            "append"
        }
    }
}

/// All characters a grammar's terminals use.
pub fn alphabet(f: &Flat) -> Vec<char> {
    let mut s: BTreeSet<char> = BTreeSet::new();
    for x in f.prods.iter().flatten().flatten() {
        if let Sym::T(t) = x {
            s.extend(t.chars());
        }
    }
    s.insert('a');
    s.insert('?');
    s.into_iter().collect()
}
