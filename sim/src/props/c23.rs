//! Two ways of writing the same grammar behave the same.
use super::*;
use crate::ctx::bad;
use crate::vm::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::script_parser::Parser;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    quick: 200_000,
    rule: "one grammar (LL(1) or not) and a second text of it: rules renamed, rules and alternatives in another order, a rule's \
           alternatives in several places, directives turned into overrides or ignorables written out, unused rules added, \
           characters of the literals exchanged, another layout; a history of scripts (whole, damaged, aborted by a VM panic) \
           on a parser of each, under different hash seeds, compared step by step; non-trivial: LL(1) and at least one rewriting \
           beside layout; distinct: digest of both texts, scripts and seeds",
    real: "grammar reader, table construction, parser, tree, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

struct Rewrite {
    text: String,
    /// New rule name to old.
    back: BTreeMap<String, String>,
    /// Character exchanges (an involution).
    swap: BTreeMap<char, char>,
    kinds: Vec<&'static str>,
}

fn shuffle<T>(src: &Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, src.us(i + 1));
    }
}

fn map(s: &str, m: &BTreeMap<char, char>) -> String {
    s.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect()
}

fn new_name(src: &Src, taken: &[String], old: &str) -> String {
    loop {
        let mut n = match src.below(5) {
            0 => src.pick(NAMES).to_string(),
            1 => format!("{old}_"),
            2 => old.chars().take(1).collect(),
            3 => format!("r{}", src.below(40)),
            _ => format!("{}{}", src.pick(NAMES), src.below(9)),
        };
        while n == "start" || taken.contains(&n) {
            n.push(*src.pick(&['x', '_', '0', 'é', 'z', '9']));
        }
        if n.len() < 400 {
            return n;
        }
    }
}

/// Rules keep their order if the grammar has directives that stay.
fn rewrite(src: &Src, g0: &Gram, f: &Flat) -> Rewrite {
    let mut g = g0.clone();
    let mut kinds = vec![];
    let ignores = !g.directives.is_empty() || g.rules.iter().flatten().any(|r| r.ign != Ign::Inherit);
    if ignores && src.pct(60) {
        if src.pct(50) {
            kinds.push("directives_to_overrides");
            let eff = g.effective_ignore();
            for i in g.order.clone() {
                g.rules[i].as_mut().unwrap().ign = match eff[i] {
                    None if src.pct(50) => Ign::Inherit,
                    None => Ign::Off,
                    Some(x) => Ign::On(x),
                };
            }
        } else {
            kinds.push("ignorables_written_out");
            for (i, r) in g.rules.iter_mut().enumerate() {
                if let Some(r) = r {
                    r.alts = f.prods[i].clone();
                    r.ign = Ign::Inherit;
                }
            }
        }
        g.directives.clear();
    }
    if src.pct(60) {
        kinds.push("rules_renamed");
        let mut taken: Vec<String> = vec![];
        for i in 0..g.names.len() {
            if i != g.start {
                let n = if src.pct(85) { new_name(src, &taken, &g0.names[i]) } else { g0.names[i].clone() };
                let n = if taken.contains(&n) { new_name(src, &taken, &n) } else { n };
                g.names[i] = n.clone();
                taken.push(n);
            }
        }
    }
    if g.directives.is_empty() && src.pct(60) {
        kinds.push("rules_reordered");
        let mut o = std::mem::take(&mut g.order);
        shuffle(src, &mut o);
        g.order = o;
    }
    if src.pct(60) {
        kinds.push("alternatives_reordered");
        for r in g.rules.iter_mut().flatten() {
            shuffle(src, &mut r.alts);
        }
    }
    let mut swap = BTreeMap::new();
    if src.pct(40) {
        kinds.push("characters_exchanged");
        let mut cs: Vec<char> = CHARS.iter().copied().chain('A'..='Z').collect();
        cs.sort();
        cs.dedup();
        shuffle(src, &mut cs);
        for p in cs.chunks(2).take(1 + src.us(20)) {
            if let [a, b] = p {
                swap.insert(*a, *b);
                swap.insert(*b, *a);
            }
        }
        for s in g.rules.iter_mut().flatten().flat_map(|r| r.alts.iter_mut().flatten()) {
            if let Sym::T(t) = s {
                *t = map(t, &swap);
            }
        }
    }
    // pieces of text: one per definition, in order
    let single = |g: &Gram, i: usize, r: &Rule, dirs: Vec<usize>| {
        let mut one = Gram {
            names: g.names.clone(),
            rules: vec![None; g.rules.len()],
            start: g.start,
            order: vec![i],
            directives: dirs.into_iter().map(|d| (0, d)).collect(),
        };
        one.rules[i] = Some(r.clone());
        one.text(src)
    };
    let mut text = String::new();
    let mut later: Vec<(usize, Rule)> = vec![];
    let split = src.pct(30);
    let eff = g.effective_ignore();
    let unused = src.pct(20);
    if unused {
        kinds.push("unused_rule");
    }
    for (k, &i) in g.order.iter().enumerate() {
        let dirs = g.directives.iter().filter(|d| d.0 == k).map(|d| d.1).collect();
        let mut r = g.rules[i].clone().unwrap();
        if split && r.alts.len() > 1 && src.pct(50) {
            kinds.push("rule_in_several_places");
            let rest = r.alts.split_off(1 + src.us(r.alts.len() - 1));
            let ign = match eff[i] {
                _ if g.directives.is_empty() && r.ign == Ign::Inherit => Ign::Inherit,
                None => Ign::Off,
                Some(x) => Ign::On(x),
            };
            later.push((i, Rule { alts: rest, ign, sect: None }));
        }
        text += &single(&g, i, &r, dirs);
        if !later.is_empty() && src.pct(50) {
            let (i, r) = later.remove(src.us(later.len()));
            text += &single(&g, i, &r, vec![]);
        }
        if unused && src.pct(30) && !text.contains("unusedrule") && g.directives.is_empty() {
            text += " unusedrule -> \"x\" unusedrule | \"y\" {z};";
        }
    }
    for (i, r) in later {
        text += &single(&g, i, &r, vec![]);
    }
    Rewrite {
        back: g.names.iter().cloned().zip(g0.names.iter().cloned()).collect(),
        text,
        swap,
        kinds,
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Seen {
    Panic,
    Tree(Option<TNode>),
    /// Position, character (if there is one), what is expected (sorted characters), kind of error.
    Refused(Option<usize>, Option<char>, Option<Vec<char>>, String),
}

type Step = (Seen, Vec<(String, usize, String, Option<TNode>, Option<Vec<usize>>)>);

fn swapped(t: &TNode, m: &BTreeMap<char, char>) -> TNode {
    TNode {
        data: map(&t.data, m),
        kids: t.kids.iter().map(|k| swapped(k, m)).collect(),
    }
}

fn history(text: &str, vm: &SimVm, scripts: &[(String, Option<usize>)], whole: bool, calls: &mut u64) -> Result<Vec<Step>, String> {
    let mut p: Parser<SimVm> = match guard(|| build(text, vm)) {
        Err(e) => return Err(format!("panic: {e}")),
        Ok(Err(e)) => return Err(e.show()),
        Ok(Ok(p)) => p,
    };
    Ok(scripts
        .iter()
        .map(|(s, panic_at)| {
            let mut st = if whole { SimState::watching() } else { SimState::default() };
            st.panic_at = *panic_at;
            let r = guard(|| p.parse(s, &mut st));
            *calls += 1 + st.calls as u64;
            let seen = match &r {
                Err(_) => Seen::Panic,
                Ok(Ok(t)) => Seen::Tree(dump(t, ROOT)),
                Ok(Err(e)) => {
                    let at = err_pos(e);
                    let pos = at.map(|x| x.0);
                    let chr = at.and_then(|x| x.1).filter(|_| pos.is_some_and(|p| p < s.chars().count()));
                    let (want, kind) = match e {
                        ParserError::UnexpectedCharError { expected, .. } => {
                            let mut w: Vec<char> = expected.chars().collect();
                            w.sort();
                            (Some(w), "unexpected".to_string())
                        }
                        ParserError::EndOfCharsError { .. } => (None, "end".to_string()),
                        e => (None, format!("{e:?}")),
                    };
                    Seen::Refused(pos, chr, want, kind)
                }
            };
            let ev = st
                .events
                .into_iter()
                .map(|e| (e.rule, e.k, e.text, e.sub, e.path))
                .collect();
            (seen, ev)
        })
        .collect())
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let ll1 = src.pct(75);
    let (g, f, a, text) = if ll1 {
        let Some(sc) = scene(src, ctx, &GenOpt { max_nt: 8, ignores: 30, ..GenOpt::default() }) else {
            ctx.no_verdict = true;
            return Ok(());
        };
        (sc.g, sc.f, sc.a, sc.text)
    } else {
        let g = gen_any(src, &GenOpt { max_nt: 6, ignores: 20, undefined: 8, repair: false, ..GenOpt::default() });
        let (f, a) = g.analyse();
        let t = g.text(src);
        (g, f, a, t)
    };
    let rw = rewrite(src, &g, &f);
    for k in &rw.kinds {
        ctx.probe(k);
    }
    let mut scripts: Vec<(Vec<char>, Option<usize>)> = vec![];
    if a.ll1() {
        let base = gen_sentence(src, &f, *src.pick(&[6, 12, 25, 60]));
        let al = alphabet(&f);
        scripts.push((base.clone(), None));
        for _ in 0..src.range(1, 6) {
            let mut s = if src.pct(30) { gen_sentence(src, &f, 20) } else { base.clone() };
            for _ in 0..src.us(3) {
                let k = damage(src, &mut s, &al);
                ctx.fault(k);
            }
            scripts.push((s, if src.pct(12) { Some(1 + src.us(4)) } else { None }));
        }
    }
    let whole = scripts.iter().all(|s| s.0.len() < 300);
    let keys = [key(src), key(src)];
    ctx.faults_n("hash_seed_schedule", 2);
    ctx.case(&format!("{text} {} {scripts:?} {keys:?}", rw.text));
    ctx.sample = format!("grammar {text:?} rewritten as {:?} and {} scripts", rw.text, scripts.len());
    ctx.note(|| format!("grammar text: {text}"));
    ctx.note(|| format!("rewritten ({:?}): {}", rw.kinds, rw.text));
    ctx.nontrivial = a.ll1() && !rw.kinds.is_empty();
    let one: Vec<(String, Option<usize>)> = scripts.iter().map(|(s, p)| (st(s), *p)).collect();
    let two: Vec<(String, Option<usize>)> = one.iter().map(|(s, p)| (map(s, &rw.swap), *p)).collect();
    let mut calls = 0;
    let h1 = in_thread(keys[0], || history(&text, &SimVm::new(), &one, whole, &mut calls));
    let h2 = in_thread(keys[1], || history(&rw.text, &SimVm::new(), &two, whole, &mut calls));
    ctx.steps += calls;
    let what = || format!("\n  one text     {text:?}\n  another text {:?} ({:?})", rw.text, rw.kinds);
    let (h1, h2) = match (h1, h2) {
        (Err(e1), Err(e2)) => {
            ctx.see(&e1);
            ctx.probe("both_refused");
            for e in [&e1, &e2] {
                if e.starts_with("panic: ") {
                    return bad("panic", format!("{e}{}", what()));
                }
            }
            return Ok(());
        }
        (Ok(h1), Ok(h2)) => (h1, h2),
        (r1, r2) => {
            return bad(
                "verdict",
                format!("one text: {:?}, another text: {:?}{}", r1.map(|_| "accepted"), r2.map(|_| "accepted"), what()),
            )
        }
    };
    for (i, ((s1, e1), (s2, e2))) in h1.into_iter().zip(h2).enumerate() {
        let s2 = match s2 {
            Seen::Tree(t) => Seen::Tree(t.map(|t| swapped(&t, &rw.swap))),
            // with exchanged characters the word for the end of the text cannot be told from characters
            Seen::Refused(p, c, w, k) => Seen::Refused(p, c.map(|c| *rw.swap.get(&c).unwrap_or(&c)), w, k),
            x => x,
        };
        let (s1, s2) = match (s1, s2) {
            (Seen::Refused(p, c, w, k), Seen::Refused(p2, c2, w2, k2)) if !rw.swap.is_empty() => {
                let n = |w: Option<Vec<char>>| w.map(|w| vec!['?'; w.len()]);
                (Seen::Refused(p, c, n(w), k), Seen::Refused(p2, c2, n(w2), k2))
            }
            x => x,
        };
        if s1 == Seen::Panic {
            if one[i].1.is_none() {
                return bad("panic", format!("parsing {:?} panicked{}", one[i].0, what()));
            }
            ctx.fault("vm_panic");
        }
        ctx.see(&format!("{s1:?}"));
        ctx.note(|| format!("script {:?}: {s1:?}, {} instructions", one[i].0, e1.len()));
        if s1 != s2 {
            return bad(
                "outcome",
                format!("script {:?} (number {i}): {s1:?}\n  rewritten {:?}: {s2:?}{}", one[i].0, two[i].0, what()),
            );
        }
        let e2: Vec<_> = e2
            .into_iter()
            .map(|(r, k, t, n, p)| (rw.back.get(&r).cloned().unwrap_or(r), k, t, n.map(|n| swapped(&n, &rw.swap)), p))
            .collect();
        if e1 != e2 {
            let k = e1.iter().zip(&e2).take_while(|(x, y)| x == y).count();
            return bad(
                "instructions",
                format!(
                    "script {:?} (number {i}): instruction {k} is {:?}\n  rewritten {:?}: {:?}{}",
                    one[i].0,
                    e1.get(k),
                    two[i].0,
                    e2.get(k),
                    what()
                ),
            );
        }
    }
    Ok(())
}
