//! FIRST, FOLLOW and director sets are the least solution in any order.
use super::*;
use crate::ctx::bad;
use crate::vm::*;
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{ElementType, Production};
use henriks_parsing_project::sets::{SetMember, SetMemberWithEmpty};
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 300_000,
    rule: "one grammar without left recursion (LL(1) or not), its rules written in 1-3 orders, each processed under 2-3 hash-seed \
           schedules (orders of set propagation); FIRST, FOLLOW, rule and alternative director sets and FIRST of partial right \
           sides compared with naive fixpoints; non-trivial: at least two rules; distinct: digest of the texts and seeds",
    real: "grammar reader, first_sets, follow_sets, graph containers, steuer_sets, steuer_map, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

type First = BTreeSet<Option<char>>; // None = may be empty

#[derive(Debug, Default, PartialEq, Clone)]
struct Sets {
    first: BTreeMap<String, First>,
    follow: BTreeMap<String, BTreeSet<Look>>,
    steuer: BTreeMap<String, BTreeSet<Look>>,
    /// Per rule: look-ahead to spelled alternative.
    table: Option<BTreeMap<String, BTreeMap<Look, String>>>,
    partial: Vec<(String, First)>,
}

fn look(m: &SetMember) -> Look {
    match m {
        SetMember::Char(c) => Some(*c),
        SetMember::Terminate => None,
    }
}

fn first_of(m: &SetMemberWithEmpty) -> Result<Option<char>, String> {
    match m {
        SetMemberWithEmpty::Char(c) => Ok(Some(*c)),
        SetMemberWithEmpty::Empty => Ok(None),
        SetMemberWithEmpty::Terminate => Err("the end of the script is in a FIRST set".into()),
    }
}

fn spell(p: &[Sym], names: &[String]) -> String {
    p.iter()
        .map(|s| match s {
            Sym::T(t) => format!("{t:?}"),
            Sym::N(n) => names[*n].clone(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Slices asked about: (rule, from, to) in the woven alternatives.
fn library(text: &str, slices: &[(Vec<Sym>, String)], names: &[String]) -> Result<Sets, String> {
    let vm = SimVm::new();
    let pd = read_rules(text, &vm).map_err(|e| e.show())?;
    let start = pd.get_element_nt_index("start").ok_or("no start")?;
    let first = get_first_sets(&pd).map_err(|e| format!("FIRST sets refused: {e:?}"))?;
    let follow = get_follow_sets(start, &first, &pd).map_err(|e| format!("FOLLOW sets refused: {e:?}"))?;
    let steuer = get_steuer_sets(&first, &follow).map_err(|e| format!("director sets refused: {e:?}"))?;
    let mut s = Sets::default();
    let els = pd.get_elements_verbose();
    let nt = |i: &usize| els.get(*i).filter(|e| e.et == ElementType::NonTerminal).map(|e| e.name.clone());
    for (i, set) in &first {
        if let Some(n) = nt(i) {
            s.first.insert(n, set.iter().map(first_of).collect::<Result<_, _>>()?);
        }
    }
    for (i, set) in &follow {
        if let Some(n) = nt(i) {
            s.follow.insert(n, set.iter().map(look).collect());
        }
    }
    for (i, set) in &steuer {
        if let Some(n) = nt(i) {
            s.steuer.insert(n, set.iter().map(look).collect());
        }
    }
    for (p, shown) in slices {
        let ix: Option<Vec<usize>> = p
            .iter()
            .map(|s| match s {
                Sym::T(t) => pd.get_element_t_index(t),
                Sym::N(n) => pd.get_element_nt_index(&names[*n]),
            })
            .collect();
        let ix = ix.ok_or(format!("an element of {shown} is not known"))?;
        let set = first_set_of_partial(&ix, &first, &pd).map_err(|e| format!("FIRST of {shown}: {e:?}"))?;
        s.partial.push((shown.clone(), set.iter().map(first_of).collect::<Result<_, _>>()?));
    }
    if let Ok(maps) = get_steuermaps(&first, &follow, pd) {
        let mut t = BTreeMap::new();
        for (i, r) in &maps {
            let Some(n) = nt(i) else { continue };
            let mut m = BTreeMap::new();
            for (l, p) in &r.steuermap {
                let alt = match &**p {
                    Production::Empty => String::new(),
                    Production::NotEmpty(v) => v
                        .iter()
                        .map(|x| match els[*x].et {
                            ElementType::Terminal => format!("{:?}", els[*x].name),
                            ElementType::NonTerminal => els[*x].name.clone(),
                        })
                        .collect::<Vec<_>>()
                        .join(" "),
                };
                m.insert(look(l), alt);
            }
            t.insert(n, m);
        }
        s.table = Some(t);
    }
    Ok(s)
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let o = GenOpt {
        max_nt: src.range(2, 10),
        max_len: src.range(2, 5),
        ignores: 20,
        sections: 0,
        repair: true,
        ..GenOpt::default()
    };
    let mut g = if src.pct(35) {
        match gen_ll1(src, &o) {
            Some((g, ..)) => g,
            None => {
                ctx.no_verdict = true;
                return Ok(());
            }
        }
    } else {
        gen_any(src, &o)
    };
    let (mut f, mut a) = g.analyse();
    for k in 0..6 {
        if !a.left_rec {
            break;
        }
        // cut cycles: a terminal in front of alternatives that start with an earlier or the same rule
        let c = ['Q', 'R', 'S', 'T', 'U', 'V'][k];
        for i in 0..g.rules.len() {
            if let Some(r) = g.rules[i].as_mut() {
                for alt in r.alts.iter_mut() {
                    let bad = alt
                        .iter()
                        .take_while(|s| !matches!(s, Sym::T(t) if !t.is_empty()))
                        .any(|s| matches!(s, Sym::N(b) if *b <= i));
                    if bad {
                        alt.insert(0, Sym::T(c.to_string()));
                    }
                }
            }
        }
        (f, a) = g.analyse();
    }
    if a.left_rec || a.undefined {
        ctx.no_verdict = true;
        return Ok(());
    }
    let mut orders = vec![g.order.clone()];
    if g.directives.is_empty() {
        for _ in 0..src.us(3) {
            let mut o = g.order.clone();
            for i in (1..o.len()).rev() {
                o.swap(i, src.us(i + 1));
            }
            orders.push(o);
        }
    }
    let texts: Vec<String> = orders
        .iter()
        .map(|o| {
            g.order = o.clone();
            g.text(src)
        })
        .collect();
    g.order = orders[0].clone();
    let keys: Vec<u64> = (0..src.range(2, 3)).map(|_| key(src)).collect();
    let mut slices = vec![];
    for p in f.prods.iter().flatten() {
        if !p.is_empty() && slices.len() < 12 {
            let x = src.us(p.len());
            let y = src.range(x + 1, p.len());
            slices.push((p[x..y].to_vec(), spell(&p[x..y], &g.names)));
        }
    }
    // what it must be
    let mut want = Sets::default();
    let mut table = BTreeMap::new();
    for i in 0..g.names.len() {
        let n = g.names[i].clone();
        let mut fs: First = a.first[i].iter().map(|c| Some(*c)).collect();
        let mut st: BTreeSet<Look> = fs.clone();
        if a.nullable[i] {
            fs.insert(None);
            st.extend(&a.follow[i]);
        }
        want.first.insert(n.clone(), fs);
        want.follow.insert(n.clone(), a.follow[i].clone());
        want.steuer.insert(n.clone(), st);
        table.insert(
            n,
            a.table[i]
                .iter()
                .map(|(l, j)| (*l, spell(&f.prods[i][*j], &g.names)))
                .collect::<BTreeMap<_, _>>(),
        );
    }
    if a.ll1() {
        want.table = Some(table);
    }
    for (p, shown) in &slices {
        let (fs, nu) = first_of_seq(p, &a.nullable, &a.first);
        let mut fs: First = fs.into_iter().map(Some).collect();
        if nu {
            fs.insert(None);
        }
        want.partial.push((shown.clone(), fs));
    }
    ctx.case(&format!("{texts:?} {keys:?}"));
    ctx.nontrivial = g.order.len() > 1;
    ctx.sample = format!("grammar {:?} in {} orders under {} hash-seed schedules", texts[0], texts.len(), keys.len());
    ctx.faults_n("hash_seed_schedule", (texts.len() * keys.len()) as u64);
    ctx.probe(if a.ll1() { "LL(1)" } else { "conflicting" });
    ctx.note(|| format!("grammar: {}", g.pretty()));
    ctx.note(|| format!("model: {want:?}"));
    for t in &texts {
        for k in &keys {
            ctx.steps += 1;
            let got = in_thread(*k, || guard(|| library(t, &slices, &g.names)));
            let what = || format!("grammar {}\n  text {t:?}\n  hash key {k:#x}", g.pretty());
            let got = match got {
                Err(p) => return bad("crash", format!("{p}\n  in: {}", what())),
                Ok(Err(e)) => return bad("refused", format!("{e}\n  in: {}", what())),
                Ok(Ok(s)) => s,
            };
            ctx.see(&format!("{:?}", got.follow));
            ctx.note(|| format!("hash key {k:#x}: {got:?}"));
            for (kind, w, h) in [("first", &want.first, &got.first)] {
                if let Some((n, w, h)) = differs(w, h) {
                    return bad(kind, format!("FIRST of {n} is {h:?}, least solution {w:?} (None = empty)\n  in: {}", what()));
                }
            }
            for (kind, w, h) in [("follow", &want.follow, &got.follow), ("director", &want.steuer, &got.steuer)] {
                if let Some((n, w, h)) = differs(w, h) {
                    return bad(
                        kind,
                        format!("{kind} set of {n} is {h:?}, least solution {w:?} (None = end of script)\n  in: {}", what()),
                    );
                }
            }
            for (w, h) in want.partial.iter().zip(&got.partial) {
                if w != h {
                    return bad("first_of_part", format!("FIRST of {} is {:?}, least solution {:?}\n  in: {}", w.0, h.1, w.1, what()));
                }
            }
            if let (Some(w), Some(h)) = (&want.table, &got.table) {
                if w != h {
                    let n = w.keys().find(|n| w.get(*n) != h.get(*n)).cloned().unwrap_or_default();
                    return bad(
                        "director_table",
                        format!("director sets of {n}: {:?}, textbook {:?}\n  in: {}", h.get(&n), w.get(&n), what()),
                    );
                }
            } else if want.table.is_some() != got.table.is_some() {
                return bad(
                    "director_table",
                    format!("distinct director sets: library {}, textbook {}\n  in: {}", got.table.is_some(), want.table.is_some(), what()),
                );
            }
        }
    }
    Ok(())
}

fn differs<T: PartialEq + Clone + std::fmt::Debug>(w: &BTreeMap<String, T>, h: &BTreeMap<String, T>) -> Option<(String, T, String)> {
    for (n, x) in w {
        if h.get(n) != Some(x) {
            return Some((n.clone(), x.clone(), format!("{:?}", h.get(n))));
        }
    }
    None
}
