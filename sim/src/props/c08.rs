//! A grammar is accepted exactly when it is LL(1).
use super::*;
use crate::ctx::bad;
use crate::vm::*;
use henriks_parsing_project::errors::GrammarError;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::steuer_map::get_steuermaps;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 240_000,
    rule: "one arbitrary grammar (LL(1), conflicting, left-recursive, with undefined names, with ignorables), its rules written \
           in 1-3 orders, each built under 2-3 hash-seed schedules by both routes; the verdict is compared with the reference \
           analysis and the reported conflict must be a real one; non-trivial: at least two rules; \
           distinct: digest of the texts and seeds",
    real: "grammar reader, FIRST/FOLLOW/director construction, Parser::new_from_text, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

#[derive(Debug, Clone, PartialEq)]
enum Said {
    Accepted,
    /// Conflict in (rule, character; None = end of script or '#').
    Conflict(String, char),
    LeftRec(String),
    Missing(String),
    Unread(String),
    Other(String),
    NoStart,
}

fn one_build(text: &str) -> Said {
    let vm = SimVm::new();
    let pd = match read_rules(text, &vm) {
        Ok(pd) => pd,
        Err(e) => return Said::Unread(e.show()),
    };
    let names: BTreeMap<usize, String> = pd
        .get_elements_verbose()
        .iter()
        .enumerate()
        .map(|(i, e)| (i, e.name.clone()))
        .collect();
    let name = |i: usize| names.get(&i).cloned().unwrap_or_else(|| format!("no element {i}"));
    let class = |e: GrammarError| match &e {
        GrammarError::SteuerSetsNotDistinct {
            steuer_char, rule_name, ..
        } => Said::Conflict(
            rule_name.parse::<usize>().map(&name).unwrap_or_else(|_| rule_name.clone()),
            *steuer_char,
        ),
        GrammarError::LeftRecursion { index } => Said::LeftRec(name(*index)),
        GrammarError::MissingProduction { index } => Said::Missing(name(*index)),
        e => Said::Other(format!("{e:?}")),
    };
    let Some(start) = pd.get_element_nt_index("start") else { return Said::NoStart };
    let first = match get_first_sets(&pd) {
        Ok(f) => f,
        Err(e) => return class(e),
    };
    let follow = match get_follow_sets(start, &first, &pd) {
        Ok(f) => f,
        Err(e) => return class(e),
    };
    match get_steuermaps(&first, &follow, pd) {
        Ok(_) => Said::Accepted,
        Err(e) => class(e),
    }
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let valid = src.pct(35);
    let mut g = if valid {
        match gen_ll1(src, &GenOpt { max_nt: 9, ignores: 25, ..GenOpt::default() }) {
            Some((g, ..)) => g,
            None => {
                ctx.no_verdict = true;
                return Ok(());
            }
        }
    } else {
        gen_any(
            src,
            &GenOpt {
                max_nt: 8,
                ignores: 25,
                undefined: 15,
                repair: src.pct(60),
                max_len: src.range(1, 4),
                ..GenOpt::default()
            },
        )
    };
    if valid && src.pct(40) {
        // one small change to a good grammar: the near misses
        let i = g.order[src.us(g.order.len())];
        let n = g.names.len();
        let r = g.rules[i].as_mut().unwrap();
        match src.below(5) {
            0 => r.alts.push(vec![]),
            1 => {
                let a = src.us(r.alts.len());
                r.alts[a].insert(0, Sym::N(src.us(n)));
            }
            2 => {
                let a = src.us(r.alts.len());
                let k = src.us(r.alts[a].len() + 1);
                r.alts[a].insert(k, Sym::N(src.us(n)));
            }
            3 => {
                let a = src.us(r.alts.len());
                if !r.alts[a].is_empty() {
                    let k = src.us(r.alts[a].len());
                    r.alts[a].remove(k);
                }
            }
            _ => {
                let a = src.us(r.alts.len());
                let c = r.alts[a].clone();
                r.alts.push(c);
            }
        }
        ctx.fault("near_miss_edit");
    }
    let (_, a) = g.analyse();
    let plain = g.directives.is_empty();
    let mut orders = vec![g.order.clone()];
    if plain {
        for _ in 0..src.us(3) {
            let mut o = g.order.clone();
            for i in (1..o.len()).rev() {
                o.swap(i, src.us(i + 1));
            }
            orders.push(o);
        }
    }
    let keys: Vec<u64> = (0..src.range(2, 3)).map(|_| key(src)).collect();
    let texts: Vec<String> = orders
        .iter()
        .map(|o| {
            g.order = o.clone();
            g.text(src)
        })
        .collect();
    ctx.case(&format!("{texts:?} {keys:?}"));
    ctx.sample = format!("grammar {:?} in {} orders; model: {}", texts[0], texts.len(), verdict(&a));
    ctx.nontrivial = g.order.len() > 1;
    ctx.note(|| format!("grammar: {}", g.pretty()));
    ctx.note(|| format!("model: {}; conflicts {:?}", verdict(&a), a.conflicts));
    ctx.faults_n("hash_seed_schedule", (keys.len() * texts.len()) as u64);
    ctx.probe(verdict(&a));
    // an ignorable that is undefined, or leads to something undefined, may be refused while reading
    let dangling = a.undefined && {
        let chars: Vec<char> = texts[0].chars().collect();
        match crate::reader::read(&chars) {
            Ok(r) => r.dangling_ignorable(),
            Err(p) => panic!("generated text not readable at {p}: {}", texts[0]),
        }
    };
    for t in &texts {
        for k in &keys {
            ctx.steps += 1;
            let said = in_thread(*k, || guard(|| one_build(t)));
            ctx.note(|| format!("hash key {k:#x} text {t:?}: {said:?}"));
            ctx.see(&format!("{said:?}"));
            let what = || format!("grammar {}\n  text {t:?}\n  hash key {k:#x}\n  reported {said:?}", g.pretty());
            let said = match &said {
                Err(p) => return bad("build_panics", format!("{p}\n  in: {}", what())),
                Ok(s) => s.clone(),
            };
            match (&said, a.ll1()) {
                (Said::Accepted, true) => {}
                (Said::Accepted, false) => return bad("accepts_not_ll1", format!("accepted, but: {}\n  in: {}", verdict(&a), what())),
                (_, true) => return bad("refuses_ll1", format!("LL(1) grammar refused\n  in: {}", what())),
                (Said::Conflict(r, c), _) => {
                    let nt = g.names.iter().position(|n| n == r);
                    let real = nt.is_some_and(|i| {
                        a.conflicts.contains(&(i, Some(*c))) || (*c == '#' && a.conflicts.contains(&(i, None)))
                    });
                    if !real {
                        return bad(
                            "invented_conflict",
                            format!("no two alternatives of {r} share {c:?}; model conflicts {:?}\n  in: {}", a.conflicts, what()),
                        );
                    }
                }
                (Said::LeftRec(r), _) => {
                    let nt = g.names.iter().position(|n| n == r);
                    if !nt.is_some_and(|i| a.left_rec_of.contains(&i)) {
                        return bad("invented_left_recursion", format!("{r} reported, which cannot begin with itself\n  in: {}", what()));
                    }
                }
                (Said::Missing(r), _) => {
                    let nt = g.names.iter().position(|n| n == r);
                    if !nt.is_some_and(|i| g.rules[i].is_none()) {
                        return bad("invented_missing_production", format!("{r} is defined\n  in: {}", what()));
                    }
                }
                (Said::Unread(_), _) if dangling => {}
                (Said::Unread(_), _) => return bad("text_refused", format!("the text is well-formed\n  in: {}", what())),
                (Said::NoStart, _) => return bad("start_lost", what()),
                (Said::Other(_), _) if a.undefined => {}
                (Said::Other(_), _) => {
                    return bad("names_no_conflict", format!("refused, but the error names no conflict\n  in: {}", what()))
                }
            }
            // the other route
            if *k == keys[0] {
                let by_text = in_thread(*k, || {
                    let vm = SimVm::new();
                    let r = guard(|| henriks_parsing_project::script_parser::Parser::new_from_text(t, &vm)).map(|_| ());
                    r
                });
                if by_text.is_ok() != a.ll1() {
                    return bad(
                        if a.ll1() { "refuses_ll1" } else { "accepts_not_ll1" },
                        format!("Parser::new_from_text: {by_text:?}; model: {}\n  in: {}", verdict(&a), what()),
                    );
                }
            }
        }
    }
    Ok(())
}

fn verdict(a: &Analysis) -> &'static str {
    if a.undefined {
        "undefined production"
    } else if a.left_rec {
        "left recursion"
    } else if !a.conflicts.is_empty() {
        "conflict"
    } else {
        "LL(1)"
    }
}

/// Load `t` on a stack of the usual size.
fn on_usual_stack(kind: &'static str, t: &str, whole: bool) -> Res {
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                crate::seams::set_hash_key(7);
                let vm = SimVm::new();
                if whole {
                    guard(|| henriks_parsing_project::script_parser::Parser::new_from_text(t, &vm)).map(|_| ())
                } else {
                    let pd = read_rules(t, &vm).map_err(|e| e.show())?;
                    get_first_sets(&pd).map(|_| ()).map_err(|e| format!("{e:?}"))
                }
            })
            .unwrap()
            .join()
            .unwrap_or(Err("panic".into()))
    });
    match r {
        Ok(()) => Ok(()),
        Err(e) => bad(kind, e),
    }
}

const LONG: usize = 100_000;

/// 100 000 rules, each starting with the next.
pub fn long_chain() -> Res {
    let mut t = String::from("start -> r0;");
    for i in 0..LONG - 1 {
        t += &format!("r{i} -> r{};", i + 1);
    }
    t += &format!("r{} -> \"x\";", LONG - 1);
    on_usual_stack("long_rule_chain", &t, false)
}

/// The same with something behind each, skipped between the parts of start.
pub fn long_ignorable() -> Res {
    let mut t = String::new();
    for i in 0..LONG - 1 {
        t += &format!("r{i} -> r{} \"y\";", i + 1);
    }
    t += &format!("r{} -> \"x\"; $IGNORE: r0; start -> \"a\" \"b\";", LONG - 1);
    on_usual_stack("long_ignorable", &t, true)
}
