//! A grammar built through the API equals the same grammar read from text.
use super::*;
use crate::ctx::bad;
use crate::model::*;
use crate::vm::*;
use henriks_parsing_project::parser_data::{ElementType, ElementVerbose, ParserData, Production};
use henriks_parsing_project::script_parser::Parser;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 400_000,
    rule: "one grammar (LL(1) or not, any start name), built by calls of the programmatic interface interleaved at random across \
           rules, with alternatives and instructions added, set and replaced, and read from text; the tables are looked into after \
           each or some of the calls; verdict, trees, instruction sequences and errors for 1-6 scripts compared with the text-built parser and the reference; non-trivial: calls of \
           two rules were interleaved or something was replaced; distinct: digest of call sequence, scripts and seeds",
    real: "ParserData builder calls, grammar reader, table construction, parser, tree, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

#[derive(Clone, Debug)]
enum Call {
    Name(usize),
    Term(String),
    Add(usize, Vec<Sym>),
    Set(usize, Vec<Vec<Sym>>),
    Instr(usize, Vec<Instr>),
}

/// What the calls so far must have made.
#[derive(Default)]
struct Made {
    elements: Vec<(String, bool, usize)>,
    /// Alternatives and instructions of each rule, by its name.
    rules: BTreeMap<String, (Vec<Vec<usize>>, Vec<Instr>)>,
}

impl Made {
    /// What the tables say, against what they must say.
    fn wrong(&self, pd: &ParserData<SimVm>) -> Option<String> {
        for (name, terminal, ix) in &self.elements {
            let (own, other) = if *terminal {
                (pd.get_element_t_index(name), pd.get_element_nt_index(name))
            } else {
                (pd.get_element_nt_index(name), pd.get_element_t_index(name))
            };
            let twin = self.elements.iter().find(|e| e.0 == *name && e.1 != *terminal).map(|e| e.2);
            if own != Some(*ix) || other != twin {
                return Some(format!("{name:?} (terminal: {terminal}) is at {own:?}, its namesake of the other kind at {other:?}, instead of {ix} and {twin:?}"));
            }
            let v = pd.get_element_verbose(*ix);
            let kind = if *terminal { ElementType::Terminal } else { ElementType::NonTerminal };
            if !v.as_ref().is_some_and(|v| v.name == *name && v.et == kind) {
                return Some(format!("element {ix} is {v:?} instead of {name:?} (terminal: {terminal})"));
            }
            if pd.get_element_index(&ElementVerbose::new(name.clone(), kind)) != Some(*ix) {
                return Some(format!("{name:?} (terminal: {terminal}) is not found under its name and kind"));
            }
            if *terminal {
                if pd.get_rule_by_key(*ix).is_some() {
                    return Some(format!("the terminal {name:?} has a rule"));
                }
                continue;
            }
            let (alts, ins) = match self.rules.get(name) {
                Some((a, i)) => (&a[..], &i[..]),
                None => (&[][..], &[][..]),
            };
            let ways = [
                ("its name", pd.get_rule_by_element_verbose(name)),
                ("its index", pd.get_rule_by_key(*ix)),
                ("its element", pd.get_element(*ix).and_then(|e| pd.get_rule_by_element(e))),
            ];
            for (way, r) in ways {
                let Some(r) = r else {
                    if alts.is_empty() && ins.is_empty() {
                        continue;
                    }
                    return Some(format!("no rule is found by {way} for {name:?}"));
                };
                let got: Vec<Vec<usize>> = r
                    .possible_productions
                    .iter()
                    .map(|p| match &**p {
                        Production::Empty => vec![],
                        Production::NotEmpty(v) => v.clone(),
                    })
                    .collect();
                if got != alts || format!("{:?}", r.instruction) != format!("{ins:?}") {
                    return Some(format!(
                        "the rule found by {way} for {name:?} has alternatives {got:?} and instructions {:?} instead of {alts:?} and {ins:?}",
                        r.instruction
                    ));
                }
            }
        }
        None
    }
}

fn carry_out(calls: &[Call], names: &[String], start: usize, every: usize) -> Result<(ParserData<SimVm>, usize), String> {
    let mut pd: ParserData<SimVm> = ParserData::new();
    let mut made = Made::default();
    fn el(pd: &mut ParserData<SimVm>, made: &mut Made, name: &str, terminal: bool) -> Result<usize, String> {
        let ix = if terminal { pd.get_or_add_terminal(name) } else { pd.get_or_add_non_terminal(name) };
        match made.elements.iter().find(|e| e.0 == name && e.1 == terminal) {
            Some(e) if e.2 != ix => Err(format!("{name:?} (terminal: {terminal}) was {} and is {ix}", e.2)),
            Some(_) => Ok(ix),
            None if made.elements.iter().any(|e| e.2 == ix) => Err(format!("{name:?} (terminal: {terminal}) shares index {ix}")),
            None => {
                made.elements.push((name.to_string(), terminal, ix));
                Ok(ix)
            }
        }
    }
    fn alt(pd: &mut ParserData<SimVm>, made: &mut Made, names: &[String], a: &[Sym]) -> Result<Vec<usize>, String> {
        a.iter()
            .map(|s| match s {
                Sym::T(t) => el(pd, made, t, true),
                Sym::N(n) => el(pd, made, &names[*n], false),
            })
            .collect()
    }
    for (k, c) in calls.iter().enumerate() {
        match c {
            Call::Name(n) => {
                el(&mut pd, &mut made, &names[*n], false)?;
            }
            Call::Term(t) => {
                el(&mut pd, &mut made, t, true)?;
            }
            Call::Add(n, a) => {
                let i = el(&mut pd, &mut made, &names[*n], false)?;
                let v = alt(&mut pd, &mut made, names, a)?;
                made.rules.entry(names[*n].clone()).or_default().0.push(v.clone());
                pd.add_production(i, v);
            }
            Call::Set(n, alts) => {
                let i = el(&mut pd, &mut made, &names[*n], false)?;
                let v: Vec<Vec<usize>> = alts.iter().map(|a| alt(&mut pd, &mut made, names, a)).collect::<Result<_, _>>()?;
                made.rules.entry(names[*n].clone()).or_default().0 = v.clone();
                pd.set_productions(i, v);
            }
            Call::Instr(n, ins) => {
                let i = el(&mut pd, &mut made, &names[*n], false)?;
                made.rules.entry(names[*n].clone()).or_default().1 = ins.clone();
                pd.add_instructions(i, ins.clone());
            }
        }
        if every > 0 && k % every == 0 {
            if let Some(w) = made.wrong(&pd) {
                return Err(format!("after call {k} ({c:?}): {w}"));
            }
        }
    }
    let s = el(&mut pd, &mut made, &names[start], false)?;
    match made.wrong(&pd) {
        Some(w) => Err(format!("after all calls: {w}")),
        None => Ok((pd, s)),
    }
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let o = GenOpt {
        sections: 70,
        any_start_name: src.pct(60),
        ignores: 10,
        ..GenOpt::default()
    };
    let valid = !src.pct(20);
    let mut g = if valid {
        match gen_ll1(src, &o) {
            Some((g, ..)) => g,
            None => {
                ctx.no_verdict = true;
                return Ok(());
            }
        }
    } else {
        gen_any(src, &o)
    };
    let (f, a) = g.analyse();
    if a.undefined || f.prods.iter().any(|p| p.is_empty()) {
        ctx.no_verdict = true;
        return Ok(());
    }
    let ins = instrs(&g);
    let n = g.names.len();
    let names = g.names.clone();
    let start = g.start;
    // the calls of each rule, in order
    let mut per: Vec<Vec<Call>> = vec![];
    let decoy_alt = |src: &Src| -> Vec<Sym> {
        (0..src.us(3))
            .map(|_| {
                if src.pct(50) {
                    Sym::N(src.us(n))
                } else {
                    Sym::T(gen_terminal(src, true))
                }
            })
            .collect()
    };
    let mut replaced = false;
    for i in 0..n {
        let alts = &f.prods[i];
        let mut c = vec![];
        if src.pct(20) {
            c.push(Call::Name(i));
        }
        if src.pct(30) {
            // something that is replaced later
            replaced = true;
            ctx.fault("alternatives_replaced");
            for _ in 0..src.range(1, 2) {
                if src.pct(50) {
                    c.push(Call::Add(i, decoy_alt(src)));
                } else {
                    let m = src.us(3);
                    c.push(Call::Set(i, (0..m).map(|_| decoy_alt(src)).collect()));
                }
            }
            let k = src.us(alts.len() + 1);
            c.push(Call::Set(i, alts[..k].to_vec()));
            c.extend(alts[k..].iter().map(|a| Call::Add(i, a.clone())));
        } else if src.pct(40) {
            let k = src.us(alts.len() + 1);
            c.push(Call::Set(i, alts[..k].to_vec()));
            c.extend(alts[k..].iter().map(|a| Call::Add(i, a.clone())));
        } else {
            c.extend(alts.iter().map(|a| Call::Add(i, a.clone())));
        }
        // instructions go anywhere among the rule's calls, the last ones count
        if !ins[i].is_empty() || src.pct(20) {
            let mut at = src.us(c.len() + 1);
            if src.pct(30) {
                replaced = true;
                ctx.fault("instructions_replaced");
                let junk = (0..src.us(3))
                    .map(|k| Instr {
                        rule: names[i].clone(),
                        k,
                        text: "junk".into(),
                    })
                    .collect();
                c.insert(at, Call::Instr(i, junk));
                at = src.range(at + 1, c.len());
            }
            c.insert(at, Call::Instr(i, ins[i].clone()));
        }
        per.push(c);
    }
    // names asked for without any other reason
    let mut loose: Vec<Call> = vec![];
    for _ in 0..src.us(4) {
        loose.push(if src.pct(50) {
            Call::Name(src.us(n))
        } else if src.pct(40) {
            Call::Term(names[src.us(n)].clone())
        } else {
            Call::Term(gen_terminal(src, false))
        });
    }
    per.push(loose);
    // interleaving
    let mut calls = vec![];
    let mut at = vec![0; per.len()];
    let burst = [1, 1, 3, 100][src.us(4)];
    let mut switches = 0;
    loop {
        let live: Vec<usize> = (0..per.len()).filter(|i| at[*i] < per[*i].len()).collect();
        if live.is_empty() {
            break;
        }
        let i = *src.pick(&live);
        for _ in 0..src.range(1, burst) {
            if at[i] < per[i].len() {
                calls.push(per[i][at[i]].clone());
                at[i] += 1;
            }
        }
        switches += 1;
    }
    ctx.nontrivial = replaced || switches > per.len();
    // the equivalent text, whose start production must be called start
    if names[start] != "start" {
        ctx.probe("start_production_not_named_start");
        if let Some(i) = names.iter().position(|n| n == "start") {
            ctx.probe("another_production_named_start");
            g.names[i] = "former_start".into();
        }
        g.names[start] = "start".into();
    }
    let text = g.text(src);
    let every = [0, 0, 1, 4][src.us(4)];
    let k1 = key(src);
    let k2 = key(src);
    let mut scripts = vec![];
    if valid {
        let sc = Scene {
            g: g.clone(),
            f: f.clone(),
            a: a.clone(),
            text: text.clone(),
        };
        for _ in 0..src.range(1, 6) {
            let (s, kinds) = script(src, &sc, 35);
            for k in kinds {
                ctx.fault(k);
            }
            scripts.push(s);
        }
    }
    let strs: Vec<String> = scripts.iter().map(|s| st(s)).collect();
    ctx.faults_n("hash_seed_schedule", 2);
    ctx.faults_n("builder_call_switch", switches as u64);
    ctx.case(&format!("{calls:?} {strs:?} {k1} {k2}"));
    ctx.inter = Some(fnv_str(&format!("{calls:?}")));
    ctx.sample = format!("{} builder calls for {:?}, start {}, scripts {strs:?}", calls.len(), g.pretty(), names[start]);
    ctx.note(|| format!("start {} of {}", names[start], g.pretty()));
    for c in &calls {
        ctx.note(|| format!("{c:?}"));
    }
    ctx.steps += calls.len() as u64;
    let api = in_thread(k1, || {
        let vm = SimVm::new();
        let (pd, s) = match guard(|| carry_out(&calls, &names, start, every))? {
            Ok(x) => x,
            Err(wrong) => return Ok(Err(wrong)),
        };
        let mut p = guard(|| Parser::new_from_parser_data(pd, s, &vm))?;
        Ok::<_, String>(Ok(strs.iter().map(|s| parse(&mut p, s, SimState::watching())).collect::<Vec<_>>()))
    });
    let by_text = in_thread(k2, || {
        let vm = SimVm::new();
        let mut p = guard(|| Parser::new_from_text(&text, &vm))?;
        Ok::<_, String>(strs.iter().map(|s| parse(&mut p, s, SimState::watching())).collect::<Vec<_>>())
    });
    let what = || {
        format!(
            "start {}\n  calls {calls:?}\n  text {text:?}\n  hash keys {k1:#x} {k2:#x}",
            names[start]
        )
    };
    let api = match api {
        Ok(Err(wrong)) => return bad("tables", format!("{wrong}\n  in: {}", what())),
        Ok(Ok(x)) => Ok(x),
        Err(e) => Err(e),
    };
    if api.is_ok() != a.ll1() {
        return bad(
            "verdict",
            format!(
                "the grammar is {}LL(1), the built grammar was {}; from text: {}\n  in: {}",
                if a.ll1() { "" } else { "not " },
                match &api {
                    Ok(_) => "accepted".to_string(),
                    Err(e) => format!("refused: {e}"),
                },
                if by_text.is_ok() { "accepted" } else { "refused" },
                what()
            ),
        );
    }
    if api.is_ok() != by_text.is_ok() {
        return bad(
            "text_and_api_disagree",
            format!("from text {:?}, through the API {:?}\n  in: {}", by_text.as_ref().err(), api.as_ref().err(), what()),
        );
    }
    let (Ok(api), Ok(by_text)) = (api, by_text) else {
        ctx.probe("refused_both_ways");
        return Ok(());
    };
    for (i, (x, y)) in api.iter().zip(&by_text).enumerate() {
        ctx.steps += 2 + x.calls as u64;
        ctx.see(&x.brief());
        ctx.note(|| format!("script {:?}: API {}; text {}", strs[i], x.brief(), y.brief()));
        let what = || format!("script {:?}\n  {}", strs[i], what());
        let e = expect(&f, &a, &ins, &scripts[i]);
        diff(verdict_diff(&scripts[i], &e, x), what)?;
        diff(events_diff(&e, &x.events, None), what)?;
        diff(nodes_diff(&e, &x.events), what)?;
        diff(tree_diff(&e, x).filter(|_| e.end.is_ok()), what)?;
        let ev = |o: &Outcome| o.events.iter().map(|e| (e.k, e.text.clone(), e.path.clone())).collect::<Vec<_>>();
        // the error text may name productions; position and character may not differ
        if x.err_at != y.err_at || x.err.is_some() != y.err.is_some() || x.tree != y.tree || ev(x) != ev(y) {
            return bad(
                "text_and_api_disagree",
                format!("through the API: {}\n  from text: {}\n  in: {}", x.brief(), y.brief(), what()),
            );
        }
    }
    Ok(())
}

fn fnv_str(s: &str) -> u64 {
    crate::ctx::fnv(0, s.as_bytes())
}
