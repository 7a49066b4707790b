//! One parser over a history of scripts behaves like a fresh parser each time.
use super::*;
use crate::ctx::bad;
use crate::model::*;
use crate::vm::*;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 240_000,
    rule: "one LL(1) grammar, one parser, a history of 2-12 parses: derivable, cut, corrupted, aborted by a VM panic at a \
           random call, repeated, also with the parser moved between them; each compared with a fresh parser under the same \
           hash seeds and with the reference derivation; non-trivial: the history contains a failed or aborted parse before \
           another parse; distinct: digest of grammar, history and seeds",
    real: "grammar reader, table construction, parser, tree, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let Some(sc) = scene(src, ctx, &GenOpt { sections: 75, ..GenOpt::default() }) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    let ins = instrs(&sc.g);
    let n = src.range(2, 12);
    let mut hist: Vec<(Vec<char>, Option<usize>)> = vec![];
    for i in 0..n {
        if i > 0 && src.pct(25) {
            let j = src.us(i);
            let (s, p) = hist[j].clone();
            let again = if src.pct(50) { None } else { p };
            hist.push((s, again));
            ctx.probe("script_repeated");
            continue;
        }
        let (s, k) = script(src, &sc, 45);
        for k in k {
            ctx.fault(k);
        }
        let due = expect(&sc.f, &sc.a, &ins, &s).events.len();
        let p = if due > 0 && src.pct(30) { Some(src.us(due)) } else { None };
        hist.push((s, p));
    }
    // A parser that has served for long: many earlier parses, only on the used parser.
    let warm = if src.below(1000) >= 994 { 100 + src.us(1500) } else { 0 };
    let k = key(src);
    let api = src.pct(25);
    ctx.fault("hash_seed_schedule");
    if warm > 0 {
        ctx.probe("long_history");
        ctx.nontrivial = true;
    }
    ctx.case(&format!("{} {hist:?} {k} {warm}", sc.text));
    ctx.sample = format!(
        "grammar {:?} history {:?}",
        sc.text,
        hist.iter().map(|(s, p)| (st(s), *p)).collect::<Vec<_>>()
    );
    ctx.note(|| format!("grammar: {}", sc.g.pretty()));
    let strs: Vec<String> = hist.iter().map(|s| st(&s.0)).collect();
    let run1 = |fresh: bool| {
        in_thread(k, || {
            let vm = SimVm::new();
            let mk = || -> Result<henriks_parsing_project::script_parser::Parser<SimVm>, String> {
                if api {
                    let pd = read_rules(&sc.text, &vm).map_err(|e| e.show())?;
                    let start = pd.get_element_nt_index("start").ok_or("no start".to_string())?;
                    guard(|| henriks_parsing_project::script_parser::Parser::new_from_parser_data(pd, start, &vm))
                } else {
                    build(&sc.text, &vm).map_err(|e| e.show())
                }
            };
            let mut p = mk()?;
            let mut outs = vec![];
            if !fresh {
                for i in 0..warm {
                    let mut st = SimState::default();
                    st.panic_at = hist[i % n].1;
                    parse(&mut p, &strs[i % n], st);
                }
            }
            for (s, (_, panic_at)) in strs.iter().zip(&hist) {
                if fresh {
                    p = mk()?;
                }
                let mut st = SimState::watching();
                st.panic_at = *panic_at;
                outs.push(parse(&mut p, s, st));
            }
            Ok::<_, String>(outs)
        })
    };
    let used = match run1(false) {
        Ok(o) => o,
        Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text)),
    };
    let fresh = match run1(true) {
        Ok(o) => o,
        Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text)),
    };
    let mut trouble = false;
    for (i, (u, fr)) in used.iter().zip(&fresh).enumerate() {
        ctx.steps += 2 + u.calls as u64;
        let (s, panic_at) = &hist[i];
        if trouble {
            ctx.nontrivial = true;
        }
        if u.panic.is_some() {
            ctx.fault("vm_panic");
            trouble = true;
        }
        if u.err.is_some() {
            trouble = true;
        }
        ctx.see(&u.brief());
        ctx.note(|| format!("parse {i} of {:?} (VM panics at {panic_at:?}): {} after {} calls", st(s), u.brief(), u.calls));
        let what = || {
            format!(
                "parse {i} (after {warm} earlier parses of the same scripts) of history {:?}\n  grammar {}\n  text {:?}\n  hash key {k:#x}",
                hist.iter().map(|(s, p)| (st(s), *p)).collect::<Vec<_>>(),
                sc.g.pretty(),
                sc.text
            )
        };
        if u.panic != fr.panic || u.err != fr.err || u.tree != fr.tree {
            return diff(
                Some((
                    "differs_from_fresh_parser",
                    format!("used parser: {}\n  fresh parser: {}", u.brief(), fr.brief()),
                )),
                what,
            );
        }
        let ev = |o: &Outcome| {
            o.events
                .iter()
                .map(|e| (e.rule.clone(), e.text.clone(), e.sub.clone(), e.path.clone()))
                .collect::<Vec<_>>()
        };
        if ev(u) != ev(fr) {
            return diff(
                Some((
                    "differs_from_fresh_parser",
                    format!("instructions of used parser {:?}\n  of fresh parser {:?}", ev(u), ev(fr)),
                )),
                what,
            );
        }
        // a defect that shows with fresh parsers too belongs to C02-C04; here the history must not add one
        let e = expect(&sc.f, &sc.a, &ins, s);
        if u.panic.is_none() && i > 0 {
            diff(verdict_diff(s, &e, u), what)?;
            diff(events_diff(&e, &u.events, *panic_at), what)?;
            diff(tree_diff(&e, u).filter(|_| e.end.is_ok()), what)?;
        }
    }
    Ok(())
}

/// One parser for a very long history: good, failing and aborted parses in blocks, compared with the first time.
pub fn long_history() -> Res {
    let text = "start -> list \"!\" {s}; list -> item list | # {l}; item -> \"a\" | \"(\" list \")\" {i};";
    let scripts: [(&str, Option<usize>); 8] = [
        ("aa!", None),
        ("(a(a))!", None),
        ("((((((((a", None),
        ("a)!", None),
        ("", None),
        ("(aa)a!", Some(2)),
        ("aaaaaaaaaaaaaaaaaaaaaaaa!", Some(0)),
        ("a!x", None),
    ];
    let one = |p: &mut henriks_parsing_project::script_parser::Parser<'static, SimVm>, i: usize| {
        let mut st = SimState::default();
        st.panic_at = scripts[i].1;
        let o = parse(p, scripts[i].0, st);
        (o.panic.clone(), o.err.clone(), o.calls, o.tree.clone())
    };
    in_thread(11, || {
        let vm: &'static SimVm = Box::leak(Box::new(SimVm::new()));
        let mut want = vec![];
        for i in 0..scripts.len() {
            let mut p = match build(text, vm) {
                Ok(p) => p,
                Err(e) => return bad("grammar_refused", e.show()),
            };
            want.push(one(&mut p, i));
        }
        let Ok(mut p) = build(text, vm) else { return bad("grammar_refused", text.into()) };
        // blocks of one kind, so that an effect of that kind alone adds up; then all kinds mixed
        let mut done = 0;
        for block in 0..scripts.len() + 1 {
            for j in 0..12_000 {
                let i = if block < scripts.len() && j % 100 != 99 { block } else { (j / 100 + j) % scripts.len() };
                let got = one(&mut p, i);
                if got != want[i] {
                    return bad(
                        "differs_from_fresh_parser",
                        format!(
                            "parse {done} of one parser, script {:?} (VM panics at {:?}): {:?}\n  fresh parser: {:?}\n  grammar {text}",
                            scripts[i].0, scripts[i].1, got, want[i]
                        ),
                    );
                }
                done += 1;
            }
        }
        Ok(())
    })
}
