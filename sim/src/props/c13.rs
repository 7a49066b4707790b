//! Ignorable text is allowed between the parts of a rule and nowhere else.
use super::*;
use crate::ctx::bad;
use crate::model::*;
use crate::vm::*;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 300_000,
    rule: "one LL(1) grammar with ignorable productions in force (directive, override, switched off, nested), its rules written in \
           1-3 orders, each built under 2 hash-seed schedules; derivable scripts with ignorable text inserted at, or characters \
           lost from, every position; acceptance, error position and tree are compared with the reference derivation; \
           non-trivial: an ignorable is woven into a rule in use and an insertion was tried; distinct: digest of texts, scripts \
           and seeds",
    real: "grammar reader, ignorable weaving, table construction, parser, tree, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let o = GenOpt {
        ignores: 100,
        sections: 30,
        max_nt: src.range(2, 8),
        ..GenOpt::default()
    };
    let Some((mut g, f, a)) = gen_ll1(src, &o) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    let eff = g.effective_ignore();
    let woven = (0..g.names.len()).filter(|i| {
        eff[*i].is_some_and(|x| !g.reachable(x).contains(i)) && g.rules[*i].as_ref().unwrap().alts.iter().any(|a| a.len() > 1)
    });
    let used = g.reachable(g.start);
    let woven: Vec<usize> = woven.filter(|i| used.contains(i)).collect();
    if eff.iter().all(|e| e.is_none()) {
        ctx.no_verdict = true;
        return Ok(());
    }
    if woven.is_empty() {
        ctx.probe("ignorable_without_effect");
    } else {
        ctx.probe("ignorable_woven");
    }
    if (0..g.names.len()).any(|i| eff[i].is_some_and(|x| g.reachable(x).contains(&i) && x != i)) {
        ctx.probe("rule_exempt_because_reachable");
    }
    if !g.directives.is_empty() && g.rules.iter().flatten().any(|r| r.ign == Ign::Off) {
        ctx.probe("directive_switched_off");
    }
    if (0..g.names.len()).any(|i| eff[i].is_some() && g.directives.iter().any(|d| Some(d.1) != eff[i])) {
        ctx.probe("several_ignorables");
    }
    let kinds: std::collections::BTreeSet<usize> = woven.iter().map(|i| eff[*i].unwrap()).collect();
    // scripts
    let mut base = gen_sentence(src, &f, [8, 15, 30][src.us(3)]);
    base.truncate(60);
    let mut scripts: Vec<Vec<char>> = vec![base.clone()];
    for &k in &kinds {
        let fk = Flat { prods: f.prods.clone(), start: k };
        let mut piece = vec![];
        for _ in 0..4 {
            piece = gen_sentence(src, &fk, 6);
            piece.truncate(8);
            if !piece.is_empty() {
                break;
            }
        }
        if piece.is_empty() {
            continue;
        }
        ctx.nontrivial = true;
        for p in 0..=base.len() {
            let mut s = base.clone();
            for (i, c) in piece.iter().enumerate() {
                s.insert(p + i, *c);
            }
            scripts.push(s);
            ctx.fault("ignorable_text_inserted");
        }
        let mut s = base.clone();
        for _ in 0..src.range(2, 4) {
            let p = src.us(s.len() + 1);
            for (i, c) in piece.iter().enumerate() {
                s.insert(p + i, *c);
            }
        }
        scripts.push(s);
    }
    for p in 0..base.len() {
        let mut s = base.clone();
        s.remove(p);
        scripts.push(s);
        ctx.fault("lose_chars");
    }
    // the same rules in other orders: only between directives
    let mut cuts: Vec<usize> = g.directives.iter().map(|d| d.0).collect();
    cuts.push(0);
    cuts.push(g.order.len());
    cuts.sort();
    cuts.dedup();
    let mut orders = vec![g.order.clone()];
    for _ in 0..src.us(3) {
        let mut o = g.order.clone();
        for w in cuts.windows(2) {
            for i in (w[0] + 1..w[1]).rev() {
                let j = w[0] + src.us(i - w[0] + 1);
                o.swap(i, j);
            }
        }
        orders.push(o);
    }
    let texts: Vec<String> = orders
        .iter()
        .map(|o| {
            g.order = o.clone();
            g.text(src)
        })
        .collect();
    g.order = orders[0].clone();
    let keys = [key(src), key(src)];
    ctx.case(&format!("{texts:?} {base:?} {keys:?}"));
    ctx.sample = format!("grammar {:?} in {} orders, {} scripts around {:?}", texts[0], texts.len(), scripts.len(), st(&base));
    ctx.note(|| format!("grammar: {}", g.pretty()));
    ctx.faults_n("hash_seed_schedule", 2 * texts.len() as u64);
    let ins: Vec<Vec<Instr>> = g.names.iter().map(|_| vec![]).collect();
    let want: Vec<Expect> = scripts.iter().map(|s| expect(&f, &a, &ins, s)).collect();
    let strs: Vec<String> = scripts.iter().map(|s| st(s)).collect();
    for (n, t) in texts.iter().enumerate() {
        for k in &keys {
            let outs = in_thread(*k, || {
                let vm = SimVm::new();
                let mut p = build(t, &vm).map_err(|e| e.show())?;
                Ok::<_, String>(strs.iter().map(|s| parse(&mut p, s, SimState::default())).collect::<Vec<_>>())
            });
            let outs = match outs {
                Ok(o) => o,
                Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  text {t:?}\n  hash key {k:#x}")),
            };
            for (i, (o, e)) in outs.iter().zip(&want).enumerate() {
                ctx.steps += 1;
                ctx.see(&o.brief());
                if i > 0 && e.end.is_ok() {
                    ctx.probe("script_with_more_or_less_ignorable_text_derivable");
                }
                ctx.note(|| format!("order {n} script {:?}: {}", strs[i], o.brief()));
                let what = || {
                    format!(
                        "script {:?} (base {:?})\n  grammar {}\n  text {t:?}\n  hash key {k:#x}",
                        strs[i],
                        strs[0],
                        g.pretty()
                    )
                };
                diff(verdict_diff(&scripts[i], e, o), what)?;
                diff(tree_diff(e, o).filter(|_| e.end.is_ok()), what)?;
            }
        }
    }
    Ok(())
}
