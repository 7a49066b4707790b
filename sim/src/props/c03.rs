//! The parse tree is exactly the derivation, whenever it is looked at.
use super::*;
use crate::ctx::bad;
use crate::model::*;
use crate::vm::*;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 400_000,
    rule: "one LL(1) grammar, 1-4 scripts (whole, cut, corrupted), a VM that dumps the subtree at every call, sometimes \
           panicking half-way; non-trivial: at least one call saw a subtree with children or a tree was returned; \
           distinct: digest of grammar, scripts and seeds",
    real: "grammar reader, table construction, parser, tree, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let Some(sc) = scene(src, ctx, &GenOpt { sections: 85, ..GenOpt::default() }) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    let mut scripts = vec![];
    for _ in 0..src.range(1, 4) {
        let (s, k) = script(src, &sc, 45);
        for k in k {
            ctx.fault(k);
        }
        scripts.push(s);
    }
    let panic_at = if src.pct(12) { Some(src.us(6)) } else { None };
    let k = key(src);
    ctx.fault("hash_seed_schedule");
    let ins = instrs(&sc.g);
    ctx.case(&format!("{} {scripts:?} {k} {panic_at:?}", sc.text));
    ctx.sample = format!("grammar {:?} scripts {:?}", sc.text, scripts.iter().map(|s| st(s)).collect::<Vec<_>>());
    ctx.note(|| format!("grammar: {}", sc.g.pretty()));
    let strs: Vec<String> = scripts.iter().map(|s| st(s)).collect();
    let outs = in_thread(k, || {
        let vm = SimVm::new();
        build(&sc.text, &vm).map_err(|e| e.show()).map(|mut p| {
            strs.iter()
                .map(|s| {
                    let mut st = SimState::watching();
                    st.panic_at = panic_at;
                    parse(&mut p, s, st)
                })
                .collect::<Vec<_>>()
        })
    });
    let outs = match outs {
        Ok(o) => o,
        Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text)),
    };
    for (s, o) in scripts.iter().zip(&outs) {
        ctx.steps += 1 + o.calls as u64;
        let e = expect(&sc.f, &sc.a, &ins, s);
        let injected = o.panic.as_deref().is_some_and(|p| p.starts_with(INJECTED));
        if injected {
            ctx.fault("vm_panic");
        }
        ctx.see(&o.brief());
        for ev in &o.events {
            ctx.see(&format!("{ev:?}"));
        }
        ctx.note(|| format!("script {:?}: {} after {} calls", st(s), o.brief(), o.calls));
        if o.tree.is_some() || o.events.iter().any(|e| e.sub.as_ref().is_some_and(|s| !s.kids.is_empty())) {
            ctx.nontrivial = true;
        }
        if e.end.is_err() && !o.events.is_empty() {
            ctx.probe("tree_seen_in_failing_parse");
        }
        let what = || format!("script {:?}\n  grammar {}\n  hash key {k:#x}", st(s), sc.g.pretty());
        // instructions that should not have run at all are C04's business; those that ran must have seen
        // the derivation
        if events_diff(&e, &o.events, panic_at).is_none() {
            diff(subtree_diff(&e, &o.events), what)?;
        } else {
            ctx.probe("instructions_differ");
            for ev in &o.events {
                if ev.sub.is_none() {
                    return diff(
                        Some(("subtree_at_call", format!("instruction {} of {} was given a node that is not in the tree", ev.text, ev.rule))),
                        what,
                    );
                }
            }
        }
        if e.end.is_ok() && !injected {
            diff(tree_diff(&e, o), what)?;
        } else if o.err.is_none() && o.panic.is_none() {
            // accepted although not derivable: at least the tree must not invent text
            ctx.probe("accepted_underivable");
        }
        if let Some(t) = &o.tree {
            let spelled = leaves(t);
            if e.end.is_ok() && spelled != st(s) {
                return diff(Some(("leaves", format!("leaves spell {spelled:?}"))), what);
            }
        }
        if let (Some(p), false) = (&o.panic, injected) {
            return diff(Some(("parse_panics", p.clone())), what);
        }
    }
    Ok(())
}

pub fn leaves(t: &TNode) -> String {
    if t.kids.is_empty() {
        t.data.clone()
    } else {
        t.kids.iter().map(leaves).collect()
    }
}
