//! VM instructions run exactly once each, in completion order, against the right node.
use super::*;
use crate::ctx::bad;
use crate::model::*;
use crate::tape::mix;
use crate::vm::*;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 400_000,
    rule: "one LL(1) grammar with brace sections, 1-3 scripts (whole, cut, corrupted); then the same script with the VM \
           panicking at sampled or all calls, or editing and removing the nodes it is given; non-trivial: at least 2 instructions were due; \
           distinct: digest of grammar, scripts, panic points and seeds",
    real: "grammar reader, table construction, parser, tree, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let Some(sc) = scene(src, ctx, &GenOpt { sections: 85, ..GenOpt::default() }) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    let ins = instrs(&sc.g);
    // (script, VM panics at this call, VM edits the tree: decided by this number)
    let mut jobs: Vec<(Vec<char>, Option<usize>, Option<u64>)> = vec![];
    for _ in 0..src.range(1, 3) {
        let (s, k) = script(src, &sc, 45);
        for k in k {
            ctx.fault(k);
        }
        let due = expect(&sc.f, &sc.a, &ins, &s).events.len();
        jobs.push((s.clone(), None, None));
        if due > 0 {
            if due <= 12 && src.pct(30) {
                for n in 0..due {
                    jobs.push((s.clone(), Some(n), None));
                }
            } else if src.pct(50) {
                jobs.push((s.clone(), Some(src.us(due)), None));
            }
            if src.pct(35) {
                let n = if src.pct(20) { Some(src.us(due)) } else { None };
                jobs.push((s.clone(), n, Some(src.below(1 << 40))));
            }
        }
    }
    let k = key(src);
    let r = reading(src);
    ctx.fault("hash_seed_schedule");
    ctx.case(&format!("{} {jobs:?} {k}", sc.text));
    ctx.sample = format!("grammar {:?} script {:?}, {} jobs", sc.text, st(&jobs[0].0), jobs.len());
    ctx.note(|| format!("grammar: {}", sc.g.pretty()));
    let strs: Vec<String> = jobs.iter().map(|s| st(&s.0)).collect();
    let outs = in_thread(k, || {
        let vm = SimVm::reading(r);
        build(&sc.text, &vm).map_err(|e| e.show()).map(|mut p| {
            strs.iter()
                .zip(&jobs)
                .map(|(s, j)| {
                    let mut st = SimState::watching();
                    st.panic_at = j.1;
                    if let Some(seed) = j.2 {
                        st.snapshot = false;
                        st.hook = Some(editor(seed));
                    }
                    parse(&mut p, s, st)
                })
                .collect::<Vec<_>>()
        })
    });
    let outs = match outs {
        Ok(o) => o,
        Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text)),
    };
    for ((s, panic_at, edits), o) in jobs.iter().zip(&outs) {
        ctx.steps += 1 + o.calls as u64;
        let e = expect(&sc.f, &sc.a, &ins, s);
        if e.events.len() >= 2 {
            ctx.nontrivial = true;
        }
        let injected = o.panic.as_deref().is_some_and(|p| p.starts_with(INJECTED));
        if injected {
            ctx.fault("vm_panic");
        }
        if e.end.is_err() && !e.events.is_empty() {
            ctx.probe("prefix_of_instructions");
        }
        ctx.see(&o.brief());
        for ev in &o.events {
            ctx.see(&format!("{} {} {:?} {:?}", ev.rule, ev.k, ev.node, ev.path));
        }
        ctx.note(|| {
            format!(
                "script {:?} panic at {panic_at:?}: {} ; ran {:?}",
                st(s),
                o.brief(),
                o.events.iter().map(|e| format!("{}/{}", e.rule, e.text)).collect::<Vec<_>>()
            )
        });
        let what = || {
            format!(
                "script {:?} VM panics at call {panic_at:?} edits the tree {edits:?}\n  grammar {}\n  text {:?}\n  hash key {k:#x}",
                st(s),
                sc.g.pretty(),
                sc.text
            )
        };
        diff(events_diff(&e, &o.events, *panic_at), what)?;
        if edits.is_some() {
            ctx.fault("vm_edits_tree");
            // the node of a production stays the same handle for all of its instructions
            for w in o.events.windows(2) {
                if w[1].k > 0 && w[0].node != w[1].node {
                    let (a, b) = (w[0].node, w[1].node);
                    return diff(Some(("instruction_node", format!("two nodes {a:?} and {b:?} for one production"))), what);
                }
            }
        } else {
            diff(nodes_diff(&e, &o.events), what)?;
        }
        // one node per completed production
        let mut seen: std::collections::BTreeMap<Vec<usize>, (usize, usize)> = Default::default();
        for ev in &o.events {
            if let Some(p) = &ev.path {
                if let Some(n) = seen.insert(p.clone(), ev.node) {
                    if n != ev.node {
                        return diff(
                            Some(("instruction_node", format!("two nodes {n:?} and {:?} for one production", ev.node))),
                            what,
                        );
                    }
                }
            }
        }
        if injected && o.calls != panic_at.unwrap() + 1 {
            return diff(
                Some(("call_after_abort", format!("{} calls, the VM aborted at call {panic_at:?}", o.calls))),
                what,
            );
        }
        if panic_at.is_some() && !injected {
            return diff(
                Some(("abort_swallowed", format!("the VM aborted but parse returned: {}", o.brief()))),
                what,
            );
        }
        if let (Some(p), false) = (&o.panic, injected) {
            return diff(Some(("parse_panics", p.clone())), what);
        }
    }
    Ok(())
}

/// A VM that edits the nodes it is given: what it does to the tree is its own business and no reason not to
/// run instructions, as long as it leaves the productions alone that are still being parsed.
fn editor(seed: u64) -> Hook {
    let mut r = seed;
    Box::new(move |tree, node, _| {
        r = mix(r);
        match r % 6 {
            0 => {
                let _ = tree.remove_branch(node);
            }
            1 => {
                if let Some(c) = tree.get_children(node).first() {
                    let _ = tree.remove_branch(*c);
                }
            }
            2 => {
                let _ = tree.add_node(format!("{r}"), Some(node));
            }
            3 => {
                if let Ok(n) = tree.get_node_mut(node) {
                    n.data = format!("{r}");
                }
            }
            _ => {}
        }
    })
}
