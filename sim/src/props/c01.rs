//! Same grammar, script and VM: same outcome under every assignment of hash seeds.
use super::*;
use crate::ctx::bad;
use crate::vm::*;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 300_000,
    rule: "one grammar (valid, conflicting or damaged text) and 1-3 scripts, run under 6 hash-seed schedules; \
           non-trivial: at least one map with 2 or more entries existed and 2 or more schedules were compared; \
           distinct: digest of grammar text, scripts and seeds",
    real: "grammar reader, FIRST/FOLLOW/director construction, parser, tree, std HashMap/HashSet",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

fn observe(text: &str, scripts: &[String], how: u64, panic_at: Option<usize>) -> Vec<(String, String)> {
    let mut out = vec![];
    let vm = SimVm::new();
    if how == 0 {
        // the route that reports errors as values
        match build(text, &vm) {
            Err(e) => out.push(("grammar error".to_string(), e.show())),
            Ok(mut p) => {
                out.push(("grammar".into(), "accepted".into()));
                for s in scripts {
                    let mut st = SimState::watching();
                    st.panic_at = panic_at;
                    obs(&mut out, parse(&mut p, s, st));
                }
            }
        }
    } else {
        match guard(|| henriks_parsing_project::script_parser::Parser::new_from_text(text, &vm)) {
            Err(e) => out.push(("grammar panic".to_string(), e)),
            Ok(mut p) => {
                out.push(("grammar".into(), "accepted".into()));
                for s in scripts {
                    let mut st = SimState::watching();
                    st.panic_at = panic_at;
                    obs(&mut out, parse(&mut p, s, st));
                }
            }
        }
    }
    out.push(("sections read".into(), format!("{:?}", vm.seen.lock().unwrap())));
    out
}

fn obs(out: &mut Vec<(String, String)>, o: Outcome) {
    out.push(("parse error".into(), format!("{:?}", o.err)));
    out.push(("parse panic".into(), format!("{:?}", o.panic)));
    out.push(("instructions".into(), format!("{:?}", o.events)));
    out.push(("tree".into(), format!("{:?}", o.tree)));
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let mut text;
    let mut scripts = vec![];
    let mut kinds: Vec<&'static str> = vec![];
    match src.below(10) {
        0..=4 => {
            let Some(sc) = scene(src, ctx, &GenOpt::default()) else {
                ctx.no_verdict = true;
                return Ok(());
            };
            text = sc.text.clone();
            for _ in 0..src.range(1, 3) {
                let (s, k) = script(src, &sc, 70);
                kinds.extend(k);
                scripts.push(st(&s));
            }
        }
        _ => {
            let g = gen_any(
                src,
                &GenOpt {
                    undefined: 25,
                    repair: src.pct(50),
                    ignores: 30,
                    max_nt: 9,
                    ..GenOpt::default()
                },
            );
            text = g.text(src);
            scripts.push(st(&gen_sentence(src, &g.flat(), 15)));
            ctx.probe("arbitrary_grammar");
        }
    }
    if src.pct(15) {
        let mut t: Vec<char> = text.chars().collect();
        let al: Vec<char> = "a\"|;#->{}$ []:".chars().collect();
        kinds.push(damage(src, &mut t, &al));
        text = st(&t);
    }
    let how = src.below(2);
    let panic_at = if src.pct(10) { Some(src.us(4)) } else { None };
    if panic_at.is_some() {
        kinds.push("vm_panic_armed");
    }
    let keys: Vec<u64> = (0..6).map(|_| key(src)).collect();
    for k in kinds {
        ctx.fault(k);
    }
    ctx.faults_n("hash_seed_schedule", keys.len() as u64);
    ctx.case(&format!("{text} {scripts:?} {keys:?}"));
    ctx.sample = format!("grammar {text:?} scripts {scripts:?} under {} hash-seed schedules", keys.len());
    ctx.note(|| format!("grammar text: {text}"));
    for s in &scripts {
        ctx.note(|| format!("script: {s:?}"));
    }
    let mut first: Option<Vec<(String, String)>> = None;
    for k in &keys {
        let (o, calls) = in_thread(*k, || {
            let o = observe(&text, &scripts, how, panic_at);
            (o, crate::seams::key_calls())
        });
        if calls == 0 {
            ctx.probe("no_hash_map_used");
        } else {
            ctx.nontrivial = true;
        }
        ctx.steps += 1 + o.len() as u64;
        for (w, x) in &o {
            ctx.see(w);
            ctx.see(x);
        }
        ctx.note(|| format!("hash key {k:#x}: {}", crate::ctx::clip(&format!("{o:?}"), 600)));
        match &first {
            None => {
                if o[0].0 != "grammar" {
                    ctx.probe("grammar_refused");
                } else {
                    ctx.probe("grammar_accepted");
                }
                first = Some(o);
            }
            Some(f) => {
                if let Some(d) = f.iter().zip(&o).find(|(x, y)| x != y) {
                    return bad(
                        &format!("differs_{}", d.0 .0.replace(' ', "_")),
                        format!(
                            "two hash-seed schedules disagree on the {}:\n  {}\n  {}\n  grammar {text:?}\n  scripts {scripts:?}",
                            d.0 .0,
                            crate::ctx::clip(&d.0 .1, 700),
                            crate::ctx::clip(&d.1 .1, 700)
                        ),
                    );
                }
                if f.len() != o.len() {
                    return bad(
                        "differs_in_length",
                        format!("two hash-seed schedules disagree on how far it got\n  grammar {text:?}\n  scripts {scripts:?}"),
                    );
                }
            }
        }
    }
    Ok(())
}
