//! A script is accepted exactly when the grammar derives all of it.
use super::*;
use crate::ctx::bad;
use crate::model::*;
use crate::vm::*;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 300_000,
    rule: "one LL(1) grammar, a derivable script, and that script cut at sampled or all points, extended and corrupted, \
           each parsed under two hash-seed schedules and compared with the table-driven reference derivation; \
           non-trivial: the grammar has a choice or an empty alternative and at least one damaged script was parsed; \
           distinct: digest of grammar, scripts and seeds",
    real: "grammar reader, table construction, parser, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let Some(mut sc) = scene(src, ctx, &GenOpt { max_nt: 8, ..GenOpt::default() }) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    let far = if src.pct(2) { padded(src, &mut sc) } else { None };
    let (mut base, _) = script(src, &sc, 0);
    if let Some(c) = far {
        let n = if src.pct(3) { 4090 + src.us(12) } else { pad_to(src, base.len() / 2) };
        base.splice(0..0, std::iter::repeat_n(c, n));
        ctx.probe("errors_at_large_positions");
    }
    let mut scripts = vec![base.clone()];
    let al = alphabet(&sc.f);
    if src.pct(40) && base.len() <= 40 {
        // cut at every point
        for k in 0..base.len() {
            scripts.push(base[..k].to_vec());
            ctx.fault("truncate");
        }
    }
    for _ in 0..src.range(1, 5) {
        let mut s = base.clone();
        for _ in 0..1 + src.us(2) {
            let k = damage(src, &mut s, &al);
            ctx.fault(k);
        }
        scripts.push(s);
    }
    if src.pct(30) {
        // another sentence appended, or twice the same
        let mut s = base.clone();
        s.extend(gen_sentence(src, &sc.f, 10));
        ctx.fault("extend_by_sentence");
        scripts.push(s);
    }
    let r = reading(src);
    let route = src.below(2);
    let keys = [key(src), key(src)];
    ctx.faults_n("hash_seed_schedule", 2);
    let ins = instrs(&sc.g);
    ctx.case(&format!("{} {scripts:?} {keys:?}", sc.text));
    ctx.sample = format!("grammar {:?} script {:?} and {} damaged variants", sc.text, st(&base), scripts.len() - 1);
    ctx.note(|| format!("grammar: {}", sc.g.pretty()));
    ctx.note(|| format!("grammar text: {}", sc.text));
    ctx.nontrivial = sc.f.prods.iter().any(|p| p.len() > 1);
    let strs: Vec<String> = scripts.iter().map(|s| st(s)).collect();
    for k in keys {
        let outs = in_thread(k, || {
            let vm = SimVm::reading(r);
            let p = guard(|| {
                if route == 0 {
                    build(&sc.text, &vm).map_err(|e| e.show())
                } else {
                    Ok(henriks_parsing_project::script_parser::Parser::new_from_text(&sc.text, &vm))
                }
            });
            match p {
                Err(e) => Err(format!("panic: {e}")),
                Ok(Err(e)) => Err(e),
                Ok(Ok(mut p)) => Ok(strs
                    .iter()
                    .map(|s| parse(&mut p, s, SimState::default()))
                    .collect::<Vec<_>>()),
            }
        });
        let outs = match outs {
            Ok(o) => o,
            Err(e) => {
                return bad(
                    "grammar_refused",
                    format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text),
                )
            }
        };
        for (s, o) in scripts.iter().zip(&outs) {
            ctx.steps += 1 + o.calls as u64;
            let e = expect(&sc.f, &sc.a, &ins, s);
            match e.end {
                Ok(()) => ctx.probe("derivable"),
                Err(p) if p == s.len() => ctx.probe("ends_too_early"),
                Err(_) => ctx.probe("wrong_character"),
            }
            ctx.see(&o.brief());
            ctx.note(|| format!("hash key {k:#x} script {:?}: {}", st(s), o.brief()));
            diff(verdict_diff(s, &e, o), || {
                format!("script {:?}\n  grammar {}\n  text {:?}\n  hash key {k:#x}", st(s), sc.g.pretty(), sc.text)
            })?;
        }
    }
    Ok(())
}

/// Scripts nested 400 000 deep and lists of 400 000 items, whole and cut, on a small stack.
pub fn deep() -> Res {
    const N: usize = 400_000;
    let cases: [(&str, String, Option<usize>); 4] = [
        ("start -> \"a\" start \"b\" | #;", "a".repeat(N) + &"b".repeat(N), None),
        ("start -> \"a\" start \"b\" | #;", "a".repeat(N) + &"b".repeat(N - 1), Some(2 * N - 1)),
        ("start -> item start | #; item -> \"x\" {i};", "x".repeat(N), None),
        ("start -> item start | #; item -> \"x\" {i};", "x".repeat(N) + "y", Some(N)),
    ];
    for (text, script, want) in &cases {
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || {
                    crate::seams::set_hash_key(7);
                    let vm = henriks_parsing_project::vms::NullVm::new();
                    let _ = vm;
                    let vm = SimVm::new();
                    let mut p = build(text, &vm).map_err(|e| e.show())?;
                    let mut st = SimState::default();
                    let r = p.parse(script, &mut st);
                    Ok::<_, String>((r.map(|_| ()).map_err(|e| err_pos(&e).map(|x| x.0)), st.calls))
                })
                .unwrap()
                .join()
                .unwrap_or(Err("panic".into()))
        });
        let (r, _calls) = match r {
            Ok(r) => r,
            Err(e) => return bad("deep_script", format!("{text}: {e}")),
        };
        let ok = match want {
            None => r.is_ok(),
            Some(p) => r == Err(Some(*p)),
        };
        if !ok {
            return bad("deep_script", format!("grammar {text} script of {} characters: {r:?}, expected {want:?}", script.len()));
        }
    }
    Ok(())
}
