//! A refused script is told what could have gone on there.
use super::*;
use crate::ctx::bad;
use crate::vm::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::script_parser::Parser;

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    quick: 300_000,
    rule: "one LL(1) grammar and a derivable script, cut at sampled or all points, extended and corrupted, parsed in sequence on one \
           parser under two hash-seed schedules, some parses aborted by a panic of the VM; every refusal's list of expected \
           characters is compared with the reference table at the place of the reference derivation at which it stops; \
           non-trivial: a refusal at a rule with at least two possible characters; distinct: digest of grammar, scripts and seeds",
    real: "grammar reader, table construction, parser, error texts, std HashMap",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

fn look(l: &Look) -> String {
    match l {
        Some(c) => c.to_string(),
        None => "terminate".into(),
    }
}

/// The same entries joined by semicolons, in whatever order.
fn same_list(got: &str, want: &[String]) -> bool {
    let mut w: Vec<char> = want.join(";").chars().collect();
    let mut g: Vec<char> = got.chars().collect();
    w.sort();
    g.sort();
    w == g
}

type Seen = Result<Result<(), ParserError>, String>;

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let Some(mut sc) = scene(src, ctx, &GenOpt { max_nt: 8, ..GenOpt::default() }) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    let far = if src.pct(2) { padded(src, &mut sc) } else { None };
    let (mut base, _) = script(src, &sc, 0);
    if let Some(c) = far {
        let n = pad_to(src, base.len() / 2);
        base.splice(0..0, std::iter::repeat_n(c, n));
        ctx.probe("errors_at_large_positions");
    }
    let al = alphabet(&sc.f);
    let mut scripts: Vec<(Vec<char>, Option<usize>)> = vec![];
    if src.pct(30) && base.len() <= 30 {
        for k in 0..=base.len() {
            let mut s = base[..k].to_vec();
            ctx.fault("truncate");
            if src.pct(50) {
                s.push(*src.pick(&al));
                ctx.fault("wrong_character");
            }
            scripts.push((s, None));
        }
    }
    for _ in 0..src.range(1, 6) {
        let mut s = base.clone();
        for _ in 0..1 + src.us(2) {
            let k = damage(src, &mut s, &al);
            ctx.fault(k);
        }
        let panic = if src.pct(10) { Some(1 + src.us(4)) } else { None };
        scripts.push((s, panic));
    }
    let route = src.below(3);
    let keys = [key(src), key(src)];
    ctx.faults_n("hash_seed_schedule", 2);
    ctx.case(&format!("{} {scripts:?} {keys:?} {route}", sc.text));
    ctx.sample = format!("grammar {:?} and {} damaged variants of script {:?}", sc.text, scripts.len(), st(&base));
    ctx.note(|| format!("grammar: {}", sc.g.pretty()));
    ctx.note(|| format!("grammar text: {}", sc.text));
    let strs: Vec<String> = scripts.iter().map(|s| st(&s.0)).collect();
    for k in keys {
        let outs: Result<Vec<(Seen, usize)>, String> = in_thread(k, || {
            let vm = SimVm::new();
            let mut p = guard(|| match route {
                0 => build(&sc.text, &vm).map_err(|e| e.show()),
                1 => Ok(Parser::new_from_text(&sc.text, &vm)),
                _ => {
                    let pd = read_rules(&sc.text, &vm).map_err(|e| e.show())?;
                    let start = pd.get_element_nt_index("start").ok_or("no start".to_string())?;
                    Ok(Parser::new_from_parser_data(pd, start, &vm))
                }
            })
            .map_err(|e| format!("panic: {e}"))??;
            Ok(strs
                .iter()
                .zip(&scripts)
                .map(|(s, (_, panic_at))| {
                    let mut st = SimState::default();
                    st.panic_at = *panic_at;
                    let r = guard(|| p.parse(s, &mut st).map(|_| ()));
                    (r, st.calls)
                })
                .collect())
        });
        let outs = match outs {
            Ok(o) => o,
            Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text)),
        };
        for ((s, panic_at), (o, calls)) in scripts.iter().zip(&outs) {
            ctx.steps += 1 + *calls as u64;
            let what = || {
                format!(
                    "\n  in: script {:?}\n  grammar {}\n  text {:?}\n  hash key {k:#x} route {route}",
                    st(s),
                    sc.g.pretty(),
                    sc.text
                )
            };
            let d = derive(&sc.f, &sc.a, s);
            let e = match o {
                Err(_) if panic_at.is_some_and(|n| *calls >= n) => {
                    ctx.fault("vm_panic");
                    continue;
                }
                Err(m) => return bad("parse_panics", format!("parse panicked: {m}{}", what())),
                Ok(Ok(())) => {
                    if d.stop.is_some() {
                        return bad("accepts_underivable", format!("accepted although it stops at {:?}{}", d.stop, what()));
                    }
                    continue;
                }
                Ok(Err(e)) => e,
            };
            let Some(stop) = &d.stop else {
                return bad("refuses_derivable", format!("derivable script refused: {e:?}{}", what()));
            };
            let at = d.end.unwrap_err();
            let shown = e.to_string();
            ctx.see(&shown);
            ctx.note(|| format!("hash key {k:#x} script {:?}: {shown}", st(s)));
            let want: Vec<String> = match stop {
                Stop::Char(c) => vec![c.to_string()],
                Stop::End => vec![look(&None)],
                Stop::Rule(nt) => sc.a.table[*nt].keys().map(look).collect(),
            };
            match stop {
                Stop::Char(_) => ctx.probe("stops_inside_a_literal"),
                Stop::End => ctx.probe("text_behind_the_end"),
                Stop::Rule(nt) => {
                    if want.len() > 1 {
                        ctx.nontrivial = true;
                    }
                    ctx.probe(if at == s.len() { "script_ends_at_a_rule" } else { "no_alternative_applies" });
                    if sc.a.table[*nt].contains_key(&None) {
                        ctx.probe("the_end_is_among_the_expected");
                    }
                }
            }
            match e {
                ParserError::UnexpectedCharError { chr, pos, expected } => {
                    if *pos != at || s.get(at).is_some_and(|c| c != chr) {
                        return bad("error_position", format!("stops at {at}, error says {e:?}{}", what()));
                    }
                    if !same_list(expected, &want) {
                        return bad(
                            "expected_list",
                            format!(
                                "at {at} the grammar allows {want:?} ({}), the error lists {expected:?}{}",
                                match stop {
                                    Stop::Rule(nt) => format!("rule {}", sc.g.names[*nt]),
                                    Stop::Char(_) => "inside a literal".into(),
                                    Stop::End => "end of the derivation".into(),
                                },
                                what()
                            ),
                        );
                    }
                    let misses = [pos.to_string(), chr.to_string(), expected.clone()]
                        .into_iter()
                        .find(|x| !shown.contains(x.as_str()));
                    if let Some(m) = misses {
                        return bad("message", format!("the message {shown:?} does not show {m:?}{}", what()));
                    }
                }
                // a script that ends inside a literal
                ParserError::EndOfCharsError { pos } => {
                    if *pos != at || at != s.len() || !matches!(stop, Stop::Char(_)) {
                        return bad("error_position", format!("stops at {at} ({stop:?}), error says {e:?}{}", what()));
                    }
                    ctx.probe("ends_inside_a_literal");
                    if !shown.contains(&pos.to_string()) {
                        return bad("message", format!("the message {shown:?} does not show the position{}", what()));
                    }
                }
                _ => return bad("error_kind", format!("expected a position error at {at}, got {e:?}{}", what())),
            }
        }
    }
    Ok(())
}
