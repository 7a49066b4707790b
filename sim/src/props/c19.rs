//! Nothing is kept: memory held does not grow with the number of parses and loads, whatever their outcome.
use super::*;
use crate::ctx::bad;
use crate::vm::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 90_000,
    rule: "one LL(1) grammar, a damaged form of it and up to 6 scripts (derivable, cut, corrupted, aborted by a VM panic at a random \
           call); 40 rounds (or 200 with a new script each) in which the grammar is loaded, the damaged one (or the grammar with a VM that leaves, refuses or panics in one section) is loaded too, and the scripts are parsed both with a parser \
           that lives through all rounds and with one of the round's own, trees edited by the VM or not; the heap held after each round \
           is what the allocator seam counted; non-trivial: some parse failed or was aborted; distinct: digest of grammar, scripts and faults",
    real: "grammar reader, table construction, parser, tree, std collections",
    stub: "VM (simulated), heap accounting (global allocator), hash seeds (seeded getrandom)",
};

/// A VM that keeps nothing itself.
struct Plain {
    edits: bool,
    /// what happens in which section of the next load
    fault: std::cell::Cell<Option<(usize, usize)>>,
}

const LOAD_FAULTS: [&str; 3] = ["vm_leaves_section", "vm_refuses_section", "vm_panic_in_load"];

#[derive(Default)]
struct Count {
    calls: usize,
    panic_at: Option<usize>,
}

impl VM for Plain {
    type Tstate = Count;
    type Tinstrution = String;
    fn parse_instructions<'a, T: TPeekable<Item = char>>(&'a self, _: &str, r: &mut ParseProcess<T>) -> Result<Vec<String>, ParserError> {
        let fault = match self.fault.get() {
            Some((0, f)) => Some(f),
            Some((n, f)) => {
                self.fault.set(Some((n - 1, f)));
                None
            }
            None => None,
        };
        let mut s = String::new();
        while let Some(c) = r.next() {
            s.push(c);
            if fault == Some(0) && s.len() > 1 {
                break;
            }
        }
        match fault {
            Some(1) => return Err(ParserError::VmError { message: s }),
            Some(2) => panic!("abort"),
            _ => {}
        }
        Ok(s.split(';').map(|x| x.to_string()).collect())
    }
    fn execute_instruction(&self, t: &mut Tree<String>, n: NodeId, i: &String, st: &mut Count) {
        let k = st.calls;
        st.calls += 1;
        if st.panic_at == Some(k) {
            panic!("abort");
        }
        if self.edits {
            if k % 3 == 0 {
                let _ = t.add_node(i.clone(), Some(n));
            } else if let Some(c) = t.get_children(n).last() {
                let _ = t.remove_branch(*c);
            }
        }
    }
    fn create_new_state() -> Count {
        Count::default()
    }
}

/// Rounds with a new script in each.
const NEW_ROUNDS: usize = 200;
/// Rounds with the same scripts, and the one by which everything kept on purpose must be in place.
const ROUNDS: usize = 40;
const SETTLED: usize = 12;

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let Some(mut sc) = scene(src, ctx, &GenOpt { sections: 60, ..GenOpt::default() }) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    // Each round parses the same scripts, or (on the lasting parser) one that is new.
    let distinct = src.pct(15);
    let n = src.range(1, 6);
    let mut hist: Vec<(String, Option<usize>)> = vec![];
    for _ in 0..if distinct { 1 } else { n } {
        let (s, kinds) = script(src, &sc, 45);
        for k in kinds {
            ctx.fault(k);
        }
        let p = if src.pct(30) { Some(src.us(6)) } else { None };
        hist.push((st(&s), p));
    }
    if distinct {
        let (h, p) = hist.pop().unwrap();
        let mut s: Vec<char> = h.chars().collect();
        let mut rep = None;
        if src.pct(70) {
            if let Some((t, r)) = super::c20::pumpable(src, &mut sc) {
                (s, rep) = (t, Some(r));
            }
        }
        let cut = src.us(s.len() + 1);
        for i in 0..NEW_ROUNDS {
            let t = match rep {
                // ever more repetitions
                Some((a, b, c, e)) => st(&s[..a]) + &st(&s[a..b]).repeat(i) + &st(&s[b..c]) + &st(&s[c..e]).repeat(i) + &st(&s[e..]),
                // an ever different wrong end
                None => st(&s[..cut]) + &format!("\u{10fffd}{i}"),
            };
            hist.push((t, p));
        }
        ctx.probe(if rep.is_some() { "other_script_every_round" } else { "other_wrong_end_every_round" });
    } else {
        ctx.probe("same_scripts_every_round");
    }
    let mut broken: Vec<char> = sc.text.chars().collect();
    let kind = damage(src, &mut broken, &alphabet(&sc.f));
    ctx.fault(kind);
    let broken = st(&broken);
    let load_fault = if src.pct(30) { Some((src.us(4), src.us(3))) } else { None };
    if let Some((_, f)) = load_fault {
        ctx.fault(LOAD_FAULTS[f]);
    }
    let edits = src.pct(40);
    let api = src.pct(30);
    let k = key(src);
    ctx.case(&format!("{} {hist:?} {broken} {edits} {k}", sc.text));
    ctx.sample = format!("grammar {:?} damaged {broken:?} scripts {hist:?}", sc.text);
    ctx.note(|| format!("grammar: {}\n  damaged: {broken:?}\n  scripts: {hist:?}", sc.g.pretty()));
    struct Seen {
        lasting: Vec<(i64, i64)>,
        whole: Vec<(i64, i64)>,
        errors: usize,
        panics: usize,
        steps: u64,
    }
    let seen = in_thread(k, || {
        let vm = Plain { edits, fault: Default::default() };
        let mk = |text: &str| -> Result<Parser<Plain>, String> {
            if api {
                let pd = guard(|| read_rules(text, &vm).map_err(|e| e.show()))??;
                let start = pd.get_element_nt_index("start").ok_or("no start".to_string())?;
                guard(|| Parser::new_from_parser_data(pd, start, &vm))
            } else {
                guard(|| Parser::new_from_text(text, &vm))
            }
        };
        let mut seen = Seen { lasting: Vec::with_capacity(NEW_ROUNDS), whole: Vec::with_capacity(NEW_ROUNDS), errors: 0, panics: 0, steps: 0 };
        let mut lasting = mk(&sc.text)?;
        let go = |p: &mut Parser<'_, Plain>, (s, panic_at): &(String, Option<usize>), seen: &mut Seen| {
            let mut st = Count { calls: 0, panic_at: *panic_at };
            // the scripts outlive every parser of this run
            let s: &'static str = unsafe { &*(s.as_str() as *const str) };
            match guard(|| p.parse(s, &mut st).is_ok()) {
                Ok(true) => {}
                Ok(false) => seen.errors += 1,
                Err(_) => seen.panics += 1,
            }
            seen.steps += 1 + st.calls as u64;
        };
        for r in 0..if distinct { NEW_ROUNDS } else { ROUNDS } {
            let of_round = if distinct { &hist[r..r + 1] } else { &hist[..] };
            for h in of_round {
                go(&mut lasting, h, &mut seen);
            }
            seen.lasting.push(crate::seams::held());
            if !distinct {
                let mut p = mk(&sc.text)?;
                for h in of_round {
                    go(&mut p, h, &mut seen);
                }
                drop(p);
            }
            if !distinct || r % 10 == 0 {
                vm.fault.set(load_fault);
                let _ = mk(if load_fault.is_some() { &sc.text } else { &broken });
                vm.fault.set(None);
            }
            seen.whole.push(crate::seams::held());
        }
        Ok::<_, String>(seen)
    });
    let seen = match seen {
        Ok(s) => s,
        Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text)),
    };
    ctx.steps += seen.steps + 2 * seen.whole.len() as u64;
    ctx.faults_n("vm_panic", seen.panics as u64);
    ctx.nontrivial = seen.errors + seen.panics > 0;
    ctx.see(&format!("{} {}", seen.errors, seen.panics));
    let what = |s: &[(i64, i64)]| {
        let first = s[0];
        let rounds = s.len();
        let d: Vec<String> = s.iter().step_by(rounds / 40).map(|(b, n)| format!("{:+}/{:+}", b - first.0, n - first.1)).collect();
        format!(
            "bytes/blocks held after each of {rounds} rounds (each fifth of 200), against the first: {}\n  grammar {}\n  damaged {broken:?} (VM fault in a section {load_fault:?})\n  scripts (VM panics at) {:?}\n  hash key {k:#x}",
            d.join(" "),
            sc.g.pretty(),
            &hist[..hist.len().min(6)]
        )
    };
    for (name, s) in [("memory_kept_by_parser", &seen.lasting), ("memory_kept", &seen.whole)] {
        ctx.note(|| format!("{name}: {}", what(s)));
        let grows = if distinct {
            // what is kept once per grammar grows ever more slowly, what is kept per script does not
            let by = |a: usize, b: usize| s[b].0 - s[a].0;
            let g = [by(24, 49), by(49, 99), by(99, NEW_ROUNDS - 1)];
            g[0] > 0 && g[1] >= g[0] && g[2] >= g[1]
        } else {
            let most = s[..=SETTLED].iter().fold((i64::MIN, i64::MIN), |m, x| (m.0.max(x.0), m.1.max(x.1)));
            s[ROUNDS - 1].0 > most.0 || s[ROUNDS - 1].1 > most.1
        };
        if grows {
            return bad(name, what(s));
        }
    }
    Ok(())
}
