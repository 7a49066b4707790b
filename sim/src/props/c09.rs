//! Damaged grammar text is reported as an error, or read as what it says.
use super::*;
use crate::ctx::bad;
use crate::reader::RSym;
use crate::vm::*;
use henriks_parsing_project::parser_data::{ElementType, ParserData, Production};

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 600_000,
    rule: "one grammar text, cut at sampled or all points, damaged by 1-4 character faults, or arbitrary characters; sometimes the \
           VM reports an error, stops early or panics at its n-th section; what was read is compared rule by rule with the \
           reference reader; non-trivial: at least one damaged text was read; distinct: digest of texts and faults",
    real: "grammar reader, name table, ParseProcess",
    stub: "VM (simulated), hash seeds (seeded getrandom)",
};

/// Rules as the library holds them, by name.
pub fn rules_of<T: henriks_parsing_project::vms::VM>(pd: &ParserData<T>) -> Result<Vec<(String, Vec<Vec<RSym>>)>, String> {
    let mut out = vec![];
    for (ix, r) in pd.parse_rules.rules.iter() {
        let e = pd.get_element_verbose(*ix).ok_or(format!("rule {ix} has no name"))?;
        if e.et != ElementType::NonTerminal {
            return Err(format!("rule of the terminal {:?}", e.name));
        }
        let mut alts = vec![];
        for p in &r.possible_productions {
            let mut a = vec![];
            if let Production::NotEmpty(els) = &**p {
                for x in els {
                    let e = pd.get_element_verbose(*x).ok_or(format!("element {x} has no name"))?;
                    a.push(match e.et {
                        ElementType::Terminal => RSym::T(e.name),
                        ElementType::NonTerminal => RSym::N(e.name),
                    });
                }
            }
            alts.push(a);
        }
        out.push((e.name, alts));
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(out)
}

/// A grammar text and damaged forms of it; `section` makes the text of brace sections.
pub fn damaged_texts(src: &Src, ctx: &mut Ctx, section: Option<fn(&Src) -> String>) -> Vec<String> {
    let mut texts: Vec<String> = vec![];
    let al: Vec<char> = "ab\"|;#->{}$ []:IGNORE\\\n_1é".chars().collect();
    let base: Vec<char> = if src.pct(6) {
        ctx.fault("arbitrary_characters");
        (0..src.us(25)).map(|_| *src.pick(&al)).collect()
    } else if src.pct(10) {
        src.pick(LIBRARY).chars().collect()
    } else {
        let mut g = gen_any(
            src,
            &GenOpt {
                max_nt: 5,
                ignores: 30,
                undefined: 10,
                sections: 60,
                ..GenOpt::default()
            },
        );
        if let Some(f) = section {
            for r in g.rules.iter_mut().flatten() {
                r.sect = r.sect.as_ref().map(|_| f(src));
            }
        }
        let mut t: Vec<char> = g.text(src).chars().collect();
        if src.pct(10) {
            // the same rules again: alternatives are added
            let u: Vec<char> = g.text(src).chars().collect();
            t.extend(u);
            ctx.probe("rules_defined_twice");
        }
        t
    };
    texts.push(st(&base));
    if base.len() <= 60 && src.pct(40) {
        for k in 0..base.len() {
            texts.push(st(&base[..k]));
            ctx.fault("truncate");
        }
    }
    for _ in 0..src.range(1, 6) {
        let mut t = base.clone();
        for _ in 0..src.range(1, 3) {
            let k = damage(src, &mut t, &al);
            ctx.fault(k);
        }
        if src.pct(8) {
            // a block written to the wrong place
            let n = t.len();
            if n > 4 {
                let l = 1 + src.us(n / 2);
                let a = src.us(n - l + 1);
                let b = src.us(n - l + 1);
                let blk: Vec<char> = t[a..a + l].to_vec();
                t.splice(b..b + l, blk);
                ctx.fault("misplaced_block");
            }
        }
        texts.push(st(&t));
    }
    texts
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let texts = damaged_texts(src, ctx, None);
    let vmfault = if src.pct(25) {
        let (s, k) = (src.us(4), src.us(6));
        Some(match src.below(4) {
            0 => ReadFault::Panic(s, k),
            1 | 2 => ReadFault::Error(s, k),
            _ => ReadFault::Leave(s, k),
        })
    } else {
        None
    };
    let r = reading(src);
    let hk = key(src);
    ctx.fault("hash_seed_schedule");
    ctx.case(&format!("{texts:?} {vmfault:?} {r:?} {hk}"));
    ctx.sample = format!("text {:?} and {} damaged variants, VM fault {vmfault:?}", texts[0], texts.len() - 1);
    ctx.nontrivial = texts.len() > 1;
    let outs = in_thread(hk, || {
        texts
            .iter()
            .map(|t| {
                let mut vm = SimVm::reading(r);
                vm.fault = vmfault;
                let o = guard(|| match read_rules(t, &vm) {
                    Ok(pd) => Ok((rules_of(&pd), instr_of(&pd))),
                    Err(e) => Err(e.show()),
                });
                let fired = *vm.fired.lock().unwrap();
                let seen = vm.seen.lock().unwrap().clone();
                let comp = vm.complaints.lock().unwrap().clone();
                (o, fired, seen, comp)
            })
            .collect::<Vec<_>>()
    });
    for (t, (o, fired, seen, comp)) in texts.iter().zip(&outs) {
        ctx.steps += 1 + seen.len() as u64;
        ctx.see(&format!("{o:?}"));
        ctx.note(|| format!("text {t:?}: {o:?} sections {seen:?}"));
        let chars: Vec<char> = t.chars().collect();
        let m = crate::reader::read(&chars);
        let what = || format!("text {t:?}\n  VM fault {vmfault:?} fired {fired}\n  reference reader {}", match &m { Ok(_) => "reads it".into(), Err(p) => format!("stops at {p}") });
        // the VM's side: every section it saw must be in the text
        let mut vm_failed = false;
        if *fired > 0 {
            match vmfault {
                Some(ReadFault::Panic(..)) => {
                    ctx.fault("vm_panic_at_section");
                    match o {
                        Err(p) if p.starts_with(INJECTED) => continue,
                        x => return bad("panic_swallowed", format!("the VM panicked, reading gave {x:?}\n  in: {}", what())),
                    }
                }
                Some(ReadFault::Error(..)) => {
                    ctx.fault("vm_error_at_section");
                    vm_failed = true;
                }
                Some(ReadFault::Leave(s, _)) => {
                    ctx.fault("vm_leaves_section_unread");
                    // did it leave anything?
                    vm_failed = match &m {
                        Ok(m) => m.sections.get(s).is_some_and(|x| x.1 != seen[s].text),
                        Err(_) => false, // refused anyway
                    };
                }
                None => {}
            }
        }
        let o = match o {
            Err(p) => return bad("read_panics", format!("{p}\n  in: {}", what())),
            Ok(o) => o,
        };
        if let Some(c) = comp.first() {
            return bad("reader_inconsistent", format!("{c}\n  in: {}", what()));
        }
        match (&m, o) {
            (Err(_), Err(_)) => ctx.probe("refused"),
            (_, Ok(_)) if vm_failed => {
                return bad("vm_failure_ignored", format!("the VM failed at a section, yet the text was read\n  in: {}", what()))
            }
            (Ok(_), Err(_)) if vm_failed => ctx.probe("refused_by_vm"),
            (Err(p), Ok((r, _))) => {
                return bad("malformed_text_read", format!("text is malformed at {p}, but was read as {r:?}\n  in: {}", what()))
            }
            (Ok(m), Err(e)) => {
                if m.unspecified || m.dangling_ignorable() {
                    ctx.probe("unspecified");
                } else {
                    return bad("well_formed_text_refused", format!("refused: {e}\n  in: {}", what()));
                }
            }
            (Ok(m), Ok((got, ins))) => {
                if m.unspecified || m.dangling_ignorable() {
                    ctx.probe("unspecified");
                    continue;
                }
                ctx.probe("read");
                let got = match got {
                    Ok(g) => g,
                    Err(e) => return bad("broken_rules", format!("{e}\n  in: {}", what())),
                };
                let mut want: Vec<(String, Vec<Vec<RSym>>)> =
                    m.rules.iter().map(|r| r.name.clone()).zip(m.woven()).collect();
                want.sort_by(|a, b| a.0.cmp(&b.0));
                if *got != want {
                    return bad("wrong_rules", format!("read as {got:?}\n  text says {want:?}\n  in: {}", what()));
                }
                // sections: all of them, each in full, attached to its rule
                if vmfault.is_none() || *fired == 0 {
                    let s: Vec<(String, String)> = seen.iter().map(|s| (s.rule.clone(), s.text.clone())).collect();
                    let w: Vec<(String, String)> = m.sections.iter().map(|s| (s.0.clone(), s.1.clone())).collect();
                    if s != w {
                        return bad("wrong_sections", format!("VM was given {s:?}\n  text says {w:?}\n  in: {}", what()));
                    }
                }
                for r in &m.rules {
                    let w: Vec<Instr> = match &r.sect {
                        // a section left unread on purpose is not compared
                        _ if *fired > 0 => continue,
                        None => vec![],
                        Some(s) => split_instrs(&r.name, s),
                    };
                    let g = ins.iter().find(|x| x.0 == r.name).map(|x| x.1.clone()).unwrap_or_default();
                    if g != w {
                        return bad("wrong_instructions", format!("rule {} has {g:?}\n  text says {w:?}\n  in: {}", r.name, what()));
                    }
                }
            }
        }
    }
    Ok(())
}

fn instr_of(pd: &ParserData<SimVm>) -> Vec<(String, Vec<Instr>)> {
    pd.parse_rules
        .rules
        .iter()
        .filter_map(|(ix, r)| Some((pd.get_element_verbose(*ix)?.name, r.instruction.clone())))
        .collect()
}
