//! A refused grammar text is reported at the place where it goes wrong.
use super::c09::damaged_texts;
use super::*;
use crate::ctx::bad;
use crate::vm::*;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::stack_vm::StackVm;

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 500_000,
    rule: "a history of grammar texts read one after the other: one text, cut at sampled or all points, damaged by 1-4 character faults, or \
           arbitrary characters, read by the simulated VM (which sometimes stops early, reports an error or panics at its n-th section), the \
           stack VM or the counting VM; the position and character of every error are compared with where the reference reader stops; \
           non-trivial: some text was refused with a position; distinct: digest of texts and faults",
    real: "grammar reader, ParseProcess, stack VM and counting VM readers",
    stub: "VM (simulated, in a part of the runs), hash seeds (seeded getrandom)",
};

/// Where reading must stop.
enum Stop {
    /// Nowhere: the text is fine.
    Fine,
    /// Here.
    At(usize),
    /// An error without a place in the text.
    Placeless,
    /// Not specified.
    Open,
}

const OPS: &[&str] = &["Add", "Sub", "PopToReg", "PrintReg", "PushConst 7", "RegAddConst 1", "Pow 10", "Digit", "PushFromTree", "PushConst  12"];

fn stack_section(src: &Src) -> String {
    let mut s = String::new();
    for _ in 0..src.us(4) {
        s += *src.pick(OPS);
        s += *src.pick(&[";", "; ", ";\n", ";\u{3000}", ";\u{b}"]);
    }
    if src.pct(10) {
        s += *src.pick(&["PushConst 99999999999999999999;", "Pow -1;", "Add", "\\};", "é;", "Pow", "Unknown;", "PushConst 12x;"]);
    }
    s
}

/// Where the stack VM's own reader stops in a section.
fn stack_stop(t: &[char], from: usize, end: usize) -> Option<Stop> {
    let mut p = from;
    let at = |p: usize| if p < end { Some(t[p]) } else { None };
    let ws = |p: &mut usize| {
        while at(*p).is_some_and(|c| c.is_whitespace()) {
            *p += 1
        }
    };
    ws(&mut p);
    while let Some(c) = at(p) {
        if !c.is_alphabetic() {
            return Some(Stop::At(p));
        }
        let a = p;
        while at(p).is_some_and(|c| c.is_alphanumeric() || c == '_') {
            p += 1;
        }
        let name: String = t[a..p].iter().collect();
        if ["RegAddConst", "PushConst", "Pow"].contains(&name.as_str()) {
            ws(&mut p);
            let b = p;
            while at(p).is_some_and(|c| c.is_ascii_digit()) {
                p += 1;
            }
            if b == p {
                return Some(Stop::At(p));
            }
            let v: String = t[b..p].iter().collect();
            let fits = if name == "Pow" { v.parse::<usize>().is_ok() } else { v.parse::<isize>().is_ok() };
            if !fits {
                return Some(Stop::Placeless);
            }
        }
        if at(p) != Some(';') {
            return Some(Stop::At(p));
        }
        p += 1;
        ws(&mut p);
    }
    None
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let who = src.below(3);
    let texts = damaged_texts(src, ctx, if who == 1 { Some(stack_section) } else { None });
    let fault = if who == 0 && src.pct(40) {
        let (s, k) = (src.us(4), src.us(6));
        Some(match src.below(3) {
            0 => ReadFault::Panic(s, k),
            1 => ReadFault::Error(s, k),
            _ => ReadFault::Leave(s, k),
        })
    } else {
        None
    };
    let r = reading(src);
    let hk = key(src);
    ctx.fault("hash_seed_schedule");
    ctx.case(&format!("{texts:?} {who} {fault:?} {r:?} {hk}"));
    let vm_name = ["simulated VM", "stack VM", "counting VM"][who as usize];
    ctx.sample = format!("text {:?} and {} damaged variants, {vm_name}, VM fault {fault:?}", texts[0], texts.len() - 1);
    type Out = Result<Result<(), BuildErr>, String>;
    let outs: Vec<(Out, Vec<SectionSeen>, u64)> = in_thread(hk, || {
        texts
            .iter()
            .map(|t| match who {
                0 => {
                    let mut vm = SimVm::reading(r);
                    vm.fault = fault;
                    let o = guard(|| read_rules(t, &vm).map(|_| ()));
                    let seen = vm.seen.lock().unwrap().clone();
                    let fired = *vm.fired.lock().unwrap();
                    (o, seen, fired)
                }
                1 => (guard(|| read_rules(t, &StackVm {}).map(|_| ())), vec![], 0),
                _ => (guard(|| read_rules(t, &CountingVm {}).map(|_| ())), vec![], 0),
            })
            .collect::<Vec<_>>()
    });
    for (t, (o, seen, fired)) in texts.iter().zip(outs) {
        ctx.steps += 1 + seen.len() as u64;
        let chars: Vec<char> = t.chars().collect();
        let mut sections = vec![];
        let m = crate::reader::read_seeing(&chars, &mut sections);
        // the first thing to go wrong, in reading order
        let mut want = None;
        for (i, (from, end)) in sections.iter().enumerate() {
            want = match who {
                0 => match fault {
                    Some(ReadFault::Panic(s, k)) | Some(ReadFault::Error(s, k)) if s == i && k <= end - from => Some(Stop::Placeless),
                    Some(ReadFault::Leave(s, k)) if s == i && k < end - from => Some(Stop::At(from + k)),
                    _ => None,
                },
                1 => stack_stop(&chars, *from, *end),
                _ if end > from => Some(Stop::At(*from)),
                _ => None,
            };
            if want.is_some() {
                break;
            }
        }
        let want = want.unwrap_or(match &m {
            Err(p) => Stop::At(*p),
            Ok(m) if m.dangling_ignorable() => Stop::Open,
            Ok(_) => Stop::Fine,
        });
        ctx.see(&format!("{o:?}"));
        ctx.note(|| format!("text {t:?}: {o:?}"));
        let what = |p: Option<usize>| {
            format!(
                "text {t:?}\n  read by the {vm_name}, VM fault {fault:?} fired {fired}\n  reported {o:?}\n  goes wrong {}",
                match p {
                    Some(p) => format!("at {p}, behind {:?}, where there is {:?}", st(&chars[p.saturating_sub(12)..p]), chars.get(p)),
                    None => "nowhere".into(),
                }
            )
        };
        let e = match (&want, &o) {
            (Stop::Placeless, _) => {
                ctx.probe("error_without_place");
                if fired > 0 {
                    ctx.fault(if matches!(fault, Some(ReadFault::Panic(..))) { "vm_panic_at_section" } else { "vm_error_at_section" });
                }
                // a VM's own error is passed on as it is
                if let (Some(ReadFault::Error(s, k)), true) = (fault, fired > 0) {
                    match &o {
                        Ok(Err(BuildErr::Read(e))) if format!("{e:?}") == format!("{:?}", refusal(s, k)) => {}
                        _ => return bad("vm_error_changed", format!("the VM reported {:?}\n  in: {}", refusal(s, k), what(None))),
                    }
                }
                continue;
            }
            (Stop::Open, _) | (Stop::Fine, Ok(Ok(()))) => continue,
            (_, Err(p)) => return bad("read_panics", format!("{p}\n  in: {}", what(None))),
            (Stop::Fine, _) => return bad("well_formed_text_refused", what(None)),
            (Stop::At(p), Ok(Ok(()))) => return bad("malformed_text_read", what(Some(*p))),
            (Stop::At(_), Ok(Err(BuildErr::Read(e)))) => e,
            (Stop::At(p), Ok(Err(_))) => return bad("no_place_reported", what(Some(*p))),
        };
        let Stop::At(p) = want else { unreachable!() };
        if fired > 0 {
            ctx.fault("vm_leaves_section_unread");
        }
        ctx.nontrivial = true;
        match e {
            ParserError::UnexpectedCharError { chr, pos, .. } => {
                ctx.probe("unexpected_character");
                if *pos != p {
                    return bad("wrong_place", what(Some(p)));
                }
                if chars.get(*pos) != Some(chr) {
                    return bad("wrong_character", what(Some(p)));
                }
            }
            ParserError::EndOfCharsError { pos } => {
                ctx.probe("unexpected_end");
                // the end of the text, or of the section the VM read
                let end = p == chars.len() || sections.iter().any(|s| s.1 == p);
                if *pos != p || !end {
                    return bad("wrong_place", what(Some(p)));
                }
            }
            ParserError::GramError { err: GrammarError::UnexpectedElementError { pos, .. } } => {
                ctx.probe("unexpected_element");
                // a misplaced empty element: at it, or right behind it
                if *pos != p && !(chars.get(p) == Some(&'#') && *pos == p + 1) {
                    return bad("wrong_place", what(Some(p)));
                }
            }
            ParserError::UnknownSpecialOperation { operation, pos } => {
                ctx.probe("unknown_directive");
                // at the directive, which the reference reads to the end of its name, and no further than it could still be the known one
                let n = operation.chars().count();
                let same = operation.chars().zip("IGNORE".chars()).take_while(|(a, b)| a == b).count();
                if n > p || st(&chars[p - n..p]) != *operation || *pos > p - n + same || *pos + 1 < p - n {
                    return bad("wrong_place", what(Some(p)));
                }
            }
            _ => return bad("no_place_reported", what(Some(p))),
        }
    }
    Ok(())
}
