//! The bundled stack machines keep an exact state across aborted scripts.
use super::*;
use crate::ctx::bad;
use crate::model::*;
use crate::vm::{build, guard, in_thread, Instr};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm::{SimpleStackVm, SimpleStackVmState};
use henriks_parsing_project::vms::stack_vm::{StackVm, StackVmState};
use henriks_parsing_project::vms::VM;
use std::io::Write;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 400_000,
    rule: "one bundled VM (StackVm, SimpleStackVm or CountingVm), one grammar with programs, a history of 1-8 scripts on one \
           state (derivable, cut, corrupted; parsers reused or rebuilt between them; standard output with short, interrupted \
           and failing writes); stack, registers, error and printed lines are compared with a reference machine after every \
           script; non-trivial: at least two instructions ran and a script failed or a write fault fired; distinct: digest of \
           grammar, programs, history and plan",
    real: "the bundled VMs, grammar reader, parser, tree, std line-buffered stdout",
    stub: "write(2) on standard output (captured, following the plan), hash seeds (seeded getrandom)",
};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    Digit,
    PopToReg,
    PopToReg2,
    PopDiscard,
    PushConst(i128),
    PushFromTree,
    PushReg,
    PushReg2,
    PrintReg,
    PrintReg2,
    PrintError,
    Pow(i128),
    RegAddConst(i128),
    /// CountingVm
    Count,
}

impl Op {
    fn text(&self, src: &Src) -> String {
        let gap = |s: &Src| *s.pick(&[" ", " ", "  ", "\n\t"]);
        let num = |s: &Src, n: &i128| if s.pct(15) { format!("0{n}") } else { n.to_string() };
        match self {
            Op::PushConst(n) => format!("PushConst{}{}", gap(src), num(src, n)),
            Op::Pow(n) => format!("Pow{}{}", gap(src), num(src, n)),
            Op::RegAddConst(n) => format!("RegAddConst{}{}", gap(src), num(src, n)),
            o => format!("{o:?}"),
        }
    }
}

/// The reference machine.
#[derive(Clone, Debug, PartialEq)]
struct Mach {
    stack: Vec<i128>,
    reg: i128,
    reg2: i128,
    err: i128,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Stack,
    Simple,
    Counting,
}

impl Kind {
    fn fits(&self, x: i128) -> bool {
        match self {
            Kind::Stack => isize::try_from(x).is_ok(),
            _ => usize::try_from(x).is_ok(),
        }
    }
    fn number(&self, s: &str) -> Option<i128> {
        match self {
            Kind::Stack => s.parse::<isize>().ok().map(|x| x as i128),
            _ => s.parse::<usize>().ok().map(|x| x as i128),
        }
    }
}

enum Step {
    Fine,
    /// The exact result is in range although a value on the way to it is not: not specified.
    Unspecified,
}

fn exec(k: Kind, m: &mut Mach, op: &Op, node: &TNode, out: &mut String) -> Step {
    let pop = |m: &mut Mach| match m.stack.pop() {
        Some(v) => Some(v),
        None => {
            m.err = 1;
            None
        }
    };
    let push = |m: &mut Mach, v: i128| {
        if k.fits(v) {
            m.stack.push(v)
        } else {
            m.err = 3
        }
    };
    match op {
        Op::Add => {
            if let Some(v) = pop(m) {
                let r = m.reg + v;
                push(m, r)
            }
        }
        Op::Sub => {
            if let Some(v) = pop(m) {
                let r = v - m.reg;
                push(m, r)
            }
        }
        Op::Digit => {}
        Op::PopToReg => {
            if let Some(v) = pop(m) {
                m.reg = v
            }
        }
        Op::PopToReg2 => {
            if let Some(v) = pop(m) {
                m.reg2 = v
            }
        }
        Op::PopDiscard => {
            pop(m);
        }
        Op::PushConst(c) => m.stack.push(*c),
        Op::PushFromTree => match node.kids.first() {
            None => m.err = 1,
            Some(c) => match if c.kids.is_empty() { k.number(&c.data) } else { None } {
                Some(v) => m.stack.push(v),
                None => m.err = 2,
            },
        },
        Op::PushReg => m.stack.push(m.reg),
        Op::PushReg2 => m.stack.push(m.reg2),
        Op::PrintReg => *out += &format!("{}\n", m.reg),
        Op::PrintReg2 => *out += &format!("{}\n", m.reg2),
        Op::PrintError => *out += &format!("{}\n", m.err),
        Op::Pow(base) => {
            if let Some(v) = pop(m) {
                if m.reg < 0 {
                    m.err = 3;
                    return Step::Fine;
                }
                // exact, as long as it stays below 2^100
                let mut p: Option<i128> = Some(1);
                if *base >= 2 {
                    for _ in 0..m.reg.min(101) {
                        p = p.and_then(|p| p.checked_mul(*base)).filter(|p| *p < 1 << 100);
                    }
                } else if *base == 0 && m.reg > 0 {
                    p = Some(0);
                }
                if m.reg > u32::MAX as i128 && *base < 2 {
                    return Step::Unspecified;
                }
                match p {
                    None if v == 0 => return Step::Unspecified,
                    None => m.err = 3,
                    Some(p) => match v.checked_mul(p) {
                        None => m.err = 3,
                        Some(q) => {
                            let r = q + m.reg2;
                            if k.fits(r) && !(k.fits(p) && k.fits(q)) {
                                return Step::Unspecified;
                            }
                            push(m, r)
                        }
                    },
                }
            }
        }
        Op::RegAddConst(c) => {
            if k.fits(m.reg + c) {
                m.reg += c
            } else {
                m.err = 3
            }
        }
        Op::Count => m.reg += 1,
    }
    Step::Fine
}

trait Bundled: VM {
    fn make() -> Self;
    fn state(s: &Self::Tstate) -> Mach;
}

impl Bundled for StackVm {
    fn make() -> Self {
        StackVm {}
    }
    fn state(s: &StackVmState) -> Mach {
        Mach {
            stack: s.stack.iter().map(|x| *x as i128).collect(),
            reg: s.reg as i128,
            reg2: s.reg2 as i128,
            err: s.error as i128,
        }
    }
}

impl Bundled for SimpleStackVm {
    fn make() -> Self {
        SimpleStackVm {}
    }
    fn state(s: &SimpleStackVmState) -> Mach {
        Mach {
            stack: s.stack.iter().map(|x| *x as i128).collect(),
            reg: s.reg as i128,
            reg2: s.reg2 as i128,
            err: s.error as i128,
        }
    }
}

impl Bundled for CountingVm {
    fn make() -> Self {
        CountingVm {}
    }
    fn state(s: &usize) -> Mach {
        Mach {
            stack: vec![],
            reg: *s as i128,
            reg2: 0,
            err: 0,
        }
    }
}

struct Ran {
    /// None: accepted; Some: the error.
    err: Option<String>,
    panic: Option<String>,
    state: Mach,
    out: Vec<u8>,
    short: u64,
    eintr: u64,
    failed: u64,
}

fn drive<V: Bundled>(text: &str, hist: &[(String, Vec<u8>, bool)]) -> Result<(Mach, Vec<Ran>), String> {
    let vm = V::make();
    let mut p = build(text, &vm).map_err(|e| e.show())?;
    let mut state = V::create_new_state();
    let initial = V::state(&state);
    let mut v = vec![];
    let _ = crate::seams::capture(vec![], || std::io::stdout().flush());
    for (s, plan, rebuild) in hist {
        if *rebuild {
            p = build(text, &vm).map_err(|e| e.show())?;
        }
        let (r, cap) = crate::seams::capture(plan.clone(), || guard(|| p.parse(s, &mut state).map(|_| ())));
        if cap.failed > 0 {
            // what std keeps in its buffer after a failed write is not the library's business
            let _ = crate::seams::capture(vec![], || std::io::stdout().flush());
        }
        let (err, panic) = match r {
            Err(p) => (None, Some(p)),
            Ok(Err(e)) => (Some(format!("{e:?}")), None),
            Ok(Ok(())) => (None, None),
        };
        v.push(Ran {
            err,
            panic,
            state: V::state(&state),
            out: cap.data,
            short: cap.short,
            eintr: cap.eintr,
            failed: cap.failed,
        });
    }
    Ok((initial, v))
}

const CALC: &str = "start -> terms; terms -> term terms_s; terms_s -> whitespace term terms_s | #; term -> add|sub|number|print; \
    print -> \"print\" {P}; add -> \"+\" {A}; sub -> \"-\" {S}; number-> digit number_s {N}; number_s -> number_s_ | #; \
    number_s_ -> digit number_s {M}; digit -> \"0\"|\"1\"|\"2\"|\"9\"|\"7\" {D}; whitespace -> \" \";";

const SUM: &str = "start -> num rest {E}; rest -> rest_ | #; rest_ -> op num rest {R}; op -> plus | minus; plus -> \"+\" {A}; minus -> \"-\" {S}; \
    num -> d ds {N}; ds -> ds_ | #; ds_ -> d ds {M}; d -> \"0\"|\"1\"|\"5\"|\"9\" {D};";

fn simple_program(name: &str) -> Vec<Op> {
    match name {
        "add" => vec![Op::PopToReg, Op::Add],
        "sub" => vec![Op::PopToReg, Op::Sub],
        "number" => vec![Op::PopDiscard],
        "digit" => vec![Op::PushFromTree, Op::PushConst(1)],
        "number_s_" => vec![
            Op::PopToReg,
            Op::PopToReg2,
            Op::PopDiscard,
            Op::Pow(10),
            Op::RegAddConst(1),
            Op::PushReg,
        ],
        "print" => vec![Op::PopToReg, Op::PrintReg],
        _ => vec![],
    }
}

fn op(src: &Src, nums: bool) -> Op {
    let big = [0, 1, 2, 3, 10, 62, 63, 64, 4_611_686_018_427_387_904, isize::MAX as i128 - 1, isize::MAX as i128];
    let c = |s: &Src| {
        if s.pct(60) {
            big[s.us(5)]
        } else if nums && s.pct(2) {
            *s.pick(&[isize::MAX as i128 + 1, usize::MAX as i128, usize::MAX as i128 + 1, usize::MAX as i128 * 10 + 3])
        } else {
            *s.pick(&big)
        }
    };
    match src.below(17) {
        0 => Op::Digit,
        1 => Op::Add,
        2 => Op::Sub,
        3 | 4 => Op::PopToReg,
        5 => Op::PopToReg2,
        6 => Op::PopDiscard,
        7 | 8 => Op::PushConst(c(src)),
        9 | 10 => Op::PushFromTree,
        11 => Op::PushReg,
        12 => Op::PushReg2,
        13 => Op::PrintReg,
        14 => Op::PrintReg2,
        15 => {
            if src.pct(50) {
                Op::Pow(if src.pct(30) { *src.pick(&[usize::MAX as i128, 1 << 32, 7, 1 << 63]) } else { big[src.us(5)] })
            } else {
                Op::RegAddConst(c(src))
            }
        }
        _ => Op::PrintError,
    }
}

fn write_plan(src: &Src, hard: bool) -> Vec<u8> {
    if src.pct(40) {
        return vec![];
    }
    let mut p: Vec<u8> = (0..src.range(1, 6))
        .map(|_| match src.below(4) {
            0 => 1,
            1 => 0,
            _ => 2 + src.us(4) as u8,
        })
        .collect();
    if hard {
        let k = src.us(p.len() + 1);
        p.insert(k, 255);
    }
    if p.iter().all(|x| *x == 1 || *x == 255) {
        p.push(0);
    }
    p
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let kind = *src.pick(&[Kind::Stack, Kind::Stack, Kind::Stack, Kind::Simple, Kind::Simple, Kind::Counting]);
    let calc = kind != Kind::Counting && src.pct(40);
    let mut g = if calc {
        let t = if kind == Kind::Stack && src.pct(60) { SUM } else { CALC };
        gram_of(&crate::reader::read(&t.chars().collect::<Vec<_>>()).expect("calculator")).expect("calculator")
    } else {
        match gen_ll1(src, &GenOpt { sections: 80, ignores: 8, ..GenOpt::default() }) {
            Some((g, ..)) => g,
            None => {
                ctx.no_verdict = true;
                return Ok(());
            }
        }
    };
    if kind == Kind::Simple && !calc {
        let mut pool = vec!["add", "sub", "number", "digit", "number_s_", "print", "other", "Add", "digits", "dig1"];
        for (i, n) in g.names.iter_mut().enumerate().skip(1) {
            if pool.is_empty() {
                *n = format!("q{i}");
                continue;
            }
            let k = src.us(pool.len());
            *n = pool.remove(k).to_string();
        }
    }
    // programs
    let mut progs: Vec<Vec<Op>> = vec![];
    for (i, name) in g.names.clone().into_iter().enumerate() {
        let Some(r) = g.rules[i].as_mut() else {
            progs.push(vec![]);
            continue;
        };
        let Some(s) = r.sect.clone() else {
            progs.push(vec![]);
            continue;
        };
        match kind {
            Kind::Counting => {
                r.sect = Some(String::new());
                progs.push(vec![Op::Count]);
            }
            Kind::Simple => {
                progs.push(simple_program(&name));
            }
            Kind::Stack => {
                let p: Vec<Op> = if calc && !src.pct(10) {
                    match s.as_str() {
                        "A" if g.names.iter().any(|n| n == "op") => vec![Op::PushConst(1)],
                        "S" if g.names.iter().any(|n| n == "op") => vec![Op::PushConst(0)],
                        "R" => vec![Op::PopToReg, Op::PopDiscard, Op::Add, Op::PushReg2],
                        "E" => vec![Op::PopToReg, Op::PrintReg, Op::PopDiscard, Op::PrintError],
                        "A" => vec![Op::PopToReg, Op::Add],
                        "S" => vec![Op::PopToReg, Op::Sub],
                        "N" => vec![Op::PopDiscard],
                        "D" => vec![Op::PushFromTree, Op::PushConst(1)],
                        "M" => vec![
                            Op::PopToReg,
                            Op::PopToReg2,
                            Op::PopDiscard,
                            Op::Pow(10),
                            Op::RegAddConst(1),
                            Op::PushReg,
                        ],
                        _ => vec![Op::PopToReg, Op::PrintReg],
                    }
                } else {
                    {
                        let n = if src.below(80) == 0 { src.range(8, 120) } else { src.us(7) };
                        (0..n).map(|_| op(src, true)).collect()
                    }
                };
                r.sect = Some(
                    p.iter()
                        .map(|o| format!("{};{}", o.text(src), src.pick(&["", "", " ", "\n"])))
                        .collect(),
                );
                progs.push(p);
            }
        }
    }
    let (f, a) = g.analyse();
    let sc = Scene {
        text: g.text(src),
        g,
        f,
        a,
    };
    // one marker instruction per rule with a program, so that the model gives every completed production
    let ins: Vec<Vec<Instr>> = progs
        .iter()
        .enumerate()
        .map(|(i, p)| {
            if p.is_empty() {
                vec![]
            } else {
                vec![Instr {
                    rule: sc.g.names[i].clone(),
                    k: 0,
                    text: String::new(),
                }]
            }
        })
        .collect();
    let mut hist = vec![];
    for i in 0..src.range(1, 8) {
        let mut s = if calc && src.pct(35) {
            // numbers at the edge of the range
            let d: Vec<char> = "015927".chars().filter(|c| sc.text.contains(&format!("\"{c}\""))).collect();
            let n = if src.pct(60) { src.range(1, 6) } else { src.range(16, 24) };
            let mut v: Vec<char> = (0..n).map(|_| *src.pick(&d)).collect();
            if src.pct(50) {
                let more: Vec<char> = (0..src.range(1, n)).map(|_| *src.pick(&d)).collect();
                if sc.text.contains("whitespace") {
                    v.push(' ');
                    v.extend(more);
                    v.push(' ');
                    v.push(*src.pick(&['+', '-']));
                    if src.pct(60) {
                        v.extend(" print".chars());
                    }
                } else {
                    v.push(*src.pick(&['+', '-']));
                    v.extend(more);
                }
            }
            if src.pct(20) {
                let al = alphabet(&sc.f);
                ctx.fault(damage(src, &mut v, &al));
            }
            v
        } else {
            let (s, kinds) = script(src, &sc, 40);
            for k in kinds {
                ctx.fault(k);
            }
            s
        };
        s.truncate(300);
        let hard = src.pct(6);
        hist.push((st(&s), write_plan(src, hard), i > 0 && src.pct(20)));
    }
    let k = key(src);
    ctx.fault("hash_seed_schedule");
    ctx.case(&format!("{kind:?} {} {hist:?} {k}", sc.text));
    ctx.sample = format!(
        "{kind:?}, grammar {:?}, history {:?}",
        sc.text,
        hist.iter().map(|h| (&h.0, &h.1)).collect::<Vec<_>>()
    );
    ctx.note(|| format!("{kind:?}: {}", sc.g.pretty()));
    let ran = in_thread(k, || match kind {
        Kind::Stack => drive::<StackVm>(&sc.text, &hist),
        Kind::Simple => drive::<SimpleStackVm>(&sc.text, &hist),
        Kind::Counting => drive::<CountingVm>(&sc.text, &hist),
    });
    let over = progs.iter().flatten().any(|o| {
        matches!(o, Op::PushConst(c) | Op::RegAddConst(c) if !kind.fits(*c)) || matches!(o, Op::Pow(c) if usize::try_from(*c).is_err())
    });
    let (initial, ran) = match ran {
        Ok(r) => r,
        Err(_) if over => {
            ctx.probe("constant_outside_the_range_refused");
            return Ok(());
        }
        Err(e) => return bad("grammar_refused", format!("grammar and programs refused: {e}\n  in: {:?}", sc.text)),
    };
    if over {
        return bad(
            "constant_out_of_range",
            format!("a program whose constant is outside the machine's number range was accepted\n  in: {:?}", sc.text),
        );
    }
    let mut m = Mach {
        stack: vec![],
        reg: 0,
        reg2: 0,
        err: 0,
    };
    if initial != m {
        return bad("initial_state", format!("a new state is {initial:?}"));
    }
    let mut done = 0u64;
    for (i, ((s, plan, _), r)) in hist.iter().zip(&ran).enumerate() {
        let what = || {
            format!(
                "script {i} of the history {:?}\n  {kind:?}, grammar {:?}\n  write plan {plan:?}, hash key {k:#x}",
                hist.iter().map(|h| &h.0).collect::<Vec<_>>(),
                sc.text
            )
        };
        let chars: Vec<char> = s.chars().collect();
        let e = expect(&sc.f, &sc.a, &ins, &chars);
        let before = m.clone();
        let mut out = String::new();
        let mut at_print = vec![];
        'all: for ev in &e.events {
            let nt = sc.g.names.iter().position(|n| *n == ev.instr.rule).unwrap();
            for o in &progs[nt] {
                if matches!(o, Op::PrintReg | Op::PrintReg2 | Op::PrintError) {
                    at_print.push(m.clone());
                }
                let e0 = m.err;
                m.err = 0;
                if let Step::Unspecified = exec(kind, &mut m, o, &ev.sub, &mut out) {
                    ctx.probe("result_in_range_but_not_on_the_way");
                    ctx.no_verdict = i == 0;
                    return Ok(());
                }
                match m.err {
                    0 => m.err = e0,
                    1 => ctx.probe("too_few_values"),
                    2 => ctx.probe("no_number_at_node"),
                    _ => ctx.probe("result_out_of_range"),
                }
                // PrintError shows what the indicator was
                if matches!(o, Op::PrintError) {
                    let l = out.len() - 2;
                    out.truncate(l);
                    out += &format!("{}\n", m.err);
                }
                done += 1;
                if m.stack.len() > 1 << 20 {
                    break 'all;
                }
            }
        }
        ctx.steps += 1 + done;
        ctx.faults_n("short_write", r.short);
        ctx.faults_n("interrupted_write", r.eintr);
        ctx.faults_n("failed_write", r.failed);
        if r.short + r.eintr + r.failed > 0 || e.end.is_err() {
            ctx.nontrivial |= done >= 2;
        }
        ctx.see(&format!("{:?} {:?}", r.state, r.err));
        ctx.note(|| {
            format!(
                "script {s:?}: error {:?} panic {:?}; state {:?}; printed {:?}; model: {m:?}, prints {out:?}",
                r.err,
                r.panic,
                r.state,
                String::from_utf8_lossy(&r.out)
            )
        });
        if r.failed > 0 {
            // the print could not be carried out; std panics. The state must be that of what ran so far.
            ctx.probe("standard_output_failed");
            match &r.panic {
                Some(_) => {
                    if !at_print.contains(&r.state) {
                        return bad(
                            "state_after_failed_print",
                            format!("state {:?}, but before the prints it was one of {at_print:?}\n  in: {}", r.state, what()),
                        );
                    }
                    m = r.state.clone();
                    continue;
                }
                None => {
                    if r.state != m {
                        return bad("state", format!("state {:?}, reference {m:?}\n  in: {}", r.state, what()));
                    }
                    continue;
                }
            }
        }
        if let Some(p) = &r.panic {
            return bad("crash", format!("the process would have crashed: {p}\n  before: {before:?}\n  in: {}", what()));
        }
        if r.err.is_none() != e.end.is_ok() {
            return bad("verdict", format!("error {:?}, derivation {:?}\n  in: {}", r.err, e.end, what()));
        }
        if r.state != m {
            return bad(
                "state",
                format!("state {:?}\n  reference {m:?}\n  before the script {before:?}\n  in: {}", r.state, what()),
            );
        }
        if r.out != out.as_bytes() {
            return bad(
                "printed",
                format!("printed {:?}\n  reference {out:?}\n  in: {}", String::from_utf8_lossy(&r.out), what()),
            );
        }
    }
    Ok(())
}
