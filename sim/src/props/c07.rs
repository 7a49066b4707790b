//! A VM reads exactly its brace section, however it peeks and consumes.
use super::*;
use crate::ctx::{bad, clip};
use crate::vm::*;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 800_000,
    rule: "half: a grammar with brace sections (escapes, empty, multi-line) read by a VM that mixes all five reading calls by \
           schedule and may stop early, fail or panic at the n-th section after k characters, sections compared with the \
           reference reader; half: nested delimited readers over a character stream that may end or stall between characters, \
           every call compared with a queue model; non-trivial: a section or stream of 2 or more characters was read with at \
           least two kinds of calls, or a fault fired; distinct: digest of text, call schedule and faults",
    real: "ParseProcess, PeekableWrapper, grammar reader",
    stub: "VM (simulated), character source (simulated, stalling)",
};

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    if src.pct(50) {
        sections(src, ctx)
    } else {
        streams(src, ctx)
    }
}

const SECT: &[&str] = &["", "x", "a;b", "\\}", "a\\}b", "\\\\\\}", "{", "{{", "é💥", "\\n", "a b", "\"", "->", "#|;", "\n", "\\", "op \t x"];

/// A section text: whatever it is, an unescaped `}` is not in it.
fn section_text(src: &Src) -> String {
    let mut s = String::new();
    let n = if src.below(100) == 0 { src.range(20, 400) } else { src.us(6) };
    for _ in 0..n {
        s += SECT[src.us(SECT.len())];
    }
    // must not swallow its own closing brace, must not begin with white space
    if s.ends_with('\\') {
        s.push('.');
    }
    s.trim_start().to_string()
}

fn sections(src: &Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 6);
    let mut text = String::new();
    let mut want = 0;
    for i in 0..n {
        let name = if src.pct(10) { "r0".to_string() } else { format!("r{i}") };
        text += &format!("{name} -> \"t{i}\"");
        if src.pct(30) {
            text += " | #";
        }
        text += " ";
        if src.pct(75) {
            let ws = match src.below(5) {
                0 => blank(src).to_string(),
                k => ["", " ", "\n\t ", "\u{3000}"][k as usize - 1].to_string(),
            };
            text += &format!("{{{ws}{}}}", section_text(src));
            want += 1;
        }
        text += *src.pick(&[";", " ;", ";\n"]);
    }
    let chars: Vec<char> = text.chars().collect();
    let mut vm = SimVm::reading(reading(src));
    if want > 0 && src.pct(45) {
        let at = src.us(want);
        let k = if src.pct(3) { src.us(500) } else { src.us(8) };
        vm.fault = Some(match src.below(5) {
            0 => ReadFault::Panic(at, k),
            1 | 2 => ReadFault::Error(at, k),
            _ => ReadFault::Leave(at, k),
        });
    }
    let fault = vm.fault;
    let r = match crate::reader::read(&chars) {
        Ok(r) => r,
        Err(p) => panic!("generated text not readable at {p}: {text:?}"),
    };
    ctx.case(&format!("{text} {:?} {fault:?}", vm.reading));
    ctx.sample = format!("text {text:?} read {:?}, fault {fault:?}", vm.reading);
    ctx.note(|| format!("grammar text: {text:?}; VM reads {:?}, fault {fault:?}", vm.reading));
    let hk = key(src);
    let (out, vm) = in_thread(hk, move || {
        let out = guard(|| {
            let mut p = PeekableWrapper::from_str(&text);
            let mut rp = henriks_parsing_project::rule_parsing::RuleParser::new(&mut p, &vm);
            rp.parse_rules().map(|_| ()).map_err(|e| format!("{e:?} / {e}"))
        });
        ((out, text), vm)
    });
    let (out, text) = out;
    let fired = *vm.fired.lock().unwrap();
    let seen = vm.seen.lock().unwrap().clone();
    let complaints = vm.complaints.lock().unwrap().clone();
    ctx.steps += seen.iter().map(|s| s.text.chars().count() as u64 + 1).sum::<u64>();
    ctx.see(&format!("{out:?} {seen:?} {complaints:?}"));
    ctx.note(|| format!("result {out:?}; sections seen {seen:?}; complaints {complaints:?}"));
    if seen.iter().any(|s| s.text.chars().count() >= 2) {
        ctx.nontrivial = true;
    }
    let what = || {
        format!(
            "text {text:?}\n  VM reads {:?}, fault {fault:?}\n  sections seen {seen:?}\n  result {}",
            vm.reading,
            clip(&format!("{out:?}"), 300)
        )
    };
    if let Some(c) = complaints.first() {
        return bad("reader_inconsistent", format!("{c}\n  in: {}", what()));
    }
    for (i, s) in seen.iter().enumerate() {
        let Some((rule, full, pos)) = r.sections.get(i) else {
            return bad("extra_section", format!("section {i} does not exist\n  in: {}", what()));
        };
        let last = i + 1 == seen.len();
        let cut = last && fired > 0;
        let fits = if cut { full.starts_with(s.text.as_str()) } else { s.text == *full };
        if !fits || s.rule != *rule {
            return bad(
                "section_text",
                format!("section {i} of {rule} is {full:?}, the VM of {} was handed {:?}\n  in: {}", s.rule, s.text, what()),
            );
        }
        if s.start != *pos {
            return bad("section_position", format!("section {i} starts at {pos}, the reader says {}\n  in: {}", s.start, what()));
        }
    }
    let must_fail = match fault {
        None => false,
        Some(_) if fired == 0 => false,
        Some(ReadFault::Error(..)) => {
            ctx.fault("vm_error_at_section");
            ctx.nontrivial = true;
            true
        }
        Some(ReadFault::Panic(..)) => {
            ctx.fault("vm_panic_at_section");
            ctx.nontrivial = true;
            return match &out {
                Err(p) if p.starts_with(INJECTED) => Ok(()),
                x => bad("panic_swallowed", format!("the VM panicked, loading gave {x:?}\n  in: {}", what())),
            };
        }
        Some(ReadFault::Leave(..)) => {
            ctx.fault("vm_leaves_section_unread");
            ctx.nontrivial = true;
            let s = seen.last().unwrap();
            s.text != r.sections[seen.len() - 1].1
        }
    };
    match (&out, must_fail) {
        (Err(p), _) => bad("load_panics", format!("{p}\n  in: {}", what())),
        (Ok(Ok(())), true) => bad("failure_ignored", format!("the VM failed or left text unread, yet loading succeeded\n  in: {}", what())),
        (Ok(Err(e)), false) => bad("load_refused", format!("well-formed text refused: {e}\n  in: {}", what())),
        (Ok(Ok(())), false) => {
            if seen.len() != r.sections.len() {
                return bad("missing_section", format!("{} sections, {} were read\n  in: {}", r.sections.len(), seen.len(), what()));
            }
            Ok(())
        }
        (Ok(Err(_)), true) => Ok(()),
    }
}

// ------------------------------------------------------------------ delimited readers over stalling streams

/// What the stream will say: characters, and stalls (one None, then it goes on).
struct Stream {
    items: VecDeque<Option<char>>,
    /// Characters handed to whoever reads the stream.
    given: Rc<RefCell<(usize, u64)>>,
}

impl Iterator for Stream {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let x = self.items.pop_front().flatten();
        let mut g = self.given.borrow_mut();
        match x {
            Some(_) => g.0 += 1,
            None => g.1 += 1,
        }
        x
    }
}

/// Queue model of what is still to come. Stalls are transparent: a call may answer None at a stall, but
/// the characters and their order are those of the text.
struct Q {
    text: Vec<char>,
    at: usize,
    log: Vec<String>,
    kinds: u32,
    stalls_left: usize,
}

struct Level {
    stop: Option<char>,
    esc: Option<char>,
    /// Last character consumed through this level escapes the next one.
    armed: bool,
    start: usize,
    eaten: usize,
    /// What a peek at this level promised.
    shown: Option<char>,
}

fn streams(src: &Src, ctx: &mut Ctx) -> Res {
    const AL: &[char] = &['a', 'b', '}', '\\', ']', ';', ' ', 'é', '💥', '0'];
    let n = src.us(40);
    let text: Vec<char> = (0..n).map(|_| *src.pick(AL)).collect();
    let stall = if src.pct(50) { 0 } else { src.range(1, 40) as u64 };
    let mut items: VecDeque<Option<char>> = VecDeque::new();
    let mut stalls = 0;
    for c in &text {
        if stall > 0 && src.pct(stall) {
            items.push_back(None);
            stalls += 1;
        }
        items.push_back(Some(*c));
    }
    ctx.faults_n("stream_stall", stalls as u64);
    let given = Rc::new(RefCell::new((0, 0)));
    let fused = src.pct(15);
    let steps = src.range(5, 120);
    let mut q = Q {
        text: text.clone(),
        at: 0,
        log: vec![],
        kinds: 0,
        stalls_left: stalls,
    };
    let stream = Stream {
        items,
        given: given.clone(),
    };
    ctx.note(|| format!("stream {:?} with {stalls} stalls", st(&text)));
    let start = if src.pct(50) { 0 } else { src.us(1000) };
    let mut levels = vec![gen_level(src, start)];
    let mut budget = steps;
    let r = if fused {
        // an ordinary string, no stalls
        q.stalls_left = 0;
        let s: String = text.iter().collect();
        let mut w = PeekableWrapper::from_str(&s);
        go(src, &mut w, &mut q, &mut levels, &mut budget)
    } else {
        let mut w = PeekableWrapper::new(stream.peekable());
        go(src, &mut w, &mut q, &mut levels, &mut budget)
    };
    ctx.steps += q.log.len() as u64;
    ctx.case(&format!("{text:?} {:?}", q.log));
    ctx.see(&format!("{:?}", q.log));
    ctx.sample = format!("stream {:?} ({stalls} stalls), calls {}", st(&text), clip(&format!("{:?}", q.log), 300));
    ctx.nontrivial = q.at >= 2 && q.kinds.count_ones() >= 2;
    for l in &q.log {
        ctx.note(|| l.clone());
    }
    if q.at == text.len() {
        ctx.probe("stream_read_to_the_end");
    }
    match r {
        Ok(()) => Ok(()),
        Err((k, m)) => bad(
            &k,
            format!("{m}\n  in: stream {:?} ({stalls} stalls, string source {fused})\n  calls {:?}", st(&text), q.log),
        ),
    }
}

fn gen_level(src: &Src, start: usize) -> Level {
    let stop = *src.pick(&[Some('}'), Some('}'), Some(']'), Some(';'), None]);
    let esc = *src.pick(&[Some('\\'), Some('\\'), None, Some('0')]);
    Level {
        stop,
        esc,
        armed: false,
        start,
        eaten: 0,
        shown: None,
    }
}

type R = Result<(), (String, String)>;

fn err<T>(k: &str, m: String) -> Result<T, (String, String)> {
    Err((k.into(), m))
}

/// Drive one reader (and readers nested in it) over `inner`.
fn go<T: TPeekable<Item = char>>(src: &Src, inner: &mut T, q: &mut Q, levels: &mut Vec<Level>, budget: &mut usize) -> R {
    // the outermost level
    let l = levels.last().unwrap();
    let mut pp = if l.start == 0 {
        ParseProcess::new(inner, l.stop, l.esc)
    } else {
        ParseProcess::new_nested(inner, l.stop, l.esc, l.start)
    };
    drive(src, &mut pp, q, levels, budget, 0)
}

/// The next character, if every level (the innermost is the one being called) lets it through.
fn avail(q: &Q, levels: &[Level]) -> Option<char> {
    let c = *q.text.get(q.at)?;
    for l in levels {
        if l.stop == Some(c) && !l.armed {
            return None;
        }
    }
    Some(c)
}

fn eat(q: &mut Q, levels: &mut [Level], c: char) {
    q.at += 1;
    for l in levels {
        l.armed = l.esc == Some(c);
        l.eaten += 1;
        l.shown = None;
    }
}

fn drive<T: TPeekable<Item = char>>(
    src: &Src,
    pp: &mut ParseProcess<T>,
    q: &mut Q,
    levels: &mut Vec<Level>,
    budget: &mut usize,
    depth: usize,
) -> R {
    let mut fruitless = 0;
    loop {
        if *budget == 0 {
            return Ok(());
        }
        *budget -= 1;
        let want = avail(q, levels);
        let me = levels.len() - 1;
        let before = pp.cur_pos();
        if before != levels[me].start + levels[me].eaten {
            return err(
                "position",
                format!("position {before}, started at {} and consumed {}", levels[me].start, levels[me].eaten),
            );
        }
        let op = src.below(12);
        q.kinds |= 1 << op;
        let mut consumed: Option<char> = None;
        // what the call answered, if it says something about the next character
        let said: Option<Option<char>> = match op {
            0..=2 => {
                let r = pp.next();
                q.log.push(format!("{depth}: next -> {r:?}"));
                consumed = r;
                Some(r)
            }
            3 | 4 => {
                let r = pp.peek().copied();
                q.log.push(format!("{depth}: peek -> {r:?}"));
                if let Some(c) = r {
                    levels[me].shown = Some(c);
                }
                Some(r)
            }
            5 => {
                let change = src.pct(30);
                let r = pp.peek_mut().map(|c| {
                    let old = *c;
                    if change {
                        *c = 'M';
                    }
                    old
                });
                q.log.push(format!("{depth}: peek_mut -> {r:?}{}", if change { " changed to 'M'" } else { "" }));
                if change && r.is_some() && r == want {
                    q.text[q.at] = 'M';
                    // an escaped or unescaped 'M' is never a stop character
                    for l in levels.iter_mut() {
                        l.shown = None;
                    }
                    levels[me].shown = Some('M');
                    fruitless = 0;
                    continue;
                }
                if let Some(c) = r {
                    levels[me].shown = Some(c);
                }
                Some(r)
            }
            6 | 7 => {
                let yes = src.pct(50);
                let mut offered = None;
                let r = pp.next_if(|c| {
                    offered = Some(*c);
                    yes
                });
                q.log.push(format!("{depth}: next_if({yes}) -> {r:?}, offered {offered:?}"));
                if r.is_some() && (!yes || r != offered) {
                    return err("conditional_read", format!("next_if({yes}) offered {offered:?} and returned {r:?}"));
                }
                if yes && r.is_none() && offered.is_some() {
                    return err("conditional_read", format!("next_if accepted {offered:?} but returned None"));
                }
                consumed = r;
                if offered.is_some() {
                    levels[me].shown = offered;
                }
                Some(offered)
            }
            8 | 9 => {
                let hit = src.pct(60);
                let exp = match want {
                    Some(c) if hit => c,
                    _ => *src.pick(&['a', '}', 'z', '\\', ';']),
                };
                let r = pp.next_if_eq(&exp);
                q.log.push(format!("{depth}: next_if_eq({exp:?}) -> {r:?}"));
                if r.is_some() && r != Some(exp) {
                    return err("conditional_read", format!("next_if_eq({exp:?}) returned {r:?}"));
                }
                consumed = r;
                if r.is_some() {
                    Some(r)
                } else if Some(exp) == want {
                    Some(None)
                } else {
                    None
                }
            }
            10 if depth < 3 => {
                let at = if src.pct(70) { before } else { src.us(50) };
                let l = gen_level(src, at);
                q.log.push(format!("{depth}: open a reader stopping at {:?}, escape {:?}, position {at}", l.stop, l.esc));
                let (stop, esc) = (l.stop, l.esc);
                levels.push(l);
                // the type of nested readers would grow without bound: one indirection keeps it finite
                let mut any = Any(&mut *pp);
                let mut sub = if src.pct(20) {
                    levels.last_mut().unwrap().start = 0;
                    ParseProcess::new(&mut any, stop, esc)
                } else {
                    ParseProcess::new_nested(&mut any, stop, esc, at)
                };
                let r = drive(src, &mut sub, q, levels, budget, depth + 1);
                levels.pop();
                q.log.push(format!("{depth}: reader closed"));
                r?;
                fruitless = 0;
                continue;
            }
            11 if depth > 0 && src.pct(40) => return Ok(()),
            _ => continue,
        };
        if let Some(said) = said {
            match (said, want) {
                (Some(c), Some(w)) if c == w => fruitless = 0,
                (Some(c), w) => {
                    return err(
                        if w.is_none() { "beyond_the_end" } else { "wrong_character" },
                        format!("the next character within bounds is {w:?}, the reader said {c:?}"),
                    )
                }
                (None, Some(w)) => {
                    // only a stall may hide it, only so often, and not once it was shown
                    if levels[me].shown == Some(w) {
                        return err("shown_then_gone", format!("{w:?} was shown, then the reader said there is nothing"));
                    }
                    // only `next` moves past a stall
                    fruitless += (op <= 2) as usize;
                    if fruitless > q.stalls_left + 1 {
                        return err(
                            "character_lost",
                            format!("{w:?} is next, but the reader said {fruitless} times there is nothing"),
                        );
                    }
                }
                (None, None) => {}
            }
        }
        match consumed {
            Some(c) => {
                if pp.cur_pos() != before + 1 {
                    return err("position", format!("consuming {c:?} moved the position from {before} to {}", pp.cur_pos()));
                }
                eat(q, levels, c);
            }
            None => {
                if pp.cur_pos() != before {
                    return err("position", format!("a call that consumed nothing moved the position from {before} to {}", pp.cur_pos()));
                }
            }
        }
    }
}

/// Indirection that keeps the type of nested readers finite.
struct Any<'a>(&'a mut (dyn Dyn + 'a));

trait Dyn {
    fn d_next(&mut self) -> Option<char>;
    fn d_peek(&mut self) -> Option<&char>;
    fn d_peek_mut(&mut self) -> Option<&mut char>;
    fn d_next_if(&mut self, f: &mut dyn FnMut(&char) -> bool) -> Option<char>;
    fn d_next_if_eq(&mut self, c: &char) -> Option<char>;
}

impl<T: TPeekable<Item = char>> Dyn for ParseProcess<'_, T> {
    fn d_next(&mut self) -> Option<char> {
        self.next()
    }
    fn d_peek(&mut self) -> Option<&char> {
        self.peek()
    }
    fn d_peek_mut(&mut self) -> Option<&mut char> {
        self.peek_mut()
    }
    fn d_next_if(&mut self, f: &mut dyn FnMut(&char) -> bool) -> Option<char> {
        self.next_if(|c| f(c))
    }
    fn d_next_if_eq(&mut self, c: &char) -> Option<char> {
        self.next_if_eq(c)
    }
}

impl Iterator for Any<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.d_next()
    }
}

impl TPeekable for Any<'_> {
    fn peek(&mut self) -> Option<&char> {
        self.0.d_peek()
    }
    fn peek_mut(&mut self) -> Option<&mut char> {
        self.0.d_peek_mut()
    }
    fn next_if(&mut self, f: impl FnOnce(&char) -> bool) -> Option<char> {
        let mut f = Some(f);
        self.0.d_next_if(&mut |c| f.take().map(|f| f(c)).unwrap_or(false))
    }
    fn next_if_eq(&mut self, c: &char) -> Option<char> {
        self.0.d_next_if_eq(c)
    }
}
