//! The simulated VM (user code of the library) and the glue to drive the real parser with it.
use crate::gram::TNode;
use crate::seams;
use crate::tape::mix;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Message carried by panics the simulator itself injects.
pub const INJECTED: &str = "injected VM panic";

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Instr {
    pub rule: String,
    pub k: usize,
    pub text: String,
}

/// Instructions a section stands for: its pieces between semicolons.
pub fn split_instrs(rule: &str, section: &str) -> Vec<Instr> {
    section
        .split(';')
        .filter(|p| !p.trim().is_empty())
        .enumerate()
        .map(|(k, p)| Instr {
            rule: rule.to_string(),
            k,
            text: p.to_string(),
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event {
    pub rule: String,
    pub k: usize,
    pub text: String,
    pub node: (usize, usize),
    /// Subtree below the node at the time of the call.
    pub sub: Option<TNode>,
    /// Child numbers leading from the root (node 0, 0) to the node, if it was found there.
    pub path: Option<Vec<usize>>,
}

pub type Hook = Box<dyn FnMut(&mut Tree<String>, NodeId, &Instr)>;

#[derive(Default)]
pub struct SimState {
    pub events: Vec<Event>,
    pub calls: usize,
    pub panic_at: Option<usize>,
    pub snapshot: bool,
    pub hook: Option<Hook>,
}

impl SimState {
    pub fn watching() -> SimState {
        SimState {
            snapshot: true,
            ..Default::default()
        }
    }
}

/// How the VM reads its brace sections.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Reading {
    /// `next` until nothing is left.
    Plain,
    /// Any mixture of calls, decided by this number.
    Mixed(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SectionSeen {
    pub rule: String,
    pub text: String,
    pub start: usize,
    pub end: usize,
}

/// Fault in the VM's reader: at the n-th section, after k characters.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ReadFault {
    Error(usize, usize),
    Leave(usize, usize),
    Panic(usize, usize),
}

/// The error a VM reports at section s after k characters: of every kind there is.
pub fn refusal(s: usize, k: usize) -> ParserError {
    let message = format!("section {s} refused after {k} characters");
    let r = mix((s * 16 + k) as u64);
    // before the section, inside it or behind it
    let pos = (r >> 8) as usize % [1, 8, 60, 400][(r >> 4) as usize % 4];
    match r % 8 {
        0 | 1 => ParserError::VmError { message },
        2 => ParserError::EndOfCharsError { pos },
        3 => ParserError::UnexpectedCharError { chr: '}', pos, expected: message },
        4 => ParserError::InternalError { message },
        5 => ParserError::Impossible,
        6 => ParserError::UnknownSpecialOperation { operation: message, pos },
        _ => ParserError::GramError { err: GrammarError::UnexpectedElementError { reason: message, pos } },
    }
}

pub struct SimVm {
    pub reading: Reading,
    pub fault: Option<ReadFault>,
    pub seen: Mutex<Vec<SectionSeen>>,
    /// What went wrong while reading, seen from the VM.
    pub complaints: Mutex<Vec<String>>,
    pub fired: Mutex<u64>,
    pub yields: bool,
}

impl SimVm {
    pub fn new() -> SimVm {
        SimVm {
            reading: Reading::Plain,
            fault: None,
            seen: Mutex::new(vec![]),
            complaints: Mutex::new(vec![]),
            fired: Mutex::new(0),
            yields: false,
        }
    }
    pub fn reading(r: Reading) -> SimVm {
        SimVm {
            reading: r,
            ..SimVm::new()
        }
    }
}

fn find_path(tree: &Tree<String>, from: NodeId, to: NodeId, depth: usize) -> Option<Vec<usize>> {
    if from == to {
        return Some(vec![]);
    }
    if depth > 4000 {
        return None;
    }
    // the node is nearly always on the right edge of the tree
    for (i, c) in tree.get_children(from).into_iter().enumerate().rev() {
        if let Some(mut p) = find_path(tree, c, to, depth + 1) {
            p.insert(0, i);
            return Some(p);
        }
    }
    None
}

/// Subtree as seen through the public interface.
pub fn dump(tree: &Tree<String>, n: NodeId) -> Option<TNode> {
    dump_b(tree, n, &mut 100_000)
}

fn dump_b(tree: &Tree<String>, n: NodeId, budget: &mut usize) -> Option<TNode> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let data = tree.get_node(n).ok()?.data.clone();
    let mut kids = vec![];
    for c in tree.get_children(n) {
        kids.push(dump_b(tree, c, budget)?);
    }
    Some(TNode { data, kids })
}

pub const ROOT: NodeId = NodeId {
    node_ptr: 0,
    node_pk: 0,
};

struct Quiet(bool);

impl Drop for Quiet {
    fn drop(&mut self) {
        seams::points_on(self.0);
    }
}

impl VM for SimVm {
    type Tstate = SimState;
    type Tinstrution = Instr;

    fn parse_instructions<'a, T>(
        &'a self,
        prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Instr>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        if self.yields {
            crate::sched::call_yield();
        }
        // no scheduling points while the simulated VM holds its own locks
        let quiet = Quiet(seams::points_on(false));
        let nth = self.seen.lock().unwrap().len();
        let start = to_parse.cur_pos();
        let mut text = String::new();
        let mut complaints = vec![];
        let mut rng = match self.reading {
            Reading::Plain => None,
            Reading::Mixed(s) => Some(mix(s ^ nth as u64)),
        };
        let log = |text: &str, end: usize| {
            self.seen.lock().unwrap().push(SectionSeen {
                rule: prod_name.to_string(),
                text: text.to_string(),
                start,
                end,
            })
        };
        let mut known: Option<Option<char>> = None; // what the last peek said
        loop {
            let n = text.chars().count();
            match self.fault {
                Some(ReadFault::Error(s, k)) if s == nth && n >= k => {
                    *self.fired.lock().unwrap() += 1;
                    log(&text, to_parse.cur_pos());
                    return Err(refusal(s, k));
                }
                Some(ReadFault::Leave(s, k)) if s == nth && n >= k => {
                    *self.fired.lock().unwrap() += 1;
                    break;
                }
                Some(ReadFault::Panic(s, k)) if s == nth && n >= k => {
                    *self.fired.lock().unwrap() += 1;
                    log(&text, to_parse.cur_pos());
                    panic!("{INJECTED}");
                }
                _ => {}
            }
            let pos = to_parse.cur_pos();
            if pos != start + n {
                complaints.push(format!("position {pos} after {n} characters from {start}"));
            }
            let op = match rng.as_mut() {
                None => 0,
                Some(r) => {
                    *r = mix(*r);
                    *r % 12
                }
            };
            let got: Option<char> = match op {
                0..=2 => to_parse.next(),
                3..=5 => {
                    let p = to_parse.peek().copied();
                    if let Some(k) = known {
                        if k != p {
                            complaints.push(format!("peek said {k:?}, then {p:?}"));
                        }
                    }
                    known = Some(p);
                    if to_parse.cur_pos() != pos {
                        complaints.push("peek moved the position".into());
                    }
                    if p.is_none() {
                        None
                    } else {
                        continue;
                    }
                }
                6 => {
                    let p = to_parse.peek_mut().map(|c| *c);
                    if let Some(k) = known {
                        if k != p {
                            complaints.push(format!("peek said {k:?}, then peek_mut {p:?}"));
                        }
                    }
                    known = Some(p);
                    if p.is_none() {
                        None
                    } else {
                        continue;
                    }
                }
                7 => {
                    let mut asked = None;
                    let r = to_parse.next_if(|c| {
                        asked = Some(*c);
                        false
                    });
                    if r.is_some() {
                        complaints.push("next_if consumed although the condition was false".into());
                        r
                    } else {
                        if to_parse.cur_pos() != pos {
                            complaints.push("a refused next_if moved the position".into());
                        }
                        if let Some(k) = known {
                            if k != asked {
                                complaints.push(format!("peek said {k:?}, next_if was offered {asked:?}"));
                            }
                        }
                        known = Some(asked);
                        if asked.is_none() {
                            None
                        } else {
                            continue;
                        }
                    }
                }
                8 | 9 => to_parse.next_if(|_| true),
                10 => {
                    // never a character of any section
                    let r = to_parse.next_if_eq(&'\u{10FFFD}');
                    if r.is_some() {
                        complaints.push(format!("next_if_eq returned {r:?} for a different character"));
                    }
                    if to_parse.cur_pos() != pos {
                        complaints.push("a refused next_if_eq moved the position".into());
                    }
                    continue;
                }
                _ => match to_parse.peek().copied() {
                    Some(c) => {
                        let r = to_parse.next_if_eq(&c);
                        if r != Some(c) {
                            complaints.push(format!("peek said {c:?}, next_if_eq returned {r:?}"));
                        }
                        known = None;
                        match r {
                            Some(x) => Some(x),
                            None => break,
                        }
                    }
                    None => None,
                },
            };
            if let Some(k) = known {
                if k != got {
                    complaints.push(format!("peek said {k:?}, then {got:?} was consumed"));
                }
            }
            known = None;
            match got {
                Some(c) => text.push(c),
                None => {
                    // nothing left must stay nothing left
                    if let Some(c) = to_parse.next() {
                        complaints.push(format!("{c:?} handed out after the end of the section"));
                        text.push(c);
                        continue;
                    }
                    if let Some(c) = to_parse.peek() {
                        complaints.push(format!("{c:?} shown after the end of the section"));
                    }
                    break;
                }
            }
            if text.len() > 1_000_000 {
                complaints.push("section does not end".into());
                break;
            }
        }
        let n = text.chars().count();
        if to_parse.cur_pos() != start + n {
            complaints.push(format!(
                "position {} after {n} characters from {start}",
                to_parse.cur_pos()
            ));
        }
        log(&text, to_parse.cur_pos());
        self.complaints
            .lock()
            .unwrap()
            .extend(complaints.into_iter().map(|c| format!("section {nth} of {prod_name}: {c}")));
        if let Some(mut h) = READ_HOOK.with(|h| h.borrow_mut().take()) {
            h();
            READ_HOOK.with(|x| *x.borrow_mut() = Some(h));
        }
        drop(quiet);
        if self.yields {
            crate::sched::call_yield();
        }
        Ok(split_instrs(prod_name, &text))
    }

    fn execute_instruction(
        &self,
        tree: &mut Tree<String>,
        cur_node: NodeId,
        instruction: &Instr,
        state: &mut SimState,
    ) {
        let was = seams::points_on(false);
        let nth = state.calls;
        state.calls += 1;
        if state.panic_at == Some(nth) {
            seams::points_on(was);
            panic!("{INJECTED}");
        }
        let (sub, path) = if state.snapshot {
            (dump(tree, cur_node), find_path(tree, ROOT, cur_node, 0))
        } else {
            (None, None)
        };
        state.events.push(Event {
            rule: instruction.rule.clone(),
            k: instruction.k,
            text: instruction.text.clone(),
            node: (cur_node.node_ptr, cur_node.node_pk),
            sub,
            path,
        });
        if let Some(mut h) = state.hook.take() {
            h(tree, cur_node, instruction);
            state.hook = Some(h);
        }
        if self.yields {
            crate::sched::call_yield();
        }
        seams::points_on(was);
    }

    fn create_new_state() -> SimState {
        SimState::default()
    }
}

// ------------------------------------------------------------------ driving the library

thread_local! {
    /// Called inside every reading of a section on this thread; not while it is running itself.
    pub static READ_HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = seams::points_on(false);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{msg} ({at})"));
        seams::points_on(was);
    }));
}

/// Run `f`; Err carries the panic message and the file it came from.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            drop(p);
            Err(LAST_PANIC.with(|l| l.borrow().clone()))
        }
    }
}

/// Run `f` in a fresh thread whose hash maps are all keyed from `key`.
pub fn in_thread<R: Send>(key: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                seams::set_hash_key(key);
                f()
            })
            .expect("thread");
        match h.join() {
            Ok(r) => r,
            Err(p) => resume_unwind(p),
        }
    })
}

#[derive(Debug)]
pub enum BuildErr {
    Read(ParserError),
    Gram(GrammarError),
    NoStart,
}

impl BuildErr {
    pub fn show(&self) -> String {
        match self {
            BuildErr::Read(e) => format!("{e:?} / {e}"),
            BuildErr::Gram(e) => format!("{e:?} / {e}"),
            BuildErr::NoStart => "no start".into(),
        }
    }
}

/// Grammar text to rules.
pub fn read_rules<T: VM>(text: &str, vm: &T) -> Result<ParserData<T>, BuildErr> {
    let mut p = PeekableWrapper::from_str(text);
    let mut rp = RuleParser::new(&mut p, vm);
    rp.parse_rules().map_err(BuildErr::Read)?;
    Ok(rp.parser_data)
}

/// Rules to parser (the fallible route; `Parser::new_from_text` panics on any error).
pub fn build<'a, T: VM>(text: &str, vm: &'a T) -> Result<Parser<'a, T>, BuildErr> {
    let pd = read_rules(text, vm)?;
    let start = pd.get_element_nt_index("start").ok_or(BuildErr::NoStart)?;
    let first = get_first_sets(&pd).map_err(BuildErr::Gram)?;
    let follow = get_follow_sets(start, &first, &pd).map_err(BuildErr::Gram)?;
    let els = pd.get_elements_verbose();
    let maps = get_steuermaps(&first, &follow, pd).map_err(BuildErr::Gram)?;
    Ok(Parser::new(maps, els, vm))
}

/// Outcome of one parse as a user sees it.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    /// Debug and Display of the error, or None.
    pub err: Option<String>,
    pub err_at: Option<(usize, Option<char>)>,
    /// Panic message, if the call panicked.
    pub panic: Option<String>,
    pub tree: Option<TNode>,
    /// Debug text of the whole tree (arena layout included).
    pub raw_tree: String,
    pub events: Vec<Event>,
    pub calls: usize,
}

impl Outcome {
    pub fn brief(&self) -> String {
        match (&self.panic, &self.err) {
            (Some(p), _) => format!("panic: {p}"),
            (_, Some(e)) => format!("error {e}"),
            _ => format!("ok {}", self.tree.as_ref().map(|t| clip_tree(t)).unwrap_or_default()),
        }
    }
}

fn clip_tree(t: &TNode) -> String {
    crate::ctx::clip(&t.show(), 300)
}

pub fn err_pos(e: &ParserError) -> Option<(usize, Option<char>)> {
    match e {
        ParserError::UnexpectedCharError { chr, pos, .. } => Some((*pos, Some(*chr))),
        ParserError::EndOfCharsError { pos } => Some((*pos, None)),
        _ => None,
    }
}

pub fn parse<'a>(p: &mut Parser<'a, SimVm>, script: &'a str, mut st: SimState) -> Outcome {
    let r = guard(|| p.parse(script, &mut st));
    finish(r, st)
}

pub fn finish(r: Result<Result<Tree<String>, ParserError>, String>, st: SimState) -> Outcome {
    let mut o = Outcome {
        err: None,
        err_at: None,
        panic: None,
        tree: None,
        raw_tree: String::new(),
        calls: st.calls,
        events: st.events,
    };
    match r {
        Err(p) => o.panic = Some(p),
        Ok(Err(e)) => {
            o.err = Some(format!("{e:?} / {e}"));
            o.err_at = err_pos(&e);
        }
        Ok(Ok(t)) => {
            o.tree = dump(&t, ROOT);
            o.raw_tree = format!("{t:?}");
        }
    }
    o
}
