//! Predictions of the reference model for one parse.
use crate::gram::{derive, Act, Analysis, Flat, Gram, TNode};
use crate::vm::{split_instrs, Event, Instr, Outcome};

#[derive(Clone, Debug)]
pub struct EEvent {
    pub instr: Instr,
    pub sub: TNode,
    pub path: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub acts: Vec<Act>,
    /// Position of the first character at which nothing derivable goes on.
    pub end: Result<(), usize>,
    pub events: Vec<EEvent>,
    pub tree: Option<TNode>,
}

/// Instructions per non-terminal.
pub fn instrs(g: &Gram) -> Vec<Vec<Instr>> {
    g.rules
        .iter()
        .enumerate()
        .map(|(i, r)| match r.as_ref().and_then(|r| r.sect.as_ref()) {
            Some(s) => split_instrs(&g.names[i], s),
            None => vec![],
        })
        .collect()
}

pub fn expect(f: &Flat, a: &Analysis, ins: &[Vec<Instr>], script: &[char]) -> Expect {
    let d = derive(f, a, script);
    let mut stack: Vec<TNode> = vec![];
    let mut root = None;
    let mut events = vec![];
    for act in &d.acts {
        match act {
            Act::Open(_) => stack.push(TNode {
                data: String::new(),
                kids: vec![],
            }),
            Act::Leaf(t) => {
                if let Some(n) = stack.last_mut() {
                    n.kids.push(TNode {
                        data: t.clone(),
                        kids: vec![],
                    })
                }
            }
            Act::Close(nt, ..) => {
                let n = stack.pop().unwrap();
                if !ins[*nt].is_empty() {
                    let path: Vec<usize> = stack.iter().map(|s| s.kids.len()).collect();
                    for i in &ins[*nt] {
                        events.push(EEvent {
                            instr: i.clone(),
                            sub: n.clone(),
                            path: path.clone(),
                        });
                    }
                }
                match stack.last_mut() {
                    Some(p) => p.kids.push(n),
                    None => root = Some(n),
                }
            }
        }
    }
    Expect {
        acts: d.acts,
        end: d.end,
        events,
        tree: root,
    }
}

/// Same shape, same leaves. What an inner node carries itself is not specified.
pub fn same(a: &TNode, b: &TNode) -> bool {
    if a.kids.len() != b.kids.len() {
        return false;
    }
    if a.kids.is_empty() {
        return a.data == b.data;
    }
    a.kids.iter().zip(&b.kids).all(|(x, y)| same(x, y))
}

/// Acceptance and error position. None if they agree.
pub fn verdict_diff(script: &[char], e: &Expect, o: &Outcome) -> Option<(&'static str, String)> {
    if let Some(p) = &o.panic {
        return Some(("parse_panics", format!("parse panicked: {p}")));
    }
    match (&e.end, &o.err) {
        (Ok(()), None) => None,
        (Ok(()), Some(x)) => Some(("refuses_derivable", format!("derivable script refused: {x}"))),
        (Err(p), None) => Some((
            "accepts_underivable",
            format!("script accepted although nothing derivable goes on at position {p}"),
        )),
        (Err(p), Some(x)) => {
            let (pos, chr) = match o.err_at {
                Some(v) => v,
                None => return Some(("error_kind", format!("expected a position error at {p}, got {x}"))),
            };
            if pos != *p {
                return Some((
                    "error_position",
                    format!("first character that cannot go on is at {p}, error says {pos}: {x}"),
                ));
            }
            if let Some(c) = script.get(*p) {
                if chr != Some(*c) {
                    return Some((
                        "error_character",
                        format!("character at {p} is {c:?}, error says {chr:?}: {x}"),
                    ));
                }
            }
            None
        }
    }
}

/// Instruction sequence (rule, number, text), up to `limit` calls.
pub fn events_diff(e: &Expect, ev: &[Event], limit: Option<usize>) -> Option<(&'static str, String)> {
    let n = limit.unwrap_or(usize::MAX).min(e.events.len());
    for (i, x) in ev.iter().enumerate() {
        let Some(w) = e.events[..n].get(i) else {
            return Some((
                "extra_instruction",
                format!("instruction {} of {} ran although only {n} are due", x.text, x.rule),
            ));
        };
        if w.instr.rule != x.rule || w.instr.k != x.k || w.instr.text != x.text {
            return Some((
                "instruction_order",
                format!(
                    "instruction {i}: expected {:?} of {}, ran {:?} of {}",
                    w.instr.text, w.instr.rule, x.text, x.rule
                ),
            ));
        }
    }
    if ev.len() < n {
        let w = &e.events[ev.len()].instr;
        return Some((
            "missing_instruction",
            format!("{} instructions ran, {n} are due; first missing: {:?} of {}", ev.len(), w.text, w.rule),
        ));
    }
    None
}

/// Each instruction's node is the node of its production.
pub fn nodes_diff(e: &Expect, ev: &[Event]) -> Option<(&'static str, String)> {
    for (i, (w, x)) in e.events.iter().zip(ev).enumerate() {
        if x.path.as_ref() != Some(&w.path) {
            return Some((
                "instruction_node",
                format!(
                    "instruction {i} ({:?} of {}) ran against the node at path {:?}, its production is at {:?}",
                    x.text, x.rule, x.path, w.path
                ),
            ));
        }
    }
    None
}

pub fn subtree_diff(e: &Expect, ev: &[Event]) -> Option<(&'static str, String)> {
    for (i, (w, x)) in e.events.iter().zip(ev).enumerate() {
        let ok = x.sub.as_ref().is_some_and(|s| same(s, &w.sub));
        if !ok {
            return Some((
                "subtree_at_call",
                format!(
                    "instruction {i} ({} of {}): subtree is {}, derivation is {}",
                    x.text,
                    x.rule,
                    x.sub.as_ref().map(|s| s.show()).unwrap_or_else(|| "unreachable".into()),
                    w.sub.show()
                ),
            ));
        }
    }
    None
}

pub fn tree_diff(e: &Expect, o: &Outcome) -> Option<(&'static str, String)> {
    if o.err.is_some() || o.panic.is_some() {
        return None;
    }
    match (&e.tree, &o.tree) {
        (Some(w), Some(t)) if same(w, t) => None,
        (w, t) => Some((
            "tree",
            format!(
                "tree is {}, derivation is {}",
                t.as_ref().map(|t| t.show()).unwrap_or_else(|| "none".into()),
                w.as_ref().map(|t| t.show()).unwrap_or_else(|| "none".into())
            ),
        )),
    }
}
