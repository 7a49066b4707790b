//! Handles stay truthful while the VM edits the tree the parser is growing.
use super::*;
use crate::ctx::bad;
use crate::ctx::Violation;
use crate::model::*;
use crate::vm::*;
use henriks_parsing_project::tree::{NodeId, Tree};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 400_000,
    rule: "one LL(1) grammar and script; at every VM call the simulator may add, change, remove and look up nodes (live, \
           removed and recycled ones, also nodes the parser is still filling), and goes on editing the returned tree; after \
           every step the whole tree and every handle ever issued are compared with a model tree that never recycles; \
           non-trivial: a branch was removed and a node added afterwards; distinct: digest of grammar, script and edit history",
    real: "tree, parser, grammar reader, table construction",
    stub: "VM (simulated, editing), hash seeds (seeded getrandom)",
};

#[derive(Clone, Debug)]
struct MNode {
    id: Option<NodeId>,
    data: Option<String>,
    kids: Vec<usize>,
    parent: Option<usize>,
    alive: bool,
}

struct M {
    nodes: Vec<MNode>,
    roots: Vec<usize>,
    /// Nodes the parser is filling; None: it lost its node because an enclosing one was removed.
    stack: Vec<Option<usize>>,
    acts: Vec<Act>,
    at: usize,
    closed: Option<usize>,
    lost: bool,
    dead: Vec<NodeId>,
    issued: BTreeSet<(usize, usize)>,
    adds_after_remove: u64,
    removed: u64,
    log: Vec<String>,
    fresh: usize,
    counts: BTreeMap<&'static str, u64>,
    checks: u64,
}

fn v<T>(k: &str, m: String) -> Result<T, Violation> {
    bad(k, m)
}

impl M {
    fn new(acts: Vec<Act>) -> M {
        M {
            nodes: vec![],
            roots: vec![],
            stack: vec![],
            acts,
            at: 0,
            closed: None,
            lost: false,
            dead: vec![],
            issued: BTreeSet::new(),
            adds_after_remove: 0,
            removed: 0,
            log: vec![],
            fresh: 0,
            counts: BTreeMap::new(),
            checks: 0,
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    fn node(&mut self, parent: Option<usize>, data: Option<String>, id: Option<NodeId>) -> usize {
        let n = self.nodes.len();
        self.nodes.push(MNode {
            id,
            data,
            kids: vec![],
            parent,
            alive: true,
        });
        match parent {
            Some(p) => self.nodes[p].kids.push(n),
            None => self.roots.push(n),
        }
        if self.removed > 0 {
            self.adds_after_remove += 1;
        }
        n
    }
    fn live_parent(&self) -> Option<Option<usize>> {
        // Some(None): becomes the root; None: no live parent
        match self.stack.last() {
            None => Some(None),
            Some(Some(p)) if self.nodes[*p].alive => Some(Some(*p)),
            Some(_) => None,
        }
    }
    /// Let the parser's predicted insertions happen up to and including act `to`.
    fn advance(&mut self, to: usize) {
        while self.at <= to && self.at < self.acts.len() {
            let act = self.acts[self.at].clone();
            self.at += 1;
            match act {
                Act::Open(_) => {
                    if self.roots.is_empty() && self.nodes.is_empty() {
                        let n = self.node(None, None, Some(ROOT));
                        self.issued.insert((0, 0));
                        self.stack.push(Some(n));
                        continue;
                    }
                    match self.live_parent() {
                        Some(p) => {
                            let n = self.node(p, None, None);
                            self.stack.push(Some(n));
                        }
                        None => {
                            self.lost = true;
                            self.stack.push(None);
                        }
                    }
                }
                Act::Leaf(t) => match self.live_parent() {
                    Some(p) => {
                        self.node(p, Some(t), None);
                    }
                    None => self.count("leaf_under_removed_node"),
                },
                Act::Close(..) => self.closed = self.stack.pop().flatten(),
            }
        }
    }
    fn live(&self) -> Vec<usize> {
        let mut out = vec![];
        let mut todo: Vec<usize> = self.roots.iter().rev().copied().filter(|r| self.nodes[*r].alive).collect();
        while let Some(n) = todo.pop() {
            out.push(n);
            todo.extend(self.nodes[n].kids.iter().rev());
        }
        out
    }
    /// Compare the whole tree with the model and learn the handles of what the parser added.
    fn check(&mut self, tree: &Tree<String>) -> Result<(), Violation> {
        self.checks += 1;
        let mut slots: BTreeMap<usize, NodeId> = BTreeMap::new();
        let mut todo: Vec<usize> = self.roots.iter().copied().filter(|r| self.nodes[*r].alive).collect();
        while let Some(n) = todo.pop() {
            let id = self.nodes[n].id.expect("handle learned from its parent");
            let node = match tree.get_node(id) {
                Ok(x) => x,
                Err(e) => return v("live_handle_refused", format!("live node {id:?}: {e:?}")),
            };
            if !tree.node_exists(id) {
                return v("live_handle_refused", format!("node_exists is false for live node {id:?}"));
            }
            match &self.nodes[n].data {
                Some(d) if *d != node.data => {
                    return v("data_of_other_node", format!("node {id:?} carries {:?}, should be {d:?}", node.data))
                }
                Some(_) => {}
                None => self.nodes[n].data = Some(node.data.clone()),
            }
            if let Some(o) = slots.insert(id.node_ptr, id) {
                return v("shared_storage", format!("live nodes {o:?} and {id:?} share storage"));
            }
            let kids = tree.get_children(id);
            let want = self.nodes[n].kids.clone();
            if kids.len() != want.len() {
                return v(
                    "children",
                    format!(
                        "node {id:?} ({:?}) has {} children, should have {}",
                        self.nodes[n].data,
                        kids.len(),
                        want.len()
                    ),
                );
            }
            for (k, w) in kids.iter().zip(&want) {
                match self.nodes[*w].id {
                    Some(i) if i != *k => {
                        return v("children_order", format!("child of {id:?} is {k:?}, should be {i:?}"));
                    }
                    Some(_) => {}
                    None => {
                        if !self.issued.insert((k.node_ptr, k.node_pk)) {
                            return v("handle_reissued", format!("handle {k:?} was issued before"));
                        }
                        self.nodes[*w].id = Some(*k);
                    }
                }
                todo.push(*w);
            }
        }
        // removed handles stay refused, for ever
        let n = self.dead.len();
        for (i, d) in self.dead.iter().enumerate() {
            if n > 40 && i % (n / 40 + 1) != (self.checks as usize) % (n / 40 + 1) {
                continue;
            }
            if tree.node_exists(*d) {
                return v("removed_handle_accepted", format!("node_exists is true for removed {d:?}"));
            }
            if let Ok(x) = tree.get_node(*d) {
                return v("removed_handle_accepted", format!("removed {d:?} yields a node with {:?}", x.data));
            }
            if !tree.get_children(*d).is_empty() {
                return v("removed_handle_accepted", format!("removed {d:?} lists children"));
            }
        }
        Ok(())
    }
    fn kill(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent {
            self.nodes[p].kids.retain(|k| *k != n);
        }
        let mut todo = vec![n];
        while let Some(x) = todo.pop() {
            self.nodes[x].alive = false;
            if let Some(i) = self.nodes[x].id {
                self.dead.push(i);
            }
            todo.extend(self.nodes[x].kids.clone());
        }
        self.removed += 1;
    }
    fn encloses_parser(&self, n: usize) -> bool {
        let mut s: BTreeSet<usize> = BTreeSet::new();
        for x in self.stack.iter().flatten() {
            let mut c = Some(*x);
            while let Some(y) = c {
                s.insert(y);
                c = self.nodes[y].parent;
            }
        }
        s.contains(&n)
    }
    fn edit(&mut self, src: &Src, tree: &mut Tree<String>) -> Result<(), Violation> {
        let live = self.live();
        let l = if live.is_empty() { None } else { Some(live[src.us(live.len())]) };
        let d = if self.dead.is_empty() { None } else { Some(self.dead[src.us(self.dead.len())]) };
        self.fresh += 1;
        let text = format!("v{}", self.fresh);
        match (src.below(16), l, d) {
            (0..=3, Some(n), _) => {
                let id = self.nodes[n].id.unwrap();
                let r = tree.add_node(text.clone(), Some(id));
                self.log.push(format!("add {text} under {id:?} -> {r:?}"));
                self.count("add");
                match r {
                    Err(e) => return v("add_refused", format!("add under live {id:?}: {e:?}")),
                    Ok(i) => {
                        if !self.issued.insert((i.node_ptr, i.node_pk)) {
                            return v("handle_reissued", format!("handle {i:?} was issued before"));
                        }
                        self.node(Some(n), Some(text), Some(i));
                    }
                }
            }
            (4..=6, Some(n), _) => {
                if self.encloses_parser(n) && !src.pct(15) {
                    return Ok(());
                }
                if self.encloses_parser(n) {
                    self.count("remove_enclosing");
                } else {
                    self.count("remove");
                }
                let id = self.nodes[n].id.unwrap();
                let r = tree.remove_branch(id);
                self.log.push(format!("remove {id:?} -> {r:?}"));
                if let Err(e) = r {
                    return v("remove_refused", format!("remove of live {id:?}: {e:?}"));
                }
                self.kill(n);
            }
            (7, Some(n), _) => {
                let id = self.nodes[n].id.unwrap();
                self.log.push(format!("change {id:?} to {text}"));
                self.count("change");
                match tree.get_node_mut(id) {
                    Err(e) => return v("live_handle_refused", format!("get_node_mut of live {id:?}: {e:?}")),
                    Ok(x) => x.data = text.clone(),
                }
                self.nodes[n].data = Some(text);
            }
            (8, _, Some(i)) => {
                let r = tree.add_node(text, Some(i));
                self.log.push(format!("add under removed {i:?} -> {r:?}"));
                self.count("add_under_removed");
                if let Ok(x) = r {
                    return v("removed_handle_accepted", format!("add under removed {i:?} gave {x:?}"));
                }
            }
            (9, _, Some(i)) => {
                let r = tree.remove_branch(i);
                self.log.push(format!("remove removed {i:?} -> {r:?}"));
                self.count("remove_removed");
                if r.is_ok() {
                    return v("removed_handle_accepted", format!("removed {i:?} was removed again"));
                }
            }
            (10, _, Some(i)) => {
                self.count("look_up_removed");
                if tree.get_node_mut(i).is_ok() {
                    return v("removed_handle_accepted", format!("get_node_mut of removed {i:?} succeeded"));
                }
                if !tree.get_descendants(i).is_empty() {
                    return v("removed_handle_accepted", format!("removed {i:?} lists descendants"));
                }
                if let Ok(Some(x)) = tree.get_by_path_or_none(i, std::iter::empty()) {
                    return v("removed_handle_accepted", format!("removed {i:?} yields {:?} by path", x.data));
                }
            }
            (11..=12, Some(n), _) => {
                self.count("look_up_path");
                let id = self.nodes[n].id.unwrap();
                let mut cur = Some(n);
                let mut path = vec![];
                for _ in 0..src.us(4) {
                    let k = match cur {
                        Some(c) if !self.nodes[c].kids.is_empty() && !src.pct(15) => src.us(self.nodes[c].kids.len()),
                        Some(c) => self.nodes[c].kids.len() + src.us(2),
                        None => src.us(3),
                    };
                    path.push(k);
                    cur = cur.and_then(|c| self.nodes[c].kids.get(k).copied());
                }
                let got = match tree.get_by_path_or_none(id, path.clone().into_iter()) {
                    Err(e) => return v("path", format!("path {path:?} from live {id:?}: {e:?}")),
                    Ok(x) => x,
                };
                let want = cur.map(|c| self.nodes[c].id.unwrap());
                match (got, want) {
                    (None, None) => {}
                    (Some(x), Some(w)) if tree.get_node(w).is_ok_and(|y| std::ptr::eq(x, y)) => {}
                    (g, w) => {
                        return v(
                            "path",
                            format!("path {path:?} from {id:?} leads to {:?}, should be {w:?}", g.map(|g| &g.data)),
                        )
                    }
                }
            }
            (13, Some(n), _) => {
                self.count("look_up_child");
                let id = self.nodes[n].id.unwrap();
                let k = src.us(self.nodes[n].kids.len() + 2);
                let want = self.nodes[n].kids.get(k).map(|c| self.nodes[*c].id.unwrap());
                let Ok(node) = tree.get_node(id) else {
                    return v("live_handle_refused", format!("{id:?}"));
                };
                let a = tree.get_nth_child(node, k).ok();
                let b = tree.get_nth_child_or_none(node, k);
                for x in [a, b] {
                    let same = match (x, want) {
                        (None, None) => true,
                        (Some(x), Some(w)) => tree.get_node(w).is_ok_and(|y| std::ptr::eq(x, y)),
                        _ => false,
                    };
                    if !same {
                        return v(
                            "nth_child",
                            format!("child {k} of {id:?} is {:?}, should be {want:?}", x.map(|x| &x.data)),
                        );
                    }
                }
            }
            (14, Some(n), _) => {
                self.count("look_up_descendants");
                let id = self.nodes[n].id.unwrap();
                let got: Vec<(usize, usize)> = tree.get_descendants(id).iter().map(|i| (i.node_ptr, i.node_pk)).collect();
                let mut want = BTreeSet::new();
                let mut todo = self.nodes[n].kids.clone();
                while let Some(x) = todo.pop() {
                    let i = self.nodes[x].id.unwrap();
                    want.insert((i.node_ptr, i.node_pk));
                    todo.extend(self.nodes[x].kids.clone());
                }
                if got.len() != want.len() || got.iter().copied().collect::<BTreeSet<_>>() != want {
                    return v("descendants", format!("descendants of {id:?} are {got:?}, should be {want:?}"));
                }
            }
            (15, _, _) if src.pct(40) => {
                let r = tree.add_node(text.clone(), None);
                self.log.push(format!("add {text} without parent -> {r:?}"));
                self.count("add_root");
                match r {
                    Err(e) => return v("add_refused", format!("add without parent: {e:?}")),
                    Ok(i) => {
                        if !self.issued.insert((i.node_ptr, i.node_pk)) {
                            return v("handle_reissued", format!("handle {i:?} was issued before"));
                        }
                        self.node(None, Some(text), Some(i));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let Some(sc) = scene(src, ctx, &GenOpt { sections: 90, ..GenOpt::default() }) else {
        ctx.no_verdict = true;
        return Ok(());
    };
    let ins = instrs(&sc.g);
    let (mut s, k) = script(src, &sc, 15);
    s.truncate(120);
    for k in k {
        ctx.fault(k);
    }
    let e = expect(&sc.f, &sc.a, &ins, &s);
    // which act each expected instruction belongs to
    let mut at = vec![];
    for (i, a) in e.acts.iter().enumerate() {
        if let Act::Close(nt, ..) = a {
            for _ in 0..ins[*nt].len() {
                at.push(i);
            }
        }
    }
    let hk = key(src);
    ctx.fault("hash_seed_schedule");
    let busy = src.range(0, 4);
    let tail = if src.below(200) == 0 { src.range(41, 400) } else { src.range(0, 40) };
    let script = st(&s);
    let trace = ctx.trace.is_some();
    let (o, viol, stats) = in_thread(hk, || {
        let vm = SimVm::new();
        let mut p = match build(&sc.text, &vm) {
            Ok(p) => p,
            Err(e) => return (None, None, Err(e.show())),
        };
        let m = Rc::new(RefCell::new(M::new(e.acts.clone())));
        let viol: Rc<RefCell<Option<Violation>>> = Rc::new(RefCell::new(None));
        let (m2, v2, src2, at2) = (m.clone(), viol.clone(), src.clone(), at.clone());
        let mut nth = 0usize;
        let mut state = SimState {
            hook: Some(Box::new(move |tree, cur, instr| {
                let i = nth;
                nth += 1;
                if v2.borrow().is_some() {
                    return;
                }
                let mut m = m2.borrow_mut();
                let Some(to) = at2.get(i) else { return };
                let before = m.at;
                m.advance(*to);
                let r = (|| {
                    m.check(tree)?;
                    if m.at > before {
                        match m.closed {
                            Some(n) if m.nodes[n].alive => {
                                if m.nodes[n].id != Some(cur) {
                                    return v(
                                        "wrong_node",
                                        format!("{} runs against {cur:?}, its production is {:?}", instr.text, m.nodes[n].id),
                                    );
                                }
                            }
                            _ => m.count("call_for_removed_node"),
                        }
                    }
                    m.log.push(format!("-- {} of {} at {cur:?}", instr.text, instr.rule));
                    for _ in 0..src2.us(busy + 1) {
                        m.edit(&src2, tree)?;
                        m.check(tree)?;
                    }
                    Ok(())
                })();
                if let Err(x) = r {
                    *v2.borrow_mut() = Some(x);
                }
            })),
            ..Default::default()
        };
        let r = guard(|| p.parse(&script, &mut state));
        state.hook = None;
        let mut first = viol.borrow_mut().take();
        let mut m = match Rc::try_unwrap(m) {
            Ok(m) => m.into_inner(),
            Err(_) => return (None, None, Err("harness: model still shared".into())),
        };
        let res;
        match r {
            Err(p) => {
                res = format!("panic {p}");
            }
            Ok(Err(e)) => {
                res = format!("error {e:?}");
                if first.is_none() && !m.acts.is_empty() {
                    // did the parser come to a node that had been taken from it?
                    m.advance(m.acts.len() - 1);
                }
            }
            Ok(Ok(mut t)) => {
                res = "ok".into();
                if first.is_none() {
                    let end = m.acts.len();
                    if end > 0 {
                        m.advance(end - 1);
                    }
                    first = (|| {
                        m.check(&t)?;
                        m.stack.clear();
                        for _ in 0..tail {
                            m.edit(src, &mut t)?;
                            m.check(&t)?;
                        }
                        Ok(())
                    })()
                    .err();
                }
            }
        }
        let log = std::mem::take(&mut m.log);
        (
            Some((res, state.events)),
            first,
            Ok((log, m.counts, m.lost, m.adds_after_remove, m.removed, m.checks)),
        )
    });
    let (log, counts, lost, adds, removed, checks) = match stats {
        Ok(x) => x,
        Err(x) if x.starts_with("harness") => panic!("{x}"),
        Err(x) => return bad("grammar_refused", format!("LL(1) grammar refused: {x}\n  grammar {:?}", sc.text)),
    };
    let (res, events) = o.unwrap();
    for (k, n) in &counts {
        ctx.faults_n(&format!("edit_{k}"), *n);
    }
    ctx.steps += checks + events.len() as u64;
    ctx.case(&format!("{} {script} {log:?} {hk}", sc.text));
    ctx.see(&res);
    ctx.see(&format!("{log:?}"));
    ctx.sample = format!("grammar {:?} script {script:?} {} edits, {} removals", sc.text, log.len(), removed);
    ctx.nontrivial = removed > 0 && adds > 0;
    ctx.note(|| format!("grammar: {}", sc.g.pretty()));
    ctx.note(|| format!("script {script:?}: {res}"));
    if trace {
        for l in &log {
            ctx.note(|| l.clone());
        }
    }
    let what = || format!("script {script:?}\n  grammar {}\n  hash key {hk:#x}\n  history:\n    {}", sc.g.pretty(), log.join("\n    "));
    if let Some(v) = viol {
        return bad(&v.kind, format!("{}\n  in: {}", v.msg, what()));
    }
    if res.starts_with("panic") {
        return bad("panic", format!("{res}\n  in: {}", what()));
    }
    if lost {
        ctx.probe("parser_lost_its_node");
    } else {
        // edits outside the parser's own nodes must not disturb it
        if e.end.is_ok() && res != "ok" {
            return bad("parser_disturbed", format!("derivable script ends with {res}\n  in: {}", what()));
        }
        diff(events_diff(&e, &events, None), what)?;
    }
    Ok(())
}

/// The VM removes a branch 300 000 deep from the tree being grown.
pub fn deep() -> Res {
    const N: usize = 300_000;
    let script = "a".repeat(N) + &"b".repeat(N) + "!";
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                crate::seams::set_hash_key(7);
                let vm = SimVm::new();
                let text = "start -> deep \"!\" {cut}; deep -> \"a\" deep \"b\" | #;";
                let mut p = build(text, &vm).map_err(|e| e.show())?;
                let done = Rc::new(RefCell::new(Err("the instruction did not run".to_string())));
                let d2 = done.clone();
                let mut st = SimState {
                    hook: Some(Box::new(move |tree, cur, _| {
                        let kids = tree.get_children(cur);
                        let n = tree.get_descendants(kids[0]).len();
                        let r = tree.remove_branch(kids[0]).map_err(|e| format!("{e:?}"));
                        *d2.borrow_mut() = match r {
                            Ok(()) if n != 3 * N => Err(format!("{n} descendants")),
                            Ok(()) if tree.node_exists(kids[0]) => Err("branch still there".into()),
                            r => r,
                        };
                    })),
                    ..Default::default()
                };
                p.parse(&script, &mut st).map_err(|e| format!("{e:?}"))?;
                st.hook = None;
                let r = done.borrow().clone();
                r
            })
            .unwrap()
            .join()
            .unwrap_or(Err("panic".into()))
    });
    match r {
        Ok(()) => Ok(()),
        Err(e) => bad("deep_branch", e),
    }
}
