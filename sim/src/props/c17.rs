//! Graph containers give back what was put in, whatever calls come between.
use super::*;
use crate::ctx::bad;
use crate::vm::{guard, in_thread, INJECTED};
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::simple_graph::Graph;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 300_000,
    rule: "a history of calls on several graphs by turns (nodes, edges, edges with given ids, grafting one graph into another, look-ups by \
           id and by path, by name and by index), some of which must be refused, with path sources that end early, stall or panic in the \
           middle of a look-up; after each or some of the calls everything is compared with plain lists; named graphs under a hash-seed \
           schedule; non-trivial: something was refused, grafted or interrupted; distinct: digest of the calls",
    real: "simple_graph, named_graph, std HashMap",
    stub: "the callers (schedule of calls), path sources (simulated: end, stall, panic), hash seeds (seeded getrandom)",
};

type Edges = BTreeMap<usize, usize>;
#[derive(Clone, Default, Debug)]
struct Model {
    nodes: Vec<(u64, Edges)>,
}

/// Where the path of a look-up comes from: it may end, stall or panic after some steps.
struct Path {
    ids: Vec<usize>,
    at: usize,
    stall: Option<usize>,
    panic: Option<usize>,
}

impl Iterator for Path {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.panic == Some(self.at) {
            panic!("{INJECTED}");
        }
        if self.stall == Some(self.at) {
            self.stall = None;
            return None;
        }
        let r = self.ids.get(self.at).copied();
        self.at += 1;
        r
    }
}

impl Model {
    fn walk(&self, from: usize, ids: &[usize]) -> Option<usize> {
        ids.iter().try_fold(from, |n, id| self.nodes[n].1.get(id).copied())
    }
    fn wrong(&self, g: &Graph<u64>) -> Option<String> {
        if g.nodes.len() != self.nodes.len() {
            return Some(format!("{} nodes instead of {}", g.nodes.len(), self.nodes.len()));
        }
        for (i, (data, edges)) in self.nodes.iter().enumerate() {
            if g.nodes[i].data != *data {
                return Some(format!("node {i} holds {} instead of {data}", g.nodes[i].data));
            }
            let most = edges.len() + 1;
            let mut succ: Vec<usize> = g.successors(i).take(most).collect();
            let mut want: Vec<usize> = edges.values().copied().collect();
            succ.sort_unstable();
            want.sort_unstable();
            if succ != want {
                return Some(format!("node {i} has successors {succ:?} instead of {want:?}"));
            }
            let mut ids: Vec<(usize, usize)> = g.connected_edges(i).take(most).map(|e| (g.edges[e].id, g.edges[e].target)).collect();
            ids.sort_unstable();
            if ids != edges.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>() {
                return Some(format!("node {i} has edges (id, target) {ids:?} instead of {edges:?}"));
            }
            for (id, target) in edges {
                if g.find_node_index(i, *id) != Some(*target) || g.find_node(i, *id).map(|n| n.data) != Some(self.nodes[*target].0) {
                    return Some(format!("edge {id} of node {i} leads to {:?} instead of {target}", g.find_node_index(i, *id)));
                }
            }
        }
        None
    }
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let mut log: Vec<String> = vec![];
    let r = if src.pct(60) { plain(src, ctx, &mut log) } else { named(src, ctx, &mut log) };
    ctx.steps += log.len() as u64;
    ctx.case(&format!("{log:?}"));
    ctx.see(&format!("{log:?}"));
    ctx.sample = crate::ctx::clip(&log.join("; "), 400);
    for l in &log {
        ctx.note(|| l.clone());
    }
    r.map_err(|mut v| {
        v.msg = format!("{}\n  calls {}", v.msg, log.join("; "));
        v
    })
}

fn plain(src: &Src, ctx: &mut Ctx, log: &mut Vec<String>) -> Res {
    let mut gs: Vec<(Graph<u64>, Model)> = (0..src.range(1, 3)).map(|_| (Graph::new(), Model::default())).collect();
    let every = *src.pick(&[1, 1, 3, 1000]);
    let calls = if src.below(120) == 0 { src.range(80, 500) } else { src.range(3, 40) };
    let ids = &[0, 1, 2, 3, 4, 5, 7, 8, 100, 255, 256, 65536, usize::MAX - 1, usize::MAX][..];
    // in some long histories most edges go out from one node
    let hub = if calls >= 80 { *src.pick(&[0, 50, 95]) } else { *src.pick(&[0, 0, 60]) };
    let mut data = 0;
    for k in 0..calls {
        let w = src.us(gs.len());
        let (g, m) = &mut gs[w];
        let n = m.nodes.len();
        let one = |s: &Src| if hub > 0 && s.pct(hub) { 0 } else { s.us(n) };
        let op = if n == 0 {
            0
        } else if hub > 90 && n > 3 && src.pct(60) {
            2
        } else {
            src.below(12)
        };
        match op {
            0 | 1 => {
                data += 1;
                let i = g.add_node(data);
                log.push(format!("g{w}.add_node({data}) -> {i}"));
                m.nodes.push((data, Edges::new()));
                if i != n {
                    return bad("index", format!("node {n} was numbered {i}"));
                }
            }
            2..=4 => {
                let (a, b) = (one(src), src.us(n));
                log.push(format!("g{w}.add_edge({a}, {b})"));
                let before: Vec<usize> = m.nodes[a].1.keys().copied().collect();
                g.add_edge(a, b);
                // which id it gets is the graph's business, as long as it is a new one
                let new: Vec<usize> =
                    g.connected_edges(a).take(before.len() + 2).map(|e| g.edges[e].id).filter(|i| !before.contains(i)).collect();
                match new[..] {
                    [id] => {
                        m.nodes[a].1.insert(id, b);
                    }
                    _ => return bad("edge_id", format!("an edge added at node {a} beside {before:?} got the id(s) {new:?}")),
                }
            }
            5..=7 => {
                let (a, b, id) = (one(src), src.us(n), if src.pct(80) { *src.pick(ids) } else { src.us(300) });
                let r = g.try_add_edge_with_id(a, b, id);
                log.push(format!("g{w}.try_add_edge_with_id({a}, {b}, {id}) -> {r}"));
                let free = !m.nodes[a].1.contains_key(&id);
                if free {
                    m.nodes[a].1.insert(id, b);
                } else {
                    ctx.fault("refused_call");
                    ctx.nontrivial = true;
                }
                if r != free {
                    return bad("edge_with_id", format!("edge {id} at node {a}: {}", if r { "added although there is one" } else { "refused although there is none" }));
                }
            }
            8 | 9 => {
                let from = src.us(n);
                // mostly along edges there are
                let mut path = vec![];
                let mut at = Some(from);
                for _ in 0..(if src.below(40) == 0 { src.us(60) } else { src.us(6) }) {
                    let id = match at.map(|a| m.nodes[a].1.keys().copied().collect::<Vec<_>>()) {
                        Some(v) if !v.is_empty() && src.pct(85) => *src.pick(&v),
                        _ => *src.pick(ids),
                    };
                    at = at.and_then(|a| m.nodes[a].1.get(&id).copied());
                    path.push(id);
                }
                let cut = if src.pct(25) { Some(src.us(path.len() + 1)) } else { None };
                let panics = if src.pct(25) { Some(src.us(path.len() + 1)) } else { None };
                let source = || Path { ids: path.clone(), at: 0, stall: cut, panic: panics };
                log.push(format!("g{w}.find_node_index_by_path({from}, {path:?} ending {cut:?} panicking {panics:?})"));
                let end = cut.unwrap_or(path.len());
                let want = m.walk(from, &path[..end]);
                let a = guard(|| g.find_node_index_by_path(from, source()));
                let b = guard(|| g.find_node_by_path(from, source()).map(|n| n.data));
                if let Some(p) = panics {
                    ctx.fault("path_source_panics");
                    ctx.nontrivial = true;
                    // it may be known that there is no such node before the source gets there
                    let reached = cut.is_none_or(|c| p <= c);
                    let ok = |failed: bool, none: bool, right: bool| if failed { reached } else { right && (!reached || none) };
                    let lost = m.walk(from, &path[..p.min(end)]).is_none();
                    if !ok(a.is_err(), lost, a == Ok(want)) || !ok(b.is_err(), lost, b == Ok(want.map(|i| m.nodes[i].0))) {
                        return bad("path", format!("{a:?} and {b:?} instead of {want:?} (the path source panics at {p})"));
                    }
                } else {
                    if cut.is_some() {
                        ctx.fault("path_source_ends_early");
                        ctx.nontrivial = true;
                    }
                    if a != Ok(want) || b != Ok(want.map(|i| m.nodes[i].0)) {
                        return bad("path", format!("{a:?} and {b:?} instead of {want:?}"));
                    }
                }
            }
            10 => {
                let (a, id) = (one(src), *src.pick(ids));
                let r = g.find_node_index(a, id);
                log.push(format!("g{w}.find_node_index({a}, {id}) -> {r:?}"));
                let want = m.nodes[a].1.get(&id).copied();
                if r != want || g.find_node(a, id).map(|n| n.data) != want.map(|i| m.nodes[i].0) {
                    return bad("by_id", format!("edge {id} of node {a} leads to {r:?} instead of {want:?}"));
                }
            }
            _ => {
                // another graph, or a copy of this one, is grafted in
                let o = src.us(gs.len());
                if o == w || gs[o].1.nodes.is_empty() || gs[o].1.nodes.len() + n > 60 {
                    continue;
                }
                let (og, om) = std::mem::take(&mut gs[o]);
                let (g, m) = &mut gs[w];
                let (this, other) = (src.us(n), src.us(om.nodes.len()));
                log.push(format!("g{w}.add_graph_at_node(g{o}, {this}, {other})"));
                ctx.fault("graph_grafted");
                ctx.nontrivial = true;
                let before: Vec<usize> = m.nodes[this].1.keys().copied().collect();
                g.add_graph_at_node(og, this, other);
                for (d, e) in om.nodes {
                    m.nodes.push((d, e.into_iter().map(|(i, t)| (i, t + n)).collect()));
                }
                let new: Vec<usize> =
                    g.connected_edges(this).take(before.len() + 2).map(|e| g.edges[e].id).filter(|i| !before.contains(i)).collect();
                match new[..] {
                    [id] => {
                        m.nodes[this].1.insert(id, other + n);
                    }
                    _ => return bad("edge_id", format!("grafting at node {this} beside {before:?} gave the id(s) {new:?}")),
                }
            }
        }
        if k % every == 0 {
            check(&gs)?;
        }
    }
    check(&gs)
}

fn check(gs: &[(Graph<u64>, Model)]) -> Res {
    for (w, (g, m)) in gs.iter().enumerate() {
        if let Some(x) = m.wrong(g) {
            return bad("contents", format!("g{w}: {x}"));
        }
    }
    Ok(())
}

fn named(src: &Src, ctx: &mut Ctx, log: &mut Vec<String>) -> Res {
    let k = key(src);
    ctx.fault("hash_seed_schedule");
    let calls = if src.below(120) == 0 { src.range(80, 500) } else { src.range(3, 40) };
    let many: Vec<usize> = (0..calls / 3).chain([1000, usize::MAX]).collect();
    let names: &[usize] = if calls > 40 { &many } else { &[0, 1, 2, 3, 5, 8, 64, 1000, usize::MAX] };
    let src = src.clone();
    let (r, faults) = in_thread(k, || named_calls(&src, calls, names, log));
    ctx.faults_n("refused_call", faults);
    ctx.nontrivial |= faults > 0;
    r
}

fn named_calls(src: &Src, calls: usize, names: &[usize], log: &mut Vec<String>) -> (Res, u64) {
    let mut g: GraphNamedNodes<u64> = GraphNamedNodes::new();
    // name, value and targets (as places in this list) of each node in order of creation
    let mut m: Vec<(usize, u64, Vec<usize>)> = vec![];
    let mut refused = 0;
    let hub = *src.pick(&[0, 0, 60]);
    let r = (|| {
        for k in 0..calls {
            let a = if hub > 0 && src.pct(hub) { names[0] } else { *src.pick(names) };
            let b = *src.pick(names);
            let ia = m.iter().position(|n| n.0 == a);
            let ib = m.iter().position(|n| n.0 == b);
            match src.below(8) {
                0..=2 => {
                    let r = g.add_node(a, k as u64);
                    log.push(format!("add_node({a}, {k}) -> {r:?}"));
                    match (r, ia) {
                        (Ok(i), None) if i == m.len() => m.push((a, k as u64, vec![])),
                        (Err(_), Some(_)) => refused += 1,
                        (r, _) => return bad("named_node", format!("add_node({a}) gave {r:?}; known before: {}", ia.is_some())),
                    }
                }
                3..=5 => {
                    let r = g.add_edge(a, b);
                    log.push(format!("add_edge({a}, {b}) -> {r:?}"));
                    match (r, ia, ib) {
                        (Ok(()), Some(i), Some(j)) => m[i].2.push(j),
                        (Err(_), x, y) if x.is_none() || y.is_none() => refused += 1,
                        (r, ..) => return bad("named_edge", format!("add_edge({a}, {b}) gave {r:?}; known: {} and {}", ia.is_some(), ib.is_some())),
                    }
                }
                6 => {
                    log.push(format!("get_node_mut({a}) = {k}"));
                    match (g.get_node_mut(a), ia) {
                        (Ok(n), Some(i)) => {
                            n.data = k as u64;
                            m[i].1 = k as u64;
                        }
                        (Err(_), None) => refused += 1,
                        (r, _) => return bad("named_node", format!("get_node_mut({a}) gave {:?}", r.map(|n| n.data))),
                    }
                }
                _ => {
                    let i = if src.pct(60) { src.us(12) } else { src.us(m.len() + 2) };
                    log.push(format!("get_node_mut_by_index({i}) = {k}"));
                    let r = match guard(|| g.get_node_mut_by_index(i).map(|n| std::mem::replace(&mut n.data, k as u64))) {
                        Ok(r) => r,
                        Err(p) => return bad("panics", format!("get_node_mut_by_index({i}) of {} nodes panicked: {p}", m.len())),
                    };
                    match (r, m.get_mut(i)) {
                        (Ok(d), Some(n)) if d == n.1 => n.1 = k as u64,
                        (Err(_), None) => refused += 1,
                        (r, n) => return bad("by_index", format!("node {i} gave {r:?} instead of {:?}", n.map(|n| n.1))),
                    }
                }
            }
            // everything there is
            for x in names {
                let i = m.iter().position(|n| n.0 == *x);
                let d = g.get_node(*x).ok().map(|n| n.data);
                if d != i.map(|i| m[i].1) {
                    return bad("by_name", format!("node {x} holds {d:?} instead of {:?}", i.map(|i| m[i].1)));
                }
                let mut want: Option<Vec<usize>> = i.map(|i| m[i].2.clone());
                let most = want.as_ref().map_or(0, |w| w.len()) + 1;
                if let Some(w) = &mut want {
                    w.sort_unstable()
                }
                let mut s = g.successor_indices(*x).ok().map(|s| s.take(most).collect::<Vec<_>>());
                let mut t = g.successors(*x).ok().map(|s| s.take(most).map(|(i, n)| (i, n.data)).collect::<Vec<_>>());
                if let (Some(s), Some(t)) = (&mut s, &mut t) {
                    s.sort_unstable();
                    t.sort_unstable();
                }
                let wt = want.as_ref().map(|w| w.iter().map(|i| (*i, m[*i].1)).collect::<Vec<_>>());
                if s != want || t != wt {
                    return bad("named_successors", format!("node {x} has successors {s:?} and {t:?} instead of {wt:?}"));
                }
            }
            for i in 0..=m.len() {
                let r = match guard(|| g.get_node_by_index(i).ok().map(|n| n.data)) {
                    Ok(r) => r,
                    Err(p) => return bad("panics", format!("get_node_by_index({i}) of {} nodes panicked: {p}", m.len())),
                };
                if r != m.get(i).map(|n| n.1) {
                    return bad("by_index", format!("node {i} of {} is {r:?}", m.len()));
                }
            }
        }
        Ok(())
    })();
    (r, refused)
}
