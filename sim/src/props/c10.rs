//! Parsers used concurrently or re-entrantly do not affect one another.
use super::*;
use crate::ctx::{bad, fnv};
use crate::model::*;
use crate::proc::{in_child, Pack, Unpack};
use crate::sched::{with_points, Gaps, Sched};
use crate::seams::{points_of_run, points_on, AT_BLOCK, AT_HEAP, AT_STATIC};
use crate::vm::*;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 48_000,
    rule: "2-4 client threads under the baton scheduler, switched at VM calls and inside library code at the n-th heap operation, \
           basic block or access to static memory (or at VM calls only), each building parsers and parsing whole, cut and corrupted scripts, with VM \
           panics and with further parses run inside VM calls, sharing one VM or not; each client's outcomes, handles included, \
           are compared with the same client alone and with the reference derivation; non-trivial: at least 3 switches between \
           clients with calls outstanding, or a nested parse; distinct: digest of grammars, scripts and schedule",
    real: "grammar reader, table construction, parser, tree, std collections",
    stub: "VM (simulated), thread scheduling (baton), hash seeds (seeded getrandom), scheduling points compiled into library code and allocator",
};

#[derive(Clone, Debug)]
struct Job {
    scene: usize,
    script: Vec<char>,
    panic_at: Option<usize>,
    /// At this VM call, this other job is run to its end inside the call.
    nest: Option<(usize, usize)>,
    /// While the section of this number is read for this job, this other job is run to its end.
    read_nest: Option<(usize, usize)>,
    /// Build a new parser for this job although the client has one.
    rebuild: bool,
}

/// Marks a nested outcome that came from inside the reading of a section.
const READING: usize = 1000;

struct World<'a> {
    scenes: &'a [Scene],
    inner: &'a [Job],
    inner_text: &'a [String],
}

fn nested_job(scenes: &[Scene], j: &Job, text: &str, vm: &SimVm, points: bool) -> Result<Outcome, String> {
    let r = guard(|| {
        with_points(points, || match build(&scenes[j.scene].text, vm) {
            Err(e) => Err(e.show()),
            Ok(mut p) => {
                let mut st = SimState::watching();
                st.panic_at = j.panic_at;
                Ok(parse(&mut p, text, st))
            }
        })
    });
    r.unwrap_or_else(|p| Err(format!("panic: {p}")))
}

/// Run a client's jobs; nested outcomes are reported as (position in the job list, inner job, outcome).
#[allow(clippy::type_complexity)]
fn client(w: &World, vm: &SimVm, jobs: &[Job], texts: &[String], nesting: bool, points: bool) -> (Vec<Result<Outcome, String>>, Vec<(usize, usize, Result<Outcome, String>)>) {
    let mut outs = vec![];
    let nested = Rc::new(RefCell::new(vec![]));
    let mut cur: Option<(usize, henriks_parsing_project::script_parser::Parser<SimVm>)> = None;
    for (i, (j, t)) in jobs.iter().zip(texts).enumerate() {
        if j.rebuild || cur.as_ref().map(|c| c.0) != Some(j.scene) {
            cur = None;
            if let (true, Some((at, k))) = (nesting, j.read_nest) {
                let mut sections = 0;
                let n2 = nested.clone();
                let (scenes, inner, inner_text): (&[Scene], &[Job], &[String]) = (w.scenes, w.inner, w.inner_text);
                let hook: Box<dyn FnMut() + '_> = Box::new(move || {
                    if sections == at {
                        let r = nested_job(scenes, &inner[k], &inner_text[k], vm, points);
                        n2.borrow_mut().push((READING + i, k, r));
                    }
                    sections += 1;
                });
                // taken back below, before this frame ends
                let hook: Box<dyn FnMut()> = unsafe { std::mem::transmute(hook) };
                READ_HOOK.with(|h| *h.borrow_mut() = Some(hook));
            }
            let b = guard(|| with_points(points, || build(&w.scenes[j.scene].text, vm).map_err(|e| e.show())));
            READ_HOOK.with(|h| *h.borrow_mut() = None);
            match b {
                Ok(Ok(p)) => cur = Some((j.scene, p)),
                Ok(Err(e)) => {
                    outs.push(Err(e));
                    continue;
                }
                Err(p) => {
                    outs.push(Err(format!("panic: {p}")));
                    continue;
                }
            }
        }
        let p = &mut cur.as_mut().unwrap().1;
        let mut st = SimState::watching();
        st.panic_at = j.panic_at;
        // a closure that outlives nothing: the state does not leave this function
        let mut calls = 0usize;
        let nest = if nesting { j.nest } else { None };
        let n2 = nested.clone();
        let (scenes, inner, inner_text): (&[Scene], &[Job], &[String]) = (w.scenes, w.inner, w.inner_text);
        let hook: Box<dyn FnMut(&mut henriks_parsing_project::tree::Tree<String>, henriks_parsing_project::tree::NodeId, &Instr) + '_> =
            Box::new(move |_, _, _| {
                let n = calls;
                calls += 1;
                if let Some((at, k)) = nest {
                    if at == n {
                        let r = nested_job(scenes, &inner[k], &inner_text[k], vm, points);
                        n2.borrow_mut().push((i, k, r));
                    }
                }
            });
        // the hook borrows from this frame; it is dropped with the state below, before the frame ends
        let hook: Hook = unsafe { std::mem::transmute(hook) };
        st.hook = Some(hook);
        let r = guard(|| with_points(points, || p.parse(t, &mut st)));
        st.hook = None;
        points_on(false);
        outs.push(Ok(finish(r, st)));
    }
    let n = nested.take();
    (outs, n)
}

/// Parts of an outcome that are compared, and how it reads.
#[derive(Clone)]
struct Rend {
    done: bool,
    panic: String,
    err: String,
    tree: String,
    calls: String,
    shown: String,
}

fn rend(o: &Result<Outcome, String>) -> Rend {
    let shown = show(o);
    match o {
        Err(_) => Rend { done: false, panic: String::new(), err: String::new(), tree: String::new(), calls: String::new(), shown },
        Ok(o) => Rend {
            done: true,
            panic: format!("{:?}", o.panic),
            err: format!("{:?}", o.err),
            tree: format!("{:?}", o.tree),
            calls: format!("{:?}", o.events),
            shown,
        },
    }
}

fn pack(p: &mut Pack, r: &Rend) {
    p.num(r.done as u64).str(&r.panic).str(&r.err).str(&r.tree).str(&r.calls).str(&r.shown);
}

fn unpack(u: &mut Unpack) -> Rend {
    Rend {
        done: u.num() == 1,
        panic: u.str(),
        err: u.str(),
        tree: u.str(),
        calls: u.str(),
        shown: u.str(),
    }
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let ns = src.range(1, 3);
    let mut scenes = vec![];
    for _ in 0..ns {
        match scene(src, ctx, &GenOpt { max_nt: 5, sections: 85, ..GenOpt::default() }) {
            Some(s) => scenes.push(s),
            None => {
                ctx.no_verdict = true;
                return Ok(());
            }
        }
    }
    let ins: Vec<_> = scenes.iter().map(|s| instrs(&s.g)).collect();
    let n = src.range(2, 4);
    let gen_job = |src: &Src, ctx: &mut Ctx| -> Job {
        let k = src.us(ns);
        let (mut s, kinds) = script(src, &scenes[k], 35);
        s.truncate(80);
        for x in kinds {
            ctx.fault(x);
        }
        let due = expect(&scenes[k].f, &scenes[k].a, &ins[k], &s).events.len();
        Job {
            scene: k,
            script: s,
            panic_at: if due > 0 && src.pct(12) { Some(src.us(due)) } else { None },
            nest: None,
            read_nest: None,
            rebuild: src.pct(30),
        }
    };
    let inner: Vec<Job> = (0..2).map(|_| gen_job(src, ctx)).collect();
    let mut clients: Vec<Vec<Job>> = vec![];
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..src.range(1, 3) {
            let mut j = gen_job(src, ctx);
            let due = expect(&scenes[j.scene].f, &scenes[j.scene].a, &ins[j.scene], &j.script).events.len();
            if due > 0 && src.pct(30) {
                j.nest = Some((src.us(due), src.us(inner.len())));
            }
            let sections = scenes[j.scene].g.rules.iter().filter(|r| r.as_ref().is_some_and(|r| r.sect.is_some())).count();
            if sections > 0 && src.pct(25) {
                j.read_nest = Some((src.us(sections), src.us(inner.len())));
            }
            v.push(j);
        }
        clients.push(v);
    }
    let shared = src.pct(60);
    // where a client may be interrupted, apart from VM calls
    let at = match src.below(10) {
        0..=2 => 0,
        3..=4 => AT_HEAP,
        5..=6 => AT_BLOCK,
        7 => AT_BLOCK | AT_HEAP,
        _ => AT_STATIC | *src.pick(&[0, AT_BLOCK, AT_HEAP]),
    };
    let points = at != 0;
    // the clients alone: each in a process of its own, or one after another in one process
    let apart = src.pct(60);
    let gaps = Gaps {
        heap: [1, 3, 10, 40, 200][src.us(5)],
        block: [3, 30, 300, 3000, 20000][src.us(5)],
        stat: [1, 2, 5][src.us(3)],
        budget: [50, 200, 600][src.us(3)],
    };
    let hk = key(src);
    let texts: Vec<Vec<String>> = clients.iter().map(|c| c.iter().map(|j| st(&j.script)).collect()).collect();
    let inner_text: Vec<String> = inner.iter().map(|j| st(&j.script)).collect();
    let w = World {
        scenes: &scenes,
        inner: &inner,
        inner_text: &inner_text,
    };
    let what = |i: usize| {
        format!(
            "client {i} of {n}, jobs {:?}\n  VM shared {shared}, alone in a process of its own {apart}\n  grammars {:?}\n  hash key {hk:#x}",
            clients[i].iter().map(|j| (st(&j.script), j.scene, j.panic_at, j.nest, j.read_nest)).collect::<Vec<_>>(),
            scenes.iter().map(|s| s.g.pretty()).collect::<Vec<_>>()
        )
    };
    // alone: i < n is a client, n + k the k-th job that others run inside VM calls
    let alone = |i: usize, p: &mut Pack| {
        let outs = in_thread(hk, || {
            let vm = SimVm::new();
            if i < n {
                client(&w, &vm, &clients[i], &texts[i], false, false).0
            } else {
                client(&w, &vm, &inner[i - n..=i - n], &inner_text[i - n..=i - n], false, false).0
            }
        });
        p.num(outs.len() as u64);
        for o in &outs {
            pack(p, &rend(o));
        }
    };
    let died = |how: String, who: &str| bad("process_died", format!("{how}, {who}\n  in: {}", what(0)));
    let mut solo: Vec<Vec<Rend>> = vec![];
    let take = |u: &mut Unpack| -> Vec<Rend> { (0..u.num()).map(|_| unpack(u)).collect() };
    if apart {
        ctx.probe("reference_in_fresh_process");
        for i in 0..n + inner.len() {
            match in_child(|| {
                let mut p = Pack::default();
                alone(i, &mut p);
                p
            }) {
                Ok(mut u) => solo.push(take(&mut u)),
                Err(e) => return died(e, "a client alone"),
            }
        }
    }
    // together
    let r = in_child(|| {
        let mut p = Pack::default();
        if !apart {
            for i in 0..n + inner.len() {
                alone(i, &mut p);
            }
        }
        let sched = Sched::new(n, gaps, src.clone());
        let mut vms: Vec<SimVm> = (0..n).map(|_| SimVm::new()).collect();
        for v in vms.iter_mut() {
            v.yields = true;
        }
        points_of_run(at);
        let together: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let (sched, w, clients, texts, vms) = (&sched, &w, &clients, &texts, &vms);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            crate::seams::set_hash_key(hk);
                            sched.client(i, || {
                                client(w, if shared { &vms[0] } else { &vms[i] }, &clients[i], &texts[i], true, points)
                            })
                        })
                        .expect("thread")
                })
                .collect();
            if !sched.go() {
                crate::proc::quit(6);
            }
            hs.into_iter().map(|h| h.join()).collect()
        });
        points_of_run(0);
        let t = sched.stats();
        let (tape, pos, rng) = src.state();
        p.nums(&tape).num(pos as u64).nums(&rng.into_iter().collect::<Vec<_>>());
        p.nums(&[t.switches, t.heap, t.block, t.stat, t.call, t.waits]);
        p.nums(&t.trace.iter().map(|x| *x as u64).collect::<Vec<_>>());
        let mut wrong: Option<crate::ctx::Violation> = None;
        for (i, r) in together.into_iter().enumerate() {
            let Ok((outs, nested)) = r else {
                p.num(0);
                continue;
            };
            p.num(1).num(outs.len() as u64);
            for (k, o) in outs.iter().enumerate() {
                pack(&mut p, &rend(o));
                if wrong.is_none() {
                    wrong = model_check(&scenes, &ins, &clients[i][k], o, &|| what(i)).err();
                }
            }
            p.num(nested.len() as u64);
            for (k, q, o) in &nested {
                p.num(*k as u64).num(*q as u64);
                pack(&mut p, &rend(o));
            }
        }
        match wrong {
            None => p.num(0),
            Some(v) => p.num(1).str(&v.kind).str(&v.msg),
        };
        p
    });
    let mut u = match r {
        Ok(u) => u,
        Err(e) if e == "exit status 6" => {
            return bad("deadlock", format!("every client left waits for ever on a real lock\n  in: {}", what(0)))
        }
        Err(e) => return died(e, "the clients together"),
    };
    if !apart {
        for _ in 0..n + inner.len() {
            let v = take(&mut u);
            solo.push(v);
        }
    }
    let tape = u.nums();
    let pos = u.num() as usize;
    let rng = u.nums().first().copied();
    src.carry_on(tape, pos, rng);
    let v = u.nums();
    let (switches, heap, block, stat, call, waits) = (v[0], v[1], v[2], v[3], v[4], v[5]);
    let trace: Vec<u8> = u.nums().into_iter().map(|x| x as u8).collect();
    ctx.steps += heap + block + stat + call + n as u64;
    if waits > 0 {
        ctx.probe("client_waited_for_a_real_lock");
    }
    ctx.inter = Some(fnv(fnv(0, &trace), &[n as u8]));
    ctx.faults_n("thread_switch", switches);
    ctx.faults_n("yield_at_heap_operation", heap);
    ctx.faults_n("yield_at_basic_block", block);
    ctx.faults_n("yield_at_static_memory_access", stat);
    ctx.faults_n("yield_at_vm_call", call);
    ctx.probe(if shared { "vm_shared" } else { "vm_per_client" });
    ctx.case(&format!(
        "{:?} {clients:?} {inner:?} {trace:?}",
        scenes.iter().map(|s| &s.text).collect::<Vec<_>>()
    ));
    ctx.sample = format!(
        "{n} clients, {} switches (yields: {heap} at heap operations, {block} at basic blocks, {stat} at static memory, {call} at VM calls), VM shared {shared}, grammar {:?}, jobs {:?}",
        switches,
        scenes[0].text,
        texts
    );
    ctx.note(|| format!("{n} clients, {switches} switches, schedule {trace:?}"));
    for (i, s) in scenes.iter().enumerate() {
        ctx.note(|| format!("grammar {i}: {}", s.g.pretty()));
    }
    ctx.nontrivial = switches >= 3;
    for i in 0..n {
        if u.num() == 0 {
            return bad("client_died", what(i));
        }
        let outs = take(&mut u);
        for (k, (o, s)) in outs.iter().zip(&solo[i]).enumerate() {
            ctx.see(&o.shown);
            ctx.note(|| format!("client {i} job {k}: {}", o.shown));
            if let Some(d) = differ(o, s) {
                return bad(
                    "differs_from_alone",
                    format!("job {k}: {d}\n  together: {}\n  alone:    {}\n  in: {}", o.shown, s.shown, what(i)),
                );
            }
        }
        for _ in 0..u.num() {
            let (k, q) = (u.num() as usize, u.num() as usize);
            let o = unpack(&mut u);
            ctx.fault(if k >= READING { "load_and_parse_inside_section_reading" } else { "parse_inside_vm_call" });
            let k = k % READING;
            ctx.nontrivial = true;
            ctx.see(&o.shown);
            ctx.note(|| format!("client {i} job {k}, nested job {q}: {}", o.shown));
            let s = &solo[n + q][0];
            if let Some(d) = differ(&o, s) {
                return bad(
                    "nested_differs_from_alone",
                    format!(
                        "parse of {:?} nested in job {k}: {d}\n  nested: {}\n  alone:  {}\n  in: {}",
                        inner_text[q],
                        o.shown,
                        s.shown,
                        what(i)
                    ),
                );
            }
        }
        ctx.faults_n("vm_panic", clients[i].iter().filter(|j| j.panic_at.is_some()).count() as u64);
    }
    if u.num() == 1 {
        let (kind, msg) = (u.str(), u.str());
        return bad(&kind, msg);
    }
    Ok(())
}

fn model_check(scenes: &[Scene], ins: &[Vec<Vec<Instr>>], j: &Job, o: &Result<Outcome, String>, what: &dyn Fn() -> String) -> Res {
    let sc = &scenes[j.scene];
    let o = match o {
        Ok(o) => o,
        Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  in: {}", what())),
    };
    let e = expect(&sc.f, &sc.a, &ins[j.scene], &j.script);
    if o.panic.as_deref().is_some_and(|p| p.starts_with(INJECTED)) {
        return Ok(());
    }
    diff(verdict_diff(&j.script, &e, o), what)?;
    diff(events_diff(&e, &o.events, j.panic_at), what)?;
    diff(tree_diff(&e, o).filter(|_| e.end.is_ok()), what)
}

fn show(o: &Result<Outcome, String>) -> String {
    match o {
        Err(e) => format!("grammar refused: {e}"),
        Ok(o) => format!(
            "{} after calls {:?}",
            o.brief(),
            o.events.iter().map(|e| (e.rule.as_str(), e.k, e.node)).collect::<Vec<_>>()
        ),
    }
}

fn differ(a: &Rend, b: &Rend) -> Option<&'static str> {
    if a.done != b.done {
        Some("grammar verdict")
    } else if a.panic != b.panic {
        Some("panic")
    } else if a.err != b.err {
        Some("error")
    } else if a.tree != b.tree {
        Some("tree")
    } else if a.calls != b.calls {
        Some("instructions")
    } else {
        None
    }
}
