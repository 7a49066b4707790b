//! Parsing makes steady progress: work in proportion to the script, loading polynomial in the grammar.
use super::*;
use crate::ctx::bad;
use crate::seams::{asked, count_steps};
use crate::vm::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 40_000,
    rule: "either a script of an LL(1) grammar one of whose nested stretches is repeated k, 2k and 4k times (list, nesting, or both), whole, \
           cut at the innermost point, corrupted behind the repetition, or aborted by a VM panic at the last call, and the steps and heap \
           bytes the three parses took; or a grammar of repeated layers, 12 and 24 of them, and the steps loading it took; steps are basic \
           blocks of library code and 16-byte units of block copies, counted by callbacks compiled in; non-trivial: at least 500 characters \
           repeated, or a layered grammar; distinct: digest of grammar, script and faults",
    real: "grammar reader, table construction, parser, tree, std collections",
    stub: "VM (counts only), step counter (coverage callbacks), heap accounting (global allocator), hash seeds (seeded getrandom)",
};

struct Plain;

#[derive(Default)]
struct Count {
    calls: usize,
    panic_at: Option<usize>,
}

impl VM for Plain {
    type Tstate = Count;
    type Tinstrution = String;
    fn parse_instructions<'a, T: TPeekable<Item = char>>(&'a self, _: &str, r: &mut ParseProcess<T>) -> Result<Vec<String>, ParserError> {
        let mut s = String::new();
        while let Some(c) = r.next() {
            s.push(c);
        }
        Ok(s.split(';').map(|x| x.to_string()).collect())
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &String, st: &mut Count) {
        let k = st.calls;
        st.calls += 1;
        if st.panic_at == Some(k) {
            panic!("abort");
        }
    }
    fn create_new_state() -> Count {
        Count::default()
    }
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    if src.pct(15) {
        return loading(src, ctx);
    }
    parsing(src, ctx)
}

/// Stretches (start, inner start, inner end, end) in which a rule contains itself.
fn repeatable(sc: &Scene, s: &[char]) -> Vec<(usize, usize, usize, usize)> {
    let mut pairs = vec![];
    let d = derive(&sc.f, &sc.a, s);
    if d.end.is_err() {
        return pairs;
    }
    let mut open: Vec<usize> = vec![];
    let mut spans: Vec<(usize, usize, usize, usize)> = vec![];
    for (i, x) in d.acts.iter().enumerate() {
        match x {
            Act::Open(_) => open.push(i),
            Act::Close(nt, a, b) => spans.push((*nt, *a, *b, open.pop().unwrap())),
            Act::Leaf(_) => {}
        }
    }
    for (j, o) in spans.iter().enumerate() {
        // spans[..j] that began after o did lie inside o
        for i in spans[..j].iter().rev().take_while(|i| i.3 > o.3) {
            if i.0 == o.0 && i.1 + o.2 - o.1 - i.2 > 0 && pairs.len() < 500 {
                pairs.push((o.1, i.1, i.2, o.2));
            }
        }
    }
    pairs
}

/// A script and a stretch of it that can be repeated; the grammar gets a list of padding if it has none.
pub fn pumpable(src: &Src, sc: &mut Scene) -> Option<(Vec<char>, (usize, usize, usize, usize))> {
    for attempt in 0..4 {
        let mut s = script(src, sc, 0).0;
        if attempt == 3 {
            if let Some(c) = padded(src, sc) {
                s.splice(0..0, [c, c]);
            }
        }
        let pairs = repeatable(sc, &s);
        if !pairs.is_empty() {
            return Some((s, *src.pick(&pairs)));
        }
    }
    None
}

fn parsing(src: &Src, ctx: &mut Ctx) -> Res {
    let none = |ctx: &mut Ctx| {
        ctx.no_verdict = true;
        Ok(())
    };
    let Some(mut sc) = scene(src, ctx, &GenOpt { sections: 60, ..GenOpt::default() }) else {
        return none(ctx);
    };
    let Some((s, (a, b, c, e))) = pumpable(src, &mut sc) else {
        return none(ctx);
    };
    let per = (b - a) + (e - c);
    let k0 = 500usize.div_ceil(per);
    // 0 whole, 1 cut at the innermost point, 2 cut after the repetition, 3 wrong character behind it, 4 aborted
    let how = src.below(5);
    let key = key(src);
    let text = |k: usize| -> String {
        let mut t = st(&s[..a]);
        let (u, v, mid) = (st(&s[a..b]), st(&s[c..e]), st(&s[b..c]));
        t += &u.repeat(k);
        if how == 1 {
            return t;
        }
        t += &mid;
        t += &v.repeat(k);
        match how {
            2 => {}
            3 => t.push('\u{10fffd}'),
            _ => t += &st(&s[e..]),
        }
        t
    };
    ctx.case(&format!("{} {:?} {a} {b} {c} {e} {how} {key}", sc.text, st(&s)));
    if how > 0 {
        ctx.fault(["script_cut", "script_cut", "script_corrupted", "vm_panic"][how as usize - 1]);
    }
    ctx.sample = format!("grammar {:?} script {:?} repeated {a}..{b} and {c}..{e}, {k0} times and more, variant {how}", sc.text, st(&s));
    let texts: Vec<String> = [k0, 2 * k0, 4 * k0].iter().map(|k| text(*k)).collect();
    let got = in_thread(key, || {
        let vm = Plain;
        let mut p = build(&sc.text, &vm).map_err(|e| e.show())?;
        let mut got: Vec<(u64, u64, usize, String)> = vec![];
        // once to settle what is set up on first use
        let _ = guard(|| p.parse(&texts[0], &mut Count::default()).is_ok());
        for t in &texts {
            let mut n = Count::default();
            if how == 4 {
                let _ = guard(|| p.parse(t, &mut n).is_ok());
                n = Count { panic_at: n.calls.checked_sub(1), calls: 0 };
            }
            let was = asked();
            let (r, steps) = count_steps(|| guard(|| p.parse(t, &mut n).is_ok()));
            got.push((steps, asked() - was, n.calls, format!("{r:?}")));
        }
        Ok::<_, String>(got)
    });
    let got = match got {
        Ok(g) => g,
        Err(e) => return bad("grammar_refused", format!("LL(1) grammar refused: {e}\n  grammar {:?}", sc.text)),
    };
    ctx.steps += got.iter().map(|g| 1 + g.2 as u64).sum::<u64>();
    ctx.nontrivial = true;
    ctx.probe(if e > c { "nesting_repeated" } else { "list_repeated" });
    if got[2].2 > 1000 {
        ctx.probe("more_than_1000_vm_calls");
    }
    ctx.see(&got.iter().map(|g| format!("{} {}", g.2, g.3)).collect::<Vec<_>>().join(" "));
    let what = || {
        format!(
            "scripts of {} characters: {}\n  grammar {}\n  script {:?} with {a}..{b} and {c}..{e} repeated {k0}, {} and {} times, variant {how} (0 whole, 1 and 2 cut, 3 corrupted, 4 VM panic)\n  hash key {key:#x}",
            texts.iter().map(|t| t.chars().count().to_string()).collect::<Vec<_>>().join(", "),
            got.iter().map(|g| format!("{} steps, {} bytes, {} VM calls, {}", g.0, g.1, g.2, g.3)).collect::<Vec<_>>().join("; "),
            sc.g.pretty(),
            st(&s),
            2 * k0,
            4 * k0,
        )
    };
    ctx.note(what);
    // in proportion: the second increase is twice the first; with the square: four times
    let (d1, d2) = (got[1].0.saturating_sub(got[0].0), got[2].0.saturating_sub(got[1].0));
    if d2 > 3 * d1 + 5_000 {
        return bad("work_out_of_proportion", what());
    }
    // buffers double, so single increases say little: four times the length is 4 to 8 times the bytes, with the square 16 times
    if got[2].1 > 11 * got[0].1 + 65_536 {
        return bad("memory_out_of_proportion", what());
    }
    Ok(())
}

/// A grammar of `layers` alike layers; rules of one layer refer to rules of the next.
struct Layered {
    width: usize,
    /// Per rule of a layer: alternatives of (starts with a terminal, rules of the next layer, ends with a terminal).
    rules: Vec<Vec<(bool, Vec<usize>, bool)>>,
    empty: bool,
    /// 1: a separate ignorable; 2: the layers are the ignorable.
    ignore: u64,
    backwards: bool,
}

impl Layered {
    fn text(&self, layers: usize) -> String {
        let mut next = 0x4e00u32;
        let mut term = || {
            next += 1;
            format!("\"{}\"", char::from_u32(next).unwrap())
        };
        // no terminal starts the only alternative, or all do
        let name = |l: usize, w: usize| -> String {
            let mut s = String::from("r");
            for x in [l, w] {
                s.push('_');
                s.push_str(&x.to_string().chars().map(|c| (b'a' + c as u8 - b'0') as char).collect::<String>());
            }
            s
        };
        let mut out = vec![format!("start -> {};", name(0, 0))];
        for l in 0..layers {
            for w in 0..self.width {
                let alts = &self.rules[w];
                let mut s = vec![];
                for (first, refs, last) in alts {
                    let mut x: Vec<String> = vec![];
                    if *first || alts.len() > 1 || l + 1 == layers {
                        x.push(term());
                    }
                    if l + 1 < layers {
                        x.extend(refs.iter().map(|r| name(l + 1, r % self.width)));
                    }
                    if *last {
                        x.push(term());
                    }
                    s.push(x.join(" "));
                }
                if self.empty && w == self.width - 1 {
                    s.push("#".into());
                }
                out.push(format!("{} -> {};", name(l, w), s.join(" | ")));
            }
        }
        if self.backwards {
            out.reverse();
        }
        if self.ignore == 1 {
            out.insert(0, "$IGNORE:ws;".into());
            out.push("ws -> \" \" ws | #;".into());
        }
        if self.ignore == 2 {
            out.insert(0, format!("$IGNORE:{};", name(0, 0)));
            out.push("other -> \"<\" start \">\";".into());
        }
        out.join("\n")
    }
}

const LAYERS: usize = 12;

fn loading(src: &Src, ctx: &mut Ctx) -> Res {
    let width = src.range(1, 3);
    let g = Layered {
        width,
        rules: (0..width)
            .map(|_| {
                (0..src.range(1, 3))
                    .map(|_| (src.pct(40), (0..src.range(1, 3)).map(|_| src.us(width)).collect(), src.pct(40)))
                    .collect()
            })
            .collect(),
        empty: src.pct(40),
        ignore: if src.pct(50) { 1 + src.below(2) } else { 0 },
        backwards: src.pct(50),
    };
    let key = key(src);
    let texts = [g.text(LAYERS), g.text(2 * LAYERS)];
    ctx.case(&format!("{} {key}", texts[0]));
    ctx.sample = format!("layered grammar {:?}", texts[0]);
    ctx.probe("layered_grammar");
    ctx.nontrivial = true;
    let got = in_thread(key, || {
        let vm = Plain;
        texts
            .iter()
            .map(|t| {
                let was = asked();
                let (r, steps) = count_steps(|| guard(|| build(t, &vm).err().map(|e| e.show())));
                (steps, asked() - was, format!("{r:?}"))
            })
            .collect::<Vec<_>>()
    });
    ctx.steps += 2;
    if got[1].2.contains("None") {
        ctx.probe("layered_grammar_accepted");
    }
    let what = || {
        format!(
            "loading a grammar of {LAYERS} and of {} layers took {}\n  the smaller one: {}\n  hash key {key:#x}",
            2 * LAYERS,
            got.iter().map(|g| format!("{} steps, {} bytes, refused: {}", g.0, g.1, ctx_clip(&g.2))).collect::<Vec<_>>().join("; "),
            texts[0]
        )
    };
    ctx.note(what);
    ctx.see(&got.iter().map(|g| g.2.clone()).collect::<Vec<_>>().join(" "));
    let ratio = got[1].0 / got[0].0.max(1);
    ctx.probe(match ratio {
        0..=4 => "doubling_layers_costs_up_to_5_times",
        5..=8 => "doubling_layers_costs_up_to_9_times",
        9..=16 => "doubling_layers_costs_up_to_17_times",
        _ => "doubling_layers_costs_more",
    });
    if ratio > 24 || got[1].1 / got[0].1.max(1) > 24 {
        return bad("loading_explodes", what());
    }
    Ok(())
}

fn ctx_clip(s: &str) -> String {
    crate::ctx::clip(s, 200)
}
