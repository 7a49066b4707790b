//! A literal is the text between its quotes, character by character, from the grammar to the script.
use super::*;
use crate::ctx::{bad, clip};
use crate::model::*;
use crate::vm::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::parse_terminal;
use henriks_parsing_project::script_parser::Parser;
use std::str::Chars;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 400_000,
    rule: "literals rich in quotes, runs of backslashes, braces, white space and rare characters; half the runs read them one after the \
           other in a delimited section whose stream ends at every or some points or is damaged, and compare value, error, place and what \
           is left with the text; the other half load a grammar of them and parse the script they spell, cut at every or some points and \
           damaged; non-trivial: a literal with an escape or a section was cut or damaged; distinct: digest of texts and calls",
    real: "literal reader, ParseProcess, PeekableWrapper, grammar reader, table construction, parser, tree",
    stub: "character source (simulated: ends anywhere), VM (simulated), hash seeds (seeded getrandom)",
};

/// What may stand between two quotes.
fn gen_literal(src: &Src) -> String {
    let mut s = String::new();
    let n = match src.below(60) {
        0 => src.range(100, 600),
        1..=4 => 0,
        k => 1 + k as usize % 7,
    };
    let mut armed = false;
    for _ in 0..n {
        let c = match src.below(12) {
            0..=3 => *src.pick(&['a', 'b', 'c', '1']),
            4 | 5 => '\\',
            6 | 7 => '"',
            8 => blank(src),
            9 => *src.pick(&['{', '}', ';', '#', '|', '-', '>', '$', '[', ']', ':']),
            10 => *src.pick(&['é', '\u{301}', '🙂', '\0', '\u{7f}', '\u{feff}', '\u{200d}', 'ß', 'Σ', '\u{10ffff}']),
            _ if src.pct(30) => match odd_char(src) {
                '"' | '\\' => 'x',
                c => c,
            },
            _ => *src.pick(&['n', 't', 'u', '0', 'x']),
        };
        if c == '"' && !armed {
            s.push('\\');
        }
        s.push(c);
        armed = c == '\\' && !armed;
    }
    if armed {
        s.push(*src.pick(&['\\', '"', 'n', ' ']));
    }
    s
}

/// A literal that differs from another one in as little as possible.
fn near(src: &Src, l: &str) -> String {
    let cs: Vec<char> = l.chars().collect();
    let plain: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].is_alphanumeric()).collect();
    let at = match src.below(3) {
        0 => plain.last(),
        1 => plain.first(),
        _ if plain.is_empty() => None,
        _ => Some(src.pick(&plain)),
    };
    let mut cs = cs;
    match at {
        Some(&i) => match src.below(5) {
            0 => cs.insert(i, cs[i]),
            1 => cs[i] = if cs[i].is_ascii_uppercase() { cs[i].to_ascii_lowercase() } else { cs[i].to_ascii_uppercase() },
            2 => cs.insert(i, ' '),
            3 if cs.len() > 1 && (i == 0 || cs[i - 1] != '\\') => {
                cs.remove(i);
            }
            _ => cs[i] = 'z',
        },
        None => cs.push('z'),
    }
    cs.into_iter().collect()
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    if src.pct(50) {
        readers(src, ctx)
    } else {
        scripts(src, ctx)
    }
}

#[derive(Clone, Copy, Debug)]
enum Call {
    Literal,
    Next,
    Peek,
}

struct Section<'a> {
    text: &'a [char],
    at: usize,
    armed: bool,
    stop: Option<char>,
    esc: Option<char>,
}

impl Section<'_> {
    fn visible(&self) -> Option<char> {
        self.text.get(self.at).copied().filter(|c| self.armed || self.stop != Some(*c))
    }
    fn eat(&mut self) -> Option<char> {
        let c = self.visible()?;
        self.at += 1;
        self.armed = self.esc == Some(c);
        Some(c)
    }
    /// The literal that stands here, or the place where there is none.
    fn literal(&mut self) -> Result<String, usize> {
        if self.visible() != Some('"') {
            return Err(self.at);
        }
        self.eat();
        let mut s = String::new();
        let mut armed = false;
        loop {
            match self.eat() {
                None => return Err(self.at),
                Some('"') if !armed => return Ok(s),
                Some(c) => {
                    s.push(c);
                    armed = c == '\\' && !armed;
                }
            }
        }
    }
}

fn readers(src: &Src, ctx: &mut Ctx) -> Res {
    let mut text = String::new();
    let n = src.range(1, 4);
    for _ in 0..n {
        text += *src.pick(&["", "", " ", "x", "\\", "}"]);
        text += &format!("\"{}\"", gen_literal(src));
    }
    text += *src.pick(&["", "}", "rest", "\"", " \"open"]);
    let stop = *src.pick(&[None, None, Some('}'), Some(';'), Some('"'), Some('a')]);
    let esc = *src.pick(&[None, Some('\\'), Some('\\'), Some('b')]);
    let base: Vec<char> = text.chars().collect();
    let al: Vec<char> = "\"\\}a".chars().collect();
    let mut texts = vec![base.clone()];
    if base.len() <= 40 && src.pct(40) {
        for k in 0..base.len() {
            texts.push(base[..k].to_vec());
            ctx.fault("stream_ends");
        }
    } else {
        for _ in 0..3 {
            texts.push(base[..src.us(base.len() + 1)].to_vec());
            ctx.fault("stream_ends");
        }
    }
    for _ in 0..src.us(4) {
        let mut t = base.clone();
        ctx.fault(damage(src, &mut t, &al));
        texts.push(t);
    }
    let calls: Vec<Call> = (0..src.range(1, 10))
        .map(|_| match src.below(8) {
            0 => Call::Next,
            1 => Call::Peek,
            _ => Call::Literal,
        })
        .collect();
    let start = *src.pick(&[0, 0, 1, 1000]);
    ctx.case(&format!("{texts:?} {calls:?} {stop:?} {esc:?}"));
    ctx.sample = format!("literals {:?} until {stop:?} unless behind {esc:?}, {} texts, calls {calls:?}", clip(&text, 200), texts.len());
    ctx.nontrivial = stop.is_some() || text.contains('\\');
    for t in &texts {
        let s = st(t);
        let mut w = PeekableWrapper::from_str(&s);
        let mut m = Section { text: t, at: 0, armed: false, stop, esc };
        let what = |log: &[String]| format!("text {s:?} until {stop:?} unless behind {esc:?}, counted from {start}\n  calls {}", log.join("; "));
        let mut log = vec![];
        let mut pp: ParseProcess<PeekableWrapper<Chars>> = ParseProcess::new_nested(&mut w, stop, esc, start);
        for c in &calls {
            ctx.steps += 1;
            // between literals there may be something else
            let here = m.visible();
            let c = if matches!(c, Call::Literal) && here.is_some() && here != Some('"') && src.pct(70) { &Call::Next } else { c };
            match c {
                Call::Next => {
                    let r = pp.next();
                    log.push(format!("next {r:?}"));
                    if r != m.eat() {
                        return bad("single_character", format!("next gave {r:?} instead of {here:?}\n  in: {}", what(&log)));
                    }
                }
                Call::Peek => {
                    let r = pp.peek().copied();
                    log.push(format!("peek {r:?}"));
                    if r != here {
                        return bad("single_character", format!("peek gave {r:?} instead of {here:?}\n  in: {}", what(&log)));
                    }
                }
                Call::Literal => {
                    let before = m.at;
                    let r = match guard(|| parse_terminal(&mut pp)) {
                        Ok(r) => r,
                        Err(p) => return bad("panics", format!("{p}\n  in: {}", what(&log))),
                    };
                    log.push(format!("literal {r:?}"));
                    let want = m.literal();
                    ctx.see(&format!("{r:?}"));
                    let ok = match (&r, &want) {
                        (Ok(a), Ok(b)) => {
                            ctx.probe(if b.contains('\\') { "literal_with_escape" } else { "plain_literal" });
                            a == b
                        }
                        (Err(ParserError::UnexpectedCharError { chr, pos, .. }), Err(p)) => {
                            ctx.probe("no_literal_here");
                            *p == before && *pos == start + p && here == Some(*chr)
                        }
                        (Err(ParserError::EndOfCharsError { pos }), Err(p)) => {
                            ctx.probe(if *p == before { "nothing_here" } else { "literal_cut" });
                            *pos == start + p && m.visible().is_none()
                        }
                        _ => false,
                    };
                    if !ok {
                        return bad("wrong_literal", format!("the literal at {before} is {want:?}, read as {r:?}\n  in: {}", what(&log)));
                    }
                    if want.is_err() && m.at > before {
                        // nothing more to be had, and what was taken of a cut literal is not promised
                        break;
                    }
                }
            }
            if pp.cur_pos() != start + m.at {
                return bad("position", format!("position {} instead of {}\n  in: {}", pp.cur_pos(), start + m.at, what(&log)));
            }
        }
        if pp.cur_pos() != start + m.at {
            continue;
        }
        drop(pp);
        let left: String = std::iter::from_fn(|| w.next()).collect();
        if left != st(&t[m.at..]) {
            return bad("rest", format!("left over is {:?}, not read yet was {:?}\n  in: {}", clip(&left, 80), clip(&st(&t[m.at..]), 80), what(&log)));
        }
        ctx.note(|| what(&log));
    }
    Ok(())
}

fn scripts(src: &Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 5);
    let mut lits: Vec<String> = vec![gen_literal(src)];
    while lits.len() < n {
        let l = if src.pct(25) {
            ctx.probe("literals_almost_alike");
            near(src, &lits[src.us(lits.len())])
        } else {
            gen_literal(src)
        };
        lits.push(l);
    }
    // start -> l0 r1; r1 -> l1 r2 | l1' ; ... : one after the other, over one or several rules, sometimes a choice
    let mut g = Gram {
        names: vec!["start".into()],
        rules: vec![],
        order: vec![0],
        start: 0,
        directives: vec![],
    };
    let mut alt: Vec<Sym> = vec![];
    for (i, l) in lits.iter().enumerate() {
        alt.push(Sym::T(l.clone()));
        if i + 1 < n && src.pct(40) {
            let next = g.names.len();
            g.names.push(format!("r{next}"));
            g.order.push(next);
            alt.push(Sym::N(next));
            let mut alts = vec![std::mem::take(&mut alt)];
            if src.pct(40) {
                alts.push(vec![Sym::T(gen_literal(src))]);
            }
            g.rules.push(Some(Rule { alts, ign: Ign::Inherit, sect: src.pct(40).then(|| gen_section(src)) }));
        }
    }
    g.rules.push(Some(Rule { alts: vec![alt], ign: Ign::Inherit, sect: Some("end".into()) }));
    let (f, a) = g.analyse();
    if !a.ll1() {
        ctx.no_verdict = true;
        return Ok(());
    }
    let text = g.text(src);
    let base: Vec<char> = lits.concat().chars().collect();
    let mut all = vec![base.clone()];
    if base.len() <= 40 && src.pct(50) {
        for k in 0..base.len() {
            all.push(base[..k].to_vec());
            ctx.fault("truncate");
        }
    }
    let al: Vec<char> = "\"\\ab ".chars().collect();
    for _ in 0..src.range(1, 6) {
        let mut s = base.clone();
        ctx.fault(damage(src, &mut s, &al));
        all.push(s);
    }
    // the texts an escape could be mistaken for
    for (from, to) in [("\\\"", "\""), ("\\\\", "\\"), ("\\n", "\n"), ("\\t", "\t")] {
        let s = lits.concat();
        if s.contains(from) {
            ctx.fault("escape_taken_apart");
            all.push(s.replace(from, to).chars().collect());
        }
    }
    let k = key(src);
    ctx.fault("hash_seed_schedule");
    let how = src.below(2);
    let ins = instrs(&g);
    ctx.case(&format!("{text} {all:?} {k}"));
    ctx.sample = format!("grammar {:?}, {} scripts around {:?}", clip(&text, 200), all.len(), clip(&st(&base), 120));
    ctx.nontrivial = lits.iter().any(|l| l.contains('\\'));
    let strs: Vec<String> = all.iter().map(|s| st(s)).collect();
    let outs = in_thread(k, || {
        let vm = SimVm::new();
        let names = read_rules(&text, &vm).map(|pd| {
            let mut v: Vec<(String, String)> = pd.get_elements_verbose().iter().map(|e| (format!("{:?}", e.et), e.name.clone())).collect();
            v.sort();
            v
        });
        let mut p = if how == 0 {
            guard(|| Parser::new_from_text(&text, &vm))?
        } else {
            build(&text, &vm).map_err(|e| e.show())?
        };
        let o: Vec<Outcome> = strs.iter().map(|s| parse(&mut p, s, SimState::watching())).collect();
        Ok::<_, String>((names.map_err(|e| e.show())?, o))
    });
    let (names, outs) = match outs {
        Ok(x) => x,
        Err(e) => return bad("grammar_refused", format!("{e}\n  grammar {text:?}")),
    };
    let mut want: Vec<(String, String)> = g.names.iter().map(|n| ("NonTerminal".to_string(), n.clone())).collect();
    for s in g.rules.iter().flatten().flat_map(|r| r.alts.iter().flatten()) {
        if let Sym::T(t) = s {
            want.push(("Terminal".into(), t.clone()));
        }
    }
    want.sort();
    want.dedup();
    if names != want {
        return bad("wrong_literal", format!("the grammar is made of {names:?}\n  its text says {want:?}\n  grammar {text:?}"));
    }
    for ((s, x), o) in strs.iter().zip(&all).zip(&outs) {
        ctx.steps += 1 + o.calls as u64;
        ctx.see(&o.brief());
        ctx.note(|| format!("script {s:?}: {}", o.brief()));
        let what = || format!("script {s:?}\n  grammar {text:?}");
        let e = expect(&f, &a, &ins, x);
        diff(verdict_diff(x, &e, o), what)?;
        diff(events_diff(&e, &o.events, None), what)?;
        diff(nodes_diff(&e, &o.events), what)?;
        diff(tree_diff(&e, o).filter(|_| e.end.is_ok()), what)?;
    }
    Ok(())
}
