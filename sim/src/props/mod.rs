use crate::ctx::{Ctx, Res};
use crate::gram::*;
use crate::reader;
use crate::tape::Src;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Src, &mut Ctx) -> Res,
    /// Simulated runs in the quick tier.
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub fn all() -> Vec<Prop> {
    vec![
        c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP,
        c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c17::PROP, c18::PROP, c19::PROP, c20::PROP, c21::PROP, c22::PROP, c23::PROP,
    ]
}

/// A grammar the library must accept, with its analysis and its text.
pub struct Scene {
    pub g: Gram,
    pub f: Flat,
    pub a: Analysis,
    pub text: String,
}

/// Grammars of realistic size, taken from the documentation and common practice.
const LIBRARY: &[&str] = &[
    "start -> terms; terms -> term terms_s; terms_s -> whitespace term terms_s | #; term -> add|sub|number|print;
     print -> \"print\" {a;b}; add -> \"+\" {c}; sub -> \"-\" {d}; number-> digit number_s {e}; number_s -> number_s_ | # {f};
     number_s_ -> digit number_s {g;h;i}; digit -> \"0\"|\"1\"|\"2\" {j}; whitespace -> \" \";",
    "start -> value {top}; value -> object | array | string | \"null\" | \"true\" | \"false\"; object -> \"{\" members \"}\" {obj};
     members -> pair more_members | #; more_members -> \",\" pair more_members | #; pair -> string \":\" value {pair};
     array -> \"[\" elems \"]\" {arr}; elems -> value more_elems | #; more_elems -> \",\" value more_elems | #;
     string -> \"'\" chars \"'\" {str}; chars -> \"a\" chars | \"b\" chars | #;",
    "start -> expr {print}; expr -> prod expr_s; expr_s -> \"+\" prod expr_s | \"-\" prod expr_s | # {add};
     prod -> atom prod_s; prod_s -> \"*\" atom prod_s | # {mul}; atom -> \"(\" expr \")\" | \"x\" | \"1\" {atom};",
    "$IGNORE: ws; start -> stmts {end}; stmts -> stmt stmts | #; stmt -> \"let\" var \"=\" num \";\" {let};
     var -> $[IGNORE:#] \"a\" var_s {v}; var_s -> $[IGNORE:#] \"a\" var_s | \"b\" var_s | #; num -> \"1\" | \"2\" {n}; ws -> \" \" ws | # {w};",
    "start -> opt1 opt2 opt3 \"!\" {s}; opt1 -> \"a\" | # {x}; opt2 -> \"b\" opt2 | # {y}; opt3 -> opt1b opt2b; opt1b -> \"c\" | #; opt2b -> \"d\" | # {z;z};",
    "start -> \"if\" cond block else_s {if}; else_s -> \"else\" block | # {else}; cond -> \"(\" cond_ \")\"; cond_ -> \"t\" | \"f\" | cond {c};
     block -> \"{\" body \"}\" {b}; body -> start body | \";\" body | #;",
];

/// Turn what the reference reader read into a scenario grammar (no ignorables: they are woven already).
pub fn gram_of(r: &reader::RGram) -> Option<Gram> {
    let (names, f) = r.flat("start")?;
    let rules = f
        .prods
        .iter()
        .enumerate()
        .map(|(i, p)| {
            Some(Rule {
                alts: p.clone(),
                ign: Ign::Inherit,
                sect: r.rules[i].sect.clone(),
            })
        })
        .collect();
    Some(Gram {
        order: (0..names.len()).collect(),
        names,
        rules,
        start: f.start,
        directives: vec![],
    })
}

pub fn scene(src: &Src, ctx: &mut Ctx, o: &GenOpt) -> Option<Scene> {
    if src.pct(8) {
        let t: Vec<char> = src.pick(LIBRARY).chars().collect();
        let r = reader::read(&t).expect("library grammar");
        let g = gram_of(&r).expect("library grammar");
        let (f, a) = g.analyse();
        if !a.ll1() {
            return None;
        }
        ctx.probe("grammar_from_collection");
        return Some(Scene {
            f,
            a,
            g,
            text: t.into_iter().collect(),
        });
    }
    let Some((g, f, a)) = gen_ll1(src, o) else {
        ctx.probe("no_grammar");
        return None;
    };
    let text = g.text(src);
    if f.prods.iter().flatten().any(|p| p.is_empty()) {
        ctx.probe("grammar_with_empty_alternative");
    }
    if !g.directives.is_empty() || g.rules.iter().flatten().any(|r| r.ign != Ign::Inherit) {
        ctx.probe("grammar_with_ignorables");
    }
    Some(Scene { g, f, a, text })
}

/// A script: derivable, or a damaged derivable one. Returns the fault kinds applied.
pub fn script(src: &Src, sc: &Scene, damage_pct: u64) -> (Vec<char>, Vec<&'static str>) {
    let budget = match src.below(200) {
        0 => 600,
        k => [6, 12, 25, 60][k as usize % 4],
    };
    let mut s = gen_sentence(src, &sc.f, budget);
    if s.len() > 600 {
        s.truncate(600);
    }
    let mut kinds = vec![];
    if src.pct(damage_pct) {
        let mut al = alphabet(&sc.f);
        if src.pct(20) {
            al.push(odd_char(src));
            let c = *src.pick(&al);
            al.push(like(src, c));
        }
        let n = 1 + src.us(2);
        for _ in 0..n {
            kinds.push(damage(src, &mut s, &al));
        }
    }
    (s, kinds)
}

/// Put a list of characters in front of what the scene's grammar derives, so that positions get large:
/// `pad` items are to be prefixed to a script.
pub fn padded(src: &Src, sc: &mut Scene) -> Option<char> {
    const C: char = 'Ж';
    if sc.text.contains(C) || sc.g.names.iter().any(|n| n == "padding" || n == "padded") {
        return None;
    }
    let g = &mut sc.g;
    let (pad, all) = (g.names.len(), g.names.len() + 1);
    // the new start takes the old one's name, so the tool still finds it
    let old = g.start;
    g.names.push("padding".into());
    g.names.push("padded".into());
    let alts = vec![vec![Sym::T(C.to_string()), Sym::N(pad)], vec![]];
    g.rules.push(Some(Rule { alts, ign: Ign::Off, sect: None }));
    let moved = g.rules[old].take();
    g.rules.push(moved);
    for r in g.rules.iter_mut().flatten() {
        for s in r.alts.iter_mut().flatten() {
            if *s == Sym::N(old) {
                *s = Sym::N(all);
            }
        }
        if r.ign == Ign::On(old) {
            r.ign = Ign::On(all);
        }
    }
    for d in g.directives.iter_mut() {
        if d.1 == old {
            d.1 = all;
        }
    }
    g.rules[old] = Some(Rule { alts: vec![vec![Sym::N(pad), Sym::N(all)]], ign: Ign::Off, sect: None });
    let k = g.order.iter().position(|x| *x == old).unwrap();
    g.order[k] = all;
    g.order.push(pad);
    g.order.push(old);
    let (f, a) = g.analyse();
    if !a.ll1() {
        return None;
    }
    sc.text = sc.g.text(src);
    sc.f = f;
    sc.a = a;
    Some(C)
}

/// Number of items to put in front so that position p (or a neighbour) lands on a round number.
pub fn pad_to(src: &Src, p: usize) -> usize {
    let goal = *src.pick(&[32usize, 64, 100, 128, 255, 256, 257, 300, 511, 512, 768, 1000, 1023, 1024, 1100]);
    (goal + src.us(3)).saturating_sub(1).saturating_sub(p)
}

pub fn st(s: &[char]) -> String {
    s.iter().collect()
}

/// A hash-seed schedule.
pub fn key(src: &Src) -> u64 {
    src.below(1 << 48) | 1
}

pub fn reading(src: &Src) -> crate::vm::Reading {
    if src.pct(50) {
        crate::vm::Reading::Mixed(src.below(1 << 40))
    } else {
        crate::vm::Reading::Plain
    }
}

/// Turn a difference found by the model into a violation.
pub fn diff(d: Option<(&'static str, String)>, what: impl FnOnce() -> String) -> Res {
    match d {
        None => Ok(()),
        Some((k, m)) => crate::ctx::bad(k, format!("{m}\n  in: {}", what())),
    }
}

/// Fixed probes of a property (name, seconds): single inputs too large for the random runs, each in a
/// process of its own.
pub fn fixed(id: &str) -> &'static [(&'static str, u64)] {
    match id {
        "C02" => &[("deep_script", 60)],
        "C05" => &[("long_history", 100)],
        "C06" => &[("deep_branch", 60)],
        "C08" => &[("long_rule_chain", 100), ("long_ignorable", 100)],
        _ => &[],
    }
}

pub fn run_fixed(id: &str, name: &str) -> Res {
    match (id, name) {
        ("C02", "deep_script") => c02::deep(),
        ("C05", "long_history") => c05::long_history(),
        ("C06", "deep_branch") => c06::deep(),
        ("C08", "long_rule_chain") => c08::long_chain(),
        ("C08", "long_ignorable") => c08::long_ignorable(),
        _ => crate::ctx::bad("harness", "no such probe".into()),
    }
}
