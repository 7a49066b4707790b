//! Reference reader of grammar texts, written from the documented syntax and independent of the library.
//!
//!   text      = ( ws ( directive | rule ) )* ws
//!   directive = "$" "IGNORE" ws ":" ws name ws ";"
//!   rule      = name ws "->" ws [ override ] alts [ section ] ws ";"
//!   override  = "$[" name ws ":" ( "#" | name ) "]"            (only IGNORE has a meaning)
//!   alts      = ws alt ( ws "|" ws alt )*  ws
//!   alt       = "#" | ( ws ( name | literal ) )+
//!   section   = "{" ws text "}"      a "}" directly after a backslash belongs to the text
use crate::gram::{Flat, Sym};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RSym {
    T(String),
    N(String),
}

#[derive(Clone, Debug)]
pub struct RRule {
    pub name: String,
    pub alts: Vec<Vec<RSym>>,
    pub ign: Option<String>,
    /// The brace section of the first definition of the rule.
    pub sect: Option<String>,
}

#[derive(Clone, Debug)]
pub struct RGram {
    pub rules: Vec<RRule>,
    /// Every brace section in reading order: rule name, text, position of its first character.
    pub sections: Vec<(String, String, usize)>,
    /// Set if the text uses something whose meaning is not documented.
    pub unspecified: bool,
}

struct R<'a> {
    t: &'a [char],
    p: usize,
}

type E = usize;

impl<'a> R<'a> {
    fn peek(&self) -> Option<char> {
        self.t.get(self.p).copied()
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(|c| c.is_whitespace()) {
            self.p += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> Result<(), E> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(self.p)
        }
    }
    fn name(&mut self) -> Result<String, E> {
        let mut s = String::new();
        match self.peek() {
            Some(c) if c.is_alphabetic() => s.push(c),
            _ => return Err(self.p),
        }
        self.p += 1;
        while let Some(c) = self.peek().filter(|c| c.is_alphanumeric() || *c == '_') {
            s.push(c);
            self.p += 1;
        }
        Ok(s)
    }
    fn literal(&mut self) -> Result<String, E> {
        self.need('"')?;
        let mut s = String::new();
        let mut esc = false;
        loop {
            let c = self.peek().ok_or(self.p)?;
            if c == '"' && !esc {
                self.p += 1;
                return Ok(s);
            }
            esc = c == '\\' && !esc;
            s.push(c);
            self.p += 1;
        }
    }
    fn alt(&mut self) -> Result<Vec<RSym>, E> {
        self.ws();
        if self.eat('#') {
            return Ok(vec![]);
        }
        let mut v = vec![];
        loop {
            self.ws();
            match self.peek() {
                Some('"') => v.push(RSym::T(self.literal()?)),
                Some(c) if c.is_alphabetic() => v.push(RSym::N(self.name()?)),
                _ => break,
            }
        }
        if v.is_empty() {
            return Err(self.p);
        }
        Ok(v)
    }
}

pub fn read(text: &[char]) -> Result<RGram, E> {
    read_seeing(text, &mut vec![])
}

/// As `read`; `seen` gets the position of every section begun and of its end, whether or not the text turns out well.
pub fn read_seeing(text: &[char], seen: &mut Vec<(usize, usize)>) -> Result<RGram, E> {
    let mut r = R { t: text, p: 0 };
    let mut g = RGram {
        rules: vec![],
        sections: vec![],
        unspecified: false,
    };
    let mut ignore: Option<String> = None;
    loop {
        r.ws();
        if r.peek().is_none() {
            return Ok(g);
        }
        if r.eat('$') {
            if r.name()? != "IGNORE" {
                return Err(r.p);
            }
            r.ws();
            r.need(':')?;
            r.ws();
            let n = r.name()?;
            r.ws();
            r.need(';')?;
            ignore = Some(n);
            continue;
        }
        let name = r.name()?;
        r.ws();
        r.need('-')?;
        r.need('>')?;
        r.ws();
        let mut ign = ignore.clone();
        if r.eat('$') {
            r.need('[')?;
            let k = r.name()?;
            r.ws();
            r.need(':')?;
            if k == "IGNORE" {
                if r.eat('#') {
                    ign = None;
                } else {
                    ign = Some(r.name()?);
                }
            } else {
                g.unspecified = true;
            }
            r.need(']')?;
        }
        let mut alts = vec![r.alt()?];
        loop {
            r.ws();
            if !r.eat('|') {
                break;
            }
            alts.push(r.alt()?);
        }
        let mut sect = None;
        if r.eat('{') {
            r.ws();
            let from = r.p;
            let mut s = String::new();
            let mut last = None;
            seen.push((from, from));
            loop {
                seen.last_mut().unwrap().1 = r.p;
                let c = r.peek().ok_or(r.p)?;
                if c == '}' && last != Some('\\') {
                    break;
                }
                s.push(c);
                last = Some(c);
                r.p += 1;
            }
            r.need('}')?;
            g.sections.push((name.clone(), s.clone(), from));
            sect = Some(s);
        }
        r.ws();
        r.need(';')?;
        match g.rules.iter_mut().find(|x| x.name == name) {
            Some(x) => x.alts.extend(alts),
            None => g.rules.push(RRule { name, alts, ign, sect }),
        }
    }
}

impl RGram {
    pub fn rule(&self, n: &str) -> Option<&RRule> {
        self.rules.iter().find(|r| r.name == n)
    }
    pub fn reachable(&self, from: &str) -> BTreeSet<String> {
        let mut seen = BTreeSet::from([from.to_string()]);
        let mut todo = vec![from.to_string()];
        while let Some(x) = todo.pop() {
            if let Some(r) = self.rule(&x) {
                for s in r.alts.iter().flatten() {
                    if let RSym::N(y) = s {
                        if seen.insert(y.clone()) {
                            todo.push(y.clone());
                        }
                    }
                }
            }
        }
        seen
    }
    /// True if an ignorable in force leads to an undefined production: whether reading or only building
    /// the parser reports it is not specified.
    pub fn dangling_ignorable(&self) -> bool {
        self.rules
            .iter()
            .filter_map(|r| r.ign.as_ref())
            .any(|i| self.reachable(i).iter().any(|n| self.rule(n).is_none()))
    }
    /// Alternatives in force, ignorables woven in.
    pub fn woven(&self) -> Vec<Vec<Vec<RSym>>> {
        self.rules
            .iter()
            .map(|r| match &r.ign {
                Some(g) if !self.reachable(g).contains(&r.name) => r
                    .alts
                    .iter()
                    .map(|a| {
                        let mut w = vec![];
                        for s in a {
                            if !w.is_empty() {
                                w.push(RSym::N(g.clone()));
                            }
                            w.push(s.clone());
                        }
                        w
                    })
                    .collect(),
                _ => r.alts.clone(),
            })
            .collect()
    }
    /// Numbered form for analysis; None if a production is undefined (or there is no `start`).
    pub fn flat(&self, start: &str) -> Option<(Vec<String>, Flat)> {
        let names: Vec<String> = self.rules.iter().map(|r| r.name.clone()).collect();
        let ix: BTreeMap<&str, usize> = names.iter().enumerate().map(|(i, n)| (n.as_str(), i)).collect();
        if self.dangling_ignorable() {
            return None;
        }
        let mut prods = vec![];
        for alts in self.woven() {
            let mut ps = vec![];
            for a in alts {
                let mut p = vec![];
                for s in a {
                    p.push(match s {
                        RSym::T(t) => Sym::T(t),
                        RSym::N(n) => Sym::N(*ix.get(n.as_str())?),
                    });
                }
                ps.push(p);
            }
            prods.push(ps);
        }
        let start = *ix.get(start)?;
        Some((names.clone(), Flat { prods, start }))
    }
}
