//! Number, name and symbol readers take exactly what they return, wherever the stream ends or stalls.
use super::*;
use crate::ctx::{bad, clip};
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use std::collections::VecDeque;

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 1_000_000,
    rule: "a stream of numbers (also at the limits of their range and thousands of digits long), names, blanks and symbols that \
           may end or stall between any two characters, read by a random sequence of calls of the number, name, symbol and \
           white-space readers, mixed with single reads, at top level and in delimited sections with escapes; value, error, place, \
           and what is left are compared with the text after every call; non-trivial: at least 3 calls that consumed something; \
           distinct: digest of stream and calls",
    real: "parse_funcs, ParseProcess, PeekableWrapper",
    stub: "character source (simulated: ends, stalls), the caller (schedule of reading calls)",
};

struct Stream(VecDeque<Option<char>>);

impl Iterator for Stream {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.pop_front().flatten()
    }
}

struct Level {
    stop: Option<char>,
    esc: Option<char>,
    armed: bool,
}

struct Model {
    text: Vec<char>,
    /// A stall may still stand before this character (or before the end).
    stall: Vec<bool>,
    at: usize,
    levels: Vec<Level>,
    log: Vec<String>,
    fruitful: usize,
}

impl Model {
    /// The characters every level lets through from here on, up to the first that is held back.
    fn open_run(&self, pred: &mut dyn FnMut(usize, char) -> bool) -> usize {
        let mut armed: Vec<bool> = self.levels.iter().map(|l| l.armed).collect();
        let mut n = 0;
        while let Some(&c) = self.text.get(self.at + n) {
            if self.levels.iter().zip(&armed).any(|(l, a)| l.stop == Some(c) && !a) || !pred(n, c) {
                break;
            }
            for (l, a) in self.levels.iter().zip(armed.iter_mut()) {
                *a = l.esc == Some(c);
            }
            n += 1;
        }
        n
    }
    fn visible(&self) -> Option<char> {
        (self.open_run(&mut |n, _| n < 1) == 1).then(|| self.text[self.at])
    }
    /// A reader that began here may have stopped after n characters of a run of `run`.
    fn may_stop(&self, n: usize, run: usize) -> bool {
        n == run || (n < run && self.stall[self.at + n])
    }
    fn eat(&mut self, n: usize) {
        for _ in 0..n {
            let c = self.text[self.at];
            self.stall[self.at] = false;
            for l in self.levels.iter_mut() {
                l.armed = l.esc == Some(c);
            }
            self.at += 1;
        }
    }
    fn said(&self, n: usize) -> String {
        self.text[self.at..self.at + n].iter().collect()
    }
}

const CALLS: &[&str] = &["usize", "isize", "digits", "name", "white", "symbol", "next", "peek"];

fn gen_text(src: &Src) -> Vec<char> {
    let mut s = String::new();
    let big = |src: &Src, s: &mut String| {
        let b: u128 = *src.pick(&[usize::MAX as u128, isize::MAX as u128, isize::MAX as u128 + 1, u32::MAX as u128, u128::MAX / 10]);
        let d = src.us(5) as i128 - 2;
        *s += &format!("{}", (b as i128).wrapping_add(d) as u128 & (u128::MAX >> 1));
    };
    for _ in 0..src.range(1, 8) {
        match src.below(16) {
            0..=3 => s += &format!("{}", src.below(10u64.pow(1 + src.us(6) as u32))),
            4 | 5 => big(src, &mut s),
            6 => {
                s += &"0".repeat(*src.pick(&[1, 2, 5, 30, 400, 5000]));
                if src.pct(50) {
                    big(src, &mut s);
                } else {
                    s += &format!("{}", src.below(100));
                }
            }
            7 => s += "-",
            8 => {
                s += "-";
                if src.pct(50) {
                    big(src, &mut s);
                } else {
                    s += &format!("{}", src.below(1000));
                }
            }
            9 | 10 if src.below(25) == 0 => {
                let w = *src.pick(&["a", "x_1é", " ", "\n\u{3000}"]);
                s += &w.repeat(*src.pick(&[20usize, 63, 70, 130, 260, 1100]));
            }
            9 => s += *src.pick(&["abc", "x_1", "é9", "ªx", "_x", "Z", "x٣", "a__", "ß"]),
            10 if src.pct(40) => {
                for _ in 0..src.range(1, 4) {
                    s.push(blank(src));
                }
            }
            10 => s += *src.pick(&[" ", "\t\n", "\u{3000}", "\r\n ", "\u{85}", "   "]),
            11 if src.pct(40) => {
                if src.pct(50) {
                    s += &odd_name(src);
                } else {
                    s.push(odd_char(src));
                }
            }
            11 => s += *src.pick(&["٣", "²", "½", "Ⅷ", "🯰", "1٣", "7²"]),
            12 => s += *src.pick(&["}", "\\}", "\\\\", "\\", "\\}}", "1}2", "1\\}2"]),
            13 => s += *src.pick(&[";", ",", "+", ".", "#", "\0"]),
            14 => s += "+5",
            _ => s += *src.pick(&["1.5", "0x1F", "1e5", "1_000", "--1", "- 1"]),
        }
        if src.pct(30) {
            s.push(*src.pick(&[' ', ';', '-']));
        }
    }
    s.chars().collect()
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let text = gen_text(src);
    let often = if src.pct(40) { 0 } else { *src.pick(&[2u64, 10, 40]) };
    let mut items = VecDeque::new();
    let mut stall = vec![false; text.len() + 1];
    for (i, c) in text.iter().enumerate() {
        if often > 0 && src.pct(often) && text.len() < 200 {
            items.push_back(None);
            stall[i] = true;
        }
        items.push_back(Some(*c));
    }
    let stalls = stall.iter().filter(|x| **x).count();
    ctx.faults_n("stream_stall", stalls as u64);
    let mut m = Model {
        stall,
        at: 0,
        levels: vec![level(src)],
        log: vec![],
        fruitful: 0,
        text,
    };
    ctx.note(|| format!("stream {:?} with {stalls} stalls", st(&m.text)));
    let start = *src.pick(&[0, 0, 0, 1, 77, 4095]);
    let rest = (src.range(2, 12), src.range(0, 10), src.range(0, 6));
    let mut w = PeekableWrapper::new(Stream(items).peekable());
    let r = (|| {
        let mut outer = ParseProcess::new_nested(&mut w, m.levels[0].stop, m.levels[0].esc, start);
        drive(src, &mut outer, &mut m, rest.0)?;
        if rest.1 > 0 {
            ctx.fault("delimited_section");
            let l = level(src);
            m.log.push(format!("section until {:?}, escape {:?} {{", l.stop, l.esc));
            let mut inner = ParseProcess::new_nested(&mut outer, l.stop, l.esc, src.us(100));
            m.levels.push(l);
            let r = drive(src, &mut inner, &mut m, rest.1);
            m.levels.pop();
            m.log.push("}".into());
            r?;
        }
        drive(src, &mut outer, &mut m, rest.2)
    })();
    // what is left must be what was not read
    let r = r.and_then(|_| {
        let (mut left, mut none) = (String::new(), 0);
        while none < stalls + 2 {
            match w.next() {
                Some(c) => left.push(c),
                None => none += 1,
            }
        }
        let want: String = m.text[m.at..].iter().collect();
        if left == want {
            Ok(())
        } else {
            bad("rest", format!("left over is {:?}, but {:?} was not read yet", clip(&left, 80), clip(&want, 80)))
        }
    });
    ctx.steps += m.log.len() as u64;
    ctx.case(&format!("{:?} {:?}", m.text, m.log));
    ctx.see(&format!("{:?}", m.log));
    ctx.nontrivial = m.fruitful >= 3;
    ctx.sample = format!("stream {:?} ({stalls} stalls), calls {}", clip(&st(&m.text), 120), clip(&m.log.join("; "), 300));
    if m.at < m.text.len() {
        ctx.fault("stream_left_early");
    } else {
        ctx.probe("stream_read_to_the_end");
    }
    for l in &m.log {
        for k in ["out of range", "no number", "stalled", "held back"] {
            if l.contains(k) {
                ctx.probe(&k.replace(' ', "_"));
            }
        }
        ctx.note(|| l.clone());
    }
    r.map_err(|mut v| {
        v.msg = format!("{}\n  in: stream {:?} ({stalls} stalls)\n  calls {}", v.msg, clip(&st(&m.text), 300), m.log.join("; "));
        v
    })
}

fn level(src: &Src) -> Level {
    Level {
        stop: *src.pick(&[None, None, Some('}'), Some('}'), Some(';'), Some('5'), Some(' '), Some('-')]),
        esc: *src.pick(&[None, Some('\\'), Some('\\'), Some('1'), Some('-')]),
        armed: false,
    }
}

/// What an error says: the place, and the character standing there or the end.
fn place(e: &ParserError) -> Option<(usize, Option<char>)> {
    match e {
        ParserError::EndOfCharsError { pos } => Some((*pos, None)),
        ParserError::UnexpectedCharError { chr, pos, .. } => Some((*pos, Some(*chr))),
        _ => None,
    }
}

fn drive<T: TPeekable<Item = char>>(src: &Src, pp: &mut ParseProcess<T>, m: &mut Model, calls: usize) -> Res {
    for _ in 0..calls {
        let call = match m.visible() {
            Some(_) if m.stall[m.at] && src.pct(60) => "next",
            // mostly the call that fits
            Some(c) if src.pct(60) => match c {
                '0'..='9' => *src.pick(&["usize", "isize", "digits"]),
                '-' => *src.pick(&["isize", "symbol"]),
                c if c.is_whitespace() => "white",
                c if c.is_alphabetic() => "name",
                _ => *src.pick(&["symbol", "next"]),
            },
            _ => *src.pick(CALLS),
        };
        let before = pp.cur_pos();
        let here = m.visible();
        let stalled = m.stall[m.at];
        let mut note = "";
        if stalled {
            note = " (stalled)";
        } else if here.is_none() && m.at < m.text.len() {
            note = " (held back)";
        }
        // an error that says there is no beginning of what was asked for after `done` characters
        let no_start = |m: &Model, e: &ParserError, done: usize, begins: &dyn Fn(char) -> bool| -> bool {
            let next = {
                let n = m.open_run(&mut |n, _| n <= done);
                (n > done).then(|| m.text[m.at + done])
            };
            let stalled = m.stall[m.at + done];
            match place(e) {
                Some((pos, _)) if pos != before + done => false,
                Some((_, None)) => next.is_none() || stalled,
                Some((_, Some(c))) => next == Some(c) && (stalled || !begins(c)),
                None => false,
            }
        };
        let digit = |c: char| c.is_ascii_digit();
        let (ok, told, run, kind): (bool, String, usize, &str) = match call {
            "usize" | "isize" => {
                let minus = call == "isize" && here == Some('-');
                let sign = minus as usize;
                let run = m.open_run(&mut |n, c| if n == 0 && minus { true } else { digit(c) });
                let r: Result<i128, ParserError> = if call == "usize" {
                    parse_usize(pp).map(|v| v as i128)
                } else {
                    parse_isize(pp).map(|v| v as i128)
                };
                let got = pp.cur_pos().wrapping_sub(before);
                let told = format!("{r:?}");
                if got > run {
                    (false, told, run, "took_too_much")
                } else {
                    let said = m.said(got);
                    let digits = said.trim_start_matches('-').trim_start_matches('0');
                    let value = match digits.len() {
                        0 => Some(0),
                        1..=30 => digits.parse::<i128>().ok(),
                        _ => None,
                    }
                    .map(|v| if minus { -v } else { v })
                    .filter(|v| {
                        if call == "usize" {
                            usize::try_from(*v).is_ok()
                        } else {
                            isize::try_from(*v).is_ok()
                        }
                    });
                    match &r {
                        Ok(v) if got <= sign => (false, format!("{v} without a digit"), run, "number_from_nothing"),
                        Ok(v) => (value == Some(*v) && m.may_stop(got, run), told, run, "wrong_value"),
                        Err(e) if got <= sign => {
                            note = if note.is_empty() { " (no number)" } else { note };
                            let ok = no_start(m, e, got, &|c| digit(c) || (got == 0 && call == "isize" && c == '-'));
                            (ok, told, run, "error_of_nothing")
                        }
                        Err(_) => {
                            note = " (out of range)";
                            (value.is_none(), told, run, "number_refused")
                        }
                    }
                }
            }
            "digits" => {
                let run = m.open_run(&mut |_, c| digit(c));
                let r = parse_digits(pp);
                let got = pp.cur_pos().wrapping_sub(before);
                let ok = got <= run && m.may_stop(got, run) && r.as_ref().ok().is_some_and(|s| *s == m.said(got));
                (ok, format!("{:?}", r.map(|s| clip(&s, 60))), run, "digits")
            }
            "name" => {
                let run = m.open_run(&mut |n, c| c.is_alphabetic() || (n > 0 && (c.is_alphanumeric() || c == '_')));
                let r = parse_var_name(pp);
                let got = pp.cur_pos().wrapping_sub(before);
                let ok = match &r {
                    Ok(s) => got > 0 && got <= run && m.may_stop(got, run) && *s == m.said(got),
                    Err(e) => got == 0 && no_start(m, e, 0, &char::is_alphabetic),
                };
                (ok, format!("{r:?}"), run, "name")
            }
            "white" => {
                let run = m.open_run(&mut |_, c| c.is_whitespace());
                parse_whitespace(pp);
                let got = pp.cur_pos().wrapping_sub(before);
                (got <= run && m.may_stop(got, run), format!("{got} characters"), run, "white_space")
            }
            "symbol" => {
                let want = match here {
                    Some(c) if src.pct(60) => c,
                    _ => *src.pick(&[';', '}', '-', '5', 'a', ' ']),
                };
                let r = parse_symbol(pp, want);
                let got = pp.cur_pos().wrapping_sub(before);
                let ok = match &r {
                    Ok(()) => got == 1 && here == Some(want),
                    Err(e) => got == 0 && no_start(m, e, 0, &|c| c == want),
                };
                (ok, format!("{want:?}: {r:?}"), 1, "symbol")
            }
            "next" => {
                let r = pp.next();
                let ok = r == here || (r.is_none() && stalled);
                if r.is_none() {
                    m.stall[m.at] = false;
                }
                (ok, format!("{r:?}"), 1, "single_character")
            }
            _ => {
                let r = pp.peek().copied();
                (r == here || (r.is_none() && stalled), format!("{r:?}"), 0, "single_character")
            }
        };
        let got = pp.cur_pos().wrapping_sub(before);
        m.log.push(format!("{call} -> {}, took {}{note}", clip(&told, 90), got as isize));
        if !ok || m.at + got > m.text.len() {
            let n = m.open_run(&mut |n, _| n < 60);
            return bad(
                kind,
                format!(
                    "{call} at position {before} answered {} and took {} characters; next there: {:?}, of which {run} belong to it",
                    clip(&told, 200),
                    got as isize,
                    m.said(n)
                ),
            );
        }
        m.eat(got);
        m.fruitful += (got > 0) as usize;
    }
    Ok(())
}
