//! The command-line tool exits 0 exactly when the script file conforms.
use super::*;
use crate::ctx::bad;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 150_000,
    rule: "one execution of the real binary on a grammar file and a script file (good, damaged, invalid UTF-8, missing, a \
           directory, a link, one file for both, of any size and name) under a plan of open, size and read faults; the exit status is compared with the reference reader, \
           analysis and derivation; non-trivial: a fault fired, a file was damaged, or the verdict is success; \
           distinct: digest of file contents, plan and hash key",
    real: "the command-line binary (src/main.rs and everything below it), kernel files",
    stub: "open/read/stat results of the two files and hash seeds (LD_PRELOAD shim following the plan)",
};

struct FilePlan {
    open: i32,
    size: u8,
    reads: Vec<String>,
}

fn plan(src: &Src, busy: bool) -> FilePlan {
    let mut p = FilePlan {
        open: 0,
        size: 0,
        reads: vec![],
    };
    if !busy {
        return p;
    }
    match src.below(12) {
        0 => p.open = *src.pick(&[13, 2, 24, 5, 40]),
        1 => p.size = 1,
        2 => p.size = 2,
        _ => {}
    }
    let hard = src.pct(25);
    let n = src.us(6);
    for _ in 0..n {
        p.reads.push(match src.below(6) {
            0 | 1 => "i".into(),
            2..=4 => format!("s{}", 1 + src.us(9)),
            _ => "n".into(),
        });
    }
    if hard {
        p.reads.push(format!("e{}", *src.pick(&[5, 5, 21, 116, 12])));
    }
    p
}

/// A name a file can have. What it is called is no part of the verdict.
fn odd_name(src: &Src) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let b: Vec<u8> = match src.below(9) {
        0 => b"a b\tc.txt".to_vec(),
        1 => "grammatik-\u{e4}\u{1f4a5}".into(),
        2 => b"caf\xe9.txt".to_vec(),
        3 => b"\xff\xfe".to_vec(),
        4 => b"-".to_vec(),
        5 => b"--help".to_vec(),
        6 => vec![b'x'; 255],
        7 => b"$(x);'\"\\\n".to_vec(),
        _ => b"a=b".to_vec(),
    };
    std::ffi::OsString::from_vec(b)
}

fn bytes_damage(src: &Src, b: &mut Vec<u8>, ctx: &mut Ctx) {
    if b.is_empty() {
        return;
    }
    let k = src.us(b.len());
    match src.below(4) {
        0 => {
            b[k] ^= 1 << src.us(8);
            ctx.fault("bit_flip");
        }
        1 => {
            b.truncate(k);
            ctx.fault("file_truncated");
        }
        2 => {
            b.insert(k, *src.pick(&[0x80u8, 0xff, 0xc3, 0xf0, 0xed, 0x00]));
            ctx.fault("byte_inserted");
        }
        _ => {
            let l = (1 + src.us(8)).min(b.len() - k);
            for x in &mut b[k..k + l] {
                *x = 0;
            }
            ctx.fault("block_zeroed");
        }
    }
}

/// Some(true/false): must / must not exit 0. None: not specified.
pub fn verdict(rules: &str, script: &str) -> Option<bool> {
    let r: Vec<char> = rules.chars().collect();
    let Ok(g) = crate::reader::read(&r) else { return Some(false) };
    if g.unspecified {
        return None;
    }
    let Some((_, f)) = g.flat("start") else { return Some(false) };
    let a = analyse(&f);
    if !a.ll1() {
        return Some(false);
    }
    let s: Vec<char> = script.chars().collect();
    Some(derive(&f, &a, &s).end.is_ok())
}

fn run(src: &Src, ctx: &mut Ctx) -> Res {
    let cli = std::env::var("SIM_CLI").unwrap_or_else(|_| "/verif/target/cli/debug/henriks-parsing-project".into());
    let shim = std::env::var("SIM_SHIM").unwrap_or_else(|_| "/verif/target/shim.so".into());
    if !std::path::Path::new(&cli).exists() || !std::path::Path::new(&shim).exists() {
        panic!("command-line binary or shim not built");
    }
    let (mut rules, mut script_b): (Vec<u8>, Vec<u8>);
    if src.pct(25) {
        let g = gen_any(src, &GenOpt { max_nt: 5, ignores: 20, undefined: 10, ..GenOpt::default() });
        rules = g.text(src).into_bytes();
        script_b = st(&gen_sentence(src, &g.flat(), 12)).into_bytes();
    } else {
        let Some(mut sc) = scene(src, ctx, &GenOpt { ignores: 20, max_nt: 6, ..GenOpt::default() }) else {
            ctx.no_verdict = true;
            return Ok(());
        };
        // more than any buffer takes in one go
        let huge = src.below(1200) == 0;
        let far = if huge || src.pct(6) { padded(src, &mut sc) } else { None };
        rules = sc.text.clone().into_bytes();
        let (mut s, k) = script(src, &sc, if far.is_some() { 80 } else { 35 });
        if let Some(c) = far {
            let p = derive(&sc.f, &sc.a, &s).end.err().unwrap_or(0);
            let mut n = pad_to(src, p);
            if huge {
                n = *src.pick(&[4_100usize, 33_000, 66_000, 140_000, 530_000]) + src.us(8);
                ctx.probe("script_larger_than_buffers");
            }
            s.splice(0..0, std::iter::repeat_n(c, n));
            ctx.probe("script_with_large_positions");
        }
        for k in k {
            ctx.fault(k);
        }
        script_b = st(&s).into_bytes();
    }
    if src.pct(12) {
        bytes_damage(src, &mut rules, ctx);
    }
    if src.pct(15) {
        bytes_damage(src, &mut script_b, ctx);
    }
    // what a lenient reader would turn into something else: not UTF-8 where a derivable script has a
    // replacement character, a byte order mark in front, other line ends
    if src.pct(5) {
        let b = if src.pct(50) { &mut rules } else { &mut script_b };
        match src.below(3) {
            0 => {
                // the same character in the grammar, where the script must match it
                if let (Ok(r), Ok(s)) = (std::str::from_utf8(&rules), std::str::from_utf8(&script_b)) {
                    if let Some(c) = s.chars().filter(|c| !"\"\\|;#{}$>-".contains(*c) && !c.is_alphanumeric()).last().or(s.chars().last()) {
                        let fffd = '\u{fffd}'.to_string();
                        if c != '\u{fffd}' && !c.is_whitespace() {
                            let r2 = r.replace(c, &fffd);
                            let parts: Vec<&str> = s.split(c).collect();
                            let bad: &[u8] = *src.pick(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xe2\x82", b"\xf0\x9f\x92"]);
                            let mut out = vec![];
                            let k = src.us(parts.len());
                            for (i, p) in parts.iter().enumerate() {
                                if i > 0 {
                                    out.extend_from_slice(if i == k { bad } else { fffd.as_bytes() });
                                }
                                out.extend_from_slice(p.as_bytes());
                            }
                            rules = r2.into_bytes();
                            script_b = out;
                            ctx.fault("replacement_character_place_not_utf8");
                        }
                    }
                }
            }
            1 => {
                for (i, x) in "\u{feff}".bytes().enumerate() {
                    b.insert(i, x);
                }
                ctx.fault("byte_order_mark");
            }
            _ => {
                b.extend_from_slice(*src.pick(&[&b"\n"[..], b"\r\n", b" ", b"\0", b"\x1a"]));
                ctx.fault("text_appended");
            }
        }
    }
    if src.pct(4) {
        // blanks in front: a grammar error lands on a round position
        let p = std::str::from_utf8(&rules).ok().and_then(|r| crate::reader::read(&r.chars().collect::<Vec<_>>()).err()).unwrap_or(0);
        let n = pad_to(src, p);
        rules.splice(0..0, std::iter::repeat_n(b' ', n));
        ctx.probe("grammar_with_large_positions");
    }
    let busy = src.pct(60);
    let plans = [plan(src, busy), plan(src, busy)];
    // 0 both files there; 1/2 missing; 3/4 a directory; 5/6 an empty file
    let odd = if src.pct(12) { 1 + src.us(6) } else { 0 };
    let args = if src.pct(3) { src.us(2) } else { 2 };
    let hk = key(src);

    let dir = std::env::temp_dir().join(format!("simcli-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let mut paths: [PathBuf; 2] = [dir.join("rules.txt"), dir.join("script.txt")];
    for p in paths.iter_mut() {
        if src.pct(6) {
            p.set_file_name(odd_name(src));
            ctx.probe("odd_file_name");
        }
    }
    if paths[0] == paths[1] {
        paths[1].set_file_name("script.txt");
    }
    // one file for both, or a file reached through a link
    let same = odd == 0 && src.pct(2);
    if same {
        paths[1] = paths[0].clone();
        script_b = rules.clone();
        ctx.fault("one_file_for_both");
    }
    let linked = src.pct(3);
    let log = dir.join("log");
    let mut unreadable = false;
    for (i, p) in paths.iter().enumerate() {
        let body = if i == 0 { &rules } else { &script_b };
        if odd == 1 + i {
            ctx.fault("file_missing");
            unreadable = true;
        } else if odd == 3 + i {
            std::fs::create_dir(p).expect("scratch");
            ctx.fault("file_is_a_directory");
            unreadable = true;
        } else if odd == 5 + i {
            std::fs::write(p, b"").expect("scratch");
            ctx.fault("file_empty");
        } else if linked && !p.exists() {
            let real = dir.join(format!("real{i}"));
            std::fs::write(&real, body).expect("scratch");
            std::os::unix::fs::symlink(&real, p).expect("scratch");
            ctx.fault("file_is_a_link");
        } else {
            std::fs::write(p, body).expect("scratch");
        }
    }
    if odd == 5 {
        rules.clear();
    }
    if odd == 6 {
        script_b.clear();
    }
    let mut cmd = Command::new(&cli);
    cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    cmd.args(&paths[..args]);
    cmd.env("LD_PRELOAD", &shim).env("SIM_KEY", hk.to_string()).env("SIM_LOG", &log);
    cmd.env_remove("RUST_BACKTRACE");
    for i in 0..2 {
        cmd.env(format!("SIM_F{i}"), &paths[i]);
        cmd.env(format!("SIM_O{i}"), plans[i].open.to_string());
        cmd.env(format!("SIM_S{i}"), plans[i].size.to_string());
        cmd.env(format!("SIM_R{i}"), plans[i].reads.join(" "));
    }
    let t0 = Instant::now();
    let mut child = cmd.spawn().expect("start of the command-line tool");
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() > Duration::from_secs(20) => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let fired = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);

    let mut hard = false;
    for l in fired.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[1] {
            "open" => {
                ctx.fault("open_error");
                hard = true;
            }
            "read" => {
                ctx.fault("read_error");
                hard = true;
            }
            "eintr" => ctx.fault("read_interrupted"),
            "short" => ctx.fault("read_short"),
            "stat" => ctx.fault("size_query_error"),
            _ => ctx.fault("size_query_says_0"),
        }
    }
    let texts = (std::str::from_utf8(&rules), std::str::from_utf8(&script_b));
    let want = if args < 2 {
        ctx.fault("argument_missing");
        Some(false)
    } else if unreadable || hard {
        Some(false)
    } else {
        match texts {
            (Ok(r), Ok(s)) => verdict(r, s),
            (Err(_), Ok(_)) => {
                ctx.fault("grammar_not_utf8");
                Some(false)
            }
            _ => {
                ctx.fault("script_not_utf8");
                Some(false)
            }
        }
    };
    ctx.steps += 1 + fired.lines().count() as u64;
    ctx.case(&format!("{rules:?} {script_b:?} {} {:?} {:?} {odd} {args} {hk}", fired, plans[0].reads, plans[1].reads));
    let shown = |b: &[u8]| {
        let s = String::from_utf8_lossy(b);
        let n = s.chars().count();
        if n > 3000 {
            format!("({n} characters, the last ones) {:?}", s.chars().skip(n - 200).collect::<String>())
        } else {
            format!("{s:?}")
        }
    };
    ctx.sample = format!(
        "rules {} script {} read plans {:?}/{:?} fired {:?} -> {status:?}",
        shown(&rules),
        shown(&script_b),
        plans[0].reads,
        plans[1].reads,
        fired
    );
    let code = match &status {
        None => return bad("hangs", format!("still running after 20 s\n  in: {}", ctx.sample)),
        Some(s) => s.code(),
    };
    let zero = code == Some(0);
    ctx.see(&format!("{zero} {fired}"));
    ctx.note(|| format!("rules file {}", shown(&rules)));
    ctx.note(|| format!("script file {}", shown(&script_b)));
    ctx.note(|| format!("files {paths:?}"));
    ctx.note(|| format!("arguments {args}, odd file {odd}, plans: open {}/{} size {}/{} reads {:?}/{:?}", plans[0].open, plans[1].open, plans[0].size, plans[1].size, plans[0].reads, plans[1].reads));
    ctx.note(|| format!("fired: {:?}; exit status {status:?}; expected success {want:?}", fired));
    let Some(want) = want else {
        ctx.probe("unspecified");
        ctx.no_verdict = true;
        return Ok(());
    };
    ctx.nontrivial = !fired.is_empty() || want || odd > 0 || args < 2;
    ctx.probe(if want { "must_succeed" } else { "must_fail" });
    if zero != want {
        return bad(
            if want { "failure_reported" } else { "success_reported" },
            format!(
                "exit status {status:?}, but {}\n  in: {}",
                if want {
                    "both files could be read and the script conforms"
                } else {
                    "the files could not be read completely or the script does not conform"
                },
                ctx.sample
            ),
        );
    }
    Ok(())
}
