//! Several parses at the same time, and what parsing leaves behind.
use super::mime::any_mail;
use super::robust::*;
use super::*;
use crate::cov;

/// messages of all kinds, none of them extreme
fn some_mail(c: &mut Ctx) -> (Vec<u8>, u32) {
    match c.s.weighted(&[6, 2, 1]) {
        0 => (any_mail(c, 3, 10, 15), 0),
        1 => {
            let mut b = any_mail(c, 2, 8, 10);
            mutate(c.s, &mut b);
            (b, 1)
        }
        _ => {
            let mut b = b"From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\n".to_vec();
            let n = 1 + c.s.size(8, 60);
            b.extend(snippets(c.s, n));
            (b, 2)
        }
    }
}
/// the same message with other letters and digits in a few places
fn variant(c: &mut Ctx, b: &[u8], n: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    if v.is_empty() {
        return v;
    }
    for _ in 0..n {
        let i = c.s.below(v.len() as u32) as usize;
        let k = 1 + c.s.below(8) as u8;
        let x = v[i];
        v[i] = match x {
            b'a'..=b'z' => (x - b'a' + k) % 26 + b'a',
            b'A'..=b'Z' => (x - b'A' + k) % 26 + b'A',
            b'0'..=b'9' => (x - b'0' + k) % 10 + b'0',
            _ => x,
        };
    }
    v
}
fn script(c: &mut Ctx) -> Vec<(u32, u32)> {
    let n = c.s.size(20, 120);
    let scale = *c.s.pick(&[300u32, 20, 3000, 30_000, 4]);
    (0..n).map(|_| (c.s.below(scale), c.s.below(4))).collect()
}

pub static C35: PropDef = PropDef {
    id: "C35",
    run: c35,
    labels: &["mail as built", "mutated mail", "fragments", "same buffer", "variants of one message", "different messages", "accepted", "shared entity", "multipart shared", "4 threads", "large bodies in between"],
    rule: "two to four threads that parse one to three messages each (different ones, variants of one, or one shared buffer) under a drawn schedule that passes the processor from thread to thread at comparisons inside the library and at its accesses to variables of the whole program, and threads that decode one shared entity, and now and then bodies of up to 4 MB in between; every result is compared with the one obtained alone before; non-trivial: at least one message is accepted and the schedule has a switch; distinct by messages and schedule",
};
type Both = (SutRes<Msg>, SutRes<EmailV>);
fn alone(c: &mut Ctx, d: &[u8], depth: usize) -> Both {
    let (mut a, mut b) = (Audit::default(), Audit::default());
    (c.sut.message(d, &mut a), c.sut.email(d, depth, &mut b))
}
fn unlike(a: &Both, b: &Both) -> Option<String> {
    if a.0 != b.0 {
        return Some(clip(format!("parse_message gives {:?} instead of {:?}", b.0, a.0)));
    }
    if a.1 != b.1 {
        return Some(clip(format!("Email::parse gives {:?} instead of {:?}", b.1, a.1)));
    }
    None
}
fn c35(c: &mut Ctx) -> Result<(), String> {
    let n = 2 + c.s.weighted(&[5, 2, 1]);
    if n == 4 {
        c.o.label(9);
    }
    let (first, l) = some_mail(c);
    c.o.label(l);
    let mut data = vec![first.clone()];
    match c.s.weighted(&[4, 4, 2]) {
        0 => {
            c.o.label(5);
            for _ in 1..n {
                data.push(some_mail(c).0);
            }
        }
        1 => {
            c.o.label(4);
            for _ in 1..n {
                let k = 1 + c.s.size(6, 60);
                data.push(variant(c, &first, k));
            }
        }
        _ => c.o.label(3),
    }
    if data.iter().map(|d| d.len()).sum::<usize>() > 40_000 {
        return Ok(());
    }
    let jobs: Vec<Vec<usize>> = (0..n)
        .map(|k| {
            let m = 1 + c.s.weighted(&[4, 2, 1]);
            (0..m).map(|j| if j == 0 { k % data.len() } else { c.s.below(data.len() as u32) as usize }).collect()
        })
        .collect();
    let sc = script(c);
    let every = *c.s.pick(&[1u32, 2, 3, 8, 40, 0]);
    cov::sched::accesses(every, c.s.below(1 << 16));
    c.o.input = data.join(&b"\n----\n"[..]);
    c.o.note = format!("{} threads, {} switches planned", n, sc.len());
    let depth = 3;
    let solo: Vec<Both> = data.iter().map(|d| alone(c, d, depth)).collect();
    for s in &solo {
        if let (Err(Fail::Panic(m)), _) | (_, Err(Fail::Panic(m))) = s {
            return Err(format!("panic: {}", m));
        }
    }
    if solo.iter().any(|s| s.0.is_ok()) {
        c.o.label(6);
        c.o.nontrivial = !sc.is_empty();
    }
    let got = c.sut.threads(&data, &jobs, &sc, depth);
    for (k, job) in jobs.iter().enumerate() {
        if got[k].len() != job.len() {
            return Err(format!("thread {} died", k));
        }
        for (j, &i) in job.iter().enumerate() {
            if let Some(m) = unlike(&solo[i], &got[k][j]) {
                return Err(format!("thread {}, parse {}, next to other threads: {}", k, j, m));
            }
        }
    }
    if let Ok(e) = &solo[0].1 {
        if let Some(want) = &e.ent {
            c.o.label(7);
            if matches!(want.node.as_deref(), Some(Node::Multi { .. })) {
                c.o.label(8);
            }
            let sc = script(c);
            let every = *c.s.pick(&[1u32, 2, 3, 8, 40, 0]);
            cov::sched::accesses(every, c.s.below(1 << 16));
            match c.sut.shared_entity(&data[0], n, &sc, depth) {
                Ok(v) => {
                    for (k, r) in v.iter().enumerate() {
                        match r {
                            Ok(g) if g == want => {}
                            Ok(g) => return Err(clip(format!("thread {} decodes the shared entity to {:?} instead of {:?}", k, g, want))),
                            Err(e) => return Err(format!("thread {} fails on the shared entity: {}", k, show_fail(e))),
                        }
                    }
                }
                Err(e) => return Err(format!("parsed once more: {}", show_fail(&e))),
            }
        }
    }
    if c.s.below(250) == 0 {
        c.o.label(10);
        large(c)?;
    }
    // and nothing is left over from it
    let again = alone(c, &data[0], depth);
    if let Some(m) = unlike(&solo[0], &again) {
        return Err(format!("after the threads: {}", m));
    }
    Ok(())
}

/// a message with a body of up to four megabytes, parsed twice
fn large(c: &mut Ctx) -> Result<(), String> {
    let n = (1usize << c.s.range(13, 22)) - 8 + c.s.below(64) as usize;
    let (cte, unit, plain): (&str, &[u8], &[u8]) = match c.s.below(4) {
        0 => ("base64", b"QUJD\r\n", b"ABC"),
        1 => ("quoted-printable", b"=41b\r\n", b"Ab\r\n"),
        2 if c.sut.feats().mime => ("quoted-printable", b"a", b"a"),
        _ => ("7bit", b"ab cd\r\n", b"ab cd\r\n"),
    };
    let k = n / unit.len() + 1;
    let m = [format!("From: a@b.c\r\nDate: 5 May 2003 18:58:34 +0000\r\nContent-Transfer-Encoding: {}\r\n\r\n", cte).as_bytes(), &unit.repeat(k)[..]].concat();
    let want = if c.sut.feats().mime { plain.repeat(k) } else { unit.repeat(k) };
    for _ in 0..2 {
        match c.sut.email(&m, 0, &mut Audit::default()) {
            Ok(e) => {
                let got = if c.sut.feats().mime { e.ent.map(|e| e.value) } else { e.body };
                let got = got.map(|g| g.t).unwrap_or_default();
                if got != want {
                    return Err(format!("a body of {} bytes ({}) is decoded to {} bytes instead of {}, or to other ones", k * unit.len(), cte, got.len(), want.len()));
                }
            }
            Err(e) => return Err(format!("a message with a body of {} bytes ({}): {}", k * unit.len(), cte, show_fail(&e))),
        }
    }
    Ok(())
}

pub static C36: PropDef = PropDef {
    id: "C36",
    run: c36,
    labels: &["mail as built", "mutated mail", "fragments", "accepted", "rejected", "grew once", "history of 300 mails"],
    rule: "a message (as built, mutated, fragments) and four variants of it with other letters and digits, each parsed by both entry points, decoded, cloned, converted to owned values and dropped; the bytes still allocated afterwards are compared with those before; growth in every variant is confirmed with 300 more; and histories of 300 different mails; non-trivial: the message is accepted; distinct by message bytes",
};
fn c36(c: &mut Ctx) -> Result<(), String> {
    if c.s.below(60) == 0 {
        c.o.label(6);
        return long_history(c);
    }
    let (b, l) = some_mail(c);
    c.o.label(l);
    let mut runs = vec![b.clone()];
    for _ in 0..4 {
        let n = c.s.size(4, 40);
        runs.push(variant(c, &b, n));
    }
    c.o.input = b.clone();
    let mut au = Audit::default();
    match c.sut.message(&b, &mut au) {
        Ok(_) => {
            c.o.nontrivial = true;
            c.o.label(3);
        }
        Err(Fail::Panic(m)) => return Err(format!("panic: {}", m)),
        Err(_) => c.o.label(4),
    }
    let grown = |r: SutRes<Vec<isize>>| r.map_err(|e| show_fail(&e));
    let g = grown(c.sut.kept_memory(&runs, 6))?;
    if g.iter().any(|x| *x > 0) {
        c.o.label(5);
    }
    if g[1..].iter().all(|x| *x > 0) {
        // not something that is set up once
        let more: Vec<Vec<u8>> = (0..300).map(|i| {
            let mut v = b.clone();
            for (j, x) in v.iter_mut().enumerate() {
                if x.is_ascii_lowercase() && j % 7 == i % 7 {
                    *x = (*x - b'a' + (i % 25) as u8 + 1) % 26 + b'a';
                }
            }
            if i % 2 == 0 { v } else { runs[1 + i % 4].clone() }
        }).collect();
        let m = grown(c.sut.kept_memory(&more, 6))?;
        let n = m.iter().filter(|x| **x > 0).count();
        if n > 140 {
            return Err(format!("memory is kept after every parse: {:?} bytes, and in {} of 300 further parses ({} bytes in all)", g, n, m.iter().sum::<isize>()));
        }
    }
    Ok(())
}

/// different mails one after the other: what is kept has to stop growing
fn long_history(c: &mut Ctx) -> Result<(), String> {
    let mut seen = Vec::new();
    for round in 0..3 {
        let mails: Vec<Vec<u8>> = (0..100 + 50 * round).map(|_| some_mail(c).0).collect();
        if round == 0 {
            c.o.input = mails[..3].concat();
            c.o.nontrivial = true;
        }
        let m = c.sut.kept_memory(&mails, 6).map_err(|e| show_fail(&e))?;
        let (n, sum) = (m.iter().filter(|x| **x > 0).count(), m.iter().sum::<isize>());
        seen.push((mails.len(), n, sum));
        if n <= 5 || sum < 200 {
            return Ok(());
        }
    }
    Err(format!("memory is kept and keeps growing: (mails, how many of them left something, bytes) {:?}", seen))
}
