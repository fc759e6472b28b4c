//! C08: labels and domain names.
use crate::conv;
use std::borrow::Cow;
use std::collections::HashMap;
use uwuhi::name::{DomainName, Label};
use uwuhi::Error;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::Name;
use vcore::{ensure, ensure_eq, util, Cx};

type R = Result<(), String>;

fn c08_label(cx: &mut Cx) -> R {
    let len = *cx.pick(&(0..=70).chain([127, 128, 191, 192, 255, 256, 257, 300, 319, 511, 512, 1000, 65536]).collect::<Vec<usize>>());
    let fill = *cx.pick(&[0u8, b'a', b'.', 0x3f, 0x40, 0xc0, 0xff]);
    let b: Vec<u8> = (0..len).map(|i| fill.wrapping_add((i % 3) as u8)).collect();
    cx.note(|| format!("label of {len} bytes from {fill:#x}"));
    cx.state(&b);
    cx.steps(3);
    let ok = (1..=63).contains(&len);
    match Label::try_new(&b) {
        Ok(l) => {
            ensure!(ok, "a label of {len} bytes was accepted");
            ensure!(l.as_bytes() == b, "a label holds other bytes than it was made from");
        }
        Err(e) => {
            ensure!(!ok, "a label of {len} bytes was rejected with {e:?}");
            ensure_eq!(e, if len == 0 { Error::InvalidEmptyLabel } else { Error::LabelTooLong }, "error for a label of {len} bytes");
        }
    }
    let r = catch(|| Label::new(&b));
    ensure_eq!(r.is_ok(), ok, "Label::new with {len} bytes succeeds");
    if let Ok(s) = std::str::from_utf8(&b) {
        ensure_eq!(s.parse::<Label>().is_ok(), ok, "parsing a label of {len} bytes succeeds");
    }
    Ok(())
}
/// Printed forms: printable ASCII and pairwise different.
fn printed(cx: &mut Cx, seen: &mut HashMap<String, Vec<u8>>, b: Vec<u8>) -> R {
    cx.step();
    let l = Label::new(&b);
    let d = format!("{l}");
    let g = format!("{l:?}");
    for s in [&d, &g] {
        ensure!(s.bytes().all(|c| (0x20..0x7f).contains(&c)), "printed form {s:?} of label {} is not printable ASCII", util::hex(&b));
    }
    if let Some(o) = seen.insert(d.clone(), b.clone()) {
        ensure!(o == b, "labels {} and {} both print as {d:?}", util::hex(&o), util::hex(&b));
    }
    Ok(())
}
fn c08_print(cx: &mut Cx) -> R {
    let mut seen = HashMap::new();
    const AL: &[u8] = b"\\x01n\nrt'\"0.5c\xff ";
    match cx.choose(3) {
        0 => {
            for a in 0..=255u8 {
                printed(cx, &mut seen, vec![a])?;
                for b in 0..=255u8 {
                    printed(cx, &mut seen, vec![a, b])?;
                }
            }
        }
        1 => {
            // everything up to 4 (5) bytes over the bytes escapes are made of, split by first byte
            let n = 5;
            for len in 1..=n {
                let mut idx = vec![0usize; len];
                'all: loop {
                    printed(cx, &mut seen, idx.iter().map(|&i| AL[i]).collect())?;
                    let mut p = 0;
                    loop {
                        if p == len {
                            break 'all;
                        }
                        idx[p] += 1;
                        if idx[p] < AL.len() {
                            break;
                        }
                        idx[p] = 0;
                        p += 1;
                    }
                }
            }
        }
        _ => {
            // long labels of every byte
            for a in 0..=255u8 {
                for n in [3usize, 62, 63] {
                    printed(cx, &mut seen, vec![a; n])?;
                    let mut v = vec![b'a'; n];
                    v[n - 1] = a;
                    printed(cx, &mut seen, v)?;
                }
            }
        }
    }
    cx.state(&seen.len());
    Ok(())
}
fn parse_model(s: &str) -> Result<Name, Error> {
    if s == "." || s.is_empty() {
        return Ok(vec![]);
    }
    let t = s.strip_suffix('.').unwrap_or(s);
    let mut v = vec![];
    for p in t.split('.') {
        if p.is_empty() {
            return Err(Error::InvalidEmptyLabel);
        }
        if p.len() > 63 {
            return Err(Error::LabelTooLong);
        }
        v.push(p.as_bytes().to_vec());
    }
    Ok(v)
}
fn check_parse(cx: &mut Cx, s: &str) -> R {
    cx.steps(2);
    cx.state(s);
    let want = parse_model(s);
    let a = DomainName::from_str(s);
    let b: Result<DomainName, Error> = s.parse();
    ensure!(a == b, "from_str and parse differ for {s:?}");
    match (&a, &want) {
        (Ok(d), Ok(w)) => {
            ensure_eq!(conv::name(d), *w, "labels of {s:?}");
            // plain labels round-trip through text
            if w.iter().all(|l| l.iter().all(|c| c.is_ascii_graphic() && !b".\\'\"".contains(c))) {
                let p = d.to_string();
                ensure!(p.ends_with('.'), "{s:?} prints as {p:?} without trailing dot");
                let text: String = if w.is_empty() { ".".into() } else { w.iter().map(|l| format!("{}.", String::from_utf8(l.clone()).unwrap())).collect() };
                ensure_eq!(p, text, "printed form of {s:?}");
                ensure!(p.parse::<DomainName>().as_ref() == Ok(d), "{p:?} does not parse back to {s:?}");
            }
        }
        (Err(e), Err(w)) if e == w => {}
        // two errors in one name: either may be reported
        (Err(_), Err(_)) => {}
        _ => return Err(format!("parsing {s:?} gave {a:?}, expected {want:?}")),
    }
    Ok(())
}
fn c08_parse(cx: &mut Cx) -> R {
    const AL: &[&str] = &[".", "a", "B-", "_x", "\u{e9}", " ", "\\"];
    let n = cx.choose(cx.by_tier(7, 9) + 1);
    let s: String = (0..n).map(|_| *cx.pick(AL)).collect();
    cx.note(|| format!("{s:?}"));
    check_parse(cx, &s)
}
fn c08_parse_long(cx: &mut Cx) -> R {
    const LEN: &[usize] = &[0, 1, 62, 63, 64, 65, 127, 255, 256, 257, 319, 320];
    let n = cx.choose(cx.by_tier(3, 4)) + 1;
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push('.');
        }
        let l = *cx.pick(LEN);
        s.push_str(&"q".repeat(l));
    }
    if cx.flag() {
        s.push('.');
    }
    cx.note(|| format!("{} bytes {:?}", s.len(), s.split('.').map(|p| p.len()).collect::<Vec<_>>()));
    check_parse(cx, &s)
}
fn c08_many(cx: &mut Cx) -> R {
    let k = *cx.pick(&[1usize, 2, 126, 127, 128, 255, 256, 1000]);
    let mut s = vec!["l"; k].join(".");
    if cx.flag() {
        s.push('.');
    }
    cx.note(|| format!("{k} labels"));
    check_parse(cx, &s)
}
/// Building and taking apart names against a plain vector of labels.
fn c08_build(cx: &mut Cx) -> R {
    let pal = [b"a".to_vec(), vec![0, b'.', 0xff], vec![b'z'; 63]];
    let mut d = DomainName::ROOT;
    let mut m: Name = vec![];
    let depth = cx.by_tier(5, 6);
    for _ in 0..depth {
        cx.step();
        let k = |cx: &mut Cx| -> Vec<Vec<u8>> { (0..cx.choose(3)).map(|i| pal[i].clone()).collect() };
        match cx.choose(8) {
            0 => {
                let l = cx.pick(&pal).clone();
                d.push_label(Label::new(&l));
                m.push(l);
            }
            1 => {
                let v = k(cx);
                d.extend(v.iter().map(Label::new));
                m.extend(v);
            }
            2 => {
                let v = k(cx);
                let ls: Vec<Label> = v.iter().map(Label::new).collect();
                d.extend(&ls);
                m.extend(v);
            }
            3 => {
                let o = d.clone();
                d.extend(&o);
                m = [m.clone(), m].concat();
                if m.len() > 64 {
                    return Ok(());
                }
            }
            4 => d = d.into_iter().collect(),
            5 => d = d.labels().iter().collect(),
            6 => d = (&d).into_iter().cloned().collect(),
            _ => {
                let c: Cow<'_, DomainName> = d.clone().into();
                let b: Cow<'_, DomainName> = (&d).into();
                ensure!(*c == *b && *c == d, "Cow conversion changes the name");
                d = c.into_owned();
            }
        }
        ensure_eq!(conv::name(&d), m, "labels after building");
        let by_val: Name = d.clone().into_iter().map(|l| l.as_bytes().to_vec()).collect();
        let mut by_ref: Name = vec![];
        for l in &d {
            by_ref.push(l.as_bytes().to_vec());
        }
        ensure_eq!(by_val, m, "by-value iteration");
        ensure_eq!(by_ref, m, "by-reference iteration");
        // equality is equality of label lists
        ensure!(d == conv::dn(&m), "equal lists of labels give different names");
        let mut x = m.clone();
        x.push(b"a".to_vec());
        ensure!(d != conv::dn(&x), "different lists of labels give equal names");
        if !m.is_empty() {
            let mut x = m.clone();
            x[0][0] ^= 0x20;
            ensure!(d != conv::dn(&x), "different lists of labels give equal names");
            let mut x = m.clone();
            x.pop();
            ensure!(d != conv::dn(&x), "a prefix equals the name");
        }
    }
    cx.state(&m);
    Ok(())
}
/// Names of every number of labels, built in every way.
fn c08_long(cx: &mut Cx) -> R {
    let k = *cx.pick(&(0..=300).chain([511, 512, 513, 1000, 5000]).collect::<Vec<usize>>());
    // labels: all equal, all distinct, runs of equal ones, of the largest length
    let kind = cx.choose(4);
    let m: Name = (0..k)
        .map(|i| match kind {
            0 => b"x".to_vec(),
            1 => vec![b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8],
            2 => vec![b'a' + (i / 3 % 2) as u8],
            _ => vec![b'a' + (i % 2) as u8; 63],
        })
        .collect();
    cx.note(|| format!("{k} labels of kind {kind}"));
    cx.state(&(k, kind));
    let ls: Vec<Label> = m.iter().map(Label::new).collect();
    let mut pushed = DomainName::ROOT;
    for l in &ls {
        pushed.push_label(l.clone());
    }
    let by_val: DomainName = ls.iter().cloned().collect();
    let by_ref: DomainName = ls.iter().collect();
    let mut ext_val = DomainName::ROOT;
    ext_val.extend(ls.iter().cloned());
    let mut ext_ref = DomainName::ROOT;
    ext_ref.extend(&ls);
    let half = k / 2;
    let mut two: DomainName = ls[..half].iter().collect();
    two.extend(ls[half..].iter().cloned());
    let mut three: DomainName = ls[..half].iter().cloned().collect();
    three.extend(&ls[half..]);
    let mut self_ext: DomainName = by_val.clone();
    self_ext.extend(&by_val);
    let text: String = m.iter().map(|l| format!("{}.", String::from_utf8_lossy(l))).collect();
    let parsed = if k == 0 { DomainName::ROOT } else { DomainName::from_str(&text).map_err(|e| format!("{k} labels do not parse: {e:?}"))? };
    for (what, d) in [("push_label", &pushed), ("collect", &by_val), ("collect by reference", &by_ref), ("extend", &ext_val), ("extend by reference", &ext_ref), ("collect and extend", &two), ("collect and extend by reference", &three), ("parse", &parsed)] {
        cx.step();
        if conv::name(d) != m {
            return Err(format!("{what} of {k} labels gives {} labels: {}", d.labels().len(), d));
        }
        ensure!(*d == pushed && pushed == *d, "{what} of {k} labels gives a name that is not equal");
        ensure!(d.clone().into_iter().eq(ls.iter().cloned()), "by-value iteration over {k} labels");
        ensure!(d.into_iter().eq(ls.iter()), "by-reference iteration over {k} labels");
        if k > 0 {
            ensure!(d.to_string() == text, "{what} of {k} labels prints as {d}");
        }
        let c: Cow<'_, DomainName> = d.into();
        ensure!(c.into_owned() == *d, "Cow of {k} labels");
    }
    let twice: Name = [m.clone(), m.clone()].concat();
    ensure!(conv::name(&self_ext) == twice, "extending a name of {k} labels by itself gives {} labels", self_ext.labels().len());
    ensure!(k == 0 || self_ext != pushed, "different names compare equal");
    Ok(())
}
/// Names next to each other: one label or one byte away is another name.
fn c08_equal(cx: &mut Cx) -> R {
    let hosts = vcore::corpus::hosts();
    let i = cx.choose(hosts.len());
    let m = &hosts[i];
    let d = conv::dn(m);
    cx.state(m);
    cx.note(|| d.to_string());
    ensure_eq!(conv::name(&d), *m, "labels");
    ensure!(d == conv::dn(m), "equal lists of labels give different names");
    let differs = |x: &Name| -> R {
        let e = conv::dn(x);
        ensure!((d == e) == (m == x) && (e == d) == (m == x), "{d} and {e} compare wrongly");
        Ok(())
    };
    for w in [1usize, 2, 3, 5, 17, 251] {
        cx.step();
        differs(&hosts[(i + w) % hosts.len()])?;
    }
    for l in 0..m.len() {
        let mut x = m.clone();
        x.remove(l);
        differs(&x)?;
        let mut x = m.clone();
        x.insert(l, x[l].clone());
        differs(&x)?;
        let mut x = m.clone();
        x.swap(0, l);
        differs(&x)?;
        cx.steps(3);
        for p in [0, m[l].len() / 2, m[l].len() - 1] {
            for bit in 0..8 {
                cx.step();
                let mut x = m.clone();
                x[l][p] ^= 1 << bit;
                differs(&x)?;
            }
        }
        // one label less long, and one boundary moved
        if m[l].len() > 1 {
            let mut x = m.clone();
            x[l].pop();
            differs(&x)?;
        }
        if l > 0 && m[l].len() > 1 && m[l - 1].len() < 63 {
            let mut x = m.clone();
            let b = x[l].remove(0);
            x[l - 1].push(b);
            differs(&x)?;
        }
    }
    Ok(())
}
/// Text in any script: a label is its bytes, and the limit counts bytes.
fn c08_unicode(cx: &mut Cx) -> R {
    let piece = *cx.pick(&["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "e\u{301}", "\u{130}", "\u{df}", "Z", "-", "_", " ", "\0", "\u{7f}", "\u{3002}", "\u{ff0e}", "\u{200d}", "*", "\\"]);
    let reps = cx.choose(70);
    let lead = *cx.pick(&["", "x", "xn--", "\u{feff}"]);
    let one = format!("{lead}{}", piece.repeat(reps));
    cx.note(|| format!("{one:?}"));
    let len = one.len();
    let ok = (1..=63).contains(&len);
    match one.parse::<Label>() {
        Ok(l) => ensure!(ok && l.as_bytes() == one.as_bytes(), "label {one:?} of {len} bytes parses as {l}"),
        Err(e) => ensure!(!ok && e == if len == 0 { Error::InvalidEmptyLabel } else { Error::LabelTooLong }, "label {one:?} of {len} bytes is refused with {e:?}"),
    }
    for s in [one.clone(), format!("{one}."), format!("h.{one}"), format!("{one}.local."), format!("{one}.{one}"), format!(".{one}")] {
        check_parse(cx, &s)?;
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C08",
        rule: "Every enumerated label, text and sequence of building operations is compared with a model that holds a name as a plain list of byte strings.",
        assumptions: &[],
        scenarios: vec![
            Scenario { name: "label", f: c08_label, dev: (0, 0), bounds: "84 lengths from 0 to 65536 x 7 contents x 3 constructors" },
            Scenario { name: "print", f: c08_print, dev: (0, 0), bounds: "all labels of 1..2 bytes; all of up to 5 bytes over the 17 bytes escapes are made of; long labels of every byte; injectivity over the whole set" },
            Scenario { name: "parse", f: c08_parse, dev: (0, 0), bounds: "all texts of up to 7 (9) pieces out of 7" },
            Scenario { name: "parse_long", f: c08_parse_long, dev: (0, 0), bounds: "1..3 (4) parts of 12 lengths around 63 and 255, with and without trailing dot" },
            Scenario { name: "many", f: c08_many, dev: (0, 0), bounds: "1..1000 parts" },
            Scenario { name: "unicode", f: c08_unicode, dev: (0, 0), bounds: "18 characters of 1 to 4 bytes repeated 0..69 times after 4 prefixes, in 6 places of a name" },
            Scenario { name: "long", f: c08_long, dev: (0, 0), bounds: "0..300 and up to 5000 labels (equal, distinct, in runs, of 63 bytes) built in 8 ways" },
            Scenario { name: "equal", f: c08_equal, dev: (0, 0), bounds: "about 4300 names against all names that differ in one label, one bit of 3 bytes of a label, one boundary, or the order of labels" },
            Scenario { name: "build", f: c08_build, dev: (0, 0), bounds: "all sequences of 5 (6) building operations out of 8" },
        ],
    }]
}
