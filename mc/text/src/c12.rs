//! Text slices and ranges.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use fall_text::{tu, Text, TextBuf, TextRange, TextSuffix, TextUnit};
use mccore::util::fnv;
use mccore::{guarded, Family, Tier};

use crate::c11::{range, sizes, texts};

macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        let (got, want) = ($got, $want);
        if got != want {
            return Err(format!("{}: expected {:?}, got {:?}", $what, want, got));
        }
    }};
}

fn hash<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// `t` behaves like `s`.
fn like(t: Text, s: &str, needles: &[String]) -> Result<(), String> {
    same!("len", t.len().utf8_len(), s.len());
    same!("is_empty", t.is_empty(), s.is_empty());
    same!("to_string", t.to_string(), s.to_owned());
    same!("to_cow", t.to_cow().into_owned(), s.to_owned());
    same!("Display", format!("{}", t), s.to_owned());
    same!("Debug", format!("{:?}", t), format!("{:?}", s));
    same!("text buffer", t.to_text_buf().as_text().to_string(), s.to_owned());
    same!("into text buffer", TextBuf::from(t).to_string(), s.to_owned());
    same!("chars", t.chars().collect::<Vec<_>>(), s.chars().collect::<Vec<_>>());
    same!("== str", t == s, true);
    same!("str ==", s == t, true);
    same!("serialized", serde_json::to_string(&t).unwrap(), serde_json::to_string(s).unwrap());
    same!("hash", hash(t), hash(s));
    let trimmed = t.trim();
    same!("trim", trimmed.to_string(), s.trim().to_owned());
    same!("length of trim", trimmed.len().utf8_len(), s.trim().len());
    for n in needles {
        let n: &str = n;
        same!(format!("starts_with {:?}", n), t.starts_with(n), s.starts_with(n));
        same!(format!("ends_with {:?}", n), t.ends_with(n), s.ends_with(n));
        same!(format!("contains {:?}", n), t.contains(n), s.contains(n));
        same!(format!("find {:?}", n), t.find(n).map(|u| u.utf8_len()), s.find(n));
        same!(format!("rfind {:?}", n), t.rfind(n).map(|u| u.utf8_len()), s.rfind(n));
        same!(format!("== {:?}", n), t == n, s == n);
        same!(format!("cmp {:?}", n), t.partial_cmp(&n), s.partial_cmp(n));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Slice {
    Range(usize, usize),
    From(usize),
}

impl Slice {
    fn of<'f>(self, t: Text<'f>) -> Text<'f> {
        match self {
            Slice::Range(s, e) => t.slice(range(s, e)),
            Slice::From(s) => t.slice(TextSuffix::from(tu(s as u32))),
        }
    }
    fn model(self, len: usize) -> Option<(usize, usize)> {
        let (s, e) = match self {
            Slice::Range(s, e) => (s, e),
            Slice::From(s) => (s, len),
        };
        if s <= e && e <= len { Some((s, e)) } else { None }
    }
}

fn slices(len: usize) -> Vec<Slice> {
    let mut v = Vec::new();
    for s in 0..=len + 1 {
        v.push(Slice::From(s));
        for e in s..=len + 1 {
            v.push(Slice::Range(s, e));
        }
    }
    v
}

fn chain<'f>(t: Text<'f>, s: &str, depth: usize, needles: &[String], path: &mut Vec<Slice>) -> Result<u64, String> {
    like(t, s, needles).map_err(|e| format!("after {:?}: {}", path, e))?;
    let mut n = 1;
    if depth == 0 {
        return Ok(n);
    }
    for sl in slices(s.len()) {
        path.push(sl);
        match (sl.model(s.len()), guarded(|| Ok(sl.of(t)))) {
            (None, Err(_)) => {}
            (None, Ok(_)) => return Err(format!("after {:?}: a slice outside of the text is not rejected", path)),
            (Some(_), Err(e)) => return Err(format!("after {:?}: {}", path, e)),
            (Some((a, b)), Ok(t2)) => {
                if s.is_char_boundary(a) && s.is_char_boundary(b) {
                    n += chain(t2, &s[a..b], depth - 1, needles, path)?;
                }
            }
        }
        path.pop();
    }
    Ok(n)
}

fn ranges(n: usize) -> Vec<(usize, usize)> {
    (0..=n).flat_map(|s| (s..=n).map(move |e| (s, e))).collect()
}

fn order(a: (usize, usize), b: (usize, usize)) -> Option<Ordering> {
    if a == b {
        Some(Ordering::Equal)
    } else if a.1 <= b.0 {
        Some(Ordering::Less)
    } else if b.1 <= a.0 {
        Some(Ordering::Greater)
    } else {
        None
    }
}

fn pair(a: (usize, usize), b: (usize, usize), base: usize) -> Result<u64, String> {
    let (ra, rb) = (range(base + a.0, base + a.1), range(base + b.0, base + b.1));
    same!("start", ra.start().utf8_len(), base + a.0);
    same!("end", ra.end().utf8_len(), base + a.1);
    same!("len", ra.len().utf8_len(), a.1 - a.0);
    same!("is_empty", ra.is_empty(), a.0 == a.1);
    same!("==", ra == rb, a == b);
    same!("is_subrange_of", ra.is_subrange_of(rb), b.0 <= a.0 && a.1 <= b.1);
    let overlap = a.0 < b.1 && b.0 < a.1;
    same!("intersects", ra.intersects(rb), overlap);
    same!("disjoint", ra.disjoint(rb), !overlap);
    same!("partial_cmp", ra.partial_cmp(&rb), order(a, b));
    same!("<", ra < rb, order(a, b) == Some(Ordering::Less));
    same!("<=", ra <= rb, match order(a, b) { Some(Ordering::Greater) | None => false, _ => true });
    match guarded(|| Ok(ra.glue(rb))) {
        Ok(g) => {
            same!("glue is allowed", true, a.1 == b.0);
            same!("glue", g, range(base + a.0, base + b.1));
        }
        Err(e) => {
            if a.1 == b.0 {
                return Err(format!("glue: {}", e));
            }
        }
    }
    same!("from_len", TextRange::from_len(ra.start(), ra.len()), ra);
    same!("shift_right", ra.shift_right(rb.start()), range(2 * base + a.0 + b.0, 2 * base + a.1 + b.0));
    same!("shift by zero", ra.shift_right(tu(0)), ra);
    for &off in &[b.0, b.1] {
        same!("contains_offset_nonstrict", ra.contains_offset_nonstrict(tu((base + off) as u32)), a.0 <= off && off <= a.1);
    }
    same!("Display", format!("{}", ra), format!("[{}; {})", base + a.0, base + a.1));
    same!("Debug", format!("{:?}", ra), format!("[{}; {})", base + a.0, base + a.1));
    let json = serde_json::to_string(&ra).unwrap();
    same!("serialized", json.clone(), format!("[{},{}]", base + a.0, base + a.1));
    same!("deserialized", serde_json::from_str::<TextRange>(&json).unwrap(), ra);
    Ok(order(a, b).map_or(9, |o| o as u64))
}

fn units(a: u32, b: u32) -> Result<u64, String> {
    let (ta, tb) = (tu(a), tu(b));
    same!("value", u32::from(ta), a);
    same!("utf8_len", ta.utf8_len(), a as usize);
    same!("order", ta.cmp(&tb), a.cmp(&b));
    same!("==", ta == tb, a == b);
    same!("hash", hash(ta) == hash(tb), a == b);
    if let Some(sum) = a.checked_add(b) {
        same!("+", u32::from(ta + tb), sum);
        same!("+ u32", u32::from(ta + b), sum);
        let mut t = ta;
        t += tb;
        same!("+=", u32::from(t), sum);
        same!("sum", u32::from(vec![ta, tb, tu(0)].into_iter().sum::<TextUnit>()), sum);
    }
    if a >= b {
        same!("-", u32::from(ta - tb), a - b);
        same!("- u32", u32::from(ta - b), a - b);
        let mut t = ta;
        t -= tb;
        same!("-=", u32::from(t), a - b);
    }
    same!("Display", format!("{}", ta), a.to_string());
    same!("serialized", serde_json::to_string(&ta).unwrap(), a.to_string());
    same!("deserialized", serde_json::from_str::<TextUnit>(&a.to_string()).unwrap(), ta);
    match guarded(|| Ok(TextRange::from_to(ta, tb))) {
        Ok(r) => {
            same!("from_to is allowed", true, a <= b);
            same!("from_to", (r.start(), r.end()), (ta, tb));
        }
        Err(e) => {
            if a <= b {
                return Err(format!("from_to: {}", e));
            }
        }
    }
    Ok(0)
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut res = Vec::new();
    // Chains of slices.
    {
        let alphabet = ["a", "b", "é", " ", "\u{2003}", "\u{1F600}"];
        let all = texts(&alphabet, tier.pick(3, 4));
        let needles = texts(&alphabet, 2);
        res.push(Family::new(
            "slices",
            format!("{} texts; all chains of two slices (three for texts of up to two characters), also outside of the text; {} needles", all.len(), needles.len()),
            all.len() as u64,
            move |i, ctx| {
                let s = &all[i as usize];
                let depth = if s.chars().count() <= 2 { 3 } else { 2 };
                let n = std::cell::Cell::new(0);
                ctx.check(&|| format!("{:?}", s), || {
                    let buf = TextBuf::from(s.as_str());
                    n.set(chain(buf.as_text(), s, depth, &needles, &mut Vec::new())?);
                    Ok(fnv(s.as_bytes()))
                });
                ctx.states += n.get();
                ctx.transitions += n.get();
            },
        ));
    }
    // Searching for longer needles, in slices of the text.
    {
        let all = texts(&["a", "b"], tier.pick(8, 10));
        let needles = texts(&["a", "b"], tier.pick(4, 5));
        res.push(Family::new(
            "needles",
            format!("{} texts of two letters inside of longer ones; {} needles", all.len(), needles.len()),
            all.len() as u64,
            move |i, ctx| {
                let s = &all[i as usize];
                ctx.state();
                ctx.check(&|| format!("{:?}", s), || {
                    let buf = TextBuf::from(format!("baé{}ab", s));
                    like(buf.as_text().slice(range(4, 4 + s.len())), s, &needles)?;
                    Ok(fnv(s.as_bytes()))
                });
            },
        ));
    }
    // Trimming.
    {
        let all = texts(&[" ", "\t", "\u{a0}", "\u{2003}", "\u{feff}", "a", "é"], tier.pick(6, 7));
        let block = 500;
        let n = (all.len() + block - 1) / block;
        res.push(Family::new(
            "trim",
            format!("{} texts of whitespace and letters of one to three bytes", all.len()),
            n as u64,
            move |i, ctx| {
                for s in all.iter().skip(i as usize * block).take(block) {
                    ctx.state();
                    ctx.check(&|| format!("{:?}", s), || {
                        let holder = format!(" a{}a ", s);
                        let buf = TextBuf::from(holder.as_str());
                        let t = buf.as_text().slice(range(2, 2 + s.len()));
                        same!("trim", t.trim().to_string(), s.trim().to_owned());
                        Ok(fnv(s.trim().as_bytes()))
                    });
                }
            },
        ));
    }
    // Comparison of slices with each other.
    {
        let all = texts(&["a", "b", "é"], tier.pick(6, 7));
        res.push(Family::new(
            "comparison",
            format!("{} texts, all pairs, as parts of different texts and as whole ones", all.len()),
            all.len() as u64,
            move |i, ctx| {
                let s1 = &all[i as usize];
                ctx.state();
                ctx.check(&|| format!("{:?}", s1), || {
                    let b1 = TextBuf::from(format!("xé{}y", s1));
                    let t1 = b1.as_text().slice(range(3, 3 + s1.len()));
                    for s2 in &all {
                        let b2 = TextBuf::from(s2.as_str());
                        let t2 = b2.as_text();
                        let e = |w: &str| format!("{} {:?}", w, s2);
                        same!(e("=="), t1 == t2, s1 == s2);
                        same!(e("cmp"), t1.cmp(&t2), s1.cmp(s2));
                        same!(e("partial_cmp"), t1.partial_cmp(&t2), s1.partial_cmp(s2));
                        same!(e("hash"), hash(t1) == hash(t2), hash(s1) == hash(s2));
                        same!(e("buffer =="), b2 == s1.as_str(), s1 == s2);
                        same!(e("str == buffer"), s1.as_str() == b2, s1 == s2);
                        same!(e("str == text"), s1.as_str() == t2, s1 == s2);
                    }
                    Ok(fnv(s1.as_bytes()))
                });
                ctx.states += all.len() as u64;
            },
        ));
    }
    // Ranges.
    {
        let n = tier.pick(12, 16);
        let all = ranges(n);
        res.push(Family::new(
            "ranges",
            format!("all pairs of ranges within 0..{}, near zero and far from it, and triples for transitivity", n),
            all.len() as u64,
            move |i, ctx| {
                let a = all[i as usize];
                ctx.state();
                ctx.check(&|| format!("{:?}", a), || {
                    let mut h = 0;
                    let whole: String = (0..n).map(|i| (b'a' + i as u8) as char).collect();
                    same!("str index", &whole[range(a.0, a.1)], &whole[a.0..a.1]);
                    same!("String index", &whole.as_str()[range(a.0, a.1)], &whole[a.0..a.1]);
                    for &b in &all {
                        for &base in &[0, 1000, 1 << 30] {
                            h = mccore::util::fnv_mix(h, pair(a, b, base).map_err(|e| format!("{:?}: {}", b, e))?);
                        }
                        let (ra, rb) = (range(a.0, a.1), range(b.0, b.1));
                        if ra < rb {
                            for &c in &all {
                                let rc = range(c.0, c.1);
                                if rb < rc && !(ra < rc) {
                                    return Err(format!("{} < {} < {} but not {} < {}", ra, rb, rc, ra, rc));
                                }
                            }
                        }
                    }
                    same!("empty", TextRange::empty(), range(0, 0));
                    Ok(h)
                });
                ctx.states += 3 * all.len() as u64;
            },
        ));
    }
    {
        let mut v: Vec<u32> = (0..tier.pick(12, 40)).collect();
        v.extend(&[255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, u32::max_value() - 1, u32::max_value()]);
        res.push(Family::new(
            "offsets",
            format!("all pairs of {} offsets, small ones and powers of two", v.len()),
            (v.len() * v.len()) as u64,
            move |i, ctx| {
                let (a, b) = (v[i as usize / v.len()], v[i as usize % v.len()]);
                ctx.state();
                ctx.check(&|| format!("{} {}", a, b), || units(a, b));
            },
        ));
    }
    // Long texts.
    {
        let sizes = sizes(tier.pick(70, 200), tier.pick(4096, 65536));
        let k = sizes.len();
        let units = ["a", "ab", "é", "a\n", " ", "𐐀", "\r\n", "aé"];
        res.push(Family::new(
            "long",
            format!("{} pieces repeated each of {} numbers of times up to {}, as whole texts and inside of longer ones; parts of them, and texts which differ in one place, as needles", units.len(), k, sizes[k - 1]),
            (k * units.len()) as u64,
            move |i, ctx| {
                let unit = units[i as usize % units.len()];
                let s = unit.repeat(sizes[i as usize / units.len()]);
                let mut ends: Vec<usize> = vec![0, 1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 257, s.len() / 2, s.len() / 2 + 1, s.len().saturating_sub(unit.len()), s.len()];
                ends.retain(|&e| s.is_char_boundary(e));
                ends.sort();
                ends.dedup();
                let mut needles: Vec<String> = Vec::new();
                for &e in &ends {
                    needles.push(s[..e].to_owned());
                    needles.push(s[e..].to_owned());
                    needles.push(format!("{}x", &s[..e]));
                    needles.push(format!("x{}", &s[e..]));
                    needles.push(format!("{}x{}", &s[..e], &s[e..]));
                }
                ctx.state();
                ctx.check(&|| format!("{:?} x {}", unit, s.len() / unit.len()), || {
                    let buf = TextBuf::from(s.as_str());
                    like(buf.as_text(), &s, &needles)?;
                    let outer = format!("é{}x{}", s, unit);
                    let buf = TextBuf::from(outer.as_str());
                    like(buf.as_text().slice(range(2, 2 + s.len())), &s, &needles)?;
                    for &a in &ends {
                        for &b in &ends {
                            if a <= b {
                                let t = buf.as_text().slice(range(2, 2 + s.len())).slice(range(a, b));
                                same!(format!("slice {}..{}", a, b), t.to_string(), s[a..b].to_owned());
                                same!("its length", t.len().utf8_len(), b - a);
                                same!("its hash", hash(t), hash(&s[a..b]));
                            }
                        }
                    }
                    Ok(fnv(s.as_bytes()))
                });
            },
        ));
    }
    res
}
