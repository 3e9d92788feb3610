//! C31: the data-driven test cases of the helper crate pass exactly when they should.
use crate::engine::*;
use crate::p_binary::data;
use crate::p_verify::recorded;
use crate::refm::*;
use crate::Tier;
use fuel_merkle_test_helpers::data::{binary::ProofTest, sparse, EncodedValue, Encoding, TestError};

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(B64[(x >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn enc(e: usize) -> Encoding {
    match e {
        0 => Encoding::Hex,
        1 => Encoding::Base64,
        _ => Encoding::Utf8,
    }
}
const NAMES: [&str; 3] = ["hex", "base64", "utf-8"];
/// the encoding of these bytes, written without the library
fn text(b: &[u8], e: usize) -> String {
    match e {
        0 => hex(b),
        1 => b64(b),
        _ => String::from_utf8(b.to_vec()).unwrap(),
    }
}
fn jval(b: &[u8], e: usize) -> String {
    format!("{{\"value\": {}, \"encoding\": \"{}\"}}", jstr(&text(b, e)), NAMES[e])
}
fn short(r: &Result<(), TestError>) -> String {
    match r {
        Ok(()) => "passes".into(),
        Err(e) => format!("fails with {:?}", e),
    }
}
/// what one byte string must do under every encoding
fn codec(b: &[u8], acc: &Acc) -> Res {
    for e in 0..3 {
        if e == 2 && std::str::from_utf8(b).is_err() {
            continue;
        }
        let t = text(b, e);
        for (how, v) in
            [("from its text", EncodedValue::new(t.clone(), enc(e))), ("encoded by the library", EncodedValue::from_raw(b, enc(e)))]
        {
            match v.into_bytes() {
                Ok(x) if x == b => {}
                Ok(x) => return Err(format!("{} {how} as {} gives the bytes {}", hex(b), NAMES[e], hex(&x))),
                Err(x) => return Err(format!("{} {how} as {} is refused: {:?}", hex(b), NAMES[e], x)),
            }
            acc.step(1);
        }
        if e == 0 {
            match EncodedValue::new(t.to_uppercase(), enc(0)).into_bytes() {
                Ok(x) if x == b => {}
                r => return Err(format!("{t} in capitals gives {:?}", r.map(|x| hex(&x)))),
            }
        }
        acc.state(&(e, b));
    }
    acc.trace(1);
    Ok(())
}
fn refused(t: &str, e: usize, acc: &Acc) -> Res {
    acc.step(1);
    acc.state(&(e, t));
    match guard(|| EncodedValue::new(t.to_string(), enc(e)).into_bytes()) {
        Ok(Err(TestError::DecodingError)) => Ok(()),
        Ok(Ok(x)) => Err(format!("{t:?} as {} gives the bytes {}", NAMES[e], hex(&x))),
        Ok(Err(x)) => Err(format!("{t:?} as {} is refused as {:?}", NAMES[e], x)),
        Err(p) => Err(format!("{t:?} as {} panics: {p}", NAMES[e])),
    }
}

// ---- sparse cases

fn skeys() -> Vec<H> {
    // readable keys, so that they can be written in every encoding
    let a = *b"0123456789abcdefghijklmnopqrstuv";
    let mut b = a;
    b[31] = b'w'; // differs from `v` in the last bit
    let mut c = a;
    c[0] = b'p'; // parts at once
    vec![a, b, c]
}
#[derive(Clone, Copy, Debug)]
enum S {
    Put(usize, usize),
    Del(usize),
}
fn sal() -> Vec<S> {
    let mut v = vec![];
    for k in 0..3 {
        v.push(S::Put(k, 0));
        v.push(S::Put(k, 1));
        v.push(S::Del(k));
    }
    v.push(S::Put(0, 2)); // an empty value
    v
}
const SVALS: [&[u8]; 3] = [b"DATA", b"other \"data\": \\ # '", b""];
fn sstep(s: S, e: usize) -> String {
    let k = skeys();
    match s {
        S::Put(x, d) => format!("{{\"action\": \"update\", \"key\": {}, \"data\": {}}}", jval(&k[x], e), jval(SVALS[d], (e + x + d) % 3)),
        S::Del(x) => format!("{{\"action\": \"delete\", \"key\": {}}}", jval(&k[x], e)),
    }
}
fn smodel(ops: &[S]) -> SMap {
    let k = skeys();
    let mut m = SMap::new();
    for o in ops {
        match o {
            S::Put(x, 2) | S::Del(x) => drop(m.remove(&k[*x])),
            S::Put(x, d) => drop(m.insert(k[*x], value_digest(SVALS[*d]))),
        }
    }
    m
}
fn sdoc(name: &str, root: &str, steps: &[String]) -> String {
    format!("{{\"name\": {}, \"expected_root\": {root}, \"steps\": [{}]}}", jstr(name), steps.join(", "))
}
fn srun(doc: &str) -> Result<Result<(), TestError>, String> {
    let t: sparse::Test = serde_yaml_parse(doc)?;
    guard(|| t.execute())
}
fn serde_yaml_parse<T: serde::de::DeserializeOwned>(doc: &str) -> Result<T, String> {
    serde_yaml::from_str(doc).map_err(|e| format!("not read: {e}: {doc}"))
}

// ---- proof cases

fn case(name: &str, root: &H, p: &[H], i: u64, n: u64, expected: bool, e: usize) -> ProofTest {
    let v = |x: &H| EncodedValue::new(text(x, e), enc(e));
    ProofTest {
        name: name.into(),
        function_name: "f".into(),
        description: "d".into(),
        root: v(root),
        proof_set: p.iter().map(v).collect(),
        proof_index: i,
        num_leaves: n,
        expected_verification: expected,
    }
}
fn proof_case(root: &H, p: &[H], i: u64, n: u64, acc: &Acc) -> Res {
    let genuine = verify_rfc(root, p, i, n);
    for (e, expected) in [(0, true), (1, false)] {
        let r = guard(|| case("a name", root, p, i, n, expected, e).execute())
            .map_err(|m| format!("index {i} of {n}, {} digests: panics: {m}", p.len()))?;
        let ok = match &r {
            Ok(()) => genuine == expected,
            Err(TestError::Failed(x)) => genuine != expected && x == "a name",
            _ => false,
        };
        if !ok && !recorded("C31", root, p, i, n, acc) {
            return Err(format!(
                "index {i} of {n}, {} digests, {}: the case expecting {expected} {}",
                p.len(),
                if genuine { "genuine" } else { "not genuine" },
                short(&r)
            ));
        }
        acc.step(1);
    }
    acc.state(&(root, p, i, n));
    Ok(())
}

pub fn c31(t: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let deep = t.pick(2u32, 3);
    v.push(Space::new(
        format!("encoded values: all byte strings of up to {deep} bytes, and every length up to 300"),
        256 + 301,
        move |i, acc| {
            if i >= 256 {
                let l = (i - 256) as usize;
                for f in [|_: usize| 0u8, |_| 0xff, |k| k as u8, |k| (k as u8).wrapping_mul(73) ^ 0xa5] {
                    codec(&(0..l).map(f).collect::<Vec<u8>>(), acc)?;
                }
                let txt: String = "aé€😀 \n".chars().cycle().take(l).collect();
                return codec(txt.as_bytes(), acc);
            }
            codec(&[i as u8], acc)?;
            for j in 0..=255u8 {
                codec(&[i as u8, j], acc)?;
                if deep == 3 {
                    acc.beat();
                    for k in 0..=255u8 {
                        codec(&[i as u8, j, k], acc)?;
                    }
                }
            }
            Ok(())
        },
        |i| if i < 256 { format!("byte strings beginning with {i:02x}") } else { format!("length {}", i - 256) },
    ));
    v.push(Space::new(
        "encoded values: every text with one or two characters that are no hexadecimal digits, of odd length, or foreign to base64",
        128,
        |a, acc| {
            let a = a as u8 as char;
            refused(&a.to_string(), 0, acc)?;
            let hexd = |c: char| c.is_ascii_hexdigit();
            let b = |c: char| c.is_ascii_alphanumeric() || c == '+' || c == '/' || c == '=';
            for c in 0..128u8 {
                let c = c as char;
                if !hexd(a) || !hexd(c) {
                    for t in [format!("{a}{c}"), format!("00{a}{c}"), format!("{a}{c}ff"), format!("abcd{a}{c}0123")] {
                        refused(&t, 0, acc)?;
                    }
                } else {
                    for t in [format!("0{a}{c}"), format!("{a}{c}0"), format!("0123{a}{c}f")] {
                        refused(&t, 0, acc)?;
                    }
                }
                if !b(a) || !b(c) {
                    for t in [format!("AA{a}{c}"), format!("{a}A{c}A"), format!("AAAA{a}{c}AA"), format!("{a}{c}AAAAAA")] {
                        refused(&t, 1, acc)?;
                    }
                }
            }
            acc.trace(1);
            Ok(())
        },
        |a| format!("texts with character {a}"),
    ));
    let al = sal();
    let b = al.len() as u64;
    let len = t.pick(4usize, 5);
    let al2 = al.clone();
    v.push(Space::new(
        format!(
            "sparse cases: all sequences of up to {len} steps over three keys in all encodings, with right, wrong and broken expectations"
        ),
        crate::p_sparse::count_upto(b, len) * 3,
        move |i, acc| {
            let e = (i % 3) as usize;
            let ops = seq(&al, i / 3, len);
            let root = sp_root(&smodel(&ops));
            let steps: Vec<String> = ops.iter().enumerate().map(|(j, &o)| sstep(o, (e + j) % 3)).collect();
            let all = crate::p_sparse::count_upto(b, len);
            let name = format!("case {}", i / 3);
            let expect = |doc: String, what: &str, want: &dyn Fn(&Result<(), TestError>) -> bool| -> Res {
                acc.step(1);
                match srun(&doc)? {
                    r if want(&r) => Ok(()),
                    r => Err(format!("{what}: {} in {doc}", short(&r))),
                }
            };
            let failed = |r: &Result<(), TestError>| matches!(r, Err(TestError::Failed(n)) if *n == name);
            // bytes that are no text cannot be written as utf-8
            expect(sdoc(&name, &jval(&root, e % 2), &steps), "the right root", &|r| r.is_ok())?;
            expect(sdoc(&name, &jval(&flip(&root, (i % 256) as usize), 0), &steps), "a root with one bit flipped", &failed)?;
            for j in 0..ops.len() {
                let mut o = ops.clone();
                o.remove(j);
                let other = sp_root(&smodel(&o));
                if other != root {
                    expect(sdoc(&name, &jval(&other, 1), &steps), "the root without one of the steps", &failed)?;
                }
            }
            if i / 3 < all / 4 || i % 7 == 0 {
                for j in 0..=ops.len() {
                    for bad in ["", "Update", "updat", "insert", "deleted", "updatedelete"] {
                        let mut s = steps.clone();
                        s.insert(
                            j,
                            format!("{{\"action\": {}, \"key\": {}, \"data\": {}}}", jstr(bad), jval(&skeys()[0], 0), jval(b"x", 0)),
                        );
                        expect(
                            sdoc(&name, &jval(&root, 0), &s),
                            "an unknown action",
                            &|r| matches!(r, Err(TestError::UnsupportedAction(a)) if a == bad),
                        )?;
                    }
                    for bad in [
                        format!(
                            "{{\"action\": \"update\", \"key\": {{\"value\": \"0x\", \"encoding\": \"hex\"}}, \"data\": {}}}",
                            jval(b"x", 0)
                        ),
                        format!(
                            "{{\"action\": \"update\", \"key\": {}, \"data\": {{\"value\": \"abc\", \"encoding\": \"hex\"}}}}",
                            jval(&skeys()[0], 0)
                        ),
                        "{\"action\": \"delete\", \"key\": {\"value\": \"%%%%\", \"encoding\": \"base64\"}}".to_string(),
                    ] {
                        let mut s = steps.clone();
                        s.insert(j, bad);
                        expect(sdoc(&name, &jval(&root, 0), &s), "an undecodable step", &|r| matches!(r, Err(TestError::DecodingError)))?;
                    }
                }
                expect(sdoc(&name, "{\"value\": \"zz\", \"encoding\": \"hex\"}", &steps), "an undecodable root", &|r| {
                    matches!(r, Err(TestError::DecodingError))
                })?;
                // steps that lack their key or data, and keys of other lengths: however refused, never passed
                for bad in [
                    format!("{{\"action\": \"update\", \"key\": {}}}", jval(&skeys()[0], 0)),
                    format!("{{\"action\": \"update\", \"data\": {}}}", jval(b"x", 0)),
                    "{\"action\": \"delete\"}".to_string(),
                    format!("{{\"action\": \"delete\", \"key\": {}}}", jval(&skeys()[0][..31], 0)),
                    format!("{{\"action\": \"delete\", \"key\": {}}}", jval(&[7; 33], 0)),
                ] {
                    let mut s = steps.clone();
                    s.push(bad);
                    if let Ok(Ok(())) = srun(&sdoc(&name, &jval(&root, 0), &s)) {
                        return Err(format!("a malformed step passes: {}", s.last().unwrap()));
                    }
                }
                for bad in [&root[..31], &root[..0], &[&root[..], &[0]].concat()] {
                    if let Ok(Ok(())) = srun(&sdoc(&name, &jval(bad, 0), &steps)) {
                        return Err(format!("an expected root of {} bytes passes", bad.len()));
                    }
                }
            }
            acc.trace(1);
            acc.state(&(root, i));
            Ok(())
        },
        move |i| format!("steps {:?}", seq(&al2, i / 3, len)),
    ));
    let max = t.pick(72u64, 150);
    v.push(Space::new(
        format!("proof cases: every index of every size up to {max}, genuine and tampered, expecting either answer"),
        max,
        move |j, acc| {
            let n = max - j;
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            let root = m.root();
            for i in 0..n {
                acc.beat();
                let p = m.proof(i);
                if !verify_rfc(&root, &p, i, n) {
                    return Err("the reference rejects its own proof".into());
                }
                proof_case(&root, &p, i, n, acc)?;
                for b in (0..256).step_by(if n < 10 { 1 } else { 85 }) {
                    proof_case(&flip(&root, b), &p, i, n, acc)?;
                    for e in 0..p.len() {
                        let mut q = p.clone();
                        q[e] = flip(&q[e], b);
                        proof_case(&root, &q, i, n, acc)?;
                    }
                }
                for e in 0..p.len() {
                    let mut q = p.clone();
                    q.remove(e);
                    proof_case(&root, &q, i, n, acc)?;
                    for f in 0..e {
                        let mut q = p.clone();
                        q.swap(e, f);
                        proof_case(&root, &q, i, n, acc)?;
                    }
                    let mut q = p.clone();
                    q.insert(e, p[e]);
                    proof_case(&root, &q, i, n, acc)?;
                }
                proof_case(&root, &[], i, n, acc)?;
                for other in (0..n).chain([n, n + 1, u64::MAX, i + (1 << 32)]) {
                    proof_case(&root, &p, other, n, acc)?;
                }
                proof_case(&root, &p, i, 0, acc)?;
            }
            // a case is what it was after being written and read again
            let c = case("again", &root, &m.proof(n / 2), n / 2, n, true, (n % 2) as usize);
            let y = serde_yaml::to_string(&c).map_err(|e| format!("not written: {e}"))?;
            let c2: ProofTest = serde_yaml_parse(&y)?;
            if (&c2.name, c2.proof_index, c2.num_leaves, c2.proof_set.len(), c2.expected_verification)
                != (&c.name, c.proof_index, c.num_leaves, c.proof_set.len(), c.expected_verification)
            {
                return Err("a case written and read again differs".into());
            }
            let r = guard(|| c2.execute())?;
            if r.is_err() {
                return Err(format!("a case written and read again {}", short(&r)));
            }
            acc.trace(n);
            Ok(())
        },
        move |j| format!("{} leaves", max - j),
    ));
    // long cases, every kind of key and value, unusual names
    let max = t.pick(300u64, 1200);
    v.push(Space::new(
        format!("sparse cases of every length up to {max} steps: keys of any bytes, values of growing length, unusual names"),
        max,
        move |i, acc| {
            let n = i + 1;
            let names = ["", " ", "a: b", "- x", "\"quoted\" 'name'", "línea\u{1F600}", "{}", "null", "true", "12", "#c", "a\\b"];
            let name = names[(i % 12) as usize];
            let (mut steps, mut m) = (vec![], SMap::new());
            let mut broken = vec![];
            for j in 0..n {
                // a third of the steps return to an earlier key
                let k = if j % 3 == 2 { sha(&[&(j / 2).to_be_bytes()]) } else { sha(&[&j.to_be_bytes()]) };
                let k = if j % 7 == 0 { flip(&k, 255) } else { k };
                let (ke, ve) = ((j % 2) as usize, ((j + i) % 2) as usize);
                if j % 5 == 4 {
                    m.remove(&k);
                    steps.push(format!("{{\"action\": \"delete\", \"key\": {}}}", jval(&k, ke)));
                } else {
                    let val: Vec<u8> = (0..(j * j) % 311).map(|x| (x as u8).wrapping_mul(37) ^ j as u8).collect();
                    if val.is_empty() {
                        m.remove(&k);
                    } else {
                        m.insert(k, value_digest(&val));
                    }
                    steps.push(format!("{{\"action\": \"update\", \"key\": {}, \"data\": {}}}", jval(&k, ke), jval(&val, ve)));
                }
                if j + 4 >= n || j == 0 || j == n / 2 {
                    broken.push(j as usize);
                }
            }
            let root = sp_root(&m);
            match srun(&sdoc(name, &jval(&root, 0), &steps))? {
                Ok(()) => {}
                r => return Err(format!("{n} steps, the right root: {}", short(&r))),
            }
            for b in [0, 100, 255] {
                match srun(&sdoc(name, &jval(&flip(&root, b), 1), &steps))? {
                    Err(TestError::Failed(x)) if x == name => {}
                    r => return Err(format!("{n} steps, a root with bit {b} flipped: {}", short(&r))),
                }
            }
            // an unknown action or an undecodable value at the beginning, in the middle, and near the end
            for &j in &broken {
                let mut s = steps.clone();
                s[j] = s[j].replacen("\"action\": \"", "\"action\": \"x", 1);
                match srun(&sdoc(name, &jval(&root, 0), &s))? {
                    Err(TestError::UnsupportedAction(a)) if a.starts_with('x') => {}
                    r => return Err(format!("{n} steps, step {j} unknown: {}", short(&r))),
                }
                let mut s = steps.clone();
                s[j] = s[j].replacen("\"value\": \"", "\"value\": \"!", 1);
                match srun(&sdoc(name, &jval(&root, 0), &s))? {
                    Err(TestError::DecodingError) => {}
                    r => return Err(format!("{n} steps, step {j} undecodable: {}", short(&r))),
                }
            }
            acc.step(4 + 2 * broken.len() as u64);
            acc.state(&(n, root));
            acc.trace(1);
            Ok(())
        },
        |i| format!("{} steps", i + 1),
    ));
    v.push(Space::new(
        "proof cases written and read again: every index of every size up to 40, both answers, genuine and tampered".to_string(),
        40,
        |j, acc| {
            let n = j + 1;
            let m = BinModel::from_leaves((0..n).map(|i| data(1, i)).collect::<Vec<_>>().iter().map(|d| &d[..]));
            for i in 0..n {
                for (e, expected) in [(0, true), (1, true), (0, false), (1, false)] {
                    for bad in 0..4 {
                        let (mut root, mut p, mut i, mut n) = (m.root(), m.proof(i), i, n);
                        match bad {
                            1 => root = flip(&root, 7),
                            2 => p[0] = flip(&p[0], 9),
                            3 => (i, n) = ((1 << 63) - 2 - i - n % 2, (1 << 63) - 1 - n % 2),
                            _ => {}
                        }
                        let mut c = case("again: \"x\"", &root, &p, i, n, expected, e);
                        c.function_name = format!("function {i}");
                        c.description = "two\nlines: # of text".into();
                        let first = guard(|| case("again: \"x\"", &root, &p, i, n, expected, e).execute())?;
                        let y = serde_yaml::to_string(&c).map_err(|e| format!("not written: {e}"))?;
                        let c2: ProofTest = serde_yaml_parse(&y)?;
                        let y2 = serde_yaml::to_string(&c2).map_err(|e| format!("not written again: {e}"))?;
                        if y != y2
                            || (&c2.name, &c2.function_name, &c2.description, c2.proof_index, c2.num_leaves, c2.expected_verification)
                                != (&c.name, &c.function_name, &c.description, i, n, expected)
                        {
                            return Err(format!("{n} leaves, index {i}: a case written and read again differs: {y}"));
                        }
                        let same = |v: &EncodedValue, h: &H| v.clone().into_bytes().map(|b| b == h).unwrap_or(false);
                        if c2.proof_set.len() != p.len() || !same(&c2.root, &root) || !c2.proof_set.iter().zip(&p).all(|(v, h)| same(v, h))
                        {
                            return Err(format!("{n} leaves, index {i}: the digests of a case written and read again differ"));
                        }
                        let again = guard(|| c2.execute())?;
                        if format!("{first:?}") != format!("{again:?}") {
                            return Err(format!(
                                "{n} leaves, index {i}: the case {}, written and read again it {}",
                                short(&first),
                                short(&again)
                            ));
                        }
                        let genuine = verify_rfc(&root, &p, i, n);
                        if again.is_ok() != (genuine == expected) && !recorded("C31", &root, &p, i, n, acc) {
                            return Err(format!("{n} leaves, index {i}, expecting {expected}: {}", short(&again)));
                        }
                        acc.step(2);
                        acc.state(&("again", i, n, e, expected, bad));
                    }
                }
            }
            acc.trace(1);
            Ok(())
        },
        |j| format!("{} leaves", j + 1),
    ));
    let lens = crate::p_content::lens(t);
    let lens2 = lens.clone();
    v.push(Space::new(
        format!("encoded values: families of related contents of {} lengths", lens.len()),
        lens.len() as u64,
        move |i, acc| {
            for c in crate::p_content::family(lens[i as usize]) {
                codec(&c, acc)?;
                acc.beat();
            }
            Ok(())
        },
        move |i| format!("contents of {} bytes and their relatives", lens2[i as usize]),
    ));
    v
}
fn seq(al: &[S], mut i: u64, max: usize) -> Vec<S> {
    let b = al.len() as u64;
    for l in 0..=max {
        let n = b.pow(l as u32);
        if i < n {
            return digits(i, b, l).iter().map(|&x| al[x]).collect();
        }
        i -= n;
    }
    unreachable!()
}
