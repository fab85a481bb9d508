//! C01 values, C02 literals, C03 robustness, C04 rejection, C05 error
//! locations, C21 ignored enumerations.
use super::encode::parse_at;
use crate::dump::*;
use crate::gen::{self, Opt};
use crate::rng::{hash_str, Rng};
use crate::sup::*;
use crate::xml::*;
use svd_parser::Config;
use svd_rs::*;

pub const LEVELS: [ValidateLevel; 3] =
    [ValidateLevel::Disabled, ValidateLevel::Weak, ValidateLevel::Strict];

fn lname(l: ValidateLevel) -> &'static str {
    match l {
        ValidateLevel::Disabled => "disabled",
        ValidateLevel::Weak => "weak",
        ValidateLevel::Strict => "strict",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn c01(x: &mut Ctx) -> R {
    let lvl = x.rng.below(3) as u8;
    let mut o = Opt::random(&mut x.rng, lvl);
    o.unique = x.rng.pct(60);
    let mut d = gen::device(&mut x.rng, o);
    let (mut e, _) = render_el(&d, &mut x.rng);
    // what the document omits has its default
    if x.rng.pct(30) {
        let r = &mut x.rng;
        if lvl < 2 {
            if r.bool() {
                e.remove("version");
                d.version = "1.0".into();
            }
            if r.bool() {
                e.remove("description");
                d.description = "".into();
            }
            if r.bool() {
                e.remove("addressUnitBits");
                d.address_unit_bits = 8;
            }
            if r.bool() {
                e.remove("width");
                d.width = 32;
            }
        }
        match r.below(4) {
            0 => {
                e.attrs.retain(|a| a.0 != "schemaVersion");
                d.schema_version = "1.1".into();
            }
            1 => {
                e.attrs.retain(|a| !a.0.starts_with("xs:"));
                d.no_namespace_schema_location = "CMSIS-SVD_Schema_1_1.xsd".into();
            }
            2 => {
                e.attrs.clear();
                d.schema_version = "1.1".into();
                d.no_namespace_schema_location = "CMSIS-SVD_Schema_1_1.xsd".into();
                d.xmlns_xs = "http://www.w3.org/2001/XMLSchema-instance".into();
            }
            _ => {}
        }
        x.ev("documents with defaulted parts", 1);
    }
    let l = if x.rng.pct(85) { Layout::random(&mut x.rng) } else { Layout::plain() };
    let doc = write(&e, &l, &mut x.rng);
    let want = device(&d);
    x.eval();
    x.seen(hash_str(&doc.text));
    x.sample(|| doc.text.clone());
    let at = LEVELS[x.rng.below(lvl as usize + 1)];
    let got = match parse_at(&doc.text, at)? {
        Ok(g) => g,
        Err(m) => {
            return fail("not parsed", format!("a document valid at {} level does not parse: {m}", lname(at)), doc.text)
        }
    };
    if let Some(m) = diff(&want, &device(&got)) {
        return fail("differs", format!("parsed device: {m}"), doc.text);
    }
    if lvl >= 1 {
        let p = sut("parse", || svd_parser::parse(&doc.text).map_err(|e| format!("{e:#}")))?;
        match p {
            Ok(p) => {
                if let Some(m) = diff(&want, &device(&p)) {
                    return fail("differs", format!("device parsed by parse(): {m}"), doc.text);
                }
            }
            Err(m) => return fail("not parsed", format!("parse(): {m}"), doc.text),
        }
    }
    x.ev("elements written", e.count());
    x.ev("values compared", want.nodes());
    x.ev("documents", 1);
    Ok(())
}

/// Element tree in random style, without layout.
pub fn render_el(d: &Device, r: &mut Rng) -> (El, bool) {
    let vary = r.pct(85);
    let mut e = Sty { r, vary }.device(d);
    if vary {
        if r.pct(60) {
            permute(&mut e, r);
        }
        if r.pct(40) {
            add_junk(&mut e, r, 12);
        }
    }
    (e, vary)
}

// ---- C02 ----

/// The value a number text denotes; None if it is none.
fn number(t: &str, bits: u32) -> Option<u64> {
    let (digits, base) = if let Some(h) = t.strip_prefix("0x").or_else(|| t.strip_prefix("0X")) {
        (h.to_string(), 16)
    } else if let Some(b) = t.strip_prefix('#').or_else(|| t.strip_prefix("0b")) {
        (b.replace(['x', 'X'], "0"), 2)
    } else {
        (t.to_string(), 10)
    };
    if digits.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in digits.chars() {
        if !c.is_ascii() {
            return None;
        }
        v = v * base as u128 + c.to_digit(base)? as u128;
        if v >> bits != 0 {
            return None;
        }
    }
    Some(v as u64)
}

fn number_text(r: &mut Rng, bits: u32) -> String {
    let v = if bits == 32 { r.u32() as u64 } else { r.u64() };
    let mut s = Sty { r, vary: true }.num(v);
    match r.below(10) {
        0..=3 => return s,
        4 => {
            // long leading zeros
            let n = r.range(1, 40);
            let z = "0".repeat(n);
            s = if let Some(t) = s.strip_prefix("0x") {
                format!("0x{z}{t}")
            } else if let Some(t) = s.strip_prefix("0b") {
                format!("0b{z}{t}")
            } else if let Some(t) = s.strip_prefix('#') {
                format!("#{}{t}", z.replace('0', "x"))
            } else {
                format!("{z}{s}").trim_start_matches("00x").trim_start_matches("00X").to_string()
            };
        }
        5 => {
            // around the limit
            let m = if bits == 32 { u32::MAX as u128 } else { u64::MAX as u128 };
            let v = m - 2 + r.below(5) as u128;
            s = match r.below(4) {
                0 => format!("{v}"),
                1 => format!("0x{v:x}"),
                2 => format!("#{v:b}"),
                _ => format!("0b{v:b}"),
            };
        }
        6 => {
            s = r
                .pick(&[
                    "", "0x", "0X", "#", "0b", "-1", "1.5", "1e3", "0xG", "12a", "0b2", "#2", "0B1",
                    "0o7", "1_000", "1 2", "0x 1", "x", "#x", "0bX", "٣", "１", "ff", "0xx", "0x0x1",
                    "##1", "#0b1", "1h", "1k", "4294967296", "18446744073709551616", "--1", "true",
                    "0x1.0", "1,000", "0x12345678123456781", "1\u{a0}1", "0b0b1", "0x#1", "NaN",
                ])
                .to_string();
        }
        _ => {
            // one mutation
            let mut c: Vec<char> = s.chars().collect();
            let i = r.below(c.len() + 1);
            let n = *r.pick(&['x', 'X', 'b', '#', '0', '1', '2', '9', 'a', 'F', 'g', '-', '.', ' ', '_', 'é']);
            match r.below(3) {
                0 => c.insert(i, n),
                1 if i < c.len() => c[i] = n,
                _ if i < c.len() => {
                    c.remove(i);
                }
                _ => c.push(n),
            }
            s = c.into_iter().collect();
        }
    }
    s.trim().to_string()
}

fn boolean(t: &str) -> Option<bool> {
    match t {
        "1" | "true" => Some(true),
        "0" | "false" => Some(false),
        _ => None,
    }
}

fn bool_text(r: &mut Rng) -> String {
    r.pick(&[
        "0", "1", "true", "false", "0", "1", "true", "false", "TRUE", "True", "FALSE", "yes", "no", "2", "00",
        "01", "", "t", "f", "tru", "falsee", "0x1", "0x0", "on", "-0", "1.0", "true false", "١",
    ])
    .to_string()
}

pub fn bits_of(t: &str) -> Option<(u32, u32)> {
    let t = t.strip_prefix('[')?.strip_suffix(']')?;
    let (m, l) = t.split_once(':')?;
    let dec = |s: &str| -> Option<u64> {
        if s.is_empty() || s.len() > 30 || !s.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let v: u128 = s.parse().ok()?;
        u32::try_from(v).ok().map(u64::from)
    };
    range_of(dec(m)?, dec(l)?)
}
fn range_of(msb: u64, lsb: u64) -> Option<(u32, u32)> {
    if lsb > msb {
        return None;
    }
    Some((u32::try_from(lsb).ok()?, u32::try_from(msb - lsb + 1).ok()?))
}

/// The items a dimIndex text denotes; Err(()) when the format says nothing.
pub fn index_items(t: &str) -> Result<Option<Vec<String>>, ()> {
    if let Some((a, b)) = t.split_once('-') {
        let num = |s: &str| !s.is_empty() && s.len() < 12 && s.bytes().all(|b| b.is_ascii_digit());
        if num(a) && num(b) {
            let (x, y): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
            if x > u32::MAX as u64 || y > u32::MAX as u64 || y < x {
                return Ok(None);
            }
            if a.len() > 1 && a.starts_with('0') || b.len() > 1 && b.starts_with('0') {
                // leading zeros are not part of the grammar
                return Err(());
            }
            if y - x > 100_000 {
                return Err(());
            }
            return Ok(Some((x..=y).map(|i| i.to_string()).collect()));
        }
        if a.contains('+') || b.contains('+') {
            return Err(());
        }
        let letter = |s: &str| {
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(c), None) if c.is_ascii_alphabetic() => Some(c),
                _ => None,
            }
        };
        if let (Some(x), Some(y)) = (letter(a), letter(b)) {
            if x.is_ascii_lowercase() == y.is_ascii_lowercase() && x <= y {
                return Ok(Some((x..=y).map(|c| c.to_string()).collect()));
            }
        }
        return Ok(None);
    }
    let item = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_');
    let v: Vec<String> = t.split(',').map(|s| s.trim_start().to_string()).collect();
    if v.iter().all(|s| item(s)) {
        Ok(Some(v))
    } else {
        Err(())
    }
}

pub fn index_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 | 1 => {
            let a = r.below(40);
            let b = a + r.below(30);
            format!("{a}-{b}")
        }
        2 => {
            let a = *r.pick(&[0u64, 9, 10, 99, 4294967290, 4294967295]);
            let b = a + r.below(7) as u64;
            format!("{a}-{b}")
        }
        3 => format!("{}-{}", char::from(r.range(b'A' as usize, b'Z' as usize) as u8), char::from(r.range(b'A' as usize, b'Z' as usize) as u8)),
        4 => format!("{}-{}", char::from(r.range(b'a' as usize, b'z' as usize) as u8), char::from(r.range(b'a' as usize, b'z' as usize) as u8)),
        5 => format!("{}-{}", char::from(r.range(0x21, 0x7e) as u8), char::from(r.range(0x21, 0x7e) as u8)),
        6 => r
            .pick(&[
                "-", "5-2", "B-A", "a-C", "A-c", "Z-a", "1-", "-1", "a-", "-a", "1-2-3", "A-BC", "AB-C", "1-A",
                "0-0", "A-A", "z-z", "1.0-2", "0x1-0x3", "1–3", "4294967295-4294967296", "3-2", "10-9",
            ])
            .to_string(),
        7 => {
            let n = r.range(1, 6);
            (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")
        }
        _ => {
            let n = r.range(1, 30);
            (0..n)
                .map(|i| match r.below(4) {
                    0 => i.to_string(),
                    1 => format!("{i:02}"),
                    2 => r.pick(&["A", "b", "CH", "x_1", "_", "RX0"]).to_string(),
                    _ => format!("k{i}"),
                })
                .collect::<Vec<_>>()
                .join(",")
        }
    }
}

struct Slot {
    path: Vec<usize>,
    tag: String,
    parent: String,
}

fn slots(e: &El, f: impl Fn(&str, &str) -> bool) -> Vec<Slot> {
    e.paths()
        .into_iter()
        .filter(|p| f(&p.1, &p.2))
        .map(|p| Slot {
            path: p.0,
            tag: p.1,
            parent: p.2,
        })
        .collect()
}

const N32: &[&str] = &[
    "addressUnitBits",
    "width",
    "size",
    "dimIncrement",
    "addressOffset",
    "bitOffset",
    "bitWidth",
    "offset",
    "nvicPrioBits",
    "deviceNumInterrupts",
    "sauNumRegions",
];
const N64: &[&str] = &["baseAddress", "resetValue", "resetMask", "minimum", "maximum"];
const BOOLS: &[&str] = &[
    "mpuPresent",
    "fpuPresent",
    "fpuDP",
    "dspPresent",
    "icachePresent",
    "dcachePresent",
    "itcmPresent",
    "dtcmPresent",
    "vtorPresent",
    "vendorSystickConfig",
    "isDefault",
    "writeAsRead",
    "useEnumeratedValues",
];

fn num_bits(tag: &str, parent: &str) -> Option<u32> {
    match tag {
        "value" => Some(if parent == "interrupt" { 32 } else { 64 }),
        "dim" | "lsb" | "msb" => Some(32),
        t if N32.contains(&t) => Some(32),
        t if N64.contains(&t) => Some(64),
        _ => None,
    }
}

/// A value set at a place of the dump tree: the dump of the parsed document
/// must differ from that of the original exactly there.
pub fn c02(x: &mut Ctx) -> R {
    // a document rich in numbers
    let mut o = Opt::random(&mut x.rng, 0);
    o.budget = *x.rng.pick(&[4, 8, 16]);
    o.dense = *x.rng.pick(&[50, 100]);
    o.wild_text = false;
    let mut d = gen::device(&mut x.rng, o);
    if d.cpu.is_none() && x.rng.pct(30) {
        d.cpu = Some(gen::tpl_cpu());
    }
    let e = Sty { r: &mut x.rng, vary: false }.device(&d);
    // many literals per document
    for _ in 0..6 {
        literal(x, &e)?;
    }
    dim_index(x)?;
    bit_texts(x)
}

fn parse_el(e: &El, r: &mut Rng) -> (String, R<Result<Device, String>>) {
    let mut l = Layout::plain();
    if r.pct(30) {
        l.pad = true;
        l.vary = true;
        l.charref = r.bool();
        l.cdata = r.bool();
    }
    let doc = write(e, &l, r);
    let p = parse_at(&doc.text, ValidateLevel::Disabled);
    (doc.text, p)
}

fn literal(x: &mut Ctx, e: &El) -> R {
    let bools = x.rng.pct(30);
    let all = slots(e, |t, p| {
        if bools {
            BOOLS.contains(&t)
        } else {
            // dim has to fit the index list, lsb and msb each other: done elsewhere
            num_bits(t, p).is_some() && !matches!(t, "dim" | "lsb" | "msb")
                // the kind of a slot decides how often it is chosen
        }
    });
    if all.is_empty() {
        return Ok(());
    }
    // choose the kind first
    let mut kinds: Vec<(&str, &str)> = all.iter().map(|s| (s.tag.as_str(), s.parent.as_str())).collect();
    kinds.sort();
    kinds.dedup();
    let k = *x.rng.pick(&kinds);
    let of: Vec<&Slot> = all.iter().filter(|s| s.tag == k.0 && s.parent == k.1).collect();
    let s = *x.rng.pick(&of);
    let (text, canon) = if bools {
        let t = bool_text(&mut x.rng);
        let c = boolean(&t).map(|b| b.to_string());
        (t, c)
    } else {
        let bits = num_bits(&s.tag, &s.parent).unwrap();
        let t = number_text(&mut x.rng, bits);
        let c = number(&t, bits).map(|v| v.to_string());
        (t, c)
    };
    if text.contains('+') {
        return Ok(());
    }
    let mut a = e.clone();
    a.at_mut(&s.path).set_text(&text);
    let (doc, got) = parse_el(&a, &mut x.rng);
    let got = got.with(|| doc.clone())?;
    x.eval();
    x.seen(hash_str(&format!("{}/{} {text}", s.parent, s.tag)));
    x.sample(|| format!("<{}> in <{}>: {text:?} means {canon:?}", s.tag, s.parent));
    let what = format!("<{}>{text}</{}> in <{}>", s.tag, s.tag, s.parent);
    match (canon, got) {
        (None, Ok(_)) => fail("accepted", format!("{what} is no literal but was accepted"), doc),
        (None, Err(_)) => {
            x.ev("bad literals refused", 1);
            Ok(())
        }
        (Some(_), Err(m)) => fail("refused", format!("{what} was refused: {m}"), doc),
        (Some(c), Ok(g)) => {
            // the same document with the value in plain notation; what that
            // means is C01's matter, checked here through the raw dump
            let mut b = e.clone();
            b.at_mut(&s.path).set_text(&c);
            let (_, want) = parse_el(&b, &mut x.rng);
            let want = match want? {
                Ok(w) => w,
                Err(m) => return fail("refused", format!("<{}>{c}</{}> was refused: {m}", s.tag, s.tag), doc),
            };
            let (w, g) = (device(&want), device(&g));
            if let Some(m) = diff(&w, &g) {
                return fail("value", format!("{what} means {c}: {m}"), doc);
            }
            // and the canonical value is really in there
            if !values(&g).contains(&c) {
                return fail("value", format!("{what}: no {c} in the device"), doc);
            }
            x.ev("good literals", 1);
            if !bools {
                x.ev(
                    match text.as_bytes() {
                        [b'#', ..] => "# binary",
                        [b'0', b'b', ..] => "0b binary",
                        [b'0', b'x', ..] => "0x hexadecimal",
                        [b'0', b'X', ..] => "0X hexadecimal",
                        _ => "decimal",
                    },
                    1,
                );
            }
            Ok(())
        }
    }
}

fn values(v: &V) -> std::collections::HashSet<String> {
    fn go(v: &V, o: &mut std::collections::HashSet<String>) {
        match v {
            V::S(s) => {
                o.insert(s.clone());
            }
            V::L(l) => l.iter().for_each(|x| go(x, o)),
            V::M(m) => m.iter().for_each(|x| go(&x.1, o)),
        }
    }
    let mut o = Default::default();
    go(v, &mut o);
    o
}

/// A register with one field, for the bit-range notations.
fn tiny(field: Vec<El>, dim: Vec<El>) -> El {
    let mut f = El::new("field");
    f.push(El::leaf("name", "f"));
    for x in field {
        f.push(x);
    }
    let mut fs = El::new("fields");
    fs.push(f);
    let mut r = El::new("register");
    for x in &dim {
        r.push(x.clone());
    }
    r.push(El::leaf("name", if dim.is_empty() { "r" } else { "r%s" }));
    r.push(El::leaf("addressOffset", "0"));
    r.push(fs);
    let mut rs = El::new("registers");
    rs.push(r);
    let mut p = El::new("peripheral");
    p.push(El::leaf("name", "p"));
    p.push(El::leaf("baseAddress", "0"));
    p.push(rs);
    let mut ps = El::new("peripherals");
    ps.push(p);
    let mut d = El::new("device");
    d.push(El::leaf("name", "d"));
    d.push(ps);
    d
}

fn the_register(d: &Device) -> Option<&Register> {
    match d.peripherals.first().map(|p| split(p).0)?.registers.as_ref()?.first()? {
        RegisterCluster::Register(r) => Some(r),
        _ => None,
    }
}

fn dim_index(x: &mut Ctx) -> R {
    let t = index_text(&mut x.rng);
    let Ok(want) = index_items(&t) else { return Ok(()) };
    let n = match &want {
        Some(v) => v.len() as u32,
        // so many that only the text itself can be at fault
        None => match sut("DimElement::parse_indexes", || DimElement::parse_indexes(&t))? {
            Some(v) => v.len() as u32,
            None => x.rng.below(5) as u32,
        },
    };
    let e = tiny(
        vec![El::leaf("bitRange", "[0:0]")],
        vec![
            El::leaf("dim", &n.to_string()),
            El::leaf("dimIncrement", "4"),
            El::leaf("dimIndex", &t),
        ],
    );
    let (doc, got) = parse_el(&e, &mut x.rng);
    let got = got.with(|| doc.clone())?;
    x.eval();
    x.seen(hash_str(&format!("dimIndex {t}")));
    match (want, got) {
        (None, Ok(_)) => fail("accepted", format!("dimIndex {t:?} was accepted"), doc),
        (None, Err(_)) => {
            x.ev("bad dimIndex refused", 1);
            Ok(())
        }
        (Some(_), Err(m)) => fail("refused", format!("dimIndex {t:?} was refused: {m}"), doc),
        (Some(w), Ok(d)) => {
            let got = the_register(&d).and_then(|r| split(r).1.cloned());
            let Some(g) = got else {
                return fail("value", format!("dimIndex {t:?}: no array parsed"), doc);
            };
            if g.dim_index.as_ref() != Some(&w) || g.dim != n {
                return fail("value", format!("dimIndex {t:?}: {w:?} wanted, {:?} found", g.dim_index), doc);
            }
            x.ev("good dimIndex", 1);
            Ok(())
        }
    }
}

fn bit_texts(x: &mut Ctx) -> R {
    let r = &mut x.rng;
    // one range in three notations
    let (off, width) = match r.below(3) {
        0 => {
            let o = r.range(0, 63);
            (o as u32, r.range(1, 64 - o) as u32)
        }
        _ => {
            let w = r.u32().max(1);
            (r.u32().min(u32::MAX - (w - 1)), w)
        }
    };
    let msb = off as u64 + width as u64 - 1;
    let mut s = Sty { r, vary: true };
    let mut ow = vec![El::leaf("bitOffset", &s.num(off as u64)), El::leaf("bitWidth", &s.num(width as u64))];
    let mut ml = vec![El::leaf("lsb", &s.num(off as u64)), El::leaf("msb", &s.num(msb))];
    x.rng.shuffle(&mut ow);
    x.rng.shuffle(&mut ml);
    let forms = [
        (vec![El::leaf("bitRange", &format!("[{msb}:{off}]"))], BitRangeType::BitRange),
        (ow, BitRangeType::OffsetWidth),
        (ml, BitRangeType::MsbLsb),
    ];
    for (f, t) in forms {
        let (doc, got) = parse_el(&tiny(f, vec![]), &mut x.rng);
        let got = got.with(|| doc.clone())?;
        x.eval();
        match got {
            Err(m) => return fail("refused", format!("bits {off}+{width} as {t:?} refused: {m}"), doc),
            Ok(d) => {
                let b = the_register(&d)
                    .and_then(|r| split(r).0.fields.as_ref())
                    .and_then(|f| f.first())
                    .map(|f| split(f).0.bit_range);
                let want = BitRange { offset: off, width, range_type: t };
                if b.map(|b| (b.offset, b.width, b.range_type)) != Some((want.offset, want.width, want.range_type)) {
                    return fail("value", format!("bits: {want:?} wanted, {b:?} found"), doc);
                }
            }
        }
        x.ev("bit ranges in three notations", 1);
    }
    // texts and pairs which may be bad
    let r = &mut x.rng;
    let (f, want, what) = if r.bool() {
        let t = match r.below(4) {
            0 => format!("[{}:{}]", r.u32(), r.u32()),
            1 => {
                let (a, b) = (r.below(70), r.below(70));
                format!("[{}:{}]", a.max(b), a.min(b))
            }
            2 => r
                .pick(&[
                    "", "[", "]", "[]", "[:]", "[3]", "[3:]", "[:3]", "[a:b]", "[1:3]", "[0x3:0]", "3:0", "(3:0)",
                    "[3-0]", "[-1:0]", "[ 3:0]", "[3 :0]", "[3:0", "3:0]", "[3:0]]", "[[3:0]", "[7:0:3]", "[3;0]",
                    "[4294967296:0]", "[4294967295:0]", "[4294967295:1]", "[0:4294967295]", "[#1:0]", "[31:0x0]",
                    "[3,0]", "{3:0}", "[3:0] x", "é[3:0]", "[3:0é", "[00031:00]", "[0:0]", "[7.5:0]",
                ])
                .to_string(),
            _ => {
                let mut c: Vec<char> = format!("[{}:{}]", r.below(64), r.below(8)).chars().collect();
                let i = r.below(c.len());
                match r.below(3) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c[i] = *r.pick(&['[', ']', ':', 'x', ' ', '-', '9', '0']),
                    _ => c.insert(i, *r.pick(&['[', ']', ':', 'x', '-', '9', '0', '.'])),
                }
                c.into_iter().collect()
            }
        };
        let t = t.trim().to_string();
        let w = bits_of(&t);
        (vec![El::leaf("bitRange", &t)], w, format!("bitRange {t:?}"))
    } else {
        let (a, b) = (number_text(r, 32), number_text(r, 32));
        if a.contains('+') || b.contains('+') {
            return Ok(());
        }
        let w = match (number(&a, 32), number(&b, 32)) {
            (Some(l), Some(m)) => range_of(m, l),
            _ => None,
        };
        (vec![El::leaf("lsb", &a), El::leaf("msb", &b)], w, format!("lsb {a:?} msb {b:?}"))
    };
    let (doc, got) = parse_el(&tiny(f, vec![]), &mut x.rng);
    let got = got.with(|| doc.clone())?;
    x.eval();
    x.seen(hash_str(&what));
    match (want, got) {
        (None, Ok(_)) => fail("accepted", format!("{what} was accepted"), doc),
        (Some(_), Err(m)) => fail("refused", format!("{what} was refused: {m}"), doc),
        (None, Err(_)) => {
            x.ev("bad bit ranges refused", 1);
            Ok(())
        }
        (Some((o, w)), Ok(d)) => {
            let b = the_register(&d)
                .and_then(|r| split(r).0.fields.as_ref())
                .and_then(|f| f.first())
                .map(|f| split(f).0.bit_range);
            match b {
                Some(b) if b.offset == o && b.width == w => Ok(()),
                _ => fail("value", format!("{what}: {o}+{w} wanted, {b:?} found"), doc),
            }
        }
    }
}

// ---- C04, C05: one defect ----

pub struct Defect {
    /// where, as a kind
    pub kind: &'static str,
    pub what: String,
    /// inside the part of a field that ignoring enumerations drops
    pub in_enums: bool,
    /// least validation level which has to report it
    pub lvl: u8,
}

const REQUIRED: &[(&str, &[&str])] = &[
    ("device", &["name", "peripherals"]),
    ("peripheral", &["name", "baseAddress"]),
    ("register", &["name", "addressOffset"]),
    ("cluster", &["name", "addressOffset"]),
    ("field", &["name"]),
    ("interrupt", &["name", "value"]),
    ("addressBlock", &["offset", "size", "usage"]),
    (
        "cpu",
        &[
            "name",
            "revision",
            "endian",
            "mpuPresent",
            "fpuPresent",
            "nvicPrioBits",
            "vendorSystickConfig",
        ],
    ),
    ("enumeratedValue", &["name"]),
    ("range", &["minimum", "maximum"]),
];

/// The word lists, by parent kind for `usage`.
fn words(tag: &str, parent: &str) -> Option<Vec<&'static str>> {
    Some(match tag {
        "access" => ACCESS.iter().map(|x| access(*x)).collect(),
        "protection" => PROTECTION.iter().map(|x| protection(*x)).collect(),
        "usage" if parent == "addressBlock" => ABUSAGE.iter().map(|x| abusage(*x)).collect(),
        "usage" => USAGE.iter().map(|x| usage(*x)).collect(),
        "endian" => ENDIAN.iter().map(|x| endian(*x)).collect(),
        "dataType" => DATATYPE.iter().map(|x| datatype(*x)).collect(),
        "modifiedWriteValues" => MWV.iter().map(|x| mwv(*x)).collect(),
        "readAction" => READACTION.iter().map(|x| readaction(*x)).collect(),
        _ => return None,
    })
}

pub fn bad_word(r: &mut Rng, ok: &[&str]) -> String {
    loop {
        let w = *r.pick(ok);
        let s = match r.below(9) {
            0 => w.to_uppercase(),
            1 => {
                let mut c = w.chars();
                let f = c.next().unwrap().to_uppercase().to_string();
                format!("{f}{}", c.as_str())
            }
            2 => w.replace('-', "_"),
            3 => w.replace('-', ""),
            4 => format!("{w}{}", r.pick(&["s", "1", " x", ".", "d"])),
            5 => w[..w.len() - 1].to_string(),
            6 => (*r.pick(&["", "none", "0", "unknown", "read", "rw", "modify2", "uint8_t*", "default"])).to_string(),
            7 => w.to_lowercase(),
            _ => (*r.pick(&["read-only", "s", "registers", "little", "oneToClear", "modify", "uint8_t", "write"])).to_string(),
        };
        let s = s.trim().to_string();
        if !ok.contains(&s.as_str()) {
            return s;
        }
    }
}

fn is_array(e: &El) -> bool {
    e.child("dimIncrement").is_some()
}

const MARK: u32 = 77;

fn inside_enums(e: &El, path: &[usize]) -> bool {
    let mut c = e;
    let mut field = false;
    for &i in path {
        c = match &c.kids[i] {
            Kid::E(x) => x,
            _ => unreachable!(),
        };
        if field && matches!(c.tag.as_str(), "enumeratedValues" | "writeConstraint") {
            return true;
        }
        field = c.tag == "field";
    }
    false
}

/// Plants one defect and marks the element an error has to name.
pub fn plant(e: &mut El, r: &mut Rng) -> Option<Defect> {
    let paths = e.paths();
    let choose = |r: &mut Rng, f: &dyn Fn(&El, &str, &str) -> bool| -> Option<Vec<usize>> {
        // kinds first, then a place
        let c: Vec<&(Vec<usize>, String, String)> =
            paths.iter().filter(|p| f(e.at(&p.0), &p.1, &p.2)).collect();
        if c.is_empty() {
            return None;
        }
        let mut kinds: Vec<(&str, &str)> = c.iter().map(|p| (p.1.as_str(), p.2.as_str())).collect();
        kinds.sort();
        kinds.dedup();
        let k = *r.pick(&kinds);
        let c: Vec<_> = c.into_iter().filter(|p| p.1 == k.0 && p.2 == k.1).collect();
        Some(r.pick(&c).0.clone())
    };
    let d = |kind, what: String, path: &[usize], e: &El| Defect {
        kind,
        what,
        in_enums: inside_enums(e, path),
        lvl: 0,
    };
    match r.below(16) {
        0 | 1 => {
            let p = choose(r, &|_, t, _| REQUIRED.iter().any(|q| q.0 == t))?;
            let tag = e.at(&p).tag.clone();
            let req = REQUIRED.iter().find(|q| q.0 == tag).unwrap().1;
            let c = *r.pick(req);
            let res = d("missing element", format!("<{tag}> without <{c}>"), &p, e);
            let x = e.at_mut(&p);
            x.remove(c);
            x.mark = MARK;
            Some(res)
        }
        2 => {
            // an empty required text
            let p = choose(r, &|_, t, p| {
                t == "name" && REQUIRED.iter().any(|q| q.0 == p) || t == "revision" && p == "cpu"
            })?;
            let up = &p[..p.len() - 1];
            let res = d("empty name", format!("<{}> with empty <{}>", e.at(up).tag, e.at(&p).tag), &p, e);
            e.at_mut(&p).kids = blank(r);
            e.at_mut(up).mark = MARK;
            Some(res)
        }
        3 => {
            // no bit position
            let p = choose(r, &|_, t, _| t == "field")?;
            let x = e.at_mut(&p);
            if x.child("bitRange").is_some() {
                x.remove("bitRange");
            } else {
                let t = match (x.child("lsb").is_some(), r.below(3)) {
                    (true, 0) => vec!["lsb"],
                    (true, 1) => vec!["msb"],
                    (true, _) => vec!["lsb", "msb"],
                    (false, 0) => vec!["bitOffset"],
                    (false, 1) => vec!["bitWidth"],
                    (false, _) => vec!["bitOffset", "bitWidth"],
                };
                for t in t {
                    x.remove(t);
                }
            }
            x.mark = MARK;
            Some(d("no bit range", "a field without its bit range".into(), &p, e))
        }
        4 | 5 => {
            let p = choose(r, &|_, t, p| words(t, p).is_some())?;
            let parent = e.at(&p[..p.len() - 1]).tag.clone();
            let tag = e.at(&p).tag.clone();
            let w = bad_word(r, &words(&tag, &parent).unwrap());
            let res = d("keyword", format!("<{tag}>{w}</{tag}> in <{parent}>"), &p, e);
            let x = e.at_mut(&p);
            x.set_text(&w);
            x.mark = MARK;
            Some(res)
        }
        6 | 7 => {
            // a foreign element in a list
            let p = choose(r, &|_, t, _| {
                matches!(t, "peripherals" | "registers" | "fields" | "enumeratedValues" | "dimArrayIndex")
            })?;
            let tag = e.at(&p).tag.clone();
            let cand: &[&str] = match tag.as_str() {
                "peripherals" => &["register", "cluster", "device", "peripherals", "Peripheral", "vendorExtensions", "name"],
                "registers" => &["field", "peripheral", "registers", "Register", "name", "description", "vendorExtensions"],
                "fields" => &["register", "fields", "enumeratedValue", "Field", "name", "bitRange"],
                _ => &["field", "enumeratedValues", "value", "EnumeratedValue", "description", "isDefault"],
            };
            let c = *r.pick(cand);
            let mut x = El::new(c);
            if r.bool() {
                x.push(El::leaf("name", "foreign"));
                x.push(El::leaf("baseAddress", "0"));
                x.push(El::leaf("addressOffset", "0"));
                x.push(El::leaf("bitRange", "[0:0]"));
                x.push(El::leaf("value", "0"));
            }
            x.mark = MARK;
            let list = e.at_mut(&p);
            let at = r.below(list.kids.len() + 1);
            list.kids.insert(at, Kid::E(x));
            let mut q = p.clone();
            q.push(at);
            Some(d("foreign element", format!("<{c}> in <{tag}>"), &q, e))
        }
        8 | 9 => {
            let p = choose(r, &|_, t, _| t == "writeConstraint")?;
            let x = e.at_mut(&p);
            let what = match r.below(5) {
                0 => {
                    x.kids.clear();
                    "empty"
                }
                1 => {
                    let k = x.kids[0].clone();
                    x.kids.push(k);
                    "doubled"
                }
                2 => {
                    x.push(El::leaf("writeAsRead", "true"));
                    x.push(El::leaf("useEnumeratedValues", "true"));
                    "doubled"
                }
                3 => {
                    x.kids.insert(0, Kid::E(El::leaf("useEnumeratedValues", "false")));
                    "doubled"
                }
                _ => {
                    let t = *r.pick(&["Range", "writeasread", "unknown", "minimum", "enumeratedValues"]);
                    x.kids = vec![Kid::E(El::leaf(t, "true"))];
                    "of unknown kind"
                }
            };
            x.mark = MARK;
            Some(d("write constraint", format!("writeConstraint {what}"), &p, e))
        }
        10 => {
            let p = choose(r, &|x, t, _| matches!(t, "peripheral" | "cluster" | "register" | "field") && is_array(x))?;
            let x = e.at_mut(&p);
            let tag = x.tag.clone();
            x.remove("dim");
            x.mark = MARK;
            Some(d("array without dim", format!("<{tag}> with dimIncrement but no dim"), &p, e))
        }
        11 => {
            // either an array without placeholder, or dims on a single
            let p = choose(r, &|_, t, _| matches!(t, "peripheral" | "cluster" | "register" | "field"))?;
            let x = e.at_mut(&p);
            let tag = x.tag.clone();
            if is_array(x) {
                let n = x.child_mut("name").unwrap();
                // near misses of a placeholder are none
                let t = n.text().replace("%s", *r.pick(&["", "x", "0", "%", "%d", "%S", "% s", "s%", "[%]", "[s]", "%%", "{}"]));
                let t = if t.contains("%s") || t.is_empty() { "Plain".into() } else { t };
                n.set_text(&t);
            } else {
                x.kids.insert(0, Kid::E(El::leaf("dimIncrement", "4")));
                x.kids.insert(0, Kid::E(El::leaf("dim", "2")));
            }
            x.mark = MARK;
            Some(d("placeholder", format!("<{tag}> array whose name has no placeholder"), &p, e))
        }
        12 => {
            let p = choose(r, &|x, t, _| {
                matches!(t, "peripheral" | "cluster" | "register" | "field")
                    && is_array(x)
                    && x.child("dim").map(|d| d.text() != "0").unwrap_or(false)
            })?;
            let x = e.at_mut(&p);
            let tag = x.tag.clone();
            let n: usize = crate::checks::parse::number(&x.child("dim").unwrap().text(), 32)? as usize;
            if n > 1000 {
                return None;
            }
            let m = match r.below(3) {
                0 => n + 1,
                1 if n > 1 => n - 1,
                _ => n + r.range(1, 5),
            };
            let t = if r.bool() {
                (0..m).map(|i| format!("i{i}")).collect::<Vec<_>>().join(",")
            } else {
                format!("0-{}", m - 1)
            };
            x.remove("dimIndex");
            x.push(El::leaf("dimIndex", &t));
            x.mark = MARK;
            Some(d("index count", format!("<{tag}> with dim {n} and {m} indexes"), &p, e))
        }
        13 | 14 => {
            // a bad literal
            let p = choose(r, &|_, t, p| num_bits(t, p).is_some() || BOOLS.contains(&t) || t == "dimIndex")?;
            let parent = e.at(&p[..p.len() - 1]).tag.clone();
            let tag = e.at(&p).tag.clone();
            let bad = if tag == "dimIndex" {
                *r.pick(&["5-2", "B-A", "1-", "a-C", "-"])
            } else {
                *r.pick(&["", "zz", "-1", "1.5", "0xG", "#2", "0x", "99999999999999999999999", "truee", "1 1"])
            };
            let res = d("literal", format!("<{tag}>{bad}</{tag}> in <{parent}>"), &p, e);
            let bits = matches!(tag.as_str(), "lsb" | "msb" | "bitOffset" | "bitWidth");
            e.at_mut(&p).set_text(bad);
            if bits {
                e.at_mut(&p[..p.len() - 1]).mark = MARK;
            } else {
                e.at_mut(&p).mark = MARK;
            }
            Some(res)
        }
        _ => {
            let p = choose(r, &|_, t, _| matches!(t, "bitRange" | "msb"))?;
            let up = &p[..p.len() - 1];
            let x = e.at_mut(up);
            if x.child("bitRange").is_some() {
                let t = *r.pick(&["", "[3]", "[1:3]", "3:0", "[a:0]", "[7:0", "[7:0:3]", "[4294967295:0]"]);
                x.child_mut("bitRange").unwrap().set_text(t);
            } else {
                x.child_mut("lsb").unwrap().set_text("9");
                x.child_mut("msb").unwrap().set_text("7");
            }
            x.mark = MARK;
            Some(d("bad bit range", "a field with a bad bit range".into(), &p, e))
        }
    }
}

/// A strictly valid device rich in optional parts.
pub fn rich(x: &mut Ctx) -> Device {
    let mut o = Opt::random(&mut x.rng, 2);
    o.dense = *x.rng.pick(&[30, 60, 90]);
    o.derive = x.rng.pct(30);
    if x.rng.pct(10) {
        o.budget = 400;
    }
    gen::device(&mut x.rng, o)
}

pub fn c04(x: &mut Ctx) -> R {
    let d = rich(x);
    let (mut e, _) = render_el(&d, &mut x.rng);
    if x.rng.pct(5) {
        let l = Layout::random(&mut x.rng);
        let doc = write(&e, &l, &mut x.rng);
        for l in LEVELS {
            if let Err(m) = parse_at(&doc.text, l)? {
                return fail("sound", format!("a document without defect is refused at {} level: {m}", lname(l)), doc.text);
            }
        }
        x.ev("documents without defect", 1);
    }
    let Some(df) = plant(&mut e, &mut x.rng) else {
        x.ev("no place for the defect", 1);
        return Ok(());
    };
    let l = Layout::random(&mut x.rng);
    let doc = write(&e, &l, &mut x.rng);
    x.seen(hash_str(&doc.text));
    x.sample(|| format!("{}: {}", df.kind, df.what));
    for l in LEVELS {
        x.eval();
        if parse_at(&doc.text, l)?.is_ok() {
            return fail(
                &format!("accepted: {}", df.kind),
                format!("{} is accepted at {} level", df.what, lname(l)),
                doc.text,
            );
        }
    }
    x.ev(&format!("refused: {}", df.kind), 1);
    if e.count() > 300 {
        x.ev("refused in documents of more than 300 elements", 1);
    }
    Ok(())
}

/// A violation of the validation rules, with the element that has it.
pub fn plant_invalid(e: &mut El, r: &mut Rng) -> Option<Defect> {
    let paths = e.paths();
    let all = |f: &dyn Fn(&El, &str, &str) -> bool| -> Vec<Vec<usize>> {
        paths.iter().filter(|p| f(e.at(&p.0), &p.1, &p.2)).map(|p| p.0.clone()).collect()
    };
    let one = |r: &mut Rng, v: Vec<Vec<usize>>| if v.is_empty() { None } else { Some(r.pick(&v).clone()) };
    let (p, kind, what, lvl) = match r.below(6) {
        0 => {
            let p = one(r, all(&|_, t, p| t == "size" && p != "addressBlock"))?;
            let up = p[..p.len() - 1].to_vec();
            let x = e.at_mut(&up);
            x.child_mut("size").unwrap().set_text("8");
            x.remove("resetValue");
            x.push(El::leaf("resetValue", "0x100"));
            x.remove("resetMask");
            (up, "reset value", "a reset value wider than its size", 1)
        }
        1 => {
            let p = one(r, all(&|x, t, _| t == "field" && x.child("bitWidth").is_some()))?;
            let x = e.at_mut(&p);
            x.child_mut("bitWidth").unwrap().set_text("0");
            x.remove("enumeratedValues");
            x.remove("writeConstraint");
            (p, "zero width", "a zero-width field", 1)
        }
        2 => {
            let p = one(r, all(&|x, t, p| {
                t == "enumeratedValue" && p == "enumeratedValues" && x.child("value").is_some()
            }))?;
            let x = e.at_mut(&p);
            x.remove("value");
            x.remove("isDefault");
            (p, "no value", "an enumerated value with neither value nor default mark", 1)
        }
        3 => {
            let p = one(r, all(&|_, t, p| t == "name" && matches!(p, "register" | "field" | "cluster" | "peripheral")))?;
            let up = p[..p.len() - 1].to_vec();
            let x = e.at_mut(&up);
            let t = format!("{}!", x.child("name").unwrap().text());
            x.child_mut("name").unwrap().set_text(&t);
            (up, "name", "an illegal name", 2)
        }
        4 => {
            let p = one(r, all(&|x, t, _| t == "register" && x.child("fields").is_some()
                && !x.attrs.iter().any(|a| a.0 == "derivedFrom")))?;
            e.at_mut(&p).child_mut("fields").unwrap().kids.clear();
            (p, "empty fields", "a register with an empty list of fields", 2)
        }
        _ => {
            let p = one(r, all(&|_, t, p| t == "value" && p == "enumeratedValue"))?;
            // the field is to blame
            let f = p[..p.len().checked_sub(3)?].to_vec();
            if e.at(&f).tag != "field" || e.at(&p[..p.len() - 2]).tag != "enumeratedValues" {
                return None;
            }
            let w = match e.at(&f).child("bitWidth") {
                Some(w) => number(&w.text(), 32)?,
                None => return None,
            };
            if w >= 64 {
                return None;
            }
            // just too wide, or far
            let v = match r.below(3) {
                0 => u64::MAX,
                1 => (1u64 << w) + r.below(3) as u64,
                _ => 1u64 << w,
            };
            e.at_mut(&p).set_text(&format!("{v}"));
            (f, "value range", "an enumerated value too wide for its field", 1)
        }
    };
    let in_enums = false;
    e.at_mut(&p).mark = MARK;
    Some(Defect {
        kind,
        what: what.into(),
        in_enums,
        lvl,
    })
}

pub fn c05(x: &mut Ctx) -> R {
    let d = rich(x);
    let (mut e, _) = render_el(&d, &mut x.rng);
    let df = if x.rng.pct(75) { plant(&mut e, &mut x.rng) } else { plant_invalid(&mut e, &mut x.rng) };
    let Some(df) = df else {
        x.ev("no place for the defect", 1);
        return Ok(());
    };
    let l = Layout::random(&mut x.rng);
    let doc = write(&e, &l, &mut x.rng);
    let (line, col) = doc.pos_of(MARK);
    // the names of the enclosing elements
    let mut names: Vec<String> = vec![];
    let mut tag = String::new();
    e.walk(&mut |_, up, m| {
        if m.mark == MARK {
            tag = m.tag.clone();
            for u in up.iter() {
                if matches!(u.tag.as_str(), "device" | "peripheral" | "register" | "field") {
                    if let Some(n) = u.child("name") {
                        if !n.kids.is_empty() {
                            names.push(n.text());
                        }
                    }
                }
            }
        }
    });
    let at = LEVELS[x.rng.range(df.lvl as usize, 2)];
    x.eval();
    x.seen(hash_str(&doc.text));
    let msg = match parse_at(&doc.text, at)? {
        Ok(_) => {
            return fail(
                &format!("accepted: {}", df.kind),
                format!("{} is accepted at {} level", df.what, lname(at)),
                doc.text,
            )
        }
        Err(m) => m,
    };
    x.sample(|| format!("{} -> {msg}", df.what));
    if !has_pos(&msg, line, col) {
        return fail(
            &format!("position: {}", df.kind),
            format!("{}: the error is at {line}:{col}, the report says: {msg}", df.what),
            doc.text,
        );
    }
    if !msg.contains(&tag) {
        return fail(
            &format!("element: {}", df.kind),
            format!("{}: the report does not name <{tag}>: {msg}", df.what),
            doc.text,
        );
    }
    for n in &names {
        if !msg.contains(n.as_str()) {
            return fail(
                &format!("parents: {}", df.kind),
                format!("{}: the report does not name the parent {n:?}: {msg}", df.what),
                doc.text,
            );
        }
    }
    x.ev(&format!("located: {}", df.kind), 1);
    x.ev("parents named", names.len());
    Ok(())
}

/// Whether `line:col` occurs, not as a part of longer numbers.
fn has_pos(msg: &str, line: usize, col: usize) -> bool {
    let p = format!("{line}:{col}");
    let mut from = 0;
    while let Some(i) = msg[from..].find(&p) {
        let (a, b) = (from + i, from + i + p.len());
        let before = msg[..a].chars().next_back();
        let after = msg[b..].chars().next();
        let digit = |c: Option<char>| c.map(|c| c.is_ascii_digit()).unwrap_or(false);
        if !digit(before) && !digit(after) {
            return true;
        }
        from = a + 1;
    }
    false
}

// ---- C21 ----

pub fn strip(d: &Device) -> Device {
    fn rcs(v: &mut [RegisterCluster]) {
        for x in v {
            match x {
                RegisterCluster::Register(r) => {
                    for f in split_mut(r).0.fields.iter_mut().flatten() {
                        let f = split_mut(f).0;
                        f.enumerated_values.clear();
                        f.write_constraint = None;
                    }
                }
                RegisterCluster::Cluster(c) => rcs(&mut split_mut(c).0.children),
            }
        }
    }
    let mut d = d.clone();
    for p in &mut d.peripherals {
        if let Some(v) = &mut split_mut(p).0.registers {
            rcs(v);
        }
    }
    d
}

pub fn c21(x: &mut Ctx) -> R {
    let lvl = x.rng.below(3) as u8;
    let mut o = Opt::random(&mut x.rng, lvl);
    o.enums = true;
    o.dense = *x.rng.pick(&[30, 60, 90]);
    let expand = x.rng.pct(30);
    if expand {
        o.derive = false;
        o.fit = true;
        o.small_bits = true;
        o.budget = o.budget.min(40);
        o.max_depth = o.max_depth.min(3);
    }
    let mut d = gen::device(&mut x.rng, o);
    if expand {
        super::tame(&mut d, 4, &mut x.rng);
    }
    let (mut e, _) = render_el(&d, &mut x.rng);
    let at = LEVELS[x.rng.below(lvl as usize + 1)];
    let cfg = Config::default().validate_level(at).ignore_enums(true).expand(expand);
    let go = |t: &str| {
        sut("parsing", || svd_parser::parse_with_config(t, &cfg).map_err(|e| format!("{e:#}")))
    };
    let l = Layout::random(&mut x.rng);
    if x.rng.pct(55) {
        let doc = write(&e, &l, &mut x.rng);
        x.eval();
        x.seen(hash_str(&doc.text));
        let got = match go(&doc.text)? {
            Ok(g) => g,
            Err(m) => return fail("not parsed", format!("refused with enumerations ignored: {m}"), doc.text),
        };
        let base = match parse_at(&doc.text, at)? {
            Ok(g) => g,
            Err(m) => return fail("not parsed", format!("refused: {m}"), doc.text),
        };
        let mut want = strip(&base);
        if device(&strip(&d)) != device(&want) {
            return fail("differs", "the document means another device".to_string(), doc.text);
        }
        if expand {
            want = match sut("expansion", || svd_parser::expand(&want).map_err(|e| format!("{e:#}")))? {
                Ok(w) => w,
                Err(m) => return fail("not expanded", m, doc.text),
            };
            x.ev("with expansion", 1);
        }
        if let Some(m) = diff(&device(&want), &device(&got)) {
            return fail("differs", format!("with enumerations ignored: {m}"), doc.text);
        }
        let n = device(&base).nodes() - device(&strip(&base)).nodes();
        x.ev("values dropped", n);
        x.ev("documents", 1);
        return Ok(());
    }
    // with a defect, wherever it is; enum defects more often
    let mut df = None;
    for _ in 0..6 {
        let mut e2 = e.clone();
        if let Some(f) = plant(&mut e2, &mut x.rng) {
            let done = f.in_enums;
            df = Some((e2, f));
            if done {
                break;
            }
        }
    }
    let Some((e2, df)) = df else { return Ok(()) };
    e = e2;
    let doc = write(&e, &l, &mut x.rng);
    x.eval();
    x.seen(hash_str(&doc.text));
    x.sample(|| format!("{} (inside the ignored part: {})", df.what, df.in_enums));
    let got = go(&doc.text)?;
    if parse_at(&doc.text, at)?.is_ok() {
        return fail("accepted", format!("{} is accepted without the option", df.what), doc.text);
    }
    match (df.in_enums, got) {
        (true, Err(m)) => fail("inside", format!("{}, ignored, makes the parse fail: {m}", df.what), doc.text),
        (false, Ok(_)) => fail("outside", format!("{} is accepted with enumerations ignored", df.what), doc.text),
        (true, Ok(g)) => {
            if !expand {
                let want = device(&strip(&d));
                if let Some(m) = diff(&want, &device(&g)) {
                    return fail("differs", format!("with enumerations ignored: {m}"), doc.text);
                }
            }
            x.ev("defects in ignored parts", 1);
            Ok(())
        }
        (false, Err(_)) => {
            x.ev("defects elsewhere", 1);
            Ok(())
        }
    }
}

// ---- C03 ----

fn extreme(r: &mut Rng) -> String {
    match r.below(10) {
        0 => r.u32().to_string(),
        1 => r.u64().to_string(),
        2 => format!("0x{:x}", r.u64()),
        3 => format!("#{:b}", r.u64()),
        4 => r
            .pick(&[
                "0", "1", "31", "32", "33", "63", "64", "65", "4294967295", "4294967296", "2147483647", "2147483648",
                "18446744073709551615", "18446744073709551616", "-1", "", " ", "0x", "#", "0b", "0bxX", "#x",
            ])
            .to_string(),
        5 => r.pick(&["[", "]", "[]", "[:]", "[31:0]", "[0:31]", "[4294967295:0]", "[4294967295:4294967295]", "[é:0]", "é", "[1:é]"]).to_string(),
        6 => r.pick(&["A-Z", "0-3", "z-a", "-", "A-", "0-4294967295a", ",", ",,", "a,b", "1-1", "é-ü", "a-é"]).to_string(),
        7 => r.pick(&["%s", "[%s]", "%s%s", "%", "x[%s", "%s[%s]", "A%s", "a.b.c", ".", "..", "a.", ".a", "q[%s].r"]).to_string(),
        8 => r.pick(&["true", "false", "read-write", "read", "write", "registers", "n", "clear", "modify", "uint8_t *"]).to_string(),
        _ => {
            let n = r.range(0, 6);
            (0..n).map(|_| *r.pick(&['a', 'é', '%', 's', '.', '-', '[', ']', '0', '🦀', '<', '&', ' ', '\n', 'x', '#'])).collect()
        }
    }
}

/// A literal one or two characters away from `t`
fn tweak(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 2) {
        let odd = *r.pick(&[
            'é', '🦀', '\u{7ff}', '\u{2028}', 'ß', 'İ', '٣', 'Ａ', '\u{301}', '[', ']', ':', '-', '+', 'x', 'X', '#', '%', 's', ',', '0', '9',
            'f', 'g', ' ', '_', '.',
        ]);
        match r.below(7) {
            0 => c.insert(0, odd),
            1 => c.push(odd),
            2 => {
                // the last character becomes another
                c.pop();
                c.push(odd);
            }
            3 => {
                if !c.is_empty() {
                    c[0] = odd;
                }
            }
            4 => {
                let i = r.below(c.len() + 1);
                c.insert(i, odd);
            }
            5 => {
                if !c.is_empty() {
                    let i = r.below(c.len());
                    c.remove(i);
                }
            }
            _ => {
                if !c.is_empty() {
                    let i = r.below(c.len());
                    c[i] = odd;
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A literal of the kind the element takes, at and around the limits
fn aimed(tag: &str, r: &mut Rng) -> String {
    fn edge(r: &mut Rng) -> u64 {
        let k = *r.pick(&[0, 3, 5, 6, 8, 16, 31, 32, 33, 63, 64]);
        let b = if k == 64 { 0 } else { 1u64 << k };
        match r.below(4) {
            0 => b,
            1 => b.wrapping_sub(1),
            2 => b.wrapping_add(1),
            _ => r.u64() >> r.below(64),
        }
    }
    match tag {
        "bitRange" => format!("[{}:{}]", edge(r), edge(r)),
        "dimIndex" => index_text(r),
        "name" | "displayName" | "alternateCluster" | "alternateRegister" | "dimName" | "description" => {
            let a = *r.pick(&["a", "é", "", "%", "[", "a.b", "🦀"]);
            let b = *r.pick(&["", "]", "é", "%s", "[%s]", "s"]);
            format!("{a}{}{b}", r.pick(&["%s", "[%s]", "%", "[%s", "%s]", ""]))
        }
        "isDefault" | "fpuPresent" | "vendorSystickConfig" | "mpuPresent" => bool_text(r),
        "value" | "resetValue" | "resetMask" => {
            let n = *r.pick(&[1, 8, 31, 32, 33, 63, 64, 65]);
            let x = r.bool();
            let d: String = (0..n).map(|_| if x && r.pct(20) { *r.pick(&['x', 'X']) } else { *r.pick(&['0', '1']) }).collect();
            match r.below(3) {
                0 => format!("{}{d}", r.pick(&["#", "0b", "0B"])),
                1 => number_text(r, 64),
                _ => edge(r).to_string(),
            }
        }
        _ => {
            if r.bool() {
                number_text(r, 64)
            } else {
                edge(r).to_string()
            }
        }
    }
}

fn mutate_el(e: &mut El, r: &mut Rng) {
    let paths = e.paths();
    let p = r.pick(&paths).0.clone();
    match r.below(9) {
        0 | 1 | 2 => {
            // a leaf gets another text
            let leaves: Vec<_> = paths.iter().filter(|q| e.at(&q.0).is_leaf()).collect();
            if leaves.is_empty() {
                return;
            }
            let q = r.pick(&leaves).0.clone();
            let tag = e.at(&q).tag.clone();
            let t = match r.below(10) {
                // text from elsewhere
                0 | 1 => {
                    let o = r.pick(&leaves).0.clone();
                    e.at(&o).text()
                }
                2 | 3 => {
                    let t = e.at(&q).text();
                    tweak(&t, r)
                }
                4 | 5 => {
                    let t = aimed(&tag, r);
                    if r.pct(30) {
                        t
                    } else {
                        tweak(&t, r)
                    }
                }
                _ => extreme(r),
            };
            e.at_mut(&q).set_text(&t);
        }
        3 => {
            // derivedFrom something
            let named: Vec<String> = paths
                .iter()
                .filter(|q| q.1 == "name")
                .map(|q| e.at(&q.0).text())
                .collect();
            if named.is_empty() {
                return;
            }
            let mut t = r.pick(&named).clone();
            while r.pct(40) {
                t = format!("{t}.{}", r.pick(&named));
            }
            if r.pct(10) {
                t = extreme(r);
            }
            let x = e.at_mut(&p);
            x.attrs.retain(|a| a.0 != "derivedFrom");
            x.attrs.push(("derivedFrom".into(), t));
        }
        4 if !p.is_empty() => {
            let up = e.at_mut(&p[..p.len() - 1]);
            up.kids.remove(p[p.len() - 1]);
        }
        5 if !p.is_empty() => {
            // twice
            let up = e.at_mut(&p[..p.len() - 1]);
            let k = up.kids[p[p.len() - 1]].clone();
            let at = r.below(up.kids.len() + 1);
            up.kids.insert(at, k);
        }
        6 => {
            // moved elsewhere
            let q = r.pick(&paths).0.clone();
            let k = e.at(&p).clone();
            if k.count() > 200 {
                return;
            }
            let x = e.at_mut(&q);
            let at = r.below(x.kids.len() + 1);
            x.kids.insert(at, Kid::E(k));
        }
        7 => {
            let tags: Vec<&String> = paths.iter().map(|q| &q.1).collect();
            let t = (*r.pick(&tags)).clone();
            e.at_mut(&p).tag = t;
        }
        _ => {
            let t = *r.pick(&[
                "dim", "dimIncrement", "dimIndex", "dimName", "name", "size", "resetValue", "bitRange", "lsb", "msb",
                "bitOffset", "bitWidth", "value", "isDefault", "writeConstraint", "range", "enumeratedValues",
                "fields", "registers", "description", "displayName", "access", "alternateGroup", "dimArrayIndex",
            ]);
            let x = extreme(r);
            e.at_mut(&p).push(El::leaf(t, &x));
        }
    }
}

pub fn mutate_text(t: &str, r: &mut Rng) -> String {
    let mut b = t.as_bytes().to_vec();
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(7) {
            0 => b.truncate(i),
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, *r.pick(b"<>/&;\"'=%s[]:-,.#x0129aA \n")),
            3 => b[i] = *r.pick(b"<>/&;\"'=%s[]:-,.#x0129aA \n"),
            4 => {
                let j = r.range(i, (i + 60).min(b.len() - 1));
                b.drain(i..j);
            }
            5 => {
                let j = r.range(i, (i + 200).min(b.len()));
                let s = b[i..j].to_vec();
                let k = r.below(b.len());
                for (n, c) in s.into_iter().enumerate() {
                    b.insert(k + n, c);
                }
            }
            _ => b[i] = r.next() as u8,
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// What a document asks for, so that expansion bombs are left out:
/// (items of index ranges, product of dims, derived elements, nesting)
fn demands(t: &str) -> Option<(u64, u64, usize, usize)> {
    let t = t.strip_prefix('\u{feff}').unwrap_or(t);
    // unbounded nesting exhausts the stack of the XML parser itself
    let mut depth = 0i64;
    let mut deepest = 0;
    for (i, c) in t.bytes().enumerate() {
        if c == b'<' {
            match t.as_bytes().get(i + 1) {
                Some(b'/') => depth -= 1,
                Some(b'!') | Some(b'?') => {}
                _ => depth += 1,
            }
            deepest = deepest.max(depth);
        }
    }
    if deepest > 20_000 {
        return None;
    }
    let mut opt = roxmltree::ParsingOptions::default();
    opt.nodes_limit = u32::MAX;
    let Ok(doc) = roxmltree::Document::parse_with_options(t, opt) else {
        return Some((0, 1, 0, 0));
    };
    let (mut items, mut prod, mut derived, mut nest) = (0u64, 1u64, 0, 0);
    for n in doc.descendants().filter(|n| n.is_element()) {
        let text = n.text().unwrap_or("").trim();
        match n.tag_name().name() {
            "dim" => prod = prod.saturating_mul(number(text, 64).unwrap_or(1).max(1)),
            "dimIndex" => {
                if let Some((a, b)) = text.split_once('-') {
                    if let (Ok(a), Ok(b)) = (a.trim_start_matches('+').parse::<u64>(), b.trim_start_matches('+').parse::<u64>()) {
                        items = items.saturating_add(b.saturating_sub(a));
                    }
                }
            }
            _ => {}
        }
        if n.has_attribute("derivedFrom") {
            derived += 1;
        }
        nest = nest.max(n.ancestors().count());
    }
    Some((items, prod, derived, nest))
}

pub fn c03(x: &mut Ctx) -> R {
    let text = match x.rng.below(20) {
        0 => {
            let n = x.rng.range(0, 60);
            let r = &mut x.rng;
            (0..n).map(|_| char::from_u32((r.next() % 0x300) as u32).unwrap_or('x')).collect()
        }
        1 => x
            .rng
            .pick(&[
                "", "\u{feff}", "\u{feff}\u{feff}<device/>", "<", "<device", "<device/>", "<device></device>",
                "<device><name>a</name><peripherals/></device>", "<!DOCTYPE x><device/>", "<a/>", "<device/><device/>",
                "<?xml?>", "<?xml version=\"1.0\"?>", "<!---->", "</device>", "<device>&unknown;</device>",
                "<device xmlns='x'><name>d</name></device>", "<x:device xmlns:x='y'/>", "ï»", "\u{feff}<",
                "<!DOCTYPE d [<!ENTITY a \"b\">]><device><name>&a;</name></device>",
            ])
            .to_string(),
        2 => {
            // nesting
            let n = x.rng.range(1, 150);
            let tag = *x.rng.pick(&["cluster", "device", "registers", "field", "x", "writeConstraint"]);
            let mut e = El::new(tag);
            e.push(El::leaf("name", "c"));
            e.push(El::leaf("addressOffset", "4294967295"));
            for i in 0..n {
                let mut o = El::new(tag);
                o.push(El::leaf("name", &format!("c{i}")));
                o.push(El::leaf("addressOffset", "0x80000000"));
                o.push(e);
                e = o;
            }
            let mut d = tiny(vec![El::leaf("bitRange", "[0:0]")], vec![]);
            let p: Vec<_> = d.paths().into_iter().filter(|p| p.1 == "registers").collect();
            d.at_mut(&p[0].0).push(e);
            write(&d, &Layout::plain(), &mut x.rng).text
        }
        _ => {
            let lvl = x.rng.below(3) as u8;
            let mut o = Opt::random(&mut x.rng, lvl);
            o.budget = o.budget.min(40);
            o.fit = x.rng.bool();
            o.unique = x.rng.pct(50);
            let d = gen::device(&mut x.rng, o.clone());
            let (mut e, _) = render_el(&d, &mut x.rng);
            for _ in 0..x.rng.below(6) {
                mutate_el(&mut e, &mut x.rng);
            }
            if x.rng.pct(12) {
                // long names, where the cut may fall within a character
                let mut g = gen::Gen::new(&mut x.rng, o.clone());
                for p in e.paths().into_iter().rev() {
                    if matches!(p.1.as_str(), "name" | "displayName" | "description") && g.r.pct(40) {
                        let t = g.long(true);
                        e.at_mut(&p.0).set_text(&t);
                    }
                }
            }
            fn legal(e: &mut El) {
                // an element with children and text is written without text
                for c in e.els_mut() {
                    legal(c);
                }
            }
            legal(&mut e);
            let l = Layout::random(&mut x.rng);
            let t = write(&e, &l, &mut x.rng).text;
            if x.rng.pct(40) {
                mutate_text(&t, &mut x.rng)
            } else {
                t
            }
        }
    };
    let Some((items, prod, derived, nest)) = demands(&text) else { return Ok(()) };
    if items > 200_000 || nest > 200 {
        x.ev("left out: oversized", 1);
        return Ok(());
    }
    x.seen(hash_str(&text));
    x.sample(|| text.clone());
    let may_expand = prod <= 20_000 && derived <= 14;
    for k in 0..3 {
        let l = LEVELS[(x.idx as usize + k) % 3];
        let ex = may_expand && x.rng.pct(60);
        let cfg = Config::default()
            .validate_level(l)
            .expand(ex)
            .expand_properties(x.rng.bool())
            .ignore_enums(x.rng.pct(30));
        x.eval();
        let r = sut("parsing", || {
            svd_parser::parse_with_config(&text, &cfg).map_err(|e| (format!("{e}"), format!("{e:?}")))
        })
        .with(|| format!("{cfg:?}\n{text}"))?;
        match r {
            Ok(d) => {
                x.ev(if ex { "parsed and expanded" } else { "parsed" }, 1);
                // what was parsed is a usable device
                sut("reading", || d.peripherals.len()).with(|| text.clone())?;
            }
            Err(_) => x.ev(if ex { "errors with expansion" } else { "errors" }, 1),
        }
    }
    Ok(())
}
