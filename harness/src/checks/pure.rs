//! C22 purity: the same call gives the same result in any history, among
//! threads and in fresh processes, and leaves its inputs alone.
use super::encode::ECfg;
use super::{expand, parse, tame};
use crate::dump::{self, split_mut};
use crate::gen::{self, Opt};
use crate::rng::{hash_str, mix, Rng};
use crate::sup::*;
use crate::xml::*;
use serde_json::{json, Value};
use std::path::Path;
use svd_rs::*;

/// The devices are shared among threads whether or not the library says so;
/// the crate `san` decides whether it does.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}

#[derive(Clone)]
struct World {
    docs: Vec<String>,
    jsons: Vec<String>,
    yamls: Vec<String>,
    devices: Vec<Device>,
    parsing: Vec<svd_parser::Config>,
    encoding: Vec<svd_encoder::Config>,
    names: Vec<String>,
    ops: Vec<(usize, usize, usize)>,
}

const KINDS: [&str; 14] = [
    "parse",
    "encode",
    "expand",
    "expand_properties",
    "validate",
    "write JSON",
    "write YAML",
    "read JSON",
    "read YAML",
    "look up",
    "index",
    "build and modify",
    "array helpers",
    "texts",
];

/// The same device with some numbers and keywords changed, names kept.
fn variant(d: &Device, r: &mut Rng) -> Device {
    fn walk(v: &mut Value, key: &str, r: &mut Rng) {
        match v {
            Value::Object(m) => {
                let keys: Vec<String> = m.keys().cloned().collect();
                for k in keys {
                    if k == "dimArrayIndex" {
                        continue;
                    }
                    walk(&mut m[&k], &k, r);
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|v| walk(v, key, r)),
            Value::Number(_) if r.pct(40) && !key.starts_with("dim") => *v = json!(r.range(1, 7)),
            Value::Bool(b) if r.pct(40) => *b = !*b,
            Value::String(s) if r.pct(40) => match key {
                "access" => *s = dump::access(*r.pick(&dump::ACCESS)).into(),
                "usage" if s.starts_with("re") && s.len() < 11 => {}
                "description" | "displayName" | "groupName" | "version" => s.push('!'),
                _ => {}
            },
            _ => {}
        }
    }
    let mut v = serde_json::to_value(d).unwrap_or_default();
    walk(&mut v, "", r);
    serde_json::from_value(v).unwrap_or_else(|_| d.clone())
}

/// Names used more than once, and references by them: whatever is taken, it has
/// to be the same every time.
fn ambiguous(d: &mut Device, r: &mut Rng) {
    fn rcs(v: &mut [RegisterCluster], r: &mut Rng) {
        let mut named: Option<String> = None;
        for k in v.iter_mut() {
            match k {
                RegisterCluster::Register(g) => {
                    let g = dump::split_mut(g).0;
                    if r.pct(30) {
                        match &named {
                            Some(n) if r.bool() => g.name = n.clone(),
                            Some(n) => g.derived_from = Some(n.clone()),
                            None => named = Some(g.name.clone()),
                        }
                    }
                    let Some(fs) = &mut g.fields else { continue };
                    let n = fs.len();
                    for (i, f) in fs.iter_mut().enumerate() {
                        let f = dump::split_mut(f).0;
                        for e in &mut f.enumerated_values {
                            if i + 1 < n {
                                e.name = Some("Same".into());
                            } else {
                                e.name = None;
                                e.derived_from = Some("Same".into());
                            }
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let c = dump::split_mut(c).0;
                    if r.pct(30) {
                        match &named {
                            Some(n) if r.bool() => c.name = n.clone(),
                            Some(n) => c.derived_from = Some(n.clone()),
                            None => named = Some(c.name.clone()),
                        }
                    }
                    rcs(&mut c.children, r)
                }
            }
        }
    }
    for p in &mut d.peripherals {
        rcs(dump::split_mut(p).0.registers.as_deref_mut().unwrap_or(&mut []), r);
    }
}

fn world(x: &mut Ctx) -> World {
    let mut docs = vec![];
    let mut devices = vec![];
    let mut jsons = vec![];
    let mut yamls = vec![];
    for i in 0..3 {
        let mut d = match x.rng.below(3) {
            0 => {
                let lvl = x.rng.below(3) as u8;
                let mut o = Opt::random(&mut x.rng, lvl);
                o.unique = x.rng.pct(60);
                o.budget = o.budget.min(25);
                gen::device(&mut x.rng, o)
            }
            _ => {
                let mut d = expand::derivable(x);
                let k = expand::kinds(&mut x.rng);
                let n = x.rng.range(1, 6);
                let free = x.rng.pct(25);
                expand::derive(&mut d, &mut x.rng, n, free, &k);
                d
            }
        };
        tame(&mut d, 3, &mut x.rng);
        if x.rng.pct(35) {
            ambiguous(&mut d, &mut x.rng);
        }
        if i == 2 {
            // names of the first device, other values
            d = variant(&devices[0], &mut x.rng);
        }
        let e = Sty { r: &mut x.rng, vary: true }.device(&d);
        let l = Layout::random(&mut x.rng);
        docs.push(write(&e, &l, &mut x.rng).text);
        let mut bad = e.clone();
        if x.rng.pct(70) {
            let done = if x.rng.bool() { parse::plant(&mut bad, &mut x.rng).is_some() } else { parse::plant_invalid(&mut bad, &mut x.rng).is_some() };
            if done {
                let l = Layout::random(&mut x.rng);
                docs.push(write(&bad, &l, &mut x.rng).text);
            }
        }
        let t = serde_json::to_string(&d).unwrap_or_default();
        if x.rng.bool() {
            jsons.push(parse::mutate_text(&t, &mut x.rng));
        }
        jsons.push(t);
        yamls.push(serde_yaml::to_string(&d).unwrap_or_default());
        devices.push(d);
    }
    let r = &mut x.rng;
    let parsing = (0..3)
        .map(|_| {
            svd_parser::Config::default()
                .validate_level(*r.pick(&parse::LEVELS))
                .expand(r.bool())
                .expand_properties(r.pct(30))
                .ignore_enums(r.pct(30))
        })
        .collect();
    let encoding = (0..3)
        .map(|_| if r.bool() { ECfg::random_formats(r).direct() } else { ECfg::random_sorting(r).direct() })
        .collect();
    let mut names = vec!["".to_string(), "x".into()];
    for d in &devices {
        for p in &d.peripherals {
            names.push(p.name.clone());
            for r in p.all_registers() {
                names.push(r.name.clone());
            }
        }
    }
    r.shuffle(&mut names);
    names.truncate(8);
    for _ in 0..4 {
        // not met before in this process
        let n = format!("n{:x}", r.next());
        names.push(match r.below(8) {
            0 | 1 => format!("{n}%s"),
            2 => format!("{n}[%s]"),
            3 => format!("%s{n}"),
            4 => format!("1{n}"),
            5 => format!("{n} x"),
            6 => format!("{n}.{n}"),
            _ => n,
        });
    }
    r.shuffle(&mut names);
    let ops = (0..24).map(|_| (r.below(KINDS.len()), r.below(64), r.below(64))).collect();
    World {
        docs,
        jsons,
        yamls,
        devices,
        parsing,
        encoding,
        names,
        ops,
    }
}

fn shown(d: &Device) -> String {
    format!("device {:016x} {:016x}", dump::device(d).hash64(), hash_str(&format!("{d:?}")))
}

fn text<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>, f: impl FnOnce(&T) -> String) -> String {
    match r {
        Ok(v) => f(&v),
        Err(e) => format!("error {e:#} / {e}"),
    }
}

impl World {
    /// Changes the input of an operation without moving it.
    fn alter(&mut self, n: usize, r: &mut Rng) {
        let (kind, i, _) = self.ops[n];
        let text = match kind {
            0 => &mut self.docs,
            7 => &mut self.jsons,
            8 => &mut self.yamls,
            _ => {
                let k = i % self.devices.len();
                return alter_device(&mut self.devices[k], r);
            }
        };
        let k = i % text.len();
        let t = &mut text[k];
        for _ in 0..r.range(1, 3) {
            // a digit or letter somewhere
            let at = r.below(t.len().max(1));
            let found = t.bytes().enumerate().skip(at).chain(t.bytes().enumerate().take(at)).find(|b| b.1.is_ascii_digit());
            if let Some((p, c)) = found {
                let c = if c == b'9' { '0' } else { (c + 1) as char };
                t.replace_range(p..p + 1, &c.to_string());
            }
        }
    }
    fn op(&self, n: usize) -> String {
        let (kind, i, j) = self.ops[n];
        let d = &self.devices[i % self.devices.len()];
        match kind {
            0 => text(
                svd_parser::parse_with_config(&self.docs[i % self.docs.len()], &self.parsing[j % 3]),
                |d| shown(d),
            ),
            1 => text(svd_encoder::encode_with_config(d, &self.encoding[j % 3]), |t| format!("text {:016x}", hash_str(t))),
            2 => text(svd_parser::expand(d), |d| shown(d)),
            3 => {
                let mut d = d.clone();
                svd_parser::expand_properties(&mut d);
                shown(&d)
            }
            4 => parse::LEVELS.map(|l| text(d.validate_all(l).map(|_| 0), |_| "valid".into())).join("; "),
            5 => text(serde_json::to_string(d), |t| format!("text {:016x}", hash_str(t))),
            6 => text(serde_yaml::to_string(d), |t| format!("text {:016x}", hash_str(t))),
            7 => text(serde_json::from_str::<Device>(&self.jsons[i % self.jsons.len()]), |d| shown(d)),
            8 => text(serde_yaml::from_str::<Device>(&self.yamls[i % self.yamls.len()]), |d| shown(d)),
            9 => {
                let mut out = vec![];
                for n in &self.names {
                    let p = d.get_peripheral(n);
                    out.push(format!("{:?}", p.map(|p| hash_str(&format!("{p:?}")))));
                    for p in &d.peripherals {
                        let r = p.get_register(n);
                        out.push(format!("{:?} {:?}", r.map(|r| r.address_offset), p.get_cluster(n).map(|c| c.address_offset)));
                    }
                }
                for p in &d.peripherals {
                    for r in p.all_registers() {
                        let m = r.fields().filter(|f| f.bit_offset() as u64 + f.bit_width() as u64 <= 64 && f.bit_width() > 0).fold(0, |m, f| m | split_mask(f));
                        out.push(format!("{} {m:x}", r.name));
                    }
                }
                format!("{:016x}", hash_str(&out.join("\n")))
            }
            10 => {
                let ix = svd_parser::expand::Index::create(d);
                let mut v: Vec<String> = ix.peripherals.iter().map(|(k, v)| format!("{k} {}", v.base_address)).collect();
                v.extend(ix.clusters.iter().map(|(k, v)| format!("{k} {}", v.address_offset)));
                v.extend(ix.registers.iter().map(|(k, v)| format!("{k} {}", v.address_offset)));
                v.extend(ix.fields.iter().map(|(k, v)| format!("{k} {:?}", v.bit_range)));
                v.extend(ix.evs.iter().map(|(k, v)| format!("{k} {:?}", v.values.len())));
                v.sort();
                format!("{:016x}", hash_str(&v.join("\n")))
            }
            11 => {
                let mut out = vec![];
                for l in parse::LEVELS {
                    for n in &self.names {
                        // what one kind takes is no matter to another, which another operation builds
                        let reg = || RegisterInfo::builder().name("R".into()).address_offset(0);
                        out.push(match j % 8 {
                            0 => text(reg().name(n.clone()).build(l), |r| format!("{r:?}")),
                            1 => {
                                let b = FieldInfo::builder().name(n.clone()).bit_range(BitRange::from_offset_width(0, 4));
                                text(b.build(l), |r| format!("{r:?}"))
                            }
                            2 => {
                                let b = ClusterInfo::builder().name(n.clone()).address_offset(0);
                                text(b.children(vec![RegisterCluster::Register(Register::Single(gen::tpl_register()))]).build(l), |r| format!("{r:?}"))
                            }
                            3 => text(EnumeratedValue::builder().name(n.clone()).value(Some(1)).build(l), |r| format!("{r:?}")),
                            4 => {
                                let b = EnumeratedValues::builder().name(Some(n.clone()));
                                text(b.values(vec![gen::tpl_ev()]).build(l), |r| format!("{r:?}"))
                            }
                            5 => text(reg().derived_from(Some(n.clone())).build(l), |r| format!("{r:?}")),
                            6 => text(reg().alternate_group(Some(n.clone())).build(l), |r| format!("{r:?}")),
                            _ => text(reg().alternate_register(Some(n.clone())).build(l), |r| format!("{r:?}")),
                        });
                        if let Some(p) = d.peripherals.first().filter(|_| j % 8 == 0) {
                            let mut p = p.clone();
                            let b = PeripheralInfo::builder().name(n.clone());
                            let r = p.modify_from(b, l);
                            out.push(text(r, |_| p.name.clone()));
                        }
                    }
                }
                format!("{:016x}", hash_str(&out.join("\n")))
            }
            12 => {
                let mut out = vec![];
                for p in &d.peripherals {
                    if let Peripheral::Array(i, dim) = p {
                        out.extend(array::names(i, dim));
                        out.push(format!("{:?}", dim.indexes_as_range()));
                    }
                    for r in p.registers() {
                        if let Register::Array(i, dim) = r {
                            out.extend(array::names(i, dim));
                            out.push(format!("{:?}", dim.indexes().collect::<Vec<_>>()));
                        }
                        for f in r.fields() {
                            if let Field::Array(i, dim) = f {
                                out.extend(array::names(i, dim));
                            }
                        }
                    }
                }
                format!("{:016x}", hash_str(&out.join("\n")))
            }
            _ => {
                let mut out = vec![];
                let mut r = Rng::new((i * 64 + j) as u64);
                for _ in 0..8 {
                    let t = parse::index_text(&mut r);
                    out.push(format!("{:?}", DimElement::parse_indexes(&t)));
                    let (a, b) = (r.below(40), r.below(40));
                    out.push(format!("{:?}", BitRange::from_bit_range(&format!("[{a}:{b}]"))));
                }
                for w in ["read-only", "oneToClear", "uint8_t *", "little", "s", "x"] {
                    out.push(format!(
                        "{:?} {:?} {:?} {:?} {:?} {:?}",
                        Access::parse_str(w),
                        ModifiedWriteValues::parse_str(w),
                        DataType::parse_str(w),
                        Endian::parse_str(w),
                        Protection::parse_str(w),
                        ReadAction::parse_str(w)
                    ));
                }
                out.join("\n")
            }
        }
    }
    fn what(&self, n: usize) -> String {
        let (kind, i, j) = self.ops[n];
        let mut t = format!("operation {n}: {} ({i}, {j})", KINDS[kind]);
        if kind == 0 {
            t += &format!(" {:?}\n{}", self.parsing[j % 3], self.docs[i % self.docs.len()]);
        }
        t
    }
}

fn split_mask(f: &Field) -> u64 {
    match f {
        MaybeArray::Single(f) => f.bitmask(),
        MaybeArray::Array(f, _) => f.bitmask(),
    }
}

/// Another value in some places of a device, which itself stays where it is.
fn alter_device(d: &mut Device, r: &mut Rng) {
    fn name(n: &mut String) {
        if n.as_bytes().last().map(|c| c.is_ascii_alphabetic()).unwrap_or(false) && !n.ends_with("%s") {
            let c = n.pop().unwrap();
            n.push(if c == 'z' { 'y' } else { 'z' });
        }
    }
    fn rcs(v: &mut [RegisterCluster], what: usize, r: &mut Rng) {
        for x in v {
            match x {
                RegisterCluster::Register(x) => {
                    let i = split_mut(x).0;
                    match what {
                        0 if r.bool() => i.address_offset ^= 4,
                        1 if r.bool() => name(&mut i.name),
                        2 => i.properties.reset_value = i.properties.reset_value.map(|v| v ^ 1),
                        3 => i.properties.size = i.properties.size.map(|v| v % 64 + 1),
                        4 if r.bool() => {
                            for f in i.fields.iter_mut().flatten() {
                                let f = split_mut(f).0;
                                // bit ranges past the last bit number are no input
                                if f.bit_range.offset < 1 << 20 && f.bit_range.width < 1 << 20 {
                                    f.bit_range.offset ^= 1;
                                }
                            }
                        }
                        5 if r.bool() => {
                            for f in i.fields.iter_mut().flatten() {
                                name(&mut split_mut(f).0.name);
                            }
                        }
                        6 => {
                            for f in i.fields.iter_mut().flatten() {
                                for e in &mut split_mut(f).0.enumerated_values {
                                    for v in &mut e.values {
                                        v.value = v.value.map(|v| v ^ 1);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                RegisterCluster::Cluster(x) => {
                    let i = split_mut(x).0;
                    if what == 0 && r.bool() {
                        i.address_offset ^= 4;
                    }
                    rcs(&mut i.children, what, r);
                }
            }
        }
    }
    let what = r.below(9);
    for p in &mut d.peripherals {
        let p = split_mut(p).0;
        match what {
            7 => p.base_address ^= 0x10,
            8 => name(&mut p.name),
            _ => rcs(p.registers.as_deref_mut().unwrap_or(&mut []), what, r),
        }
    }
    if what == 8 {
        name(&mut d.name);
    }
}

pub fn c22(x: &mut Ctx) -> R {
    let start = x.rng.next();
    x.rng = Rng::new(start);
    let w = Share(world(x));
    let w = &w;
    let n = w.0.ops.len();
    let inputs = |w: &World| -> Vec<String> { w.devices.iter().map(shown).collect() };
    let before = inputs(&w.0);
    x.seen(mix(start));
    x.sample(|| w.0.ops.iter().map(|o| KINDS[o.0]).collect::<Vec<_>>().join(", "));
    let mut want = vec![];
    for i in 0..n {
        want.push(sut(KINDS[w.0.ops[i].0], || w.0.op(i))?);
        x.ev(KINDS[w.0.ops[i].0], 1);
        if want[i].starts_with("error") {
            x.ev("operations giving errors", 1);
        }
    }
    x.eval();
    let differs = |i: usize, how: &str, got: &str| {
        fail(
            &format!("{} differs {how}", KINDS[w.0.ops[i].0]),
            format!("{} gives another result {how}: {} at first, then {got}", KINDS[w.0.ops[i].0], want[i]),
            w.0.what(i),
        )
    };

    // other histories
    let len = x.rng.range(n / 2, n * 2);
    for _ in 0..len {
        let i = x.rng.below(n);
        let got = sut(KINDS[w.0.ops[i].0], || w.0.op(i))?;
        if got != want[i] {
            return differs(i, "in another history", &got);
        }
        x.ev("repeated operations", 1);
    }
    // a world generated again, so that inputs lie elsewhere
    if x.rng.pct(30) {
        let mut y = Ctx {
            rng: Rng::new(start),
            idx: x.idx,
            tier: x.tier,
            obs: Obs::default(),
            seed: x.seed,
        };
        let v = world(&mut y);
        for _ in 0..n / 2 {
            let i = x.rng.below(n);
            let got = sut(KINDS[v.ops[i].0], || v.op(i))?;
            if got != want[i] {
                return differs(i, "on equal inputs", &got);
            }
            x.ev("operations on equal inputs", 1);
        }
    }
    // other contents in the same place
    if x.rng.pct(30) {
        let mut v = w.0.clone();
        for _ in 0..n / 2 {
            let i = x.rng.below(n);
            let kind = KINDS[w.0.ops[i].0];
            sut(kind, || v.op(i))?;
            v.alter(i, &mut x.rng);
            let got = sut(kind, || v.op(i))?;
            let u = v.clone();
            let fresh = sut(kind, || u.op(i))?;
            if got != fresh {
                return fail(
                    &format!("{kind} differs in the place of another input"),
                    format!("{kind} gives another result on an input that lies where another one lay: {got}, and {fresh} elsewhere"),
                    v.what(i),
                );
            }
            x.ev("operations on inputs changed in place", 1);
        }
    }
    // threads
    if x.rng.pct(50) {
        let threads = x.rng.range(2, 6);
        let barrier = std::sync::Barrier::new(threads);
        let same = x.rng.pct(30);
        let orders: Vec<Vec<usize>> = (0..threads)
            .map(|_| {
                if same {
                    // all do the same at once
                    (0..n).collect()
                } else {
                    (0..n).map(|_| x.rng.below(n)).collect()
                }
            })
            .collect();
        let got: Vec<R<Option<(usize, String)>>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|o| {
                    let (barrier, want) = (&barrier, &want);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            barrier.wait();
                            for i in o {
                                let got = sut(KINDS[w.0.ops[*i].0], || w.0.op(*i))?;
                                if got != want[*i] {
                                    return Ok(Some((*i, got)));
                                }
                            }
                            Ok(None)
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("joined")).collect()
        });
        for g in got {
            if let Some((i, got)) = g? {
                return differs(i, "among threads", &got);
            }
        }
        x.ev("operations among threads", threads * n);
    }
    // fresh processes
    let every = if x.tier == Tier::Quick { 20 } else { 40 };
    if x.idx % every == 0 {
        let one = x.rng.pct(40);
        let order = if one { x.rng.below(n) } else { n + x.rng.below(1000) };
        let out = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(["fresh", &start.to_string(), &x.idx.to_string(), &order.to_string()])
            .output();
        let out = match out {
            Ok(o) => o,
            Err(e) => panic!("fresh process: {e}"),
        };
        let t = String::from_utf8_lossy(&out.stdout).to_string();
        let mut seen = 0;
        for l in t.lines() {
            let Some((i, h)) = l.split_once(' ') else { continue };
            let (i, h): (usize, u64) = (i.parse().expect("operation"), h.parse().expect("hash"));
            if h != hash_str(&want[i]) {
                return differs(i, "in a fresh process", &format!("(hash) {h:016x}"));
            }
            seen += 1;
        }
        if seen != if one { 1 } else { n } {
            return fail(
                "fresh process",
                format!("a fresh process doing the same ended early ({:?}): {}", out.status, String::from_utf8_lossy(&out.stderr)),
                t,
            );
        }
        x.ev("fresh processes", 1);
        x.ev("operations in fresh processes", seen);
    }
    if inputs(&w.0) != before {
        return fail("changed", "an input device was changed", w.0.ops.iter().map(|o| KINDS[o.0]).collect::<Vec<_>>().join(", "));
    }
    Ok(())
}

/// The operations of a case in a process of their own, in another order.
pub fn fresh() {
    let a: Vec<u64> = std::env::args().skip(2).map(|x| x.parse().expect("number")).collect();
    install_hook();
    let run = move || {
        let mut x = Ctx {
            rng: Rng::new(a[0]),
            idx: a[1],
            tier: Tier::Quick,
            obs: Obs::default(),
            seed: 1,
        };
        let w = world(&mut x);
        let n = w.ops.len();
        let order: Vec<usize> = if (a[2] as usize) < n {
            vec![a[2] as usize]
        } else {
            let mut v: Vec<usize> = (0..n).collect();
            Rng::new(a[2]).shuffle(&mut v);
            v
        };
        for i in order {
            match sut("operation", || w.op(i)) {
                Ok(t) => println!("{i} {}", hash_str(&t)),
                Err(f) => eprintln!("{}", f.msg),
            }
        }
    };
    std::thread::Builder::new().stack_size(8 << 20).spawn(run).expect("thread").join().expect("run");
}

/// The crate `san`: sharing is checked by the compiler, races by ThreadSanitizer
/// and, in the thorough tier, Miri.
#[derive(Default)]
pub struct Stage {
    pub events: Vec<(String, u64)>,
    pub fails: Vec<Value>,
    pub inconclusive: Vec<String>,
    pub notes: Vec<String>,
}

fn cargo(verif: &Path, target: &str, envs: &[(&str, &str)], args: &[&str], secs: u64) -> (Option<i32>, String) {
    let dir = verif.join("san");
    let mut c = std::process::Command::new("timeout");
    c.arg(secs.to_string()).arg("cargo").args(args).current_dir(&dir).env("CARGO_TARGET_DIR", verif.join(".build").join(target));
    c.env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS").env_remove("RUSTUP_TOOLCHAIN");
    for (k, v) in envs {
        c.env(k, v);
    }
    match c.stdin(std::process::Stdio::null()).output() {
        Ok(o) => (o.status.code(), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))),
        Err(e) => (None, e.to_string()),
    }
}

fn stage_fail(sig: &str, msg: String, detail: String) -> Value {
    fail_json(
        u64::MAX,
        &Fail {
            sig: sig.into(),
            msg,
            detail,
        },
    )
}

fn judge_run(s: &mut Stage, how: &str, code: Option<i32>, out: &str) {
    let line = |p: &str| out.lines().find(|l| l.contains(p)).unwrap_or("").trim().to_string();
    if out.contains("WARNING: ThreadSanitizer: data race") {
        s.fails.push(stage_fail("data race", format!("ThreadSanitizer: {} {}", line("data race"), line("#0")), out.into()));
    } else if out.contains("Undefined Behavior") && how == "Miri" {
        s.fails.push(stage_fail("undefined behaviour", format!("Miri: {}", line("Undefined Behavior")), out.into()));
    } else if code == Some(3) && out.contains("DIFFERS") {
        s.fails.push(stage_fail("differs among threads", format!("under {how}: {}", line("DIFFERS")), out.into()));
    } else if code == Some(101) && out.contains("panicked at") && out.contains("operation") {
        s.fails.push(stage_fail("panic among threads", format!("under {how}: {}", line("panicked at")), out.into()));
    } else if code == Some(0) && out.contains("operations among") {
        let n = out.lines().find_map(|l| l.split_once(" operations among").and_then(|x| x.0.trim().parse().ok())).unwrap_or(0);
        s.events.push((format!("operations under {how}"), n));
    } else {
        s.notes.push(format!("{how} gave no answer (exit {code:?}): {}", out.lines().last().unwrap_or("")));
    }
}

pub fn stage(verif: &Path, tier: Tier, seed: u64) -> Stage {
    let mut s = Stage::default();
    let (code, out) = cargo(verif, "san", &[], &["build", "--offline", "--quiet", "--message-format", "short"], 300);
    if code != Some(0) {
        let unshared: Vec<&str> = out
            .lines()
            .filter(|l| l.contains("error[E0277]") && (l.contains("between threads safely") || l.contains("shared between threads") || l.contains("sent between threads")))
            .collect();
        if let Some(l) = unshared.first() {
            s.fails.push(stage_fail("not shareable", format!("the compiler refuses to share: {l}"), unshared.join("\n")));
        } else {
            s.inconclusive.push(format!("san does not build: {}", out.lines().find(|l| l.contains("error")).unwrap_or("")));
        }
        return s;
    }
    s.events.push(("types shown to be Send and Sync".into(), 37));
    let rounds = if tier == Tier::Quick { "60" } else { "2000" };
    let run = |bin: &Path, rounds: &str, seed: u64| {
        let o = std::process::Command::new("timeout")
            .arg("200")
            .arg(bin)
            .args([rounds, "8", &seed.to_string()])
            .env("TSAN_OPTIONS", "halt_on_error=1 report_signal_unsafe=0")
            .output();
        match o {
            Ok(o) => (o.status.code(), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))),
            Err(e) => (None, e.to_string()),
        }
    };
    // short processes, for what happens once in a process
    for i in 0..if tier == Tier::Quick { 20 } else { 300 } {
        let (c, o) = run(&verif.join(".build/san/debug/svdsan"), if i == 0 { rounds } else { "1" }, seed + i);
        judge_run(&mut s, "threads", c, &o);
        if !s.fails.is_empty() {
            return s;
        }
    }
    let (code, out) = cargo(
        verif,
        "tsan",
        &[("RUSTFLAGS", "-Zsanitizer=thread")],
        &[
            "+nightly",
            "build",
            "--offline",
            "-Zbuild-std",
            "--target",
            "x86_64-unknown-linux-gnu",
            "--quiet",
            "--message-format",
            "short",
        ],
        400,
    );
    if code == Some(0) {
        for i in 0..if tier == Tier::Quick { 4 } else { 40 } {
            let (c, o) = run(&verif.join(".build/tsan/x86_64-unknown-linux-gnu/debug/svdsan"), if i == 0 { "10" } else { "1" }, seed + i);
            judge_run(&mut s, "ThreadSanitizer", c, &o);
            if !s.fails.is_empty() {
                return s;
            }
        }
    } else {
        s.notes.push(format!("ThreadSanitizer build: {}", out.lines().last().unwrap_or("")));
    }
    if tier == Tier::Thorough {
        let (c, o) = cargo(
            verif,
            "miri",
            &[("MIRIFLAGS", "-Zmiri-disable-isolation")],
            &["+nightly", "miri", "run", "--offline", "--quiet", "--", "2", "3", &seed.to_string()],
            500,
        );
        judge_run(&mut s, "Miri", c, &o);
    }
    s
}
