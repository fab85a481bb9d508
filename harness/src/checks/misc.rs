//! C18 iterators and lookups, C19 bit geometry, C20 vocabularies, C23 paths
//! and index, C24 array helpers.
use super::expand::{indexes, item_description, item_names, subst, text_of};
use crate::dump::{self, *};
use crate::gen::{self, Gen, Kind, Opt};
use crate::rng::{hash_str, Rng};
use crate::sup::*;
use crate::xml::*;
use std::collections::{BTreeMap, HashMap};
use svd_parser::expand::{BlockPath, FieldPath, Index, RegisterPath};
use svd_rs::ValidateLevel::Disabled;
use svd_rs::*;

fn ptr<T>(x: &T) -> *const T {
    x as *const T
}

// ---- C18 ----

fn all<'a>(v: &'a [RegisterCluster], out: &mut Vec<*const Register>) {
    for x in v {
        match x {
            RegisterCluster::Register(r) => out.push(r),
            RegisterCluster::Cluster(c) => all(&split(c).0.children, out),
        }
    }
}

fn same<T>(what: &str, want: &[*const T], got: Vec<*const T>) -> R {
    if want != got.as_slice() {
        let at = |p: &*const T| want.iter().position(|w| w == p).map(|i| i.to_string()).unwrap_or("?".into());
        let seq: Vec<String> = got.iter().take(40).map(at).collect();
        return fail(
            what,
            format!("{what}: {} items wanted, {} seen, in order {}", want.len(), got.len(), seq.join(" ")),
            "",
        );
    }
    Ok(())
}

/// What an iterator gives when used in other ways than a loop. The iterator
/// itself is used, not one around it, so its own versions of the methods are met.
fn uses<T, X, I: Iterator<Item = X>>(
    what: &str,
    want: &[*const T],
    mk: impl Fn() -> I,
    to: impl Fn(X) -> *const T + Copy,
    r: &mut Rng,
) -> R {
    same(what, want, sut(what, || mk().collect::<Vec<_>>().into_iter().map(to).collect())?)?;
    let mut looped = vec![];
    sut(what, || {
        for x in mk() {
            looped.push(to(x))
        }
    })?;
    same(what, want, looped)?;
    let mut folded = vec![];
    sut(what, || mk().for_each(|x| folded.push(to(x))))?;
    same(what, want, folded)?;
    let n = sut(what, || mk().count())?;
    let last = sut(what, || mk().last().map(to))?;
    let k = r.below(want.len() + 2);
    let step = r.range(1, 3);
    let (nth, skipped, taken, steps) = sut(what, || {
        let nth = mk().nth(k).map(to);
        let skipped: Vec<_> = mk().skip(k).map(to).collect();
        let mut i = mk();
        let taken: Vec<_> = i.by_ref().take(k).map(to).collect();
        let (low, high) = i.size_hint();
        let rest: Vec<_> = i.map(to).collect();
        if low > rest.len() || high.map(|h| h < rest.len()).unwrap_or(false) {
            return (None, vec![], vec![], vec![]);
        }
        let steps: Vec<_> = mk().step_by(step).map(to).collect();
        (nth, skipped, taken.into_iter().chain(rest).collect::<Vec<_>>(), steps)
    })?;
    // one after the other by nth
    let jumps = sut(what, || {
        let mut i = mk();
        let mut v = vec![];
        let mut at = 0;
        for j in [1, 0, 2] {
            at += j;
            v.push((at, i.nth(j).map(to)));
            at += 1;
        }
        v
    })?;
    let found = sut(what, || mk().map(to).position(|p| Some(&p) == want.get(k)))?;
    let (low, high) = sut(what, || mk().size_hint())?;
    if n != want.len()
        || last != want.last().copied()
        || nth != want.get(k).copied()
        || skipped != want[k.min(want.len())..]
        || taken != want
        || steps != want.iter().step_by(step).copied().collect::<Vec<_>>()
        || jumps.iter().any(|(at, p)| *p != want.get(*at).copied())
        || found != (k < want.len()).then_some(k)
        || low > want.len()
        || high.map(|h| h < want.len()).unwrap_or(false)
    {
        return fail(
            what,
            format!("{what}: count, last, nth, skip, step_by or size_hint disagree with the items"),
            "",
        );
    }
    // stays at its end
    let ends = sut(what, || {
        let mut i = mk();
        while i.next().is_some() {}
        i.next().is_none() && i.next().is_none()
    })?;
    if !ends {
        return fail(what, format!("{what}: gives items again after its end"), "");
    }
    Ok(())
}

type Three = (Vec<*const Register>, Vec<*const Cluster>, Vec<*const Register>);

fn three(kids: &[RegisterCluster]) -> Three {
    let wr: Vec<*const Register> = kids
        .iter()
        .filter_map(|k| match k {
            RegisterCluster::Register(r) => Some(ptr(r)),
            _ => None,
        })
        .collect();
    let wc: Vec<*const Cluster> = kids
        .iter()
        .filter_map(|k| match k {
            RegisterCluster::Cluster(r) => Some(ptr(r)),
            _ => None,
        })
        .collect();
    let mut wa = vec![];
    all(kids, &mut wa);
    (wr, wc, wa)
}

macro_rules! block {
    ($x:expr, $what:expr, $kids:expr, $q:expr) => {{
        let (wr, wc, wa) = three($kids);
        let q = $q;
        let what = $what;
        uses(&format!("{what}::registers"), &wr, || q.registers(), |r| ptr(r), &mut $x.rng)?;
        uses(&format!("{what}::clusters"), &wc, || q.clusters(), |r| ptr(r), &mut $x.rng)?;
        uses(&format!("{what}::all_registers"), &wa, || q.all_registers(), |r| ptr(r), &mut $x.rng)?;
        #[allow(deprecated)]
        uses(&format!("{what}::reg_iter"), &wa, || q.reg_iter(), |r| ptr(r), &mut $x.rng)?;
        $x.eval();
        $x.ev("registers iterated", wr.len());
        $x.ev("clusters iterated", wc.len());
        $x.ev("registers of all depths iterated", wa.len());
        $x.ev("blocks", 1);
    }};
}

macro_rules! block_mut {
    ($x:expr, $what:expr, $three:expr, $q:expr) => {{
        let (wr, wc, wa) = $three;
        // one borrow at a time
        let q = $q;
        let what = $what;
        let m = || unsafe { &mut *q };
        uses(&format!("{what}::registers_mut"), &wr, || m().registers_mut(), |r| ptr(&*r), &mut $x.rng)?;
        uses(&format!("{what}::clusters_mut"), &wc, || m().clusters_mut(), |r| ptr(&*r), &mut $x.rng)?;
        uses(&format!("{what}::all_registers_mut"), &wa, || m().all_registers_mut(), |r| ptr(&*r), &mut $x.rng)?;
        #[allow(deprecated)]
        uses(&format!("{what}::reg_iter_mut"), &wa, || m().reg_iter_mut(), |r| ptr(&*r), &mut $x.rng)?;
        $x.ev("blocks iterated mutably", 1);
    }};
}

/// The mutable iterators of every block, by the places they visit.
fn blocks_mut(x: &mut Ctx, p: &mut Peripheral) -> R {
    fn deeper(x: &mut Ctx, v: &mut [RegisterCluster]) -> R {
        for k in v {
            if let RegisterCluster::Cluster(c) = k {
                let t = three(&split(&*c).0.children);
                let q: *mut Cluster = c;
                block_mut!(x, "Cluster", t, q);
                deeper(x, &mut split_mut(unsafe { &mut *q }).0.children)?;
            }
        }
        Ok(())
    }
    let t = three(split(&*p).0.registers.as_deref().unwrap_or(&[]));
    let q: *mut Peripheral = p;
    block_mut!(x, "Peripheral", t, q);
    deeper(x, split_mut(unsafe { &mut *q }).0.registers.as_deref_mut().unwrap_or(&mut []))
}

fn blocks(x: &mut Ctx, p: &Peripheral) -> R {
    let kids: &[RegisterCluster] = split(p).0.registers.as_deref().unwrap_or(&[]);
    block!(x, "Peripheral", kids, p);
    fn deeper(x: &mut Ctx, v: &[RegisterCluster]) -> R {
        for k in v {
            if let RegisterCluster::Cluster(c) = k {
                let kids = &split(c).0.children;
                block!(x, "Cluster", kids, c);
                lookups(x, "Cluster", kids, &|n| c.get_register(n).map(|r| ptr(r)), &|n| {
                    c.get_cluster(n).map(|r| ptr(r))
                })?;
                deeper(x, kids)?;
            }
        }
        Ok(())
    }
    lookups(x, "Peripheral", kids, &|n| p.get_register(n).map(|r| ptr(r)), &|n| {
        p.get_cluster(n).map(|r| ptr(r))
    })?;
    deeper(x, kids)?;
    for k in kids.iter() {
        held(k)?;
    }
    Ok(())
}

fn held(k: &RegisterCluster) -> R {
    let (n, d, o, f) = sut("RegisterCluster accessors", || {
        (k.name().clone(), k.description().clone(), k.address_offset(), k.derived_from().clone())
    })?;
    let ok = match k {
        RegisterCluster::Register(r) => {
            let r = split(r).0;
            n == r.name && d == r.description && o == r.address_offset && f == r.derived_from
        }
        RegisterCluster::Cluster(r) => {
            let r = split(r).0;
            n == r.name && d == r.description && o == r.address_offset && f == r.derived_from
        }
    };
    if !ok {
        return fail("item", format!("the accessors of {n:?} differ from the item it holds"), "");
    }
    Ok(())
}

/// Names to look for: those there, with duplicates, and near misses.
fn wanted(names: &[String], r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = names.to_vec();
    for n in names.iter().take(6) {
        v.push(match r.below(6) {
            0 => n.to_lowercase(),
            1 => n.to_uppercase(),
            2 => format!("{n} "),
            3 => n.chars().skip(1).collect(),
            4 => n.replace("%s", "0").replace("[0]", "0"),
            _ => {
                let mut s = n.clone();
                s.pop();
                s
            }
        });
    }
    v.push(String::new());
    v.push("nothing".into());
    v
}

fn lookups(
    x: &mut Ctx,
    what: &str,
    kids: &[RegisterCluster],
    reg: &dyn Fn(&str) -> Option<*const Register>,
    clu: &dyn Fn(&str) -> Option<*const Cluster>,
) -> R {
    let names: Vec<String> = kids
        .iter()
        .map(|k| match k {
            RegisterCluster::Register(r) => split(r).0.name.clone(),
            RegisterCluster::Cluster(r) => split(r).0.name.clone(),
        })
        .collect();
    for n in wanted(&names, &mut x.rng) {
        let wr = kids.iter().find_map(|k| match k {
            RegisterCluster::Register(r) if split(r).0.name == n => Some(ptr(r)),
            _ => None,
        });
        let wc = kids.iter().find_map(|k| match k {
            RegisterCluster::Cluster(r) if split(r).0.name == n => Some(ptr(r)),
            _ => None,
        });
        let (gr, gc) = sut("lookup", || (reg(&n), clu(&n)))?;
        if gr != wr {
            return fail("get_register", format!("{what}::get_register({n:?}) is wrong"), "");
        }
        if gc != wc {
            return fail("get_cluster", format!("{what}::get_cluster({n:?}) is wrong"), "");
        }
        x.ev("lookups", 2);
        if wr.is_some() || wc.is_some() {
            x.ev("lookups with a result", 1);
        }
    }
    Ok(())
}

fn find<'a, T>(v: &'a [T], f: impl Fn(&T) -> bool) -> Option<*const T> {
    v.iter().find(|t| f(t)).map(|t| ptr(t))
}

fn field_lookups(x: &mut Ctx, f: &Field) -> R {
    let i = split(f).0;
    let v = &i.enumerated_values;
    for u in USAGE {
        if v.len() <= 2 {
            let eff = |e: &EnumeratedValues| match e.derived_from {
                Some(_) => None,
                None => Some(e.usage.unwrap_or(Usage::ReadWrite)),
            };
            let want = find(v, |e| eff(e) == Some(u));
            let got = sut("lookup", || f.get_enumerated_values(u).map(|e| ptr(e)))?;
            let mut c = f.clone();
            let gotm = sut("lookup", || split_mut(&mut c).0.get_mut_enumerated_values(u).cloned())?;
            if got != want || gotm != want.map(|w| unsafe { (*w).clone() }) {
                return fail("get_enumerated_values", format!("enumerations for {u:?} of {:?}", i.name), "");
            }
            x.ev("lookups", 2);
        }
    }
    for e in v {
        let names: Vec<String> = e.values.iter().map(|v| v.name.clone()).collect();
        for n in wanted(&names, &mut x.rng) {
            let want = find(&e.values, |v| v.name == n);
            let got = sut("lookup", || e.get_value(&n).map(|v| ptr(v)))?;
            let mut c = e.clone();
            let gotm = sut("lookup", || c.get_mut_value(&n).cloned())?;
            if got != want || gotm != want.map(|w| unsafe { (*w).clone() }) {
                return fail("get_value", format!("enumerated value {n:?}"), "");
            }
            x.ev("lookups", 2);
        }
        let want = find(&e.values, |v| v.is_default == Some(true));
        let got = sut("lookup", || e.default_value().map(|v| ptr(v)))?;
        if got != want {
            return fail("default_value", format!("default value of {:?} in {:?}", e.name, i.name), "");
        }
        for v in &e.values {
            if sut("lookup", || v.is_default())? != (v.is_default == Some(true)) {
                return fail("is_default", format!("is_default of {:?}", v.name), "");
            }
        }
        let want = if e.derived_from.is_some() { None } else { Some(e.usage.unwrap_or(Usage::ReadWrite)) };
        if sut("lookup", || e.usage())? != want {
            return fail("usage", format!("usage of {:?}", e.name), "");
        }
    }
    Ok(())
}

fn register_lookups(x: &mut Ctx, r: &Register) -> R {
    let v: &[Field] = split(r).0.fields.as_deref().unwrap_or(&[]);
    let want: Vec<*const Field> = v.iter().map(|f| ptr(f)).collect();
    uses("Register::fields", &want, || r.fields(), |f| ptr(f), &mut x.rng)?;
    if !want.is_empty() && x.rng.pct(20) {
        let mut c = r.clone();
        let want: Vec<*const Field> = split(&c).0.fields.iter().flatten().map(|f| ptr(f)).collect();
        let q: *mut Register = &mut c;
        uses("Register::fields_mut", &want, || unsafe { &mut *q }.fields_mut(), |f| ptr(&*f), &mut x.rng)?;
        x.ev("registers iterated mutably", 1);
    }
    let names: Vec<String> = v.iter().map(|f| split(f).0.name.clone()).collect();
    for n in wanted(&names, &mut x.rng) {
        let want = find(v, |f| split(f).0.name == n);
        let got = sut("lookup", || r.get_field(&n).map(|f| ptr(f)))?;
        let mut c = r.clone();
        let gotm = sut("lookup", || split_mut(&mut c).0.get_mut_field(&n).cloned())?;
        if got != want || gotm != want.map(|w| unsafe { (*w).clone() }) {
            return fail("get_field", format!("field {n:?} of {:?}", split(r).0.name), "");
        }
        x.ev("lookups", 2);
    }
    for f in v {
        field_lookups(x, f)?;
    }
    Ok(())
}

fn own_regs(v: &mut [RegisterCluster], deep: bool, f: &mut dyn FnMut(&mut RegisterInfo)) {
    for x in v {
        match x {
            RegisterCluster::Register(r) => f(split_mut(r).0),
            RegisterCluster::Cluster(c) => {
                if deep {
                    own_regs(&mut split_mut(c).0.children, true, f)
                }
            }
        }
    }
}
fn own_clusters(v: &mut [RegisterCluster], f: &mut dyn FnMut(&mut ClusterInfo)) {
    for x in v {
        if let RegisterCluster::Cluster(c) = x {
            f(split_mut(c).0)
        }
    }
}

/// Changes made through a mutable iterator or lookup, against the same made directly.
fn changes(x: &mut Ctx, d: &Device) -> R {
    let mut a = d.clone();
    let mut b = d.clone();
    let kind = x.rng.below(10);
    let mut n = 0u32;
    let mut tag = || {
        n += 1;
        n
    };
    let cluster_too = x.rng.bool();
    let depth = x.rng.below(4);
    // the block to work on
    fn pick<'a>(d: &'a mut Device, p: usize, depth: usize) -> Result<&'a mut Peripheral, &'a mut Cluster> {
        let p = &mut d.peripherals[p];
        if depth == 0 || !split(&*p).0.registers.iter().flatten().any(|k| matches!(k, RegisterCluster::Cluster(_))) {
            return Ok(p);
        }
        fn first(v: &mut [RegisterCluster]) -> Option<&mut Cluster> {
            v.iter_mut().find_map(|k| match k {
                RegisterCluster::Cluster(c) => Some(c),
                _ => None,
            })
        }
        let mut c = first(split_mut(p).0.registers.as_mut().unwrap()).unwrap();
        for _ in 1..depth {
            if !split(&*c).0.children.iter().any(|k| matches!(k, RegisterCluster::Cluster(_))) {
                break;
            }
            c = first(&mut split_mut(c).0.children).unwrap();
        }
        Err(c)
    }
    if a.peripherals.is_empty() {
        return Ok(());
    }
    let p = x.rng.below(a.peripherals.len());
    let depth = if cluster_too { depth } else { 0 };
    let what;
    macro_rules! both {
        ($blk:expr, $e:ident => $body:expr) => {
            match $blk {
                Ok($e) => $body,
                Err($e) => $body,
            }
        };
    }
    fn kids<'a>(b: Result<&'a mut Peripheral, &'a mut Cluster>) -> &'a mut [RegisterCluster] {
        match b {
            Ok(p) => split_mut(p).0.registers.as_deref_mut().unwrap_or(&mut []),
            Err(c) => &mut split_mut(c).0.children,
        }
    }
    let names: Vec<String> = kids(pick(&mut b, p, depth)).iter().map(|k| k.name().clone()).collect();
    let name = {
        let w = wanted(&names, &mut x.rng);
        if names.is_empty() || x.rng.pct(20) {
            x.rng.pick(&w).clone()
        } else {
            x.rng.pick(&names).clone()
        }
    };
    match kind {
        0 => {
            what = "registers_mut";
            sut(what, || {
                both!(pick(&mut a, p, depth), e => for r in e.registers_mut() { split_mut(r).0.address_offset = tag() })
            })?;
            n = 0;
            own_regs(kids(pick(&mut b, p, depth)), false, &mut |r| {
                n += 1;
                r.address_offset = n
            });
        }
        1 => {
            what = "clusters_mut";
            sut(what, || {
                both!(pick(&mut a, p, depth), e => for r in e.clusters_mut() { split_mut(r).0.address_offset = tag() })
            })?;
            n = 0;
            own_clusters(kids(pick(&mut b, p, depth)), &mut |r| {
                n += 1;
                r.address_offset = n
            });
        }
        2 | 3 => {
            what = "all_registers_mut";
            sut(what, || {
                both!(pick(&mut a, p, depth), e => for r in e.all_registers_mut() { split_mut(r).0.address_offset = tag() })
            })?;
            n = 0;
            own_regs(kids(pick(&mut b, p, depth)), true, &mut |r| {
                n += 1;
                r.address_offset = n
            });
        }
        4 => {
            what = "reg_iter_mut";
            #[allow(deprecated)]
            sut(what, || {
                both!(pick(&mut a, p, depth), e => for r in e.reg_iter_mut() { split_mut(r).0.address_offset = tag() })
            })?;
            n = 0;
            own_regs(kids(pick(&mut b, p, depth)), true, &mut |r| {
                n += 1;
                r.address_offset = n
            });
        }
        5 => {
            what = "fields_mut";
            sut(what, || {
                both!(pick(&mut a, p, depth), e => for r in e.registers_mut() {
                    for f in r.fields_mut() { split_mut(f).0.bit_range.offset = tag() }
                })
            })?;
            n = 0;
            own_regs(kids(pick(&mut b, p, depth)), false, &mut |r| {
                for f in r.fields.iter_mut().flatten() {
                    n += 1;
                    split_mut(f).0.bit_range.offset = n;
                }
            });
        }
        6 => {
            what = "get_mut_register";
            sut(what, || {
                both!(pick(&mut a, p, depth), e => if let Some(r) = e.get_mut_register(&name) { split_mut(r).0.address_offset = 777 })
            })?;
            let mut done = false;
            own_regs(kids(pick(&mut b, p, depth)), false, &mut |r| {
                if !done && r.name == name {
                    r.address_offset = 777;
                    done = true;
                }
            });
        }
        7 => {
            what = "get_mut_cluster";
            sut(what, || {
                both!(pick(&mut a, p, depth), e => if let Some(r) = e.get_mut_cluster(&name) { split_mut(r).0.address_offset = 777 })
            })?;
            let mut done = false;
            own_clusters(kids(pick(&mut b, p, depth)), &mut |r| {
                if !done && r.name == name {
                    r.address_offset = 777;
                    done = true;
                }
            });
        }
        8 => {
            what = "get_mut_peripheral";
            let names: Vec<String> = d.peripherals.iter().map(|p| split(p).0.name.clone()).collect();
            let w = wanted(&names, &mut x.rng);
            let name = x.rng.pick(&w).clone();
            sut(what, || {
                if let Some(p) = a.get_mut_peripheral(&name) {
                    split_mut(p).0.base_address = 777;
                }
            })?;
            if let Some(p) = b.peripherals.iter_mut().find(|p| split(&**p).0.name == name) {
                split_mut(p).0.base_address = 777;
            }
        }
        _ => {
            what = "get_mut_interrupt";
            let names: Vec<String> =
                split(&d.peripherals[p]).0.interrupt.iter().map(|i| i.name.clone()).collect();
            let w = wanted(&names, &mut x.rng);
            let name = x.rng.pick(&w).clone();
            sut(what, || {
                if let Some(i) = a.peripherals[p].get_mut_interrupt(&name) {
                    i.value = 777;
                }
            })?;
            if let Some(i) = split_mut(&mut b.peripherals[p]).0.interrupt.iter_mut().find(|i| i.name == name) {
                i.value = 777;
            }
        }
    }
    x.eval();
    if let Some(m) = diff(&dump::device(&b), &dump::device(&a)) {
        return fail(what, format!("changes through {what} end up elsewhere: {m}"), text_of(d));
    }
    x.ev(&format!("changes through {what}"), 1);
    Ok(())
}

pub fn c18(x: &mut Ctx) -> R {
    if x.idx % 1500 == 7 {
        return c18_long(x);
    }
    let mut o = Opt::random(&mut x.rng, 0);
    o.unique = x.rng.bool();
    o.wordy = !o.unique || o.wordy;
    o.max_depth = *x.rng.pick(&[0, 1, 2, 4, 9]);
    let mut d = gen::device(&mut x.rng, o);
    if x.rng.pct(50) {
        repeat_names(&mut d, &mut x.rng);
    }
    x.seen(dump::device(&d).hash64());
    x.sample(|| text_of(&d));
    let before = d.clone();
    let r = (|| {
        if x.rng.pct(50) {
            let mut m = d.clone();
            for p in &mut m.peripherals {
                blocks_mut(x, p)?;
            }
            if m != d {
                return fail("visit", "visiting through mutable iterators changes the device", text_of(&d));
            }
        }
        for p in &d.peripherals {
            blocks(x, p)?;
            let i = split(p).0;
            let names: Vec<String> = i.interrupt.iter().map(|i| i.name.clone()).collect();
            for n in wanted(&names, &mut x.rng) {
                let want = find(&i.interrupt, |i| i.name == n);
                if sut("lookup", || p.get_interrupt(&n).map(|i| ptr(i)))? != want {
                    return fail("get_interrupt", format!("interrupt {n:?}"), "");
                }
                x.ev("lookups", 1);
            }
            let mut regs = vec![];
            all(i.registers.as_deref().unwrap_or(&[]), &mut regs);
            for r in regs {
                register_lookups(x, unsafe { &*r })?;
            }
        }
        let names: Vec<String> = d.peripherals.iter().map(|p| split(p).0.name.clone()).collect();
        for n in wanted(&names, &mut x.rng) {
            let want = find(&d.peripherals, |p| split(p).0.name == n);
            if sut("lookup", || d.get_peripheral(&n).map(|p| ptr(p)))? != want {
                return fail("get_peripheral", format!("peripheral {n:?}"), "");
            }
            x.ev("lookups", 1);
        }
        for _ in 0..3 {
            changes(x, &d)?;
        }
        Ok(())
    })();
    r.with(|| text_of(&before))
}

/// Gives some siblings the names of others.
fn repeat_names(d: &mut Device, r: &mut Rng) {
    fn rcs(v: &mut [RegisterCluster], r: &mut Rng) {
        let names: Vec<String> = v.iter().map(|k| k.name().clone()).collect();
        for k in v {
            let n = if r.pct(30) { Some(r.pick(&names).clone()) } else { None };
            match k {
                RegisterCluster::Register(g) => {
                    let g = split_mut(g).0;
                    if let Some(n) = n {
                        g.name = n;
                    }
                    if let Some(f) = &mut g.fields {
                        let names: Vec<String> = f.iter().map(|f| split(f).0.name.clone()).collect();
                        for f in f {
                            let f = split_mut(f).0;
                            if r.pct(30) {
                                f.name = r.pick(&names).clone();
                            }
                            for e in &mut f.enumerated_values {
                                let names: Vec<String> = e.values.iter().map(|e| e.name.clone()).collect();
                                for v in &mut e.values {
                                    if r.pct(30) {
                                        v.name = r.pick(&names).clone();
                                    }
                                }
                            }
                        }
                    }
                }
                RegisterCluster::Cluster(g) => {
                    let g = split_mut(g).0;
                    if let Some(n) = n {
                        g.name = n;
                    }
                    rcs(&mut g.children, r);
                }
            }
        }
    }
    let names: Vec<String> = d.peripherals.iter().map(|p| split(p).0.name.clone()).collect();
    for p in &mut d.peripherals {
        let p = split_mut(p).0;
        if r.pct(30) && !names.is_empty() {
            p.name = r.pick(&names).clone();
        }
        if let Some(v) = &mut p.registers {
            rcs(v, r);
        }
        let names: Vec<String> = p.interrupt.iter().map(|i| i.name.clone()).collect();
        for i in &mut p.interrupt {
            if r.pct(30) {
                i.name = r.pick(&names).clone();
            }
        }
    }
}

/// Very many children of one kind, and very deep nesting.
fn c18_long(x: &mut Ctx) -> R {
    let n = if x.tier == Tier::Quick { 120_000 } else { 400_000 };
    let mut p = gen::tpl_peripheral();
    let mut v = Vec::with_capacity(n);
    let clusters = x.rng.bool();
    for i in 0..n {
        if clusters {
            let mut c = gen::tpl_cluster();
            c.name = format!("c{i}");
            v.push(RegisterCluster::Cluster(Cluster::Single(c)));
        } else {
            let mut c = gen::tpl_register();
            c.name = format!("c{i}");
            v.push(RegisterCluster::Register(Register::Single(c)));
        }
    }
    let at = *x.rng.pick(&[0, n / 2, n]);
    let mut r = gen::tpl_register();
    r.name = "the".into();
    let mut c = gen::tpl_cluster();
    c.name = "the".into();
    c.children.push(RegisterCluster::Register(Register::Single(r.clone())));
    v.insert(at, RegisterCluster::Register(Register::Single(r)));
    v.insert(at, RegisterCluster::Cluster(Cluster::Single(c)));
    p.registers = Some(v);
    let mut p = Peripheral::Single(p);
    let counts = sut("iteration over very many children", || {
        (p.registers().count(), p.clusters().count(), p.all_registers().count(), p.all_registers_mut().count(),
         p.registers_mut().count(), p.clusters_mut().count())
    })?;
    x.eval();
    let many = if clusters { (1, n + 1) } else { (n + 1, 1) };
    let want = (many.0, many.1, many.0 + 1, many.0 + 1, many.0, many.1);
    if counts != want {
        return fail("long", format!("{n} children: counts {counts:?}, wanted {want:?}"), "");
    }
    let found = sut("lookup among very many children", || {
        (
            p.get_register("the").is_some(),
            p.get_cluster("the").map(|c| c.children.len()),
            p.get_register("c5").is_some() != clusters,
        )
    })?;
    if found != (true, Some(1), true) {
        return fail("long", format!("lookups among {n} children: {found:?}"), "");
    }
    x.ev("blocks of very many children", 1);
    // nested deeply, taken apart by hand afterwards
    let depth = 600;
    let mut r = gen::tpl_register();
    r.name = "inner".into();
    let mut kid = RegisterCluster::Register(Register::Single(r));
    for _ in 0..depth {
        let mut c = gen::tpl_cluster();
        let mut s = gen::tpl_register();
        s.name = "side".into();
        c.children = vec![kid, RegisterCluster::Register(Register::Single(s))];
        kid = RegisterCluster::Cluster(Cluster::Single(c));
    }
    let mut p = gen::tpl_peripheral();
    p.registers = Some(vec![kid]);
    let mut p = Peripheral::Single(p);
    let (n, m) = sut("iteration over deep nesting", || {
        (p.all_registers().count(), p.all_registers_mut().filter(|r| r.name == "side").count())
    })?;
    if (n, m) != (depth + 1, depth) {
        return fail("long", format!("{depth} levels: {n} registers, {m} of them at the side"), "");
    }
    Ok(())
}

// ---- C19 ----

fn mask(o: u64, w: u64) -> u64 {
    let mut m = 0;
    for b in o..o + w {
        m |= 1u64 << b;
    }
    m
}

pub fn c19(x: &mut Ctx) -> R {
    // ranges
    for _ in 0..20 {
        let r = &mut x.rng;
        let (o, w) = match r.below(5) {
            0 => (r.below(64) as u32, 1 + r.below(64) as u32),
            1 => {
                let w = r.u32().max(1);
                (u32::MAX - (w - 1), w)
            }
            2 => (u32::MAX - r.below(4) as u32, 1),
            _ => {
                let w = r.u32().max(1);
                (r.u32().min(u32::MAX - (w - 1)), w)
            }
        };
        let msb = (o as u64 + w as u64 - 1) as u32;
        let text = format!("[{msb}:{o}]");
        let all = sut("bit range constructors", || {
            [
                ("from_offset_width", Some(BitRange::from_offset_width(o, w)), BitRangeType::OffsetWidth),
                ("from_msb_lsb", Some(BitRange::from_msb_lsb(msb, o)), BitRangeType::MsbLsb),
                ("from_bit_range", BitRange::from_bit_range(&text), BitRangeType::BitRange),
            ]
        })?;
        for (how, b, t) in all {
            let Some(b) = b else {
                return fail("range", format!("{how} refuses {text}"), "");
            };
            let got = sut("bit range accessors", || (b.lsb(), b.msb(), b.bit_range()))?;
            if (b.offset, b.width, b.range_type) != (o, w, t) || got != (o, msb, text.clone()) {
                return fail("range", format!("{how} of offset {o} width {w} gives {b:?} {got:?}"), "");
            }
            let back = sut("from_bit_range", || BitRange::from_bit_range(&got.2))?;
            if back.map(|b| (b.offset, b.width)) != Some((o, w)) {
                return fail("range", format!("{text} parses back to {back:?}"), "");
            }
            // the same through a field
            let mut f = gen::tpl_field();
            f.bit_range = b;
            let got = sut("field bit accessors", || (f.lsb(), f.msb(), f.bit_offset(), f.bit_width()))?;
            if got != (o, msb, o, w) {
                return fail("field", format!("a field of offset {o} width {w} says {got:?}"), "");
            }
            x.ev("ranges", 1);
        }
        x.eval();
        x.seen(hash_str(&text));
    }
    // texts
    for _ in 0..10 {
        let r = &mut x.rng;
        let t = match r.below(4) {
            0 => {
                let (a, b) = (r.u32(), r.u32());
                format!("[{a}:{b}]")
            }
            1 => {
                let mut c: Vec<char> = format!("[{}:{}]", r.below(200), r.below(64)).chars().collect();
                for _ in 0..r.range(1, 2) {
                    let i = r.below(c.len());
                    match r.below(3) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c[i] = *r.pick(&['[', ']', ':', 'x', ' ', '-', '9', '0', 'é', '\u{0}', ',']),
                        _ => c.insert(i, *r.pick(&['[', ']', ':', 'x', '-', '9', '0', '.', ' ', '_'])),
                    }
                }
                c.into_iter().collect()
            }
            2 => r
                .pick(&[
                    "", "[", "]", "[]", "[:]", "[3]", "[3:]", "[:3]", "[a:b]", "[1:3]", "[0x3:0]", "3:0", "(3:0)", "[3-0]",
                    "[-1:0]", "[ 3:0]", "[3 :0]", "[3:0", "3:0]", "[3:0]]", "[[3:0]", "[7:0:3]", "[3;0]", "[4294967296:0]",
                    "[4294967295:0]", "[0:4294967295]", "é", "[é]", "é[3:0]é", "[3:0]\n", " [3:0]", "[٣:٠]", "[3:0:]",
                    "[::]", "[18446744073709551616:0]", "[4294967295:1]", "[4294967295:4294967295]",
                ])
                .to_string(),
            _ => format!("[{}:{}]", r.below(40), r.below(40)),
        };
        if t.contains('+') {
            continue;
        }
        let want = super::parse::bits_of(&t);
        let got = sut("from_bit_range", || BitRange::from_bit_range(&t))?.map(|b| (b.offset, b.width));
        x.eval();
        x.seen(hash_str(&t));
        if got != want {
            return fail("text", format!("{t:?} gives {got:?}, wanted {want:?}"), "");
        }
        x.ev(if want.is_some() { "texts read" } else { "texts refused" }, 1);
    }
    // masks
    let mut fields = vec![];
    let mut union = 0u64;
    for i in 0..x.rng.range(0, 12) {
        let r = &mut x.rng;
        let o = r.below(64) as u64;
        let w = match r.below(3) {
            0 => 1,
            1 => 64 - o,
            _ => r.range(1, 64 - o as usize) as u64,
        };
        let mut f = gen::tpl_field();
        f.name = format!("f{i}");
        f.bit_range = BitRange {
            offset: o as u32,
            width: w as u32,
            range_type: *r.pick(&[BitRangeType::BitRange, BitRangeType::OffsetWidth, BitRangeType::MsbLsb]),
        };
        // nothing else has a say in a mask
        if r.pct(25) {
            f.derived_from = Some(r.pick(&["f0", "f1", "R.f0", ""]).to_string());
        }
        if r.pct(30) {
            f.access = Some(*r.pick(&dump::ACCESS));
        }
        if r.pct(15) {
            f.modified_write_values = Some(*r.pick(&dump::MWV));
        }
        if r.pct(15) {
            f.read_action = Some(*r.pick(&dump::READACTION));
        }
        if r.pct(15) {
            f.name = "Reserved".into();
            f.description = Some("reserved".into());
        }
        if r.pct(20) {
            f.enumerated_values = vec![gen::tpl_evs()];
        }
        let got = sut("FieldInfo::bitmask", || f.bitmask())?;
        let one = mask(o, w);
        if got != one {
            return fail("mask", format!("the mask of offset {o} width {w} is {got:#x}, wanted {one:#x}"), "");
        }
        let room = 64 - o - w;
        let f = if r.bool() {
            let mut d = gen::tpl_dim();
            let inc = match r.below(4) {
                0 => 0,
                1 => w,
                2 => room,
                _ => r.below(room as usize + 1) as u64,
            };
            let most = if inc == 0 { 5 } else { room / inc + 1 };
            d.dim_increment = inc as u32;
            d.dim = match r.below(3) {
                0 => most as u32,
                _ => r.below(most as usize + 1) as u32,
            };
            let mut m = 0;
            for i in 0..d.dim as u64 {
                m |= mask(o + i * inc, w);
            }
            f.name.push_str("%s");
            let a = Field::Array(f, d.clone());
            let got = sut("Field::bitmask", || a.bitmask())?;
            if got != m {
                return fail("array mask", format!("the mask of offset {o} width {w}, {} times by {inc}, is {got:#x}, wanted {m:#x}", d.dim), "");
            }
            x.ev("array masks", 1);
            union |= m;
            a
        } else {
            let s = Field::Single(f);
            let got = sut("Field::bitmask", || s.bitmask())?;
            if got != one {
                return fail("mask", format!("the mask of offset {o} width {w} is {got:#x}, wanted {one:#x}"), "");
            }
            union |= one;
            s
        };
        fields.push(f);
        x.ev("masks", 1);
    }
    let mut r = gen::tpl_register();
    r.fields = if fields.is_empty() && x.rng.bool() { None } else { Some(fields) };
    if x.rng.pct(30) {
        r.properties.size = Some(*x.rng.pick(&[0, 1, 8, 16, 32, 64]));
    }
    if x.rng.pct(20) {
        r.properties.access = Some(*x.rng.pick(&dump::ACCESS));
    }
    if x.rng.pct(20) {
        r.properties.reset_mask = Some(x.rng.u64());
    }
    if x.rng.pct(15) {
        r.derived_from = Some("r0".into());
    }
    let got = sut("RegisterInfo::bitmask", || r.bitmask())?;
    if got != union {
        return fail("register mask", format!("a register's mask is {got:#x}, wanted {union:#x}"), dump::register_info(&r).render());
    }
    x.ev("register masks", 1);
    Ok(())
}

// ---- C20 ----

struct Vocabulary {
    name: &'static str,
    words: Vec<&'static str>,
    /// the value's text for an accepted word
    round: fn(&str) -> Option<String>,
    texts: Vec<String>,
}

macro_rules! vocabulary {
    ($name:expr, $t:ty, $all:expr, $word:expr) => {
        Vocabulary {
            name: $name,
            words: $all.iter().map(|v| $word(*v)).collect(),
            round: |s| <$t>::parse_str(s).map(|v| v.as_str().to_string()),
            texts: $all.iter().map(|v| v.as_str().to_string()).collect(),
        }
    };
}

fn vocabularies() -> Vec<Vocabulary> {
    vec![
        vocabulary!("access", Access, ACCESS, access),
        vocabulary!("protection", Protection, PROTECTION, protection),
        vocabulary!("usage", Usage, USAGE, usage),
        vocabulary!("address block usage", AddressBlockUsage, ABUSAGE, abusage),
        vocabulary!("endianness", Endian, ENDIAN, endian),
        vocabulary!("data type", DataType, DATATYPE, datatype),
        vocabulary!("modified-write values", ModifiedWriteValues, MWV, mwv),
        vocabulary!("read action", ReadAction, READACTION, readaction),
    ]
}

pub fn c20(x: &mut Ctx) -> R {
    let v = sut("vocabulary", vocabularies)?;
    let pool: Vec<&str> = v.iter().flat_map(|v| v.words.iter().copied()).collect();
    for q in &v {
        for (w, t) in q.words.iter().zip(&q.texts) {
            if w != t {
                return fail("text", format!("{}: {w:?} is written as {t:?}", q.name), "");
            }
            let back = sut("parse_str", || (q.round)(w))?;
            if back.as_deref() != Some(*w) {
                return fail("word", format!("{}: {w:?} is read as {back:?}", q.name), "");
            }
            x.ev("words accepted", 1);
        }
        let mut u = q.texts.clone();
        u.sort();
        u.dedup();
        if u.len() != q.texts.len() {
            return fail("distinct", format!("{}: two values share a text", q.name), "");
        }
        for _ in 0..12 {
            let t = if x.rng.pct(30) {
                x.rng.pick(&pool).to_string()
            } else {
                let mut t = super::parse::bad_word(&mut x.rng, &q.words);
                if x.rng.pct(20) {
                    let p = *x.rng.pick(&[" ", "\n", "\t", "\u{a0}", "\u{0}"]);
                    let w = x.rng.pick(&q.words);
                    t = if x.rng.bool() { format!("{w}{p}") } else { format!("{p}{w}") };
                }
                t
            };
            if q.words.contains(&t.as_str()) {
                continue;
            }
            let got = sut("parse_str", || (q.round)(&t))?;
            x.eval();
            x.seen(hash_str(&format!("{} {t}", q.name)));
            if got.is_some() {
                return fail("accepted", format!("{}: {t:?} is read as {got:?}", q.name), "");
            }
            x.ev("other texts refused", 1);
        }
    }
    for a in ACCESS {
        let (r, w) = sut("can_read", || (a.can_read(), a.can_write()))?;
        let n = access(a);
        let want = (n.contains("read"), n == "read-write" || n.to_lowercase().contains("write"));
        if (r, w) != want {
            return fail("access", format!("{n}: readable {r}, writable {w}"), "");
        }
    }
    use svd_rs::ValidateLevel as L;
    for (l, want) in [
        (L::Disabled, (true, false, false)),
        (L::Weak, (false, true, false)),
        (L::Strict, (false, true, true)),
    ] {
        let got = sut("ValidateLevel", || (l.is_disabled(), l.is_weak(), l.is_strict()))?;
        if got != want {
            return fail("level", format!("{l:?}: disabled, weak, strict are {got:?}"), "");
        }
    }
    {
        let mut c = gen::tpl_cpu();
        c.name = match x.rng.below(4) {
            0 => x.rng.pick(&["CM0", "CM0PLUS", "CM4", "CM33", "CM", "CM55", "CMx", "CM é"]).to_string(),
            1 => x.rng.pick(&["", "C", "cm4", "CA9", "SC000", "SC300", "ARMV8MBL", "ARMV8MML", "other", "xCM4", " CM4", "M"]).to_string(),
            _ => {
                let a = *x.rng.pick(&["CM", "cm", "C M", "C", "SCM", "CN"]);
                let b = x.rng.pick(&pool).to_string();
                format!("{a}{b}")
            }
        };
        let want = c.name.as_bytes().starts_with(b"CM");
        if sut("is_cortex_m", || c.is_cortex_m())? != want {
            return fail("cortex", format!("is_cortex_m of {:?} is not {want}", c.name), "");
        }
        x.ev(if want { "cpus that are Cortex-M" } else { "cpus that are not" }, 1);
    }
    let d = sut("defaults", || {
        [
            access(Access::default()),
            protection(Protection::default()),
            usage(Usage::default()),
            abusage(AddressBlockUsage::default()),
            endian(Endian::default()),
            mwv(ModifiedWriteValues::default()),
        ]
    })?;
    if d != ["read-write", "n", "read-write", "registers", "little", "modify"] {
        return fail("default", format!("defaults are {d:?}"), "");
    }
    x.ev("vocabularies checked", v.len());
    // XML both ways: one document with every kind of keyword
    let mut dev = gen::tpl_device();
    dev.name = "d".into();
    let mut cpu = gen::tpl_cpu();
    cpu.endian = *x.rng.pick(&ENDIAN);
    dev.default_register_properties.access = Some(*x.rng.pick(&ACCESS));
    dev.default_register_properties.protection = Some(*x.rng.pick(&PROTECTION));
    let mut p = gen::tpl_peripheral();
    let mut ab = gen::tpl_address_block();
    ab.usage = *x.rng.pick(&ABUSAGE);
    ab.protection = Some(*x.rng.pick(&PROTECTION));
    p.address_block = Some(vec![ab]);
    let mut r = gen::tpl_register();
    r.datatype = Some(*x.rng.pick(&DATATYPE));
    r.modified_write_values = Some(*x.rng.pick(&MWV));
    r.read_action = Some(*x.rng.pick(&READACTION));
    r.properties.access = Some(*x.rng.pick(&ACCESS));
    let mut f = gen::tpl_field();
    f.access = Some(*x.rng.pick(&ACCESS));
    f.modified_write_values = Some(*x.rng.pick(&MWV));
    f.read_action = Some(*x.rng.pick(&READACTION));
    let mut e = gen::tpl_evs();
    e.usage = Some(*x.rng.pick(&USAGE));
    let mut v = gen::tpl_ev();
    v.value = Some(0);
    e.values.push(v);
    f.enumerated_values.push(e);
    r.fields = Some(vec![Field::Single(f)]);
    p.registers = Some(vec![RegisterCluster::Register(Register::Single(r))]);
    dev.cpu = Some(cpu);
    dev.peripherals.push(Peripheral::Single(p));
    let doc = plain(&dev, &mut x.rng);
    let got = super::encode::parse_at(&doc.text, Disabled).with(|| doc.text.clone())?;
    x.eval();
    match got {
        Err(m) => return fail("xml", format!("keywords refused in a document: {m}"), doc.text),
        Ok(g) => {
            if let Some(m) = diff(&dump::device(&dev), &dump::device(&g)) {
                return fail("xml", format!("keywords read differently from a document: {m}"), doc.text);
            }
        }
    }
    let enc = super::encode::encode(&dev, &svd_encoder::Config::default()).with(|| doc.text.clone())?;
    let tree = match roxmltree::Document::parse(&enc) {
        Ok(t) => t,
        Err(m) => return fail("xml", format!("encoded text is not XML: {m}"), enc.clone()),
    };
    let mut want: BTreeMap<(String, String), u32> = BTreeMap::new();
    let root = Sty { r: &mut x.rng, vary: false }.device(&dev);
    const TAGS: &[&str] = &[
        "access", "protection", "usage", "endian", "dataType", "modifiedWriteValues", "readAction",
    ];
    root.walk(&mut |_, up, e| {
        if TAGS.contains(&e.tag.as_str()) {
            let p = up.last().map(|u| u.tag.clone()).unwrap_or_default();
            *want.entry((format!("{p}/{}", e.tag), e.text())).or_default() += 1;
        }
    });
    let mut got: BTreeMap<(String, String), u32> = BTreeMap::new();
    for n in tree.descendants().filter(|n| TAGS.contains(&n.tag_name().name())) {
        let p = n.parent().map(|p| p.tag_name().name().to_string()).unwrap_or_default();
        *got.entry((format!("{p}/{}", n.tag_name().name()), n.text().unwrap_or("").to_string())).or_default() += 1;
    }
    x.eval();
    x.seen(hash_str(&enc));
    if want != got {
        return fail("xml", format!("encoded keywords {got:?}, wanted {want:?}"), enc);
    }
    x.ev("keywords in documents, both ways", got.len());
    x.sample(|| enc.clone());
    Ok(())
}

// ---- C23 ----

type Wanted<'a> = HashMap<String, (&'static str, *const ())>;

fn all_names(name: &str, d: Option<&DimElement>) -> Vec<String> {
    let mut v = vec![name.to_string()];
    if let Some(d) = d {
        v.extend(item_names(name, d));
    }
    v
}

pub fn c23(x: &mut Ctx) -> R {
    // paths
    for _ in 0..6 {
        let r = &mut x.rng;
        let n = r.range(1, 7);
        let pool = ["A", "a", "B", "AB", "A0", "%s", "A%s", "[%s]", "é", " ", "", "A B", "0", "x_y", "a-b"];
        let parts: Vec<String> = (0..n).map(|_| r.pick(&pool).to_string()).collect();
        let text = parts.join(".");
        let v: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
        let mut other = parts.clone();
        match r.below(5) {
            0 => {
                other.pop();
            }
            1 => other.push("A".into()),
            2 => {
                let i = r.below(n);
                other[i].push('x');
            }
            3 => {
                let i = r.below(n);
                other[i] = r.pick(&pool).to_string();
            }
            _ => {
                other.remove(0);
            }
        }
        let other = other.join(".");
        paths(x, &v, &text, &other)?;
    }
    // the index
    let mut o = Opt::random(&mut x.rng, 0);
    o.unique = true;
    o.arrays = x.rng.pct(90);
    o.budget = o.budget.min(60);
    o.max_depth = *x.rng.pick(&[0, 1, 2, 3]);
    let mut d = gen::device(&mut x.rng, o);
    let max = *x.rng.pick(&[1, 2, 3, 5]);
    super::tame(&mut d, max, &mut x.rng);
    x.seen(dump::device(&d).hash64());
    x.sample(|| text_of(&d));
    let ix = sut("Index::create", || Index::create(&d)).with(|| text_of(&d))?;
    x.eval();
    // every path with its element
    let mut wp: HashMap<String, *const ()> = HashMap::new();
    let mut wc = HashMap::new();
    let mut wr = HashMap::new();
    let mut wf = HashMap::new();
    let mut we = HashMap::new();
    fn rcs(
        v: &[RegisterCluster],
        at: &str,
        wc: &mut HashMap<String, *const ()>,
        wr: &mut HashMap<String, *const ()>,
        wf: &mut HashMap<String, *const ()>,
        we: &mut HashMap<String, *const ()>,
    ) {
        for k in v {
            match k {
                RegisterCluster::Register(r) => {
                    let (i, d) = split(r);
                    for n in all_names(&i.name, d) {
                        let at = format!("{at}.{n}");
                        for f in i.fields.iter().flatten() {
                            let (g, d) = split(f);
                            for n in all_names(&g.name, d) {
                                let at = format!("{at}.{n}");
                                for e in &g.enumerated_values {
                                    if let Some(n) = &e.name {
                                        we.insert(format!("{at}.{n}"), ptr(e) as *const ());
                                    }
                                }
                                wf.insert(at, ptr(f) as *const ());
                            }
                        }
                        wr.insert(at, ptr(r) as *const ());
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let (i, d) = split(c);
                    for n in all_names(&i.name, d) {
                        let at = format!("{at}.{n}");
                        rcs(&i.children, &at, wc, wr, wf, we);
                        wc.insert(at, ptr(c) as *const ());
                    }
                }
            }
        }
    }
    for p in &d.peripherals {
        let (i, m) = split(p);
        for n in all_names(&i.name, m) {
            rcs(i.registers.as_deref().unwrap_or(&[]), &n, &mut wc, &mut wr, &mut wf, &mut we);
            wp.insert(n, ptr(p) as *const ());
        }
    }
    fn cmp<K: std::fmt::Display, T>(x: &mut Ctx, what: &str, want: HashMap<String, *const ()>, got: &HashMap<K, &T>) -> R {
        let g: HashMap<String, *const ()> =
            got.iter().map(|(k, v)| (k.to_string(), ptr(*v) as *const ())).collect();
        if g.len() != got.len() {
            return fail(what, format!("two {what} of the index print the same path"), "");
        }
        for (k, w) in &want {
            match g.get(k) {
                None => return fail(what, format!("the index misses {what} {k}"), ""),
                Some(p) if p != w => return fail(what, format!("the index has another element at {what} {k}"), ""),
                _ => {}
            }
        }
        if let Some(k) = g.keys().find(|k| !want.contains_key(*k)) {
            return fail(what, format!("the index has {what} {k} which the device has not"), "");
        }
        x.ev(&format!("indexed {what}"), want.len());
        Ok(())
    }
    let t = |r: R| r.with(|| text_of(&d));
    t(cmp(x, "peripherals", wp, &ix.peripherals))?;
    t(cmp(x, "clusters", wc, &ix.clusters))?;
    t(cmp(x, "registers", wr, &ix.registers))?;
    t(cmp(x, "fields", wf, &ix.fields))?;
    t(cmp(x, "enumerations", we, &ix.evs))?;
    // keys taken apart
    let k: Vec<String> = ix.fields.keys().take(3).map(|k| k.to_string()).collect();
    for t in k {
        let v: Vec<&str> = t.split('.').collect();
        paths(x, &v, &t, "x")?;
    }
    Ok(())
}

fn paths(x: &mut Ctx, v: &[&str], text: &str, other: &str) -> R {
    let n = v.len();
    let mut block = BlockPath::new(v[0]);
    for c in &v[1..n] {
        block = sut("new_cluster", || block.new_cluster(*c))?;
    }
    x.eval();
    let bad = |what: &str| -> R { fail("path", format!("{what} of {text:?}"), "") };
    macro_rules! check {
        ($c:expr, $what:expr) => {
            if !sut("paths", || $c)? {
                return bad($what);
            }
        };
    }
    check!(block.to_string() == text, "text of the block path");
    check!(&block == text, "equality of the block path with its text");
    check!((&block == other) == (text == other), "equality of the block path with another text");
    check!(block == block.clone(), "equality of the block path with itself");
    if n >= 2 {
        let up = sut("parent", || block.parent())?;
        check!(up.as_ref().map(|u| u.to_string()) == Some(v[..n - 1].join(".")), "parent of the block path");
        check!(block.name() == v[n - 1], "name of the block path");
    } else {
        check!(block.parent().is_none(), "parent of a peripheral path");
    }
    let (up, name) = sut("BlockPath::parse_str", || BlockPath::parse_str(text))?;
    if name != v[n - 1] || up.as_ref().map(|u| u.to_string()) != (n > 1).then(|| v[..n - 1].join(".")) {
        return bad("parts of the block path");
    }
    if let Some(u) = up {
        if u.peripheral != v[0] || u.path.iter().map(|s| s.as_str()).collect::<Vec<_>>() != v[1..n - 1] {
            return bad("names in the parent of the block path");
        }
    }
    let (up, name) = sut("BlockPath::parse_vec", || BlockPath::parse_vec(v.to_vec()))?;
    if name != v[n - 1] || up.map(|u| u.to_string()) != (n > 1).then(|| v[..n - 1].join(".")) {
        return bad("parts of the block path from a list");
    }
    let (up, name) = sut("RegisterPath::parse_str", || RegisterPath::parse_str(text))?;
    if name != v[n - 1] || up.as_ref().map(|u| u.to_string()) != (n > 1).then(|| v[..n - 1].join(".")) {
        return bad("parts of the register path");
    }
    if let Some(b) = up {
        let reg = b.new_register(name);
        check!(reg.to_string() == text, "text of the register path");
        check!(&reg == text, "equality of the register path with its text");
        check!((&reg == other) == (text == other), "equality of the register path with another text");
        check!(reg.peripheral() == v[0] && reg.name == v[n - 1], "names of the register path");
    }
    if n != 2 {
        let (up, name) = sut("FieldPath::parse_str", || FieldPath::parse_str(text))?;
        if name != v[n - 1] || up.as_ref().map(|u| u.to_string()) != (n > 1).then(|| v[..n - 1].join(".")) {
            return bad("parts of the field path");
        }
        let (up2, name2) = sut("FieldPath::parse_vec", || FieldPath::parse_vec(v.to_vec()))?;
        if up2 != up || name2 != name {
            return bad("parts of the field path from a list");
        }
        if let Some(reg) = up {
            let f = reg.new_field(name);
            check!(f.to_string() == text, "text of the field path");
            check!(&f == text, "equality of the field path with its text");
            check!((&f == other) == (text == other), "equality of the field path with another text");
            check!(f.peripheral() == v[0] && f.register() == &reg && f.name == v[n - 1], "names of the field path");
            let e = f.new_enum("E");
            check!(e.to_string() == format!("{text}.E"), "text of the enumeration path");
            check!(&e == format!("{text}.E").as_str(), "equality of the enumeration path with its text");
            check!(&e != text && &e != format!("{text}.F").as_str(), "equality of the enumeration path with another text");
            check!(
                e.peripheral() == v[0] && e.field() == &f && e.register() == &reg && e.name == "E",
                "names of the enumeration path"
            );
        }
    }
    x.ev("paths", 1);
    x.seen(hash_str(text));
    Ok(())
}

// ---- C24 ----

fn helpers<T: Name + Description>(x: &mut Ctx, name: &str, desc: &Option<String>, info: &T, d: &DimElement) -> R {
    let ix = indexes(d);
    let (gi, gn, gd) = sut("array helpers", || {
        (
            d.indexes().map(|i| i.to_string()).collect::<Vec<_>>(),
            array::names(info, d).collect::<Vec<_>>(),
            array::descriptions(info, d).collect::<Vec<_>>(),
        )
    })?;
    x.eval();
    if gi != ix {
        return fail("indexes", format!("indexes are {gi:?}, wanted {ix:?}"), dump::dim(d).render());
    }
    let want = item_names(name, d);
    if gn != want {
        return fail("names", format!("names of {name:?} are {gn:?}, wanted {want:?}"), dump::dim(d).render());
    }
    let want: Vec<_> = ix.iter().map(|i| item_description(desc, d, i)).collect();
    if gd != want {
        return fail("descriptions", format!("descriptions are {gd:?}, wanted {want:?}"), dump::dim(d).render());
    }
    if info.name() != name || info.description() != desc.as_deref() {
        return fail("traits", "name or description through the traits".to_string(), "");
    }
    x.ev("items", ix.len());
    Ok(())
}

fn shape<T: Clone + PartialEq + std::fmt::Debug>(
    what: &str,
    info: &T,
    d: &DimElement,
    single: impl Fn(T) -> MaybeArray<T>,
    array: impl Fn(T, DimElement) -> MaybeArray<T>,
    maybe: impl Fn(T, Option<DimElement>) -> MaybeArray<T>,
) -> R {
    let ok = sut("array constructors", || {
        let s = single(info.clone());
        let a = array(info.clone(), d.clone());
        let (ms, ma) = (maybe(info.clone(), None), maybe(info.clone(), Some(d.clone())));
        let right = matches!(&s, MaybeArray::Single(i) if i == info)
            && matches!(&a, MaybeArray::Array(i, e) if i == info && e == d)
            && ms == s
            && ma == a
            && s != a;
        let kind = s.is_single() && !s.is_array() && a.is_array() && !a.is_single();
        let through = *s == *info && *a == *info;
        right && kind && through
    })?;
    if !ok {
        return fail("shape", format!("single, array, maybe_array or the tests of them for a {what}"), "");
    }
    Ok(())
}

pub fn c24(x: &mut Ctx) -> R {
    let mut o = Opt::random(&mut x.rng, 0);
    o.budget = 3;
    o.max_depth = 1;
    o.fit = true;
    o.dense = *x.rng.pick(&[40, 70, 100]);
    let mut g = Gen::new(&mut x.rng, o);
    let mut d = g.dim();
    if d.dim_increment == 0 && g.r.bool() {
        d.dim_increment = 4;
    }
    if g.r.pct(5) {
        d.dim = g.r.range(100, 2000) as u32;
        d.dim_index = None;
    }
    if g.r.pct(10) {
        // indexes near the limits
        let n = d.dim as usize;
        if n > 0 {
            let s = *g.r.pick(&[u32::MAX as u64 - n as u64 + 1, u32::MAX as u64 - n as u64 + 2, 9, 99, 0]);
            d.dim_index = Some((0..n as u64).map(|i| (s + i).to_string()).collect());
        }
    } else if g.r.pct(15) && d.dim > 1 {
        // nearly a range
        let n = d.dim as usize;
        let s = *g.r.pick(&[0, 1, 9, 98, u32::MAX as u64 - n as u64 + 1]);
        let mut v: Vec<u64> = (0..n as u64).map(|i| s + i).collect();
        let (i, j) = (g.r.below(n), g.r.below(n));
        match g.r.below(5) {
            0 if n > 3 => v[1..n - 1].reverse(),
            0 | 1 => v.swap(i, j),
            2 => v[i] = v[j],
            3 => v.reverse(),
            _ => v[i] += 1,
        }
        let mut v: Vec<String> = v.iter().map(|i| i.to_string()).collect();
        if g.r.pct(15) {
            v[i] = match g.r.below(3) {
                0 => format!("0{}", v[i]),
                1 => format!("_{}", v[i]),
                _ => "A".into(),
            };
        }
        d.dim_index = Some(v);
    }
    let mut p = g.peripheral_info(Kind::Array);
    let mut c = g.cluster_info(Kind::Array, 0);
    let mut r = g.register_info(Kind::Array);
    let mut f = g.field_info(Kind::Array);
    let place = |r: &mut Rng| r.pick(&["%s", "[%s]", "a[%s]b%s", "x%sy[%s]", "none", "[[%s]]", "%s%s", "%-[%s]-s", "[%s", "%s]"]).to_string();
    for n in [&mut p.name, &mut c.name, &mut r.name, &mut f.name] {
        if g.r.pct(40) {
            *n = place(g.r);
        }
    }
    for n in [&mut p.description, &mut c.description, &mut r.description, &mut f.description, &mut p.display_name, &mut r.display_name] {
        if g.r.pct(60) {
            *n = Some(place(g.r));
        }
    }
    x.seen(dump::dim(&d).hash64());
    x.sample(|| dump::dim(&d).render());
    let ix = indexes(&d);
    helpers(x, &p.name, &p.description, &p, &d)?;
    helpers(x, &c.name, &c.description, &c, &d)?;
    helpers(x, &r.name, &r.description, &r, &d)?;
    helpers(x, &f.name, &f.description, &f, &d)?;
    // offsets; the highest has to fit
    let span = d.dim.saturating_sub(1) as u64 * d.dim_increment as u64;
    if x.rng.bool() {
        r.address_offset = (u32::MAX as u64 - span) as u32;
        c.address_offset = r.address_offset;
        p.base_address = u64::MAX - span;
    }
    if f.bit_range.offset as u64 + span > u32::MAX as u64 {
        f.bit_range.offset = 0;
    }
    f.bit_range.width = f.bit_range.width.min(64);
    let at = |s: u64| (0..d.dim as u64).map(|i| s + i * d.dim_increment as u64).collect::<Vec<u64>>();
    let got = sut("offset helpers", || {
        [
            peripheral::base_addresses(&p, &d).collect::<Vec<u64>>(),
            cluster::address_offsets(&c, &d).map(u64::from).collect(),
            register::address_offsets(&r, &d).map(u64::from).collect(),
            field::bit_offsets(&f, &d).map(u64::from).collect(),
        ]
    })?;
    let want = [
        at(p.base_address),
        at(c.address_offset as u64),
        at(r.address_offset as u64),
        at(f.bit_range.offset as u64),
    ];
    if got != want {
        return fail("offsets", format!("offsets are {got:?}, wanted {want:?}"), dump::dim(&d).render());
    }
    x.ev("offset lists", 4);
    // whole items
    let items = sut("expand", || {
        (
            peripheral::expand(&p, &d).collect::<Vec<_>>(),
            cluster::expand(&c, &d).collect::<Vec<_>>(),
            register::expand(&r, &d).collect::<Vec<_>>(),
            field::expand(&f, &d).collect::<Vec<_>>(),
        )
    })?;
    let mut wp = vec![];
    let mut wc = vec![];
    let mut wr = vec![];
    let mut wf = vec![];
    for (k, i) in ix.iter().enumerate() {
        let n = |n: &str| item_names(n, &d)[k].clone();
        let mut q = p.clone();
        q.name = n(&p.name);
        q.description = item_description(&p.description, &d, i);
        q.display_name = p.display_name.as_ref().map(|t| subst(t, i));
        q.base_address = want[0][k];
        wp.push(dump::peripheral_info(&q));
        let mut q = c.clone();
        q.name = n(&c.name);
        q.description = item_description(&c.description, &d, i);
        q.address_offset = want[1][k] as u32;
        wc.push(dump::cluster_info(&q));
        let mut q = r.clone();
        q.name = n(&r.name);
        q.description = item_description(&r.description, &d, i);
        q.display_name = r.display_name.as_ref().map(|t| subst(t, i));
        q.address_offset = want[2][k] as u32;
        wr.push(dump::register_info(&q));
        let mut q = f.clone();
        q.name = n(&f.name);
        q.description = item_description(&f.description, &d, i);
        q.bit_range.offset = want[3][k] as u32;
        wf.push(dump::field_info(&q).without(&["range_type"]));
        if k > 60 {
            break;
        }
    }
    fn cmp<T>(what: &str, total: usize, want: Vec<V>, got: &[T], f: impl Fn(&T) -> V) -> R {
        if got.len() != total {
            return fail("items", format!("{} {what} items, wanted {total}", got.len()), "");
        }
        for (w, g) in want.iter().zip(got) {
            if let Some(m) = diff(w, &f(g)) {
                return fail("items", format!("{what} item differs: {m}"), "");
            }
        }
        Ok(())
    }
    let all = || {
        cmp("peripheral", ix.len(), wp, &items.0, dump::peripheral_info)?;
        cmp("cluster", ix.len(), wc, &items.1, dump::cluster_info)?;
        cmp("register", ix.len(), wr, &items.2, dump::register_info)?;
        cmp("field", ix.len(), wf, &items.3, |f| dump::field_info(f).without(&["range_type"]))
    };
    all().with(|| dump::dim(&d).render())?;
    // reported as a range
    let nums: Option<Vec<u64>> = ix
        .iter()
        .map(|t| {
            let ok = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) && (t == "0" || !t.starts_with('0')) && t.len() < 12;
            if ok { t.parse::<u64>().ok().filter(|v| *v <= u32::MAX as u64) } else { None }
        })
        .collect();
    let want = nums
        .filter(|v| !v.is_empty() && v.windows(2).all(|w| w[1] == w[0] + 1))
        .map(|v| v[0] as u32..=v[v.len() - 1] as u32);
    let got = sut("indexes_as_range", || d.indexes_as_range())?;
    if got != want {
        return fail("range", format!("indexes {ix:?} as range: {got:?}, wanted {want:?}"), "");
    }
    x.ev(if want.is_some() { "index lists that are ranges" } else { "index lists that are not" }, 1);
    // range texts
    let rr = &mut x.rng;
    let (t, want): (String, Vec<String>) = match rr.below(4) {
        0 => {
            let a = if rr.pct(20) { u32::MAX - rr.below(3) as u32 } else { rr.u32() % 5000 };
            let b = a.saturating_add(rr.below(40) as u32);
            (format!("{a}-{b}"), (a..=b).map(|i| i.to_string()).collect())
        }
        1 => {
            let base = if rr.bool() { b'a' } else { b'A' };
            let a = rr.below(26) as u8;
            let b = a + rr.below(26 - a as usize) as u8;
            (
                format!("{}-{}", (base + a) as char, (base + b) as char),
                (a..=b).map(|c| ((base + c) as char).to_string()).collect(),
            )
        }
        _ => {
            let n = rr.range(1, 9);
            let l: Vec<String> =
                (0..n).map(|_| rr.pick(&["A", "b", "0", "00", "x_1", "ch", "10", "Z9"]).to_string()).collect();
            (l.join(","), l)
        }
    };
    let got = sut("parse_indexes", || DimElement::parse_indexes(&t))?;
    x.eval();
    if got.as_ref() != Some(&want) {
        return fail("text", format!("{t:?} expands to {got:?}, wanted {want:?}"), "");
    }
    x.ev("index texts", 1);
    // what is no range
    let rr = &mut x.rng;
    let t = match rr.below(5) {
        0 => {
            let a = rr.below(500) as u32 + 1;
            format!("{a}-{}", rr.below(a as usize))
        }
        1 => {
            let a = rr.range(1, 25) as u8;
            let b = rr.below(a as usize) as u8;
            format!("{}-{}", (b'a' + a) as char, (b'a' + b) as char)
        }
        2 => rr
            .pick(&["a-Z", "A-z", "Z-a", "1-a", "a-1", "-", "--", "1-", "-1", "aa-bb", "a-bb", "1-2-3", "é-ê", "4294967295-4294967296", "1.5-2", "0x1-0x3", "[-a", "A-[", "@-B", "`-b", "a-{"])
            .to_string(),
        3 => format!("{}-{}", rr.pick(&["A", "ab", "é", "", "@"]), rr.below(9)),
        _ => format!("{}-{}", rr.below(9), rr.pick(&["A", "ab", "é", "", "@"])),
    };
    let got = sut("parse_indexes", || DimElement::parse_indexes(&t))?;
    x.eval();
    if got.is_some() {
        return fail("text", format!("{t:?} expands to {got:?}"), "");
    }
    x.ev("texts that are no range", 1);
    // the four kinds alike
    shape("peripheral", &p, &d, PeripheralInfo::single, PeripheralInfo::array, PeripheralInfo::maybe_array)?;
    shape("cluster", &c, &d, ClusterInfo::single, ClusterInfo::array, ClusterInfo::maybe_array)?;
    shape("register", &r, &d, RegisterInfo::single, RegisterInfo::array, RegisterInfo::maybe_array)?;
    shape("field", &f, &d, FieldInfo::single, FieldInfo::array, FieldInfo::maybe_array)?;
    dims_derive(x, &p, &c, &r, &f, &d)
}

/// Deriving dimensions.
fn dims_derive(x: &mut Ctx, p: &PeripheralInfo, c: &ClusterInfo, r: &RegisterInfo, f: &FieldInfo, d: &DimElement) -> R {
    let mut own = gen::tpl_dim();
    own.dim = 7;
    own.dim_name = Some("own".into());
    let mut other = d.clone();
    if x.rng.bool() {
        other.dim_name = Some("other".into());
    }
    fn go<T: Clone>(
        what: &str,
        info: &T,
        name: &mut dyn FnMut(&mut T, &str),
        own: &DimElement,
        other: &DimElement,
        derive: &dyn Fn(&MaybeArray<T>, &MaybeArray<T>) -> MaybeArray<T>,
    ) -> R {
        for n in ["plain", "p%s", "p[%s]", "%s"] {
            for mine in [false, true] {
                for theirs in [false, true] {
                    let mut i = info.clone();
                    name(&mut i, n);
                    let a = join(i, mine.then(|| own.clone()));
                    let b = join(info.clone(), theirs.then(|| other.clone()));
                    let got = sut("derive_from", || derive(&a, &b))?;
                    let want = if mine {
                        Some(own.clone())
                    } else if theirs && n.contains("%s") {
                        let mut o = other.clone();
                        o.dim_name = None;
                        Some(o)
                    } else {
                        None
                    };
                    if split(&got).1 != want.as_ref() {
                        return fail(
                            "derived dimensions",
                            format!("a {what} {n:?} (array: {mine}) derived from array: {theirs} has {:?}", split(&got).1),
                            "",
                        );
                    }
                }
            }
        }
        Ok(())
    }
    go("peripheral", p, &mut |i, n| i.name = n.into(), &own, &other, &|a, b| a.derive_from(b))?;
    go("cluster", c, &mut |i, n| i.name = n.into(), &own, &other, &|a, b| a.derive_from(b))?;
    go("register", r, &mut |i, n| i.name = n.into(), &own, &other, &|a, b| a.derive_from(b))?;
    go("field", f, &mut |i, n| i.name = n.into(), &own, &other, &|a, b| a.derive_from(b))?;
    x.ev("dimensions derived", 64);
    Ok(())
}
