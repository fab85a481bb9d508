//! C25: one derivation step on its own, and the public functions which follow
//! a reference through the index.
use super::expand::*;
use crate::dump::{self, *};
use crate::gen::{self, Opt};
use crate::sup::*;
use svd_parser::expand as sut_mod;
use svd_parser::expand::{BlockPath, FieldPath, Index, RegisterPath};
use svd_rs::*;

/// All elements of a device, by kind.
#[derive(Default)]
struct Lists<'a> {
    p: Vec<&'a Peripheral>,
    c: Vec<(&'a Cluster, Scope<'a>)>,
    r: Vec<(&'a Register, Scope<'a>)>,
    f: Vec<(&'a Field, &'a Register, Scope<'a>)>,
    v: Vec<(&'a EnumeratedValues, &'a Field, &'a Register, Scope<'a>)>,
}

fn lists(d: &Device) -> Lists<'_> {
    fn go<'a>(v: &'a [RegisterCluster], s: &Scope<'a>, l: &mut Lists<'a>) {
        for x in v {
            match x {
                RegisterCluster::Register(r) => {
                    l.r.push((r, s.clone()));
                    for f in split(r).0.fields.iter().flatten() {
                        l.f.push((f, r, s.clone()));
                        for e in &split(f).0.enumerated_values {
                            l.v.push((e, f, r, s.clone()));
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    l.c.push((c, s.clone()));
                    let mut t = s.clone();
                    t.push(Block::C(c));
                    go(&split(c).0.children, &t, l);
                }
            }
        }
    }
    let mut l = Lists::default();
    for p in &d.peripherals {
        l.p.push(p);
        go(split(p).0.registers.as_deref().unwrap_or(&[]), &vec![Block::P(p)], &mut l);
    }
    l
}

fn block_path(s: &Scope) -> BlockPath {
    let mut names = s.iter().map(|b| match b {
        Block::P(p) => split(p).0.name.clone(),
        Block::C(c) => split(c).0.name.clone(),
    });
    BlockPath {
        peripheral: names.next().unwrap(),
        path: names.collect(),
    }
}
fn parts(p: &BlockPath) -> Vec<&str> {
    std::iter::once(p.peripheral.as_str())
        .chain(p.path.iter().map(|s| s.as_str()))
        .collect()
}
fn last<'a>(d: &'a Device, p: &BlockPath) -> Option<Block<'a>> {
    block_at(d, &parts(p)).and_then(|s| s.last().copied())
}
fn register_at<'a>(d: &'a Device, p: &RegisterPath) -> Option<&'a Register> {
    find_register(last(d, &p.block)?, &p.name)
}
fn field_at<'a>(d: &'a Device, p: &FieldPath) -> Option<&'a Field> {
    find_field(register_at(d, &p.register)?, &p.name)
}

/// What a returned path has to lead to.
fn leads<T>(what: &str, own: bool, got: Option<*const T>, some: bool, chain: &[*const T], provider: Option<usize>) -> R {
    if own || !some {
        if own == some {
            return fail("path", format!("{what}: path given: {some}, but own content: {own}"), "");
        }
        return Ok(());
    }
    let Some(got) = got else {
        return fail("path", format!("{what}: the returned path leads nowhere"), "");
    };
    let ok = match provider {
        Some(i) => std::ptr::eq(chain[i], got),
        // nobody has content: any of the sources will do
        None => chain.iter().any(|p| std::ptr::eq(*p, got)),
    };
    if !ok {
        return fail("path", format!("{what}: the returned path leads to another element than the source of the content"), "");
    }
    Ok(())
}

fn verdict(x: &mut Ctx, what: &str, want: &E<V>, got: Result<V, String>, name: &str) -> R<bool> {
    x.eval();
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if let Some(m) = diff(w, &g) {
                return fail("derived", format!("{what} of {name}: {m}"), "");
            }
            x.ev(&format!("{what}: followed"), 1);
            Ok(true)
        }
        (Err(Why::Cycle), Err(_)) => {
            x.ev(&format!("{what}: cycle refused"), 1);
            Ok(false)
        }
        (Err(_), Err(_)) => {
            x.ev(&format!("{what}: missing refused"), 1);
            Ok(false)
        }
        (Ok(_), Err(m)) => fail("refused", format!("{what} of {name} refused: {m}"), ""),
        (Err(w), Ok(_)) => fail("accepted", format!("{what} of {name} gives a result despite {w:?}"), ""),
    }
}

fn through_index(x: &mut Ctx, d: &Device) -> R {
    let l = lists(d);
    let index = sut("Index::create", || Index::create(d))?;
    for &p in &l.p {
        let (info, own) = split(p);
        let Some(t) = &info.derived_from else { continue };
        let ch = peripheral_chain(d, p);
        let mut prov = None;
        let want = ch.as_ref().map_err(|e| *e).map(|ch| {
            let mut n = info.clone();
            n.derived_from = None;
            for (i, (s, _)) in ch.iter().enumerate() {
                if or_peripheral(&mut n, split(*s).0) {
                    prov = Some(i);
                }
            }
            let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
            dump::peripheral(&join(n, dim))
        });
        let mut q = p.clone();
        split_mut(&mut q).0.derived_from = None;
        let got = sut("derive_peripheral", || sut_mod::derive_peripheral(&mut q, t, &index).map_err(|e| e.to_string()))?;
        let path = got.as_ref().ok().cloned().flatten();
        if verdict(x, "derive_peripheral", &want, got.map(|_| dump::peripheral(&q)), &info.name)? {
            let ch: Vec<*const Peripheral> = ch.unwrap().iter().map(|s| s.0 as *const _).collect();
            let at = path.as_ref().filter(|p| p.path.is_empty()).and_then(|p| find_peripheral(d, &p.peripheral));
            leads("derive_peripheral", info.registers.is_some(), at.map(|p| p as *const _), path.is_some(), &ch, prov)?;
        }
    }
    for (c, scope) in &l.c {
        let (info, own) = split(*c);
        let Some(t) = &info.derived_from else { continue };
        let ch = cluster_chain(d, c, scope);
        let mut prov = None;
        let want = ch.as_ref().map_err(|e| *e).map(|ch| {
            let mut n = info.clone();
            n.derived_from = None;
            for (i, (s, _)) in ch.iter().enumerate() {
                if or_cluster(&mut n, split(*s).0) {
                    prov = Some(i);
                }
            }
            let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
            dump::cluster(&join(n, dim))
        });
        let mut q = (*c).clone();
        split_mut(&mut q).0.derived_from = None;
        let bp = block_path(scope);
        let got = sut("derive_cluster", || sut_mod::derive_cluster(&mut q, t, &bp, &index).map_err(|e| e.to_string()))?;
        let path = got.as_ref().ok().cloned().flatten();
        if verdict(x, "derive_cluster", &want, got.map(|_| dump::cluster(&q)), &info.name)? {
            let ch: Vec<*const Cluster> = ch.unwrap().iter().map(|s| s.0 as *const _).collect();
            let at = path.as_ref().and_then(|p| match last(d, p) {
                Some(Block::C(c)) => Some(c as *const _),
                _ => None,
            });
            leads("derive_cluster", !info.children.is_empty(), at, path.is_some(), &ch, prov)?;
        }
    }
    for (r, scope) in &l.r {
        let (info, own) = split(*r);
        let Some(t) = &info.derived_from else { continue };
        let ch = register_chain(d, r, scope);
        let mut prov = None;
        let want = ch.as_ref().map_err(|e| *e).map(|ch| {
            let mut n = info.clone();
            n.derived_from = None;
            for (i, (s, _)) in ch.iter().enumerate() {
                if or_register(&mut n, split(*s).0) {
                    prov = Some(i);
                }
            }
            let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
            dump::register(&join(n, dim))
        });
        let mut q = (*r).clone();
        split_mut(&mut q).0.derived_from = None;
        let bp = block_path(scope);
        let got = sut("derive_register", || sut_mod::derive_register(&mut q, t, &bp, &index).map_err(|e| e.to_string()))?;
        let path = got.as_ref().ok().cloned().flatten();
        if verdict(x, "derive_register", &want, got.map(|_| dump::register(&q)), &info.name)? {
            let ch: Vec<*const Register> = ch.unwrap().iter().map(|s| s.0 as *const _).collect();
            let at = path.as_ref().and_then(|p| register_at(d, p)).map(|r| r as *const _);
            leads("derive_register", info.fields.is_some(), at, path.is_some(), &ch, prov)?;
        }
    }
    for (f, r, scope) in &l.f {
        let (info, own) = split(*f);
        let Some(t) = &info.derived_from else { continue };
        let ch = field_chain(d, f, r, scope).map(|c| c.0);
        let mut prov = None;
        let want = ch.as_ref().map_err(|e| *e).map(|ch| {
            let mut n = info.clone();
            n.derived_from = None;
            for (i, (s, _)) in ch.iter().enumerate() {
                if or_field(&mut n, split(*s).0) {
                    prov = Some(i);
                }
            }
            let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
            dump::field(&join(n, dim))
        });
        let mut q = (*f).clone();
        split_mut(&mut q).0.derived_from = None;
        let rp = RegisterPath {
            block: block_path(scope),
            name: split(*r).0.name.clone(),
        };
        let got = sut("derive_field", || sut_mod::derive_field(&mut q, t, &rp, &index).map_err(|e| e.to_string()))?;
        let path = got.as_ref().ok().cloned().flatten();
        if verdict(x, "derive_field", &want, got.map(|_| dump::field(&q)), &info.name)? {
            let ch: Vec<*const Field> = ch.unwrap().iter().map(|s| s.0 as *const _).collect();
            let at = path.as_ref().and_then(|p| field_at(d, p)).map(|r| r as *const _);
            leads("derive_field", !info.enumerated_values.is_empty(), at, path.is_some(), &ch, prov)?;
        }
    }
    for (e, f, r, scope) in &l.v {
        let Some(t) = &e.derived_from else { continue };
        let ch = enum_chain(d, e, r, scope);
        let want = ch.as_ref().map_err(|e| *e).map(|ch| {
            let mut n = (*e).clone();
            n.derived_from = None;
            for (s, _) in ch {
                or_enums(&mut n, s);
            }
            dump::evs(&n)
        });
        let mut q = (*e).clone();
        q.derived_from = None;
        let fp = FieldPath {
            register: RegisterPath {
                block: block_path(scope),
                name: split(*r).0.name.clone(),
            },
            name: split(*f).0.name.clone(),
        };
        let got = sut("derive_enumerated_values", || {
            sut_mod::derive_enumerated_values(&mut q, t, &fp, &index).map_err(|e| e.to_string())
        })?;
        let path = got.as_ref().ok().cloned();
        if verdict(x, "derive_enumerated_values", &want, got.map(|_| dump::evs(&q)), t)? {
            let ch = ch.unwrap();
            let end = ch.last().unwrap().0;
            let p = path.unwrap();
            let at = field_at(d, &p.field)
                .and_then(|f| split(f).0.enumerated_values.iter().find(|e| e.name.as_deref() == Some(p.name.as_str())));
            if !at.is_some_and(|a| std::ptr::eq(a, end)) {
                return fail("path", "derive_enumerated_values: the returned path does not lead to the last source", "");
            }
        }
    }
    Ok(())
}

fn single<T: Clone>(a: &MaybeArray<T>) -> MaybeArray<T> {
    join(split(a).0.clone(), None)
}

/// Pairs of random elements of a kind.
fn steps(x: &mut Ctx, a: &Device, b: &Device) -> R {
    let (la, lb) = (lists(a), lists(b));
    let (p, q) = (gen::tpl_peripheral(), gen::tpl_cluster());
    macro_rules! pick {
        ($k:ident, $f:expr) => {{
            let v: Vec<_> = la.$k.iter().chain(lb.$k.iter()).collect();
            if v.is_empty() { None } else { Some($f((*x.rng.pick(&v)).clone())) }
        }};
    }
    macro_rules! step {
        ($k:ident, $f:expr, $tpl:expr, $or:ident, $dump:path, $dumpi:path, $what:literal) => {
            for _ in 0..4 {
                let Some(m) = pick!($k, $f) else { break };
                let Some(o) = pick!($k, $f) else { break };
                let (mut m, mut o) = (m.clone(), o.clone());
                if x.rng.pct(30) {
                    // keeps its placeholder, if it has one
                    m = single(&m);
                }
                if x.rng.pct(15) {
                    o = single(&o);
                }
                if x.rng.pct(12) {
                    let name = split(&m).0.name.clone();
                    m = join($tpl, split(&m).1.cloned());
                    split_mut(&mut m).0.name = name;
                }
                let (mi, md) = split(&m);
                let (oi, _) = split(&o);
                let mut n = mi.clone();
                $or(&mut n, oi);
                let wd = dims(&mi.name, md, std::iter::once(&o));
                let g = sut($what, || mi.derive_from(oi))?;
                x.eval();
                if let Some(e) = diff(&$dumpi(&n), &$dumpi(&g)) {
                    return fail("step", format!(concat!($what, "Info::derive_from: {}"), e), format!("{}\nfrom\n{}", $dumpi(mi).render(), $dumpi(oi).render()));
                }
                let g = sut($what, || m.derive_from(&o))?;
                let w = join(n, wd);
                if let Some(e) = diff(&$dump(&w), &$dump(&g)) {
                    return fail("step", format!(concat!($what, "::derive_from: {}"), e), format!("{}\nfrom\n{}", $dump(&m).render(), $dump(&o).render()));
                }
                x.ev(concat!($what, " derived"), 1);
                match (md.is_some(), split(&o).1.is_some(), split(&w).1.is_some()) {
                    (false, true, true) => x.ev("dimensions taken over", 1),
                    (false, true, false) => x.ev("dimensions left", 1),
                    (true, true, _) => x.ev("own dimensions kept", 1),
                    _ => {}
                }
            }
        };
    }
    step!(p, |p: &Peripheral| p.clone(), p.clone(), or_peripheral, dump::peripheral, dump::peripheral_info, "Peripheral");
    step!(c, |c: (&Cluster, _)| c.0.clone(), q.clone(), or_cluster, dump::cluster, dump::cluster_info, "Cluster");
    step!(r, |c: (&Register, _)| c.0.clone(), gen::tpl_register(), or_register, dump::register, dump::register_info, "Register");
    step!(f, |c: (&Field, _, _)| c.0.clone(), gen::tpl_field(), or_field, dump::field, dump::field_info, "Field");
    for _ in 0..4 {
        let Some(m) = pick!(v, |c: (&EnumeratedValues, _, _, _)| c.0.clone()) else { break };
        let Some(o) = pick!(v, |c: (&EnumeratedValues, _, _, _)| c.0.clone()) else { break };
        let mut m: EnumeratedValues = m;
        if x.rng.pct(40) {
            m.values.clear();
        }
        if x.rng.pct(40) {
            m.usage = None;
        }
        let mut n = m.clone();
        or_enums(&mut n, &o);
        let g = sut("EnumeratedValues", || m.derive_from(&o))?;
        x.eval();
        if let Some(e) = diff(&dump::evs(&n), &dump::evs(&g)) {
            return fail("step", format!("EnumeratedValues::derive_from: {e}"), format!("{}\nfrom\n{}", dump::evs(&m).render(), dump::evs(&o).render()));
        }
        x.ev("EnumeratedValues derived", 1);
    }
    for _ in 0..4 {
        let mut o = Opt::random(&mut x.rng, 0);
        o.dense = *x.rng.pick(&[0, 50, 50, 100]);
        let (m, o) = {
            let mut g = gen::Gen::new(&mut x.rng, o);
            (g.props(), g.props())
        };
        let mut n = m;
        or_props(&mut n, &o);
        let g = sut("RegisterProperties", || m.derive_from(&o))?;
        x.eval();
        if let Some(e) = diff(&dump::props(&n), &dump::props(&g)) {
            return fail("step", format!("RegisterProperties::derive_from: {e}"), format!("{}\nfrom\n{}", dump::props(&m).render(), dump::props(&o).render()));
        }
        x.ev("RegisterProperties derived", 1);
    }
    Ok(())
}

pub fn c25(x: &mut Ctx) -> R {
    if x.rng.pct(40) {
        let mut make = |x: &mut Ctx| {
            let mut o = Opt::random(&mut x.rng, 0);
            o.budget = *x.rng.pick(&[6, 12, 25]);
            let mut d = gen::device(&mut x.rng, o);
            let ns = nodes(&d);
            for n in ns.iter().rev() {
                if x.rng.pct(30) {
                    thin(&mut d, n, &mut x.rng);
                }
            }
            d
        };
        let (a, b) = (make(x), make(x));
        x.seen(dump::device(&a).hash64() ^ dump::device(&b).hash64());
        return steps(x, &a, &b);
    }
    let mut d = derivable(x);
    let k = kinds(&mut x.rng);
    let want = *x.rng.pick(&[1, 2, 3, 5, 8, 14]);
    let free = x.rng.pct(30);
    derive(&mut d, &mut x.rng, want, free, &k);
    if x.rng.pct(15) {
        // a reference to nothing
        let ns = nodes(&d);
        let n = &ns[x.rng.below(ns.len())];
        let t = match x.rng.below(3) {
            0 => "nowhere".to_string(),
            1 => "no.where.at.all.x".to_string(),
            _ => n.names.first().map(|s| format!("{s}x")).unwrap_or("x".into()),
        };
        set_ref(&mut d, n, Some(t));
    }
    x.seen(dump::device(&d).hash64());
    x.sample(|| text_of(&d));
    through_index(x, &d).with(|| text_of(&d))
}
