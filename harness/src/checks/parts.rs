//! C26: parts of a device parse and encode on their own as within the device.
use super::encode::*;
use super::parse::{plant, plant_invalid, render_el, rich, LEVELS};
use crate::dump::{self, *};
use crate::gen::{self, Opt};
use crate::rng::hash_str;
use crate::sup::*;
use crate::xml::{write, El, Layout};
use roxmltree::{Document, Node};
use svd_encoder::{Encode, EncodeChildren};
use svd_parser::{Config, Parse};
use svd_rs::*;

/// A part of a device, by reference.
#[derive(Clone, Copy)]
enum Part<'a> {
    P(&'a Peripheral),
    C(&'a Cluster),
    R(&'a Register),
    F(&'a Field),
    V(&'a EnumeratedValues),
    E(&'a EnumeratedValue),
    A(&'a AddressBlock),
    I(&'a Interrupt),
    Cpu(&'a Cpu),
    W(&'a WriteConstraint),
    D(&'a DimArrayIndex),
}

impl Part<'_> {
    fn tag(&self) -> &'static str {
        match self {
            Part::P(_) => "peripheral",
            Part::C(_) => "cluster",
            Part::R(_) => "register",
            Part::F(_) => "field",
            Part::V(_) => "enumeratedValues",
            Part::E(_) => "enumeratedValue",
            Part::A(_) => "addressBlock",
            Part::I(_) => "interrupt",
            Part::Cpu(_) => "cpu",
            Part::W(_) => "writeConstraint",
            Part::D(_) => "dimArrayIndex",
        }
    }
    fn dump(&self) -> V {
        match self {
            Part::P(p) => dump::peripheral(p),
            Part::C(p) => dump::cluster(p),
            Part::R(p) => dump::register(p),
            Part::F(p) => dump::field(p),
            Part::V(p) => dump::evs(p),
            Part::E(p) => dump::ev(p),
            Part::A(p) => dump::address_block(p),
            Part::I(p) => dump::interrupt(p),
            Part::Cpu(p) => dump::cpu(p),
            Part::W(p) => dump::wc(p),
            Part::D(p) => dai(p),
        }
    }
}

fn dai(a: &DimArrayIndex) -> V {
    let mut d = gen::tpl_dim();
    d.dim_array_index = Some(a.clone());
    dump::dim(&d)
}

/// Parses an element by its tag; a failure is told in full, with its place.
fn parse_part(n: &Node, c: &Config) -> R<Result<V, String>> {
    parse_as(n.tag_name().name(), n, c)
}
fn parse_as(tag: &str, n: &Node, c: &Config) -> R<Result<V, String>> {
    fn go<T>(n: &Node, c: &Config, f: impl Fn(&T) -> V) -> R<Result<V, String>>
    where
        T: Parse<Object = T, Error = svd_parser::SVDErrorAt, Config = Config>,
    {
        sut("Parse::parse", || T::parse(n, c).map_err(|e| format!("{e:?}"))).map(|r| r.map(|v| f(&v)))
    }
    match tag {
        "device" => go::<Device>(n, c, dump::device),
        "peripheral" => go::<Peripheral>(n, c, dump::peripheral),
        "cluster" => go::<Cluster>(n, c, dump::cluster),
        "register" => go::<Register>(n, c, dump::register),
        "field" => go::<Field>(n, c, dump::field),
        "enumeratedValues" => go::<EnumeratedValues>(n, c, dump::evs),
        "enumeratedValue" => go::<EnumeratedValue>(n, c, dump::ev),
        "addressBlock" => go::<AddressBlock>(n, c, dump::address_block),
        "interrupt" => go::<Interrupt>(n, c, dump::interrupt),
        "cpu" => go::<Cpu>(n, c, dump::cpu),
        "writeConstraint" => go::<WriteConstraint>(n, c, dump::wc),
        "dimArrayIndex" => go::<DimArrayIndex>(n, c, dai),
        _ => unreachable!(),
    }
}

/// The parser's other faces of a part: without its dimensions, as one of two
/// kinds, its groups of values.
fn faces(part: Part, n: &Node, c: &Config) -> R<Option<String>> {
    macro_rules! cmp {
        ($what:expr, $t:ty, $want:expr, $dump:expr) => {{
            let got = sut($what, || <$t>::parse(n, c).map_err(|e| format!("{e:?}")))?;
            match got {
                Err(e) => return Ok(Some(format!("{}: {e}", $what))),
                Ok(g) => {
                    if let Some(m) = diff(&$want, &$dump(&g)) {
                        return Ok(Some(format!("{}: {m}", $what)));
                    }
                }
            }
        }};
    }
    let d = match part {
        Part::P(p) => {
            let (i, d) = split(p);
            cmp!("PeripheralInfo", PeripheralInfo, dump::peripheral_info(i), dump::peripheral_info);
            cmp!("RegisterProperties", RegisterProperties, dump::props(&i.default_register_properties), dump::props);
            d
        }
        Part::C(p) => {
            let (i, d) = split(p);
            cmp!("ClusterInfo", ClusterInfo, dump::cluster_info(i), dump::cluster_info);
            cmp!("RegisterProperties", RegisterProperties, dump::props(&i.default_register_properties), dump::props);
            cmp!("RegisterCluster", RegisterCluster, dump::rc(&RegisterCluster::Cluster(p.clone())), dump::rc);
            d
        }
        Part::R(p) => {
            let (i, d) = split(p);
            cmp!("RegisterInfo", RegisterInfo, dump::register_info(i), dump::register_info);
            cmp!("RegisterProperties", RegisterProperties, dump::props(&i.properties), dump::props);
            cmp!("RegisterCluster", RegisterCluster, dump::rc(&RegisterCluster::Register(p.clone())), dump::rc);
            d
        }
        Part::F(p) => {
            let (i, d) = split(p);
            cmp!("FieldInfo", FieldInfo, dump::field_info(i), dump::field_info);
            cmp!("BitRange", BitRange, dump::bit_range(&i.bit_range), dump::bit_range);
            d
        }
        _ => None,
    };
    if let Some(d) = d {
        cmp!("DimElement", DimElement, dump::dim(d), dump::dim);
    }
    Ok(None)
}

fn kids<'a, 'i>(n: Node<'a, 'i>, tags: &[&str]) -> Vec<Node<'a, 'i>> {
    n.children().filter(|k| k.is_element() && tags.contains(&k.tag_name().name())).collect()
}

type Visit<'v, 'a, 'i> = dyn FnMut(Part<'a>, Node<'a, 'i>) -> R + 'v;

fn all<'a, 'i, T: 'a>(
    n: Node<'a, 'i>,
    tags: &[&str],
    v: impl IntoIterator<Item = &'a T>,
    mut f: impl FnMut(Node<'a, 'i>, &'a T) -> R,
) -> R {
    let ks = kids(n, tags);
    let v: Vec<&T> = v.into_iter().collect();
    if ks.len() != v.len() {
        return fail("count", format!("{} elements {tags:?} in the document, {} in the device", ks.len(), v.len()), "");
    }
    for (k, x) in ks.into_iter().zip(v) {
        f(k, x)?;
    }
    Ok(())
}

fn walk_dim<'a, 'i>(n: Node<'a, 'i>, d: Option<&'a DimElement>, f: &mut Visit<'_, 'a, 'i>) -> R {
    let Some(d) = d else { return Ok(()) };
    all(n, &["dimArrayIndex"], &d.dim_array_index, |n, a| {
        f(Part::D(a), n)?;
        all(n, &["enumeratedValue"], &a.values, |n, e| f(Part::E(e), n))
    })
}
fn walk_rcs<'a, 'i>(n: Node<'a, 'i>, v: &'a [RegisterCluster], f: &mut Visit<'_, 'a, 'i>) -> R {
    all(n, &["register", "cluster"], v, |n, x| match x {
        RegisterCluster::Register(r) => {
            f(Part::R(r), n)?;
            let (i, d) = split(r);
            walk_dim(n, d, f)?;
            all(n, &["writeConstraint"], &i.write_constraint, |n, w| f(Part::W(w), n))?;
            let fs: Vec<Node> = kids(n, &["fields"]);
            let Some(n) = fs.first() else { return Ok(()) };
            all(*n, &["field"], i.fields.iter().flatten(), |n, x| {
                f(Part::F(x), n)?;
                let (i, d) = split(x);
                walk_dim(n, d, f)?;
                all(n, &["writeConstraint"], &i.write_constraint, |n, w| f(Part::W(w), n))?;
                all(n, &["enumeratedValues"], &i.enumerated_values, |n, v| {
                    f(Part::V(v), n)?;
                    all(n, &["enumeratedValue"], &v.values, |n, e| f(Part::E(e), n))
                })
            })
        }
        RegisterCluster::Cluster(c) => {
            f(Part::C(c), n)?;
            let (i, d) = split(c);
            walk_dim(n, d, f)?;
            walk_rcs(n, &i.children, f)
        }
    })
}
fn walk<'a, 'i>(n: Node<'a, 'i>, d: &'a Device, f: &mut Visit<'_, 'a, 'i>) -> R {
    all(n, &["cpu"], &d.cpu, |n, c| f(Part::Cpu(c), n))?;
    let ps = kids(n, &["peripherals"]);
    all(ps[0], &["peripheral"], &d.peripherals, |n, p| {
        f(Part::P(p), n)?;
        let (i, dim) = split(p);
        walk_dim(n, dim, f)?;
        all(n, &["addressBlock"], i.address_block.iter().flatten(), |n, a| f(Part::A(a), n))?;
        all(n, &["interrupt"], &i.interrupt, |n, a| f(Part::I(a), n))?;
        match kids(n, &["registers"]).first() {
            Some(n) => walk_rcs(*n, i.registers.as_deref().unwrap_or(&[]), f),
            None => Ok(()),
        }
    })
}

const PARENTS: &[(&str, &[&str])] = &[
    ("peripheral", &["peripherals"]),
    ("cluster", &["registers", "cluster"]),
    ("register", &["registers", "cluster"]),
    ("field", &["fields"]),
    ("enumeratedValues", &["field"]),
    ("enumeratedValue", &["enumeratedValues", "dimArrayIndex"]),
    ("addressBlock", &["peripheral"]),
    ("interrupt", &["peripheral"]),
    ("cpu", &["device"]),
    ("writeConstraint", &["register", "field"]),
    ("dimArrayIndex", &["peripheral", "cluster", "register", "field"]),
];

fn rox(t: &str) -> Result<Document<'_>, String> {
    Document::parse(t.strip_prefix('\u{feff}').unwrap_or(t)).map_err(|e| e.to_string())
}

/// The element as the root of a text
fn lone(p: Part, text: &str, c: &Config) -> R {
    let tree = match rox(text) {
        Ok(t) => t,
        Err(e) => return fail("harness", format!("<{}> as a document: {e}", p.tag()), text.to_string()),
    };
    let n = tree.root_element();
    match parse_part(&n, c)? {
        Err(e) => fail("refused", format!("<{}> as a root does not parse: {e}", p.tag()), ""),
        Ok(v) => {
            if let Some(m) = diff(&p.dump(), &v) {
                return fail("part", format!("<{}> as a root gives another part: {m}", p.tag()), "");
            }
            if let Some(m) = faces(p, &n, c)? {
                return fail("face", format!("<{}> as a root, as {m}", p.tag()), "");
            }
            Ok(())
        }
    }
}

fn parsing(x: &mut Ctx) -> R {
    let (d, lvl) = if x.rng.pct(50) {
        (rich(x), 2)
    } else {
        let lvl = x.rng.below(3) as u8;
        let mut o = Opt::random(&mut x.rng, lvl);
        o.unique = x.rng.pct(60);
        (gen::device(&mut x.rng, o), lvl)
    };
    let (mut e, _) = render_el(&d, &mut x.rng);
    let mut least = 0;
    let mut defect = false;
    if lvl == 2 && x.rng.pct(40) {
        let df = if x.rng.pct(75) { plant(&mut e, &mut x.rng) } else { plant_invalid(&mut e, &mut x.rng) };
        if let Some(df) = df {
            least = df.lvl as usize;
            defect = true;
        }
    }
    let l = Layout::random(&mut x.rng);
    let text = write(&e, &l, &mut x.rng).text;
    x.seen(hash_str(&text));
    x.sample(|| text.clone());
    let at = if defect { LEVELS[x.rng.range(least, 2)] } else { LEVELS[x.rng.below(lvl as usize + 1)] };
    let ignore = x.rng.pct(15);
    let c = Config::default().validate_level(at).ignore_enums(ignore);
    let tree = match rox(&text) {
        Ok(t) => t,
        Err(e) => return fail("harness", e, text.clone()),
    };
    let root = tree.root_element();
    let skip = if text.starts_with('\u{feff}') { 3 } else { 0 };
    let whole = parse_part(&root, &c).with(|| text.clone())?;
    // the trait and the function agree
    let byfn = sut("parsing", || svd_parser::parse_with_config(&text, &c).map_err(|e| format!("{e:#}"))).with(|| text.clone())?;
    x.eval();
    match (&whole, &byfn) {
        (Ok(a), Ok(b)) => {
            if let Some(m) = diff(&dump::device(b), a) {
                return fail("device", format!("Device::parse and parse_with_config differ: {m}"), text.clone());
            }
        }
        (Err(_), Err(_)) => {}
        (a, b) => {
            return fail(
                "device",
                format!("Device::parse and parse_with_config differ: {:?} and {:?}", a.as_ref().err(), b.as_ref().err()),
                text.clone(),
            )
        }
    }
    match (whole, byfn) {
        (Ok(_), Ok(dev)) => {
            let mut seen: Vec<(&'static str, usize)> = vec![];
            let mut count = 0;
            if !ignore {
                walk(root, &dev, &mut |p, n| {
                    count += 1;
                    match parse_part(&n, &c)? {
                        Err(e) => return fail("refused", format!("<{}> alone does not parse: {e}", p.tag()), ""),
                        Ok(v) => {
                            if let Some(m) = diff(&p.dump(), &v) {
                                return fail("part", format!("<{}> alone gives another part: {m}", p.tag()), "");
                            }
                        }
                    }
                    if let Some(m) = faces(p, &n, &c)? {
                        return fail("face", format!("<{}> alone as {m}", p.tag()), "");
                    }
                    if x.rng.pct(10) {
                        lone(p, &text[n.range().start + skip..n.range().end + skip], &c)?;
                        x.ev("parsed as a document of its own", 1);
                    }
                    match seen.iter_mut().find(|s| s.0 == p.tag()) {
                        Some(s) => s.1 += 1,
                        None => seen.push((p.tag(), 1)),
                    }
                    Ok(())
                })
                .with(|| text.clone())?;
            }
            for (t, n) in seen {
                x.ev(&format!("parsed alone: {t}"), n);
            }
            x.obs.evals += count;
        }
        (Err(whole), _) => {
            // the first element in error, by its place in the tree
            let mut bad = 0;
            let mut good = 0;
            for n in root.descendants().filter(|n| n.is_element()) {
                let tag = n.tag_name().name();
                let up = n.parent().map(|p| p.tag_name().name()).unwrap_or("");
                if !PARENTS.iter().any(|(t, u)| *t == tag && u.contains(&up)) {
                    continue;
                }
                if ignore && n.ancestors().any(|a| matches!(a.tag_name().name(), "enumeratedValues" | "writeConstraint")) {
                    continue;
                }
                x.obs.evals += 1;
                match parse_part(&n, &c).with(|| text.clone())? {
                    Ok(_) => good += 1,
                    Err(e) if e == whole => bad += 1,
                    Err(e) => {
                        return fail(
                            "error",
                            format!("<{tag}> alone fails otherwise than the device does: {e}, not {whole}"),
                            text.clone(),
                        )
                    }
                }
            }
            x.ev("parts of documents in error: good", good);
            x.ev("parts of documents in error: bad", bad);
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn enc<T: Encode>(t: &T, c: &svd_encoder::Config) -> R<(String, El)>
where
    T::Error: std::fmt::Debug,
{
    let text = sut("Encode::encode_with_config", || {
        let e = t.encode_with_config(c).unwrap();
        let mut v = vec![];
        e.write(&mut v).unwrap();
        String::from_utf8(v).unwrap().replace('\r', "&#13;")
    })?;
    match parse_xml(&text) {
        Ok(e) => Ok((text, e)),
        Err(e) => fail("malformed", format!("the encoded part is not well-formed: {e}"), text),
    }
}

fn encode_part(p: Part, c: &svd_encoder::Config) -> R<(String, El)> {
    match p {
        Part::P(p) => enc(p, c),
        Part::C(p) => enc(p, c),
        Part::R(p) => enc(p, c),
        Part::F(p) => enc(p, c),
        Part::V(p) => enc(p, c),
        Part::E(p) => enc(p, c),
        Part::A(p) => enc(p, c),
        Part::I(p) => enc(p, c),
        Part::Cpu(p) => enc(p, c),
        Part::W(p) => enc(p, c),
        Part::D(p) => enc(p, c),
    }
}

fn parts(d: &Device) -> Vec<Part<'_>> {
    fn dims<'a>(d: Option<&'a DimElement>, v: &mut Vec<Part<'a>>) {
        if let Some(a) = d.and_then(|d| d.dim_array_index.as_ref()) {
            v.push(Part::D(a));
            v.extend(a.values.iter().map(Part::E));
        }
    }
    fn rcs<'a>(l: &'a [RegisterCluster], v: &mut Vec<Part<'a>>) {
        for x in l {
            match x {
                RegisterCluster::Register(r) => {
                    v.push(Part::R(r));
                    let (i, d) = split(r);
                    dims(d, v);
                    v.extend(i.write_constraint.iter().map(Part::W));
                    for f in i.fields.iter().flatten() {
                        v.push(Part::F(f));
                        let (i, d) = split(f);
                        dims(d, v);
                        v.extend(i.write_constraint.iter().map(Part::W));
                        for e in &i.enumerated_values {
                            v.push(Part::V(e));
                            v.extend(e.values.iter().map(Part::E));
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    v.push(Part::C(c));
                    let (i, d) = split(c);
                    dims(d, v);
                    rcs(&i.children, v);
                }
            }
        }
    }
    let mut v: Vec<Part> = d.cpu.iter().map(Part::Cpu).collect();
    for p in &d.peripherals {
        v.push(Part::P(p));
        let (i, dim) = split(p);
        dims(dim, &mut v);
        v.extend(i.address_block.iter().flatten().map(Part::A));
        v.extend(i.interrupt.iter().map(Part::I));
        rcs(i.registers.as_deref().unwrap_or(&[]), &mut v);
    }
    v
}

fn same(what: &str, want: &El, text: &str, got: &El, c: &ECfg) -> R {
    match el_diff(want, got, "") {
        Some(e) => fail("element", format!("{what} on its own: {e}"), format!("{c:?}\n{text}")),
        None => Ok(()),
    }
}

/// An element which is right but for its name.
fn wrong_name(x: &mut Ctx, tag: &str, el: &El, c: &Config) -> R {
    let mut e = el.clone();
    e.tag = match x.rng.below(5) {
        0 => format!("{tag}s"),
        1 => format!("x{tag}"),
        2 => tag.to_uppercase(),
        3 => "item".to_string(),
        _ => {
            let t = PARENTS[x.rng.below(PARENTS.len())].0;
            if t == tag { "other".into() } else { t.to_string() }
        }
    };
    let text = write(&e, &Layout::plain(), &mut x.rng).text;
    let tree = match rox(&text) {
        Ok(t) => t,
        Err(e) => return fail("harness", e, text.clone()),
    };
    x.eval();
    if parse_as(tag, &tree.root_element(), c).with(|| text.clone())?.is_ok() {
        return fail("wrong element", format!("<{}> is taken for a <{tag}>", e.tag), text.clone());
    }
    x.ev("elements of other names refused", 1);
    Ok(())
}

fn encoding(x: &mut Ctx) -> R {
    let lvl = x.rng.below(3) as u8;
    let mut o = Opt::random(&mut x.rng, lvl);
    o.unique = x.rng.pct(60);
    if x.rng.pct(50) {
        o.wordy = true;
    }
    o.budget = o.budget.min(60);
    let d = gen::device(&mut x.rng, o.clone());
    let c = match x.rng.below(4) {
        0 => ECfg::random_formats(&mut x.rng),
        1 => ECfg::random_sorting(&mut x.rng),
        _ => ECfg::default(),
    };
    if c.names.iter().any(Option::is_some) && !o.wordy {
        return Ok(());
    }
    let plain = c.plain();
    let cfg = sut("Config::update", || c.direct())?;
    let pred = Pred { c: &c };
    x.seen(dump::device(&d).hash64());
    // the tree and the text of the whole device
    {
        let (t, e) = enc(&d, &cfg)?;
        same("Device", &pred.device(&d), &t, &e, &c)?;
        x.eval();
        x.ev("devices as trees", 1);
        if plain && x.rng.pct(25) {
            wrong_name(x, "device", &e, &Config::default().validate_level(LEVELS[lvl as usize]))?;
        }
    }
    let pc = Config::default().validate_level(LEVELS[lvl as usize]);
    for p in parts(&d) {
        let (text, el) = encode_part(p, &cfg)?;
        x.eval();
        x.sample(|| text.clone());
        let want = match p {
            Part::P(v) => pred.peripheral(v),
            Part::C(v) => pred.cluster(v),
            Part::R(v) => pred.register(v),
            Part::F(v) => pred.field(v),
            Part::V(v) => pred.evs(v),
            Part::E(v) => pred.ev(v),
            Part::A(v) => pred.block(v),
            Part::I(v) => pred.interrupt(v),
            Part::Cpu(v) => pred.cpu(v),
            Part::W(v) => {
                let mut e = El::new("");
                pred.wc(&mut e, v);
                let w = e.els().next().unwrap().clone();
                w
            }
            Part::D(v) => pred.dai(v),
        };
        same(p.tag(), &want, &text, &el, &c)?;
        x.ev(&format!("encoded alone: {}", p.tag()), 1);
        // without dimensions, and the groups of values
        let info = match p {
            Part::P(v) => Some((enc(split(v).0, &cfg)?, pred.peripheral(&join(split(v).0.clone(), None)))),
            Part::C(v) => Some((enc(split(v).0, &cfg)?, pred.cluster(&join(split(v).0.clone(), None)))),
            Part::R(v) => Some((enc(split(v).0, &cfg)?, pred.register(&join(split(v).0.clone(), None)))),
            Part::F(v) => Some((enc(split(v).0, &cfg)?, pred.field(&join(split(v).0.clone(), None)))),
            _ => None,
        };
        if let Some(((t, e), w)) = info {
            same(&format!("{} without dimensions", p.tag()), &w, &t, &e, &c)?;
        }
        let props = match p {
            Part::P(v) => Some(split(v).0.default_register_properties),
            Part::C(v) => Some(split(v).0.default_register_properties),
            Part::R(v) => Some(split(v).0.properties),
            _ => None,
        };
        if let Some(q) = props {
            let mut w = El::new("x");
            pred.props(&mut w, &q);
            // put into an element of the tree library, made by encoding something
            let text = sut("EncodeChildren", || {
                let mut e = Usage::Read.encode().unwrap();
                e.name = "x".into();
                e.children = q.encode_with_config(&cfg).unwrap();
                let mut v = vec![];
                e.write(&mut v).unwrap();
                String::from_utf8(v).unwrap().replace('\r', "&#13;")
            })?;
            match parse_xml(&text) {
                Ok(e) => same("RegisterProperties", &w, &text, &e, &c)?,
                Err(e) => return fail("malformed", e, text),
            }
            x.ev("properties encoded alone", 1);
        }
        if plain {
            // without a configuration, and back
            let t2 = sut("Encode::encode", || {
                fn s<T: Encode>(t: &T) -> String
                where
                    T::Error: std::fmt::Debug,
                {
                    let e = t.encode().unwrap();
                    let mut v = vec![];
                    e.write(&mut v).unwrap();
                    String::from_utf8(v).unwrap().replace('\r', "&#13;")
                }
                match p {
                    Part::P(p) => s(p),
                    Part::C(p) => s(p),
                    Part::R(p) => s(p),
                    Part::F(p) => s(p),
                    Part::V(p) => s(p),
                    Part::E(p) => s(p),
                    Part::A(p) => s(p),
                    Part::I(p) => s(p),
                    Part::Cpu(p) => s(p),
                    Part::W(p) => s(p),
                    Part::D(p) => s(p),
                }
            })?;
            if t2 != text {
                return fail("default", format!("<{}>: encode and encode_with_config by default differ", p.tag()), format!("{t2}\n---\n{text}"));
            }
            let tree = match rox(&text) {
                Ok(t) => t,
                Err(e) => return fail("malformed", e, text.clone()),
            };
            match parse_part(&tree.root_element(), &pc).with(|| text.clone())? {
                Err(e) => return fail("round trip", format!("the encoded <{}> does not parse: {e}", p.tag()), text.clone()),
                Ok(v) => {
                    if let Some(m) = diff(&p.dump(), &v) {
                        return fail("round trip", format!("the encoded <{}> parses to another part: {m}", p.tag()), text.clone());
                    }
                }
            }
            x.ev("round trips of parts", 1);
            if !matches!(p, Part::A(_) | Part::W(_) | Part::D(_)) && x.rng.pct(25) {
                wrong_name(x, p.tag(), &el, &pc)?;
            }
        }
    }
    Ok(())
}

pub fn c26(x: &mut Ctx) -> R {
    if x.rng.pct(60) {
        parsing(x)
    } else {
        encoding(x)
    }
}
