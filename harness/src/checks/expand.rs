//! C11 expansion, C12 derivation, C13 bad derivations, C14 property expansion.
//! The reference expander works on the tree itself, by searching it for each
//! reference and by following sources by identity.
use crate::dump::{self, *};
use crate::gen::{self, Opt};
use crate::rng::Rng;
use crate::sup::*;
use crate::xml;
use svd_parser::Config;
use svd_rs::*;

/// Index texts of an array.
pub fn indexes(d: &DimElement) -> Vec<String> {
    match &d.dim_index {
        Some(l) => l.clone(),
        None => (0..d.dim).map(|i| i.to_string()).collect(),
    }
}
pub fn subst(t: &str, i: &str) -> String {
    // one pass, brackets around a placeholder go with it
    let mut s = String::new();
    let mut rest = t;
    while let Some(p) = rest.find("%s") {
        let brackets = p > 0 && rest.as_bytes()[p - 1] == b'[' && rest.as_bytes().get(p + 2) == Some(&b']');
        if brackets {
            s.push_str(&rest[..p - 1]);
            rest = &rest[p + 3..];
        } else {
            s.push_str(&rest[..p]);
            rest = &rest[p + 2..];
        }
        s.push_str(i);
    }
    s + rest
}
fn entry<'a>(d: &'a DimElement, i: &str) -> Option<&'a EnumeratedValue> {
    d.dim_array_index
        .as_ref()?
        .values
        .iter()
        .find(|e| e.value.map(|v| v.to_string()) == Some(i.to_string()))
}
pub fn item_name(name: &str, d: &DimElement, i: &str) -> String {
    match entry(d, i) {
        Some(e) => e.name.clone(),
        None => subst(name, i),
    }
}
pub fn item_names(name: &str, d: &DimElement) -> Vec<String> {
    indexes(d).iter().map(|i| item_name(name, d, i)).collect()
}
pub fn item_description(t: &Option<String>, d: &DimElement, i: &str) -> Option<String> {
    match entry(d, i).and_then(|e| e.description.clone()) {
        Some(e) => Some(e),
        None => t.as_ref().map(|t| subst(t, i)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Missing,
    Cycle,
    TooBig,
}
pub type E<T> = Result<T, Why>;

#[derive(Clone, Copy)]
pub enum Block<'a> {
    P(&'a Peripheral),
    C(&'a Cluster),
}
pub type Scope<'a> = Vec<Block<'a>>;

impl<'a> Block<'a> {
    fn items(self) -> &'a [RegisterCluster] {
        match self {
            Block::P(p) => split(p).0.registers.as_deref().unwrap_or(&[]),
            Block::C(c) => &split(c).0.children,
        }
    }
}

fn called(name: &str, d: Option<&DimElement>, want: &str) -> bool {
    name == want || d.map(|d| item_names(name, d).iter().any(|n| n == want)).unwrap_or(false)
}
pub fn find_peripheral<'a>(d: &'a Device, want: &str) -> Option<&'a Peripheral> {
    d.peripherals.iter().find(|p| {
        let (i, m) = split(*p);
        called(&i.name, m, want)
    })
}
pub fn find_cluster<'a>(b: Block<'a>, want: &str) -> Option<&'a Cluster> {
    b.items().iter().find_map(|x| match x {
        RegisterCluster::Cluster(c) => {
            let (i, m) = split(c);
            called(&i.name, m, want).then_some(c)
        }
        _ => None,
    })
}
pub fn find_register<'a>(b: Block<'a>, want: &str) -> Option<&'a Register> {
    b.items().iter().find_map(|x| match x {
        RegisterCluster::Register(r) => {
            let (i, m) = split(r);
            called(&i.name, m, want).then_some(r)
        }
        _ => None,
    })
}
pub fn find_field<'a>(r: &'a Register, want: &str) -> Option<&'a Field> {
    split(r).0.fields.iter().flatten().find(|f| {
        let (i, m) = split(*f);
        called(&i.name, m, want)
    })
}
pub fn block_at<'a>(d: &'a Device, parts: &[&str]) -> Option<Scope<'a>> {
    let mut s = vec![Block::P(find_peripheral(d, parts.first()?)?)];
    for p in &parts[1..] {
        let c = find_cluster(*s.last().unwrap(), p)?;
        s.push(Block::C(c));
    }
    Some(s)
}

/// The chain of sources an element derives from, nearest first.
fn chain<'a, T>(
    start: &'a T,
    from: impl Fn(&'a T) -> Option<&'a str>,
    scope: &Scope<'a>,
    find: impl Fn(&str, &Scope<'a>) -> Option<(&'a T, Scope<'a>)>,
) -> E<Vec<(&'a T, Scope<'a>)>> {
    let mut v: Vec<(&'a T, Scope<'a>)> = vec![];
    let mut cur = (start, scope.clone());
    while let Some(t) = from(cur.0) {
        let next = find(t, &cur.1).ok_or(Why::Missing)?;
        if std::ptr::eq(next.0, start) || v.iter().any(|x| std::ptr::eq(x.0, next.0)) {
            return Err(Why::Cycle);
        }
        v.push((next.0, next.1.clone()));
        cur = next;
    }
    Ok(v)
}

/// Chains of the five kinds of elements.
pub fn peripheral_chain<'a>(d: &'a Device, p: &'a Peripheral) -> E<Vec<(&'a Peripheral, Scope<'a>)>> {
    chain(p, |p| split(p).0.derived_from.as_deref(), &vec![], |t, _| {
        find_peripheral(d, t).map(|p| (p, vec![]))
    })
}
pub fn cluster_chain<'a>(d: &'a Device, c: &'a Cluster, scope: &Scope<'a>) -> E<Vec<(&'a Cluster, Scope<'a>)>> {
    chain(c, |c| split(c).0.derived_from.as_deref(), scope, |t, s| {
        let parts: Vec<&str> = t.split('.').collect();
        let (name, up) = parts.split_last()?;
        let b = if up.is_empty() { s.clone() } else { block_at(d, up)? };
        find_cluster(*b.last()?, name).map(|c| (c, b))
    })
}
pub fn register_chain<'a>(d: &'a Device, r: &'a Register, scope: &Scope<'a>) -> E<Vec<(&'a Register, Scope<'a>)>> {
    chain(r, |r| split(r).0.derived_from.as_deref(), scope, |t, s| {
        let parts: Vec<&str> = t.split('.').collect();
        let (name, up) = parts.split_last()?;
        let b = if up.is_empty() { s.clone() } else { block_at(d, up)? };
        find_register(*b.last()?, name).map(|r| (r, b))
    })
}
/// With the registers the sources are in.
pub fn field_chain<'a>(
    d: &'a Device,
    f: &'a Field,
    reg: &'a Register,
    scope: &Scope<'a>,
) -> E<(Vec<(&'a Field, Scope<'a>)>, Vec<&'a Register>)> {
    // the register each source is in
    let home = std::cell::RefCell::new(vec![reg]);
    let ch = chain(f, |f| split(f).0.derived_from.as_deref(), scope, |t, s| {
        let parts: Vec<&str> = t.split('.').collect();
        let (name, up) = parts.split_last()?;
        let here = *home.borrow().last().unwrap();
        let (r, b) = match up {
            [] => (here, s.clone()),
            [r] => (find_register(*s.last()?, r)?, s.clone()),
            _ => {
                let (r, blk) = up.split_last()?;
                let b = block_at(d, blk)?;
                (find_register(*b.last()?, r)?, b)
            }
        };
        let q = find_field(r, name)?;
        home.borrow_mut().push(r);
        Some((q, b))
    })?;
    let home = home.into_inner();
    Ok((ch, home[1..].to_vec()))
}
pub fn enum_chain<'a>(
    d: &'a Device,
    e: &'a EnumeratedValues,
    reg: &'a Register,
    scope: &Scope<'a>,
) -> E<Vec<(&'a EnumeratedValues, Scope<'a>)>> {
    let home = std::cell::RefCell::new(vec![reg]);
    let ch = chain(e, |e| e.derived_from.as_deref(), scope, |t, s| {
        let parts: Vec<&str> = t.split('.').collect();
        let (name, up) = parts.split_last()?;
        let here = *home.borrow().last().unwrap();
        let in_field = |f: &'a Field| {
            split(f).0.enumerated_values.iter().find(|e| e.name.as_deref() == Some(*name))
        };
        let (e, r, b) = match up {
            [] => (split(here).0.fields.iter().flatten().find_map(in_field)?, here, s.clone()),
            [f] => (in_field(find_field(here, f)?)?, here, s.clone()),
            [r, f] => {
                let r = find_register(*s.last()?, r)?;
                (in_field(find_field(r, f)?)?, r, s.clone())
            }
            _ => {
                let (f, up) = up.split_last()?;
                let (r, blk) = up.split_last()?;
                let b = block_at(d, blk)?;
                let r = find_register(*b.last()?, r)?;
                (in_field(find_field(r, f)?)?, r, b)
            }
        };
        home.borrow_mut().push(r);
        Some((e, b))
    })?;
    Ok(ch)
}

/// Takes over what is not given; tells whether the content was taken.
pub fn or_peripheral(n: &mut PeripheralInfo, si: &PeripheralInfo) -> bool {
    or(&mut n.version, &si.version);
    or(&mut n.description, &si.description);
    or(&mut n.group_name, &si.group_name);
    or(&mut n.prepend_to_name, &si.prepend_to_name);
    or(&mut n.append_to_name, &si.append_to_name);
    or(&mut n.header_struct_name, &si.header_struct_name);
    or_props(&mut n.default_register_properties, &si.default_register_properties);
    or(&mut n.address_block, &si.address_block);
    if n.interrupt.is_empty() {
        n.interrupt = si.interrupt.clone();
    }
    let take = n.registers.is_none() && si.registers.is_some();
    if take {
        n.registers = si.registers.clone();
    }
    take
}
pub fn or_cluster(n: &mut ClusterInfo, si: &ClusterInfo) -> bool {
    or(&mut n.header_struct_name, &si.header_struct_name);
    or_props(&mut n.default_register_properties, &si.default_register_properties);
    let take = n.children.is_empty() && !si.children.is_empty();
    if take {
        n.children = si.children.clone();
    }
    take
}
pub fn or_register(n: &mut RegisterInfo, si: &RegisterInfo) -> bool {
    or(&mut n.description, &si.description);
    or_props(&mut n.properties, &si.properties);
    or(&mut n.datatype, &si.datatype);
    or(&mut n.write_constraint, &si.write_constraint);
    or(&mut n.read_action, &si.read_action);
    or(&mut n.modified_write_values, &si.modified_write_values);
    let take = n.fields.is_none() && si.fields.is_some();
    if take {
        n.fields = si.fields.clone();
    }
    take
}
pub fn or_field(n: &mut FieldInfo, si: &FieldInfo) -> bool {
    or(&mut n.description, &si.description);
    or(&mut n.access, &si.access);
    or(&mut n.write_constraint, &si.write_constraint);
    or(&mut n.read_action, &si.read_action);
    or(&mut n.modified_write_values, &si.modified_write_values);
    let take = n.enumerated_values.is_empty() && !si.enumerated_values.is_empty();
    if take {
        n.enumerated_values = si.enumerated_values.clone();
    }
    take
}
pub fn or_enums(n: &mut EnumeratedValues, s: &EnumeratedValues) -> bool {
    or(&mut n.usage, &s.usage);
    let take = n.values.is_empty() && !s.values.is_empty();
    if take {
        n.values = s.values.clone();
    }
    take
}

pub fn or<T: Clone>(a: &mut Option<T>, b: &Option<T>) {
    if a.is_none() {
        *a = b.clone();
    }
}
pub fn or_props(a: &mut RegisterProperties, b: &RegisterProperties) {
    or(&mut a.size, &b.size);
    or(&mut a.access, &b.access);
    or(&mut a.protection, &b.protection);
    or(&mut a.reset_value, &b.reset_value);
    or(&mut a.reset_mask, &b.reset_mask);
}
/// The dimensions after derivation.
pub fn dims<'a, T: 'a>(name: &str, own: Option<&DimElement>, from: impl Iterator<Item = &'a MaybeArray<T>>) -> Option<DimElement> {
    if own.is_some() || !name.contains("%s") {
        return own.cloned();
    }
    for s in from {
        if let Some(d) = split(s).1 {
            let mut d = d.clone();
            d.dim_name = None;
            return Some(d);
        }
    }
    None
}
fn offsets(start: u64, d: &DimElement, max: u64) -> E<Vec<u64>> {
    let mut v = vec![];
    for i in 0..d.dim as u128 {
        let o = start as u128 + i * d.dim_increment as u128;
        if o > max as u128 {
            return Err(Why::TooBig);
        }
        v.push(o as u64);
    }
    Ok(v)
}

pub struct Expander<'a> {
    d: &'a Device,
    /// derivations carried out, chains longer than one, items made
    pub derived: usize,
    pub long: usize,
    pub items: usize,
    pub flattened: usize,
    pub depth: usize,
}

impl<'a> Expander<'a> {
    pub fn new(d: &'a Device) -> Self {
        Expander {
            d,
            derived: 0,
            long: 0,
            items: 0,
            flattened: 0,
            depth: 0,
        }
    }
    fn note<T>(&mut self, c: &[T]) {
        if !c.is_empty() {
            self.derived += 1;
        }
        if c.len() > 1 {
            self.long += 1;
        }
    }
    pub fn run(&mut self) -> E<Device> {
        let d = self.d;
        let mut out = d.clone();
        out.peripherals = vec![];
        for p in &d.peripherals {
            let (info, own) = split(p);
            let ch = peripheral_chain(d, p)?;
            self.note(&ch);
            let mut n = info.clone();
            n.derived_from = None;
            let mut src = p;
            for (s, _) in &ch {
                if or_peripheral(&mut n, split(*s).0) {
                    src = s;
                }
            }
            let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
            if let Some(v) = &mut n.registers {
                *v = self
                    .items(Block::P(src).items(), &vec![Block::P(src)], &mut vec![])?
                    .into_iter()
                    .map(|r| RegisterCluster::Register(Register::Single(r)))
                    .collect();
            }
            match dim {
                None => out.peripherals.push(Peripheral::Single(n)),
                Some(m) => {
                    let at = offsets(n.base_address, &m, u64::MAX)?;
                    for (i, a) in indexes(&m).iter().zip(at) {
                        let mut q = n.clone();
                        q.name = item_name(&n.name, &m, i);
                        q.description = item_description(&n.description, &m, i);
                        q.display_name = n.display_name.as_ref().map(|t| subst(t, i));
                        q.base_address = a;
                        out.peripherals.push(Peripheral::Single(q));
                        self.items += 1;
                    }
                }
            }
        }
        Ok(out)
    }

    fn items(
        &mut self,
        v: &'a [RegisterCluster],
        scope: &Scope<'a>,
        open: &mut Vec<*const Cluster>,
    ) -> E<Vec<RegisterInfo>> {
        let mut out = vec![];
        for x in v {
            match x {
                RegisterCluster::Register(r) => out.extend(self.register(r, scope)?),
                RegisterCluster::Cluster(c) => out.extend(self.cluster(c, scope, open)?),
            }
        }
        Ok(out)
    }

    fn cluster(&mut self, c: &'a Cluster, scope: &Scope<'a>, open: &mut Vec<*const Cluster>) -> E<Vec<RegisterInfo>> {
        let d = self.d;
        let ch = cluster_chain(d, c, scope)?;
        self.note(&ch);
        let (info, own) = split(c);
        let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
        let (src, sscope) = if info.children.is_empty() {
            ch.iter()
                .find(|x| !split(x.0).0.children.is_empty())
                .map(|x| (x.0, x.1.clone()))
                .unwrap_or((c, scope.clone()))
        } else {
            (c, scope.clone())
        };
        if open.contains(&(src as *const Cluster)) {
            return Err(Why::Cycle);
        }
        open.push(src);
        self.depth = self.depth.max(open.len());
        let mut inner = sscope;
        inner.push(Block::C(src));
        let regs = self.items(&split(src).0.children, &inner, open)?;
        open.pop();
        let places: Vec<(String, u64)> = match &dim {
            None => vec![(info.name.clone(), info.address_offset as u64)],
            Some(m) => {
                let at = offsets(info.address_offset as u64, m, u32::MAX as u64)?;
                self.items += at.len();
                item_names(&info.name, m).into_iter().zip(at).collect()
            }
        };
        let mut out = vec![];
        for (name, at) in places {
            for r in &regs {
                let mut q = r.clone();
                q.name = format!("{name}_{}", r.name);
                let o = at + r.address_offset as u64;
                if o > u32::MAX as u64 {
                    return Err(Why::TooBig);
                }
                q.address_offset = o as u32;
                out.push(q);
                self.flattened += 1;
            }
        }
        Ok(out)
    }

    fn register(&mut self, r: &'a Register, scope: &Scope<'a>) -> E<Vec<RegisterInfo>> {
        let d = self.d;
        let ch = register_chain(d, r, scope)?;
        self.note(&ch);
        let (info, own) = split(r);
        let mut n = info.clone();
        n.derived_from = None;
        let mut src = (r, scope.clone());
        for (s, sc) in &ch {
            if or_register(&mut n, split(*s).0) {
                src = (s, sc.clone());
            }
        }
        let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
        if n.fields.is_some() {
            let mut v = vec![];
            for f in split(src.0).0.fields.iter().flatten() {
                v.extend(self.field(f, src.0, &src.1)?);
            }
            n.fields = Some(v.into_iter().map(Field::Single).collect());
        }
        Ok(match dim {
            None => vec![n],
            Some(m) => {
                let at = offsets(n.address_offset as u64, &m, u32::MAX as u64)?;
                let mut out = vec![];
                for (i, a) in indexes(&m).iter().zip(at) {
                    let mut q = n.clone();
                    q.name = item_name(&n.name, &m, i);
                    q.description = item_description(&n.description, &m, i);
                    q.display_name = n.display_name.as_ref().map(|t| subst(t, i));
                    q.address_offset = a as u32;
                    out.push(q);
                    self.items += 1;
                }
                out
            }
        })
    }

    fn field(&mut self, f: &'a Field, reg: &'a Register, scope: &Scope<'a>) -> E<Vec<FieldInfo>> {
        let d = self.d;
        let (ch, home) = field_chain(d, f, reg, scope)?;
        self.note(&ch);
        let (info, own) = split(f);
        let mut n = info.clone();
        n.derived_from = None;
        let mut src = (f, reg, scope.clone());
        for ((s, sc), h) in ch.iter().zip(&home) {
            if or_field(&mut n, split(*s).0) {
                src = (s, *h, sc.clone());
            }
        }
        let dim = dims(&info.name, own, ch.iter().map(|x| x.0));
        let mut evs = vec![];
        for e in &split(src.0).0.enumerated_values {
            evs.push(self.enums(e, src.0, src.1, &src.2)?);
        }
        n.enumerated_values = evs;
        Ok(match dim {
            None => vec![n],
            Some(m) => {
                let at = offsets(n.bit_range.offset as u64, &m, u32::MAX as u64)?;
                let mut out = vec![];
                for (i, a) in indexes(&m).iter().zip(at) {
                    let mut q = n.clone();
                    q.name = item_name(&n.name, &m, i);
                    q.description = item_description(&n.description, &m, i);
                    q.bit_range.offset = a as u32;
                    out.push(q);
                    self.items += 1;
                }
                out
            }
        })
    }

    fn enums(
        &mut self,
        e: &'a EnumeratedValues,
        _field: &'a Field,
        reg: &'a Register,
        scope: &Scope<'a>,
    ) -> E<EnumeratedValues> {
        let d = self.d;
        let ch = enum_chain(d, e, reg, scope)?;
        self.note(&ch);
        let mut n = e.clone();
        n.derived_from = None;
        for (s, _) in &ch {
            or_enums(&mut n, s);
        }
        Ok(n)
    }
}

const LOOSE: &[&str] = &["range_type"];

pub fn text_of(d: &Device) -> String {
    let mut r = Rng::new(7);
    xml::plain(d, &mut r).text
}

fn sut_expand(d: &Device) -> R<Result<Device, String>> {
    sut("expansion", || svd_parser::expand(d).map_err(|e| format!("{e:#}"))).with(|| text_of(d))
}

/// Compares one expansion with the reference; tells the verdict.
fn judge(x: &mut Ctx, d: &Device) -> R<Result<Device, Why>> {
    let mut ex = Expander::new(d);
    let want = ex.run();
    let got = sut_expand(d)?;
    x.eval();
    match (&want, got) {
        (Ok(w), Ok(g)) => {
            let (wv, gv) = (dump::device(w).without(LOOSE), dump::device(&g).without(LOOSE));
            if let Some(m) = diff(&wv, &gv) {
                return fail("expansion", format!("expansion differs: {m}"), text_of(d));
            }
            x.ev("items made from arrays", ex.items);
            x.ev("registers taken out of clusters", ex.flattened);
            x.ev("derivations resolved", ex.derived);
            x.ev("chains of two and more", ex.long);
            Ok(Ok(g))
        }
        (Err(w), Err(_)) => Ok(Err(*w)),
        (Ok(_), Err(m)) => fail("refused", format!("expansion refused a correct device: {m}"), text_of(d)),
        (Err(w), Ok(_)) => fail(
            match w {
                Why::Missing => "missing reference ignored",
                Why::Cycle => "cycle ignored",
                Why::TooBig => "overflow ignored",
            },
            format!("expansion returned a device despite {w:?}"),
            text_of(d),
        ),
    }
}

pub fn base(x: &mut Ctx) -> Opt {
    let mut o = Opt::random(&mut x.rng, 1);
    o.derive = false;
    o.fit = true;
    o.small_bits = true;
    o.budget = *x.rng.pick(&[4, 10, 20, 20, 35, 50]);
    o.max_depth = *x.rng.pick(&[0, 1, 2, 3, 4]);
    o
}

/// Sets no more than `max` to every `dim`, and lowers it further where items multiply.
fn small(d: &mut Device, x: &mut Ctx, max: u32) {
    super::tame(d, max, &mut x.rng);
}

fn as_document(x: &mut Ctx, d: &Device) -> R {
    // what parsing makes of it
    let doc = xml::plain(d, &mut x.rng);
    let (p, e) = (x.rng.bool(), x.rng.bool());
    let parsed = sut("parsing", || {
        svd_parser::parse_with_config(&doc.text, &Config::default().validate_level(ValidateLevel::Disabled))
            .map_err(|e| format!("{e:#}"))
    })
    .with(|| doc.text.clone())?;
    let Ok(mut parsed) = parsed else {
        return Ok(());
    };
    let cfg = Config::default().validate_level(ValidateLevel::Disabled).expand(e).expand_properties(p);
    let at_once = sut("parsing", || {
        svd_parser::parse_with_config(&doc.text, &cfg).map_err(|e| format!("{e:#}"))
    })
    .with(|| doc.text.clone())?;
    let then = sut("expansion", || {
        if p {
            svd_parser::expand_properties(&mut parsed);
        }
        if e {
            svd_parser::expand(&parsed).map_err(|e| format!("{e:#}"))
        } else {
            Ok(parsed)
        }
    })
    .with(|| doc.text.clone())?;
    x.eval();
    if at_once != then {
        let m = match (&at_once, &then) {
            (Ok(a), Ok(b)) => diff(&dump::device(b), &dump::device(a)).unwrap_or_default(),
            (a, b) => format!("{:?} against {:?}", a.as_ref().err(), b.as_ref().err()),
        };
        return fail(
            "while parsing",
            format!("expand({e}), expand_properties({p}) while parsing and after parsing differ: {m}"),
            doc.text,
        );
    }
    x.ev("expanded while parsing", 1);
    Ok(())
}

pub fn c11(x: &mut Ctx) -> R {
    let mut o = base(x);
    o.arrays = true;
    o.fit = !x.rng.pct(12);
    let max = *x.rng.pick(&[2, 3, 4, 12]);
    let mut d = gen::device(&mut x.rng, o);
    small(&mut d, x, max);
    if x.rng.pct(8) {
        edge(&mut d, &mut x.rng);
    }
    x.seen(dump::device(&d).hash64());
    match judge(x, &d)? {
        Ok(g) => {
            x.ev("devices expanded", 1);
            let again = sut_expand(&g)?;
            x.eval();
            match again {
                Err(m) => return fail("again", format!("expanding the expanded device fails: {m}"), text_of(&d)),
                Ok(a) => {
                    if let Some(m) = diff(&dump::device(&g), &dump::device(&a)) {
                        return fail("again", format!("expanding again changes: {m}"), text_of(&d));
                    }
                    if a != g {
                        return fail("again", "expanding again changes the device", text_of(&d));
                    }
                }
            }
            x.ev("expanded twice", 1);
        }
        Err(Why::TooBig) => x.ev("addresses too big reported", 1),
        Err(w) => return fail("harness", format!("{w:?} without derivation"), text_of(&d)),
    }
    x.sample(|| format!("{} peripherals, {} nodes", d.peripherals.len(), dump::device(&d).nodes()));
    if x.rng.pct(25) {
        as_document(x, &d)?;
    }
    Ok(())
}

/// Puts some addresses at the edge of their type.
fn edge(d: &mut Device, r: &mut Rng) {
    fn at(r: &mut Rng, d: Option<&mut DimElement>, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { u32::MAX as u64 };
        let over = r.pct(30) as u64;
        match d {
            Some(m) => (max - (m.dim.saturating_sub(1) as u64 * m.dim_increment as u64).min(max)).saturating_add(over),
            None => max - r.below(3) as u64 * 4,
        }
        .min(max)
    }
    fn rcs(v: &mut [RegisterCluster], r: &mut Rng, deep: bool) {
        for x in v {
            match x {
                RegisterCluster::Register(g) => {
                    let (i, m) = split_mut(g);
                    if !deep && r.pct(20) {
                        i.address_offset = at(r, m, 32) as u32;
                    }
                    for f in i.fields.iter_mut().flatten() {
                        let (f, m) = split_mut(f);
                        if m.is_some() && f.bit_range.width <= 1 && r.pct(30) {
                            f.bit_range.offset = at(r, m, 32) as u32;
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let (i, m) = split_mut(c);
                    if !deep && r.pct(20) {
                        i.address_offset = at(r, m, 32) as u32;
                        let small = r.pct(70);
                        zero(&mut i.children, small);
                    }
                    rcs(&mut i.children, r, true);
                }
            }
        }
    }
    fn zero(v: &mut [RegisterCluster], yes: bool) {
        if !yes {
            return;
        }
        for x in v {
            match x {
                RegisterCluster::Register(g) => {
                    let (i, m) = split_mut(g);
                    i.address_offset = 0;
                    if let Some(m) = m {
                        m.dim_increment = 0;
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let (i, m) = split_mut(c);
                    i.address_offset = 0;
                    if let Some(m) = m {
                        m.dim_increment = 0;
                    }
                    zero(&mut i.children, true);
                }
            }
        }
    }
    for p in &mut d.peripherals {
        let (i, m) = split_mut(p);
        if r.pct(30) {
            i.base_address = at(r, m, 64);
        }
        if let Some(v) = &mut i.registers {
            rcs(v, r, false);
        }
    }
}

// ---- derivations ----

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    P(usize),
    /// child of a peripheral or cluster
    K(usize),
    F(usize),
    V(usize),
}
pub type Pos = Vec<Step>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    P,
    C,
    R,
    F,
    V,
}

pub struct Node {
    pub kind: Kind,
    pub pos: Pos,
    /// all names it goes by, own name first
    pub names: Vec<String>,
}

fn names_of(name: &str, d: Option<&DimElement>) -> Vec<String> {
    let mut v = vec![name.to_string()];
    if let Some(d) = d {
        v.extend(item_names(name, d));
    }
    v
}

pub fn nodes(d: &Device) -> Vec<Node> {
    fn rcs(v: &[RegisterCluster], pos: &mut Pos, out: &mut Vec<Node>) {
        for (i, x) in v.iter().enumerate() {
            pos.push(Step::K(i));
            match x {
                RegisterCluster::Register(r) => {
                    let (g, m) = split(r);
                    out.push(Node {
                        kind: Kind::R,
                        pos: pos.clone(),
                        names: names_of(&g.name, m),
                    });
                    for (j, f) in g.fields.iter().flatten().enumerate() {
                        let (g, m) = split(f);
                        pos.push(Step::F(j));
                        out.push(Node {
                            kind: Kind::F,
                            pos: pos.clone(),
                            names: names_of(&g.name, m),
                        });
                        for (k, e) in g.enumerated_values.iter().enumerate() {
                            pos.push(Step::V(k));
                            out.push(Node {
                                kind: Kind::V,
                                pos: pos.clone(),
                                names: e.name.iter().cloned().collect(),
                            });
                            pos.pop();
                        }
                        pos.pop();
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let (g, m) = split(c);
                    out.push(Node {
                        kind: Kind::C,
                        pos: pos.clone(),
                        names: names_of(&g.name, m),
                    });
                    rcs(&g.children, pos, out);
                }
            }
            pos.pop();
        }
    }
    let mut out = vec![];
    for (i, p) in d.peripherals.iter().enumerate() {
        let (g, m) = split(p);
        let mut pos = vec![Step::P(i)];
        out.push(Node {
            kind: Kind::P,
            pos: pos.clone(),
            names: names_of(&g.name, m),
        });
        rcs(g.registers.as_deref().unwrap_or(&[]), &mut pos, &mut out);
    }
    out
}

pub enum At<'a> {
    P(&'a mut Peripheral),
    C(&'a mut Cluster),
    R(&'a mut Register),
    F(&'a mut Field),
    V(&'a mut EnumeratedValues),
}

pub fn at<'a>(d: &'a mut Device, pos: &[Step]) -> At<'a> {
    let Step::P(i) = pos[0] else { unreachable!() };
    let mut cur = At::P(&mut d.peripherals[i]);
    for s in &pos[1..] {
        cur = match (cur, s) {
            (At::P(p), Step::K(i)) => kid(split_mut(p).0.registers.as_mut().unwrap(), *i),
            (At::C(p), Step::K(i)) => kid(&mut split_mut(p).0.children, *i),
            (At::R(r), Step::F(i)) => At::F(&mut split_mut(r).0.fields.as_mut().unwrap()[*i]),
            (At::F(f), Step::V(i)) => At::V(&mut split_mut(f).0.enumerated_values[*i]),
            _ => unreachable!(),
        };
    }
    fn kid(v: &mut [RegisterCluster], i: usize) -> At<'_> {
        match &mut v[i] {
            RegisterCluster::Register(r) => At::R(r),
            RegisterCluster::Cluster(c) => At::C(c),
        }
    }
    cur
}

/// Texts of the device which are no names of the element they belong to, and
/// names of all its elements.
fn other_texts(d: &Device) -> Vec<String> {
    fn rcs(v: &[RegisterCluster], out: &mut Vec<Option<String>>) {
        for x in v {
            match x {
                RegisterCluster::Register(r) => {
                    let (i, m) = split(r);
                    out.extend([Some(i.name.clone()), i.display_name.clone(), i.display_name.clone(), i.alternate_group.clone(), i.alternate_register.clone(), i.description.clone()]);
                    out.push(m.and_then(|m| m.dim_name.clone()));
                    for f in i.fields.iter().flatten() {
                        let (i, m) = split(f);
                        out.extend([Some(i.name.clone()), i.description.clone(), m.and_then(|m| m.dim_name.clone())]);
                        for e in &i.enumerated_values {
                            out.push(e.name.clone());
                            out.push(e.values.first().map(|v| v.name.clone()));
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let (i, m) = split(c);
                    out.extend([Some(i.name.clone()), i.header_struct_name.clone(), i.header_struct_name.clone(), i.alternate_cluster.clone(), i.description.clone()]);
                    out.push(m.and_then(|m| m.dim_name.clone()));
                    rcs(&i.children, out);
                }
            }
        }
    }
    let mut out = vec![];
    for p in &d.peripherals {
        let (i, m) = split(p);
        out.extend([Some(i.name.clone()), i.display_name.clone(), i.group_name.clone(), i.prepend_to_name.clone(), i.append_to_name.clone(), i.header_struct_name.clone(), i.alternate_peripheral.clone()]);
        out.push(m.and_then(|m| m.dim_name.clone()));
        out.push(i.interrupt.first().map(|i| i.name.clone()));
        rcs(i.registers.as_deref().unwrap_or(&[]), &mut out);
    }
    out.into_iter().flatten().collect()
}

/// A text by which `from` may refer to `to`.
fn reference(from: &Node, to: &Node, all: &[Node], r: &mut Rng) -> Option<String> {
    let name = |pos: &[Step], r: &mut Rng| -> Option<String> {
        let n = all.iter().find(|n| n.pos == pos)?;
        if n.names.is_empty() {
            return None;
        }
        Some(if r.pct(60) { n.names[0].clone() } else { r.pick(&n.names).clone() })
    };
    if from.kind == Kind::P {
        return name(&to.pos, r);
    }
    let full: Option<Vec<String>> = (1..=to.pos.len()).map(|l| name(&to.pos[..l], r)).collect();
    let full = full?;
    // positions of the enclosing elements
    let up = |n: &Node, k: usize| n.pos[..n.pos.len() - k].to_vec();
    let mut forms: Vec<usize> = vec![];
    match from.kind {
        Kind::C | Kind::R => {
            if up(from, 1) == up(to, 1) {
                forms.push(1);
            }
        }
        Kind::F => {
            if up(from, 1) == up(to, 1) {
                forms.push(1);
            }
            if up(from, 2) == up(to, 2) {
                forms.push(2);
            }
        }
        Kind::V => {
            if up(from, 2) == up(to, 2) {
                forms.push(1);
                forms.push(2);
            }
            if up(from, 3) == up(to, 3) {
                forms.push(3);
            }
        }
        Kind::P => {}
    }
    let k = if forms.is_empty() || r.pct(30) { full.len() } else { *r.pick(&forms) };
    Some(full[full.len() - k..].join("."))
}

pub fn set_ref(d: &mut Device, n: &Node, t: Option<String>) {
    match at(d, &n.pos) {
        At::P(p) => split_mut(p).0.derived_from = t,
        At::C(p) => split_mut(p).0.derived_from = t,
        At::R(p) => split_mut(p).0.derived_from = t,
        At::F(p) => split_mut(p).0.derived_from = t,
        At::V(p) => p.derived_from = t,
    }
}

/// Leaves out things so that there is something to inherit. Removing children
/// invalidates positions below.
pub fn thin(d: &mut Device, n: &Node, r: &mut Rng) -> bool {
    let gone = r.pct(60);
    let mut removed = false;
    fn clear<T>(o: &mut Option<T>, r: &mut Rng) {
        if r.pct(50) {
            *o = None;
        }
    }
    fn props(p: &mut RegisterProperties, r: &mut Rng) {
        clear(&mut p.size, r);
        clear(&mut p.access, r);
        clear(&mut p.protection, r);
        clear(&mut p.reset_value, r);
        clear(&mut p.reset_mask, r);
    }
    match at(d, &n.pos) {
        At::P(p) => {
            let p = split_mut(p).0;
            clear(&mut p.version, r);
            clear(&mut p.description, r);
            clear(&mut p.group_name, r);
            clear(&mut p.prepend_to_name, r);
            clear(&mut p.append_to_name, r);
            clear(&mut p.header_struct_name, r);
            clear(&mut p.address_block, r);
            props(&mut p.default_register_properties, r);
            if r.bool() {
                p.interrupt.clear();
            }
            if gone {
                p.registers = if r.pct(20) { Some(vec![]) } else { None };
                removed = true;
            }
        }
        At::C(p) => {
            let p = split_mut(p).0;
            clear(&mut p.header_struct_name, r);
            clear(&mut p.description, r);
            props(&mut p.default_register_properties, r);
            if gone {
                p.children.clear();
                removed = true;
            }
        }
        At::R(p) => {
            let p = split_mut(p).0;
            clear(&mut p.description, r);
            clear(&mut p.datatype, r);
            clear(&mut p.write_constraint, r);
            clear(&mut p.read_action, r);
            clear(&mut p.modified_write_values, r);
            props(&mut p.properties, r);
            if gone {
                p.fields = if r.pct(20) { Some(vec![]) } else { None };
                removed = true;
            }
        }
        At::F(p) => {
            let p = split_mut(p).0;
            clear(&mut p.description, r);
            clear(&mut p.access, r);
            clear(&mut p.write_constraint, r);
            clear(&mut p.read_action, r);
            clear(&mut p.modified_write_values, r);
            if gone {
                p.enumerated_values.clear();
                removed = true;
            }
        }
        At::V(p) => {
            clear(&mut p.usage, r);
            if gone {
                p.values.clear();
            }
        }
    }
    removed
}

/// Makes an array a single which keeps its placeholder, so that it takes the
/// dimensions of what it derives from.
pub fn undim(d: &mut Device, n: &Node) {
    fn go<T: Clone>(a: &mut MaybeArray<T>) {
        if let MaybeArray::Array(i, _) = a {
            *a = MaybeArray::Single(i.clone());
        }
    }
    match at(d, &n.pos) {
        At::P(p) => go(p),
        At::C(p) => go(p),
        At::R(p) => go(p),
        At::F(p) => go(p),
        At::V(_) => {}
    }
}

/// Adds derivations: to any element (`free`), or in a direction that rules out
/// cycles among the elements of a kind.
pub fn derive(d: &mut Device, r: &mut Rng, want: usize, free: bool, kinds: &[Kind]) -> usize {
    let mut done = 0;
    // targets come before in a random order
    let mut order: Vec<Pos> = nodes(d).into_iter().map(|n| n.pos).collect();
    match r.below(4) {
        0 => {}
        1 => order.reverse(),
        _ => r.shuffle(&mut order),
    }
    let mut last: Vec<(Kind, Pos)> = vec![];
    for _ in 0..want * 3 {
        if done >= want {
            break;
        }
        let all = nodes(d);
        let kind = *r.pick(kinds);
        let of: Vec<&Node> = all.iter().filter(|n| n.kind == kind).collect();
        if of.len() < 2 && !(free && !of.is_empty()) {
            continue;
        }
        let from = *r.pick(&of);
        let rank = |n: &Node| order.iter().position(|p| *p == n.pos);
        let to: Vec<&Node> = of
            .iter()
            .copied()
            .filter(|n| free || rank(n) < rank(from))
            .filter(|n| !n.names.is_empty())
            .collect();
        if to.is_empty() {
            continue;
        }
        // prefer what is derived itself, for chains
        let mut to_node = *r.pick(&to);
        if r.pct(45) {
            if let Some(n) = to.iter().find(|n| last.contains(&(kind, n.pos.clone()))) {
                to_node = n;
            }
        }
        // and what is near, for the relative forms
        if r.pct(40) {
            let near: Vec<_> = to
                .iter()
                .filter(|n| n.pos[..n.pos.len() - 1] == from.pos[..from.pos.len() - 1])
                .collect();
            if !near.is_empty() {
                to_node = *r.pick(&near);
            }
        }
        if !free && (to_node.pos.starts_with(&from.pos) || from.pos.starts_with(&to_node.pos)) {
            continue;
        }
        let Some(t) = reference(from, to_node, &all, r) else { continue };
        if thin(d, from, r) && !free {
            // positions of what was inside mean nothing any more
            last.retain(|p| !(p.1.starts_with(&from.pos) && p.1 != from.pos));
        }
        if r.pct(30) && nodes(d).iter().any(|n| n.pos == to_node.pos) {
            undim(d, from);
        }
        set_ref(d, from, Some(t));
        last.push((kind, from.pos.clone()));
        done += 1;
    }
    done
}

const KINDS: [Kind; 5] = [Kind::P, Kind::C, Kind::R, Kind::F, Kind::V];

pub fn kinds(r: &mut Rng) -> Vec<Kind> {
    match r.below(4) {
        0 => vec![*r.pick(&KINDS)],
        1 => vec![*r.pick(&KINDS), *r.pick(&KINDS)],
        _ => KINDS.to_vec(),
    }
}

pub fn derivable(x: &mut Ctx) -> Device {
    let mut o = base(x);
    o.dense = *x.rng.pick(&[30, 50, 75, 75]);
    o.enums = true;
    let max = *x.rng.pick(&[2, 2, 3]);
    let mut d = gen::device(&mut x.rng, o);
    small(&mut d, x, max);
    if x.rng.pct(50) {
        // some inheritable values are shared by all levels
        for n in nodes(&d) {
            if x.rng.pct(5) {
                thin(&mut d.clone(), &n, &mut x.rng);
            }
        }
    }
    d
}

/// No more than this many items after expansion.
pub fn too_much(d: &Device) -> bool {
    dump::device(d).nodes() > 60_000
}

pub fn c12(x: &mut Ctx) -> R {
    let mut d = derivable(x);
    if too_much(&d) {
        return Ok(());
    }
    let k = kinds(&mut x.rng);
    let want = *x.rng.pick(&[1, 2, 3, 5, 8, 14]);
    let n = derive(&mut d, &mut x.rng, want, false, &k);
    if n == 0 {
        x.ev("nothing to derive", 1);
        return Ok(());
    }
    x.seen(dump::device(&d).hash64());
    x.sample(|| text_of(&d));
    match judge(x, &d)? {
        Ok(g) => {
            x.ev("devices with derivations", 1);
            // nothing derived is left
            let mut left = None;
            fn go(v: &V, left: &mut Option<String>) {
                match v {
                    V::M(m) => {
                        for (k, v) in m {
                            if *k == "derivedFrom" {
                                *left = Some(v.render());
                            }
                            go(v, left);
                        }
                    }
                    V::L(l) => l.iter().for_each(|v| go(v, left)),
                    _ => {}
                }
            }
            go(&dump::device(&g), &mut left);
            if let Some(l) = left {
                return fail("left", format!("derivedFrom {l} is left after expansion"), text_of(&d));
            }
        }
        Err(w) => x.ev(&format!("derivations in error: {w:?}"), 1),
    }
    if x.rng.pct(10) {
        as_document(x, &d)?;
    }
    Ok(())
}

pub fn c13(x: &mut Ctx) -> R {
    let mut d = derivable(x);
    let k = kinds(&mut x.rng);
    let want = *x.rng.pick(&[0, 1, 2, 4]);
    derive(&mut d, &mut x.rng, want, false, &k);
    let what;
    match x.rng.below(6) {
        0 => {
            // a reference to nothing
            let all = nodes(&d);
            let n = x.rng.below(all.len());
            let n = &all[n];
            let others: Vec<&Node> = all.iter().filter(|m| m.kind == n.kind && !m.names.is_empty()).collect();
            let mut t = match others.is_empty() || x.rng.pct(20) {
                true => "nowhere".to_string(),
                false => {
                    let o = *x.rng.pick(&others);
                    match reference(n, o, &all, &mut x.rng) {
                        Some(t) => t,
                        None => "nowhere".into(),
                    }
                }
            };
            let texts = other_texts(&d);
            match x.rng.below(10) {
                0 => t.push('x'),
                1 => t = format!("x{t}"),
                2 => t = format!("{t}."),
                3 => t = format!(".{t}"),
                4 => t = t.to_lowercase() + "_",
                5 => t = format!("{t}.{t}"),
                6 => {
                    t = match x.rng.below(4) {
                        0 => t.to_uppercase(),
                        1 => t.to_lowercase(),
                        2 => t.replace("%s", "0"),
                        _ => t.replace('.', "_"),
                    }
                }
                // what means something else in the device, alone or in place of the name
                _ if texts.is_empty() => {}
                _ => {
                    let o = x.rng.pick(&texts).clone();
                    t = match t.rsplit_once('.') {
                        Some((b, _)) if x.rng.bool() => format!("{b}.{o}"),
                        _ => o,
                    };
                    x.ev("references by another text of the device", 1);
                }
            }
            let t = (!t.is_empty()).then_some(t);
            set_ref(&mut d, n, t);
            what = "reference to nothing";
        }
        1 => {
            // to itself
            let all = nodes(&d);
            let c: Vec<&Node> = all.iter().filter(|n| !n.names.is_empty()).collect();
            let n = *x.rng.pick(&c);
            let Some(t) = reference(n, n, &all, &mut x.rng) else { return Ok(()) };
            set_ref(&mut d, n, Some(t));
            what = "reference to itself";
        }
        2 | 3 => {
            // a cycle
            let all = nodes(&d);
            let kind = *x.rng.pick(&KINDS);
            let mut of: Vec<&Node> = all.iter().filter(|n| n.kind == kind && !n.names.is_empty()).collect();
            if of.len() < 2 {
                return Ok(());
            }
            x.rng.shuffle(&mut of);
            let mut len = x.rng.range(2, of.len().min(6));
            if x.rng.pct(10) {
                len = of.len();
            }
            let of = &of[..len];
            for i in 0..of.len() {
                let Some(t) = reference(of[i], of[(i + 1) % of.len()], &all, &mut x.rng) else {
                    return Ok(());
                };
                set_ref(&mut d, of[i], Some(t));
            }
            what = "cycle";
        }
        4 => {
            // a cluster from one that holds it
            let all = nodes(&d);
            let c: Vec<&Node> = all.iter().filter(|n| n.kind == Kind::C && n.pos.len() > 2).collect();
            if c.is_empty() {
                return Ok(());
            }
            let n = *x.rng.pick(&c);
            let l = x.rng.range(2, n.pos.len() - 1);
            let up = all.iter().find(|m| m.pos == n.pos[..l]).unwrap();
            let Some(t) = reference(n, up, &all, &mut x.rng) else { return Ok(()) };
            if x.rng.pct(80) {
                let At::C(c) = at(&mut d, &n.pos) else { unreachable!() };
                split_mut(c).0.children.clear();
            }
            set_ref(&mut d, n, Some(t));
            what = "cluster inside its source";
        }
        _ => {
            // anything
            let n = x.rng.range(2, 10);
            derive(&mut d, &mut x.rng, n, true, &k);
            what = "any references";
        }
    }
    x.seen(dump::device(&d).hash64());
    x.sample(|| format!("{what}: {}", text_of(&d)));
    match judge(x, &d)? {
        Ok(_) => x.ev(&format!("{what}: harmless"), 1),
        Err(Why::Missing) => x.ev("missing references reported", 1),
        Err(Why::Cycle) => {
            x.ev("cycles reported", 1);
            x.ev(&format!("{what}: cycle"), 1);
        }
        Err(Why::TooBig) => x.ev("too big", 1),
    }
    if x.rng.pct(10) {
        as_document(x, &d)?;
    }
    Ok(())
}

// ---- C14 ----

fn ref_properties(d: &Device) -> (Device, usize) {
    fn go(v: &mut [RegisterCluster], above: &[RegisterProperties], n: &mut usize) {
        for x in v {
            match x {
                RegisterCluster::Register(r) => {
                    let r = split_mut(r).0;
                    if r.derived_from.is_none() {
                        for a in above.iter().rev() {
                            or_props(&mut r.properties, a);
                        }
                        *n += 1;
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let c = split_mut(c).0;
                    if c.derived_from.is_none() {
                        let mut a = above.to_vec();
                        a.push(c.default_register_properties);
                        go(&mut c.children, &a, n);
                    }
                }
            }
        }
    }
    let mut d = d.clone();
    let mut n = 0;
    for p in &mut d.peripherals {
        let p = split_mut(p).0;
        if p.derived_from.is_none() {
            let a = [d.default_register_properties, p.default_register_properties];
            go(p.registers.as_deref_mut().unwrap_or(&mut []), &a, &mut n);
        }
    }
    (d, n)
}

pub fn c14(x: &mut Ctx) -> R {
    let mut o = Opt::random(&mut x.rng, 1);
    o.derive = x.rng.bool();
    o.dense = *x.rng.pick(&[15, 30, 50]);
    o.max_depth = *x.rng.pick(&[1, 2, 4, 7]);
    let resolves = x.rng.pct(25);
    if resolves {
        o.derive = false;
        o.fit = true;
        o.small_bits = true;
        o.budget = o.budget.min(35);
        o.max_depth = o.max_depth.min(4);
    }
    let mut d = gen::device(&mut x.rng, o);
    if resolves {
        small(&mut d, x, 3);
        if x.rng.bool() {
            derive(&mut d, &mut x.rng, 3, false, &[Kind::P, Kind::C, Kind::R]);
        }
    }
    x.seen(dump::device(&d).hash64());
    let (want, n) = ref_properties(&d);
    let mut got = d.clone();
    sut("expand_properties", || svd_parser::expand_properties(&mut got)).with(|| text_of(&d))?;
    x.eval();
    if let Some(m) = diff(&dump::device(&want), &dump::device(&got)) {
        return fail("properties", format!("register properties differ: {m}"), text_of(&d));
    }
    x.ev("registers filled", n);
    x.ev("devices", 1);
    let once = got.clone();
    sut("expand_properties", || svd_parser::expand_properties(&mut got)).with(|| text_of(&d))?;
    x.eval();
    if once != got {
        return fail("twice", "expanding properties twice differs from once", text_of(&d));
    }
    x.sample(|| text_of(&d));
    // while parsing
    if resolves || x.rng.pct(20) {
        as_document(x, &d)?;
    }
    if resolves {
        // before derivations: what derives takes the filled values
        let mut e = Expander::new(&want);
        if let Ok(w) = e.run() {
            let doc = xml::plain(&d, &mut x.rng);
            let cfg = Config::default()
                .validate_level(ValidateLevel::Disabled)
                .expand(true)
                .expand_properties(true);
            let g = sut("parsing", || {
                svd_parser::parse_with_config(&doc.text, &cfg).map_err(|e| format!("{e:#}"))
            })
            .with(|| doc.text.clone())?;
            x.eval();
            match g {
                Err(m) => return fail("both", format!("refused with both expansions: {m}"), doc.text),
                Ok(g) => {
                    let drop = &["range_type"];
                    if let Some(m) = diff(&dump::device(&w).without(drop), &dump::device(&g).without(drop)) {
                        return fail("both", format!("with both expansions: {m}"), doc.text);
                    }
                }
            }
            x.ev("both expansions while parsing", 1);
        }
    }
    Ok(())
}
