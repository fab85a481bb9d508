//! C06 validation: an independent verdict compared with parsing, bottom-up
//! building and (recursive) validation of finished objects.
use super::encode::parse_at;
use super::parse::LEVELS;
use crate::dump::*;
use crate::gen::{self, Opt};
use crate::rng::{hash_str, Rng};
use crate::sup::*;
use crate::xml::*;
use svd_rs::ValidateLevel::*;
use svd_rs::*;

// ---- the rules ----

pub fn ident_char(c: char, first: bool) -> bool {
    c == '_' || c.is_ascii_alphabetic() || !first && c.is_ascii_digit()
}
fn word(s: &str) -> bool {
    s.chars().all(|c| ident_char(c, false))
}
fn ident(s: &str) -> bool {
    !s.is_empty() && s.chars().enumerate().all(|(i, c)| ident_char(c, i == 0))
}
/// Names of things that may be arrays.
pub fn dimable(s: &str) -> bool {
    if let Some(rest) = s.strip_prefix("%s") {
        return rest.is_empty() || ident(rest);
    }
    if let Some(base) = s.strip_suffix("[%s]") {
        return ident(base);
    }
    match s.split_once("%s") {
        Some((a, b)) => ident(a) && word(b),
        None => ident(s),
    }
}
pub fn path(s: &str) -> bool {
    s.split('.').all(dimable)
}
fn fits(v: u64, bits: u32) -> bool {
    bits >= 64 || v >> bits == 0
}

/// What of an object is to be judged.
#[derive(Clone, Copy)]
struct Judge {
    strict: bool,
    /// with everything inside it
    deep: bool,
    /// with the values of dimArrayIndex
    index: bool,
}

type Verdict = Result<(), &'static str>;

impl Judge {
    fn rule(self, ok: bool, strict: bool, what: &'static str) -> Verdict {
        if ok || strict && !self.strict {
            Ok(())
        } else {
            Err(what)
        }
    }
    fn props(self, p: &RegisterProperties) -> Verdict {
        if let Some(s) = p.size {
            if let Some(v) = p.reset_value {
                self.rule(fits(v, s), false, "reset value too wide")?;
            }
            if let Some(m) = p.reset_mask {
                self.rule(fits(m, s), true, "reset mask too wide")?;
            }
        }
        if let (Some(v), Some(m)) = (p.reset_value, p.reset_mask) {
            self.rule(v & !m == 0, true, "reset value outside its mask")?;
        }
        Ok(())
    }
    fn ev(self, e: &EnumeratedValue) -> Verdict {
        self.rule(word(&e.name), true, "value name")?;
        let default = e.is_default == Some(true);
        self.rule(e.value.is_some() || default, false, "no value")?;
        self.rule(!(e.value.is_some() && default), true, "value and default")
    }
    fn evs(self, e: &EnumeratedValues) -> Verdict {
        if let Some(n) = &e.name {
            self.rule(word(n), true, "enumeration name")?;
        }
        match &e.derived_from {
            Some(p) => self.rule(path(p), true, "enumeration path")?,
            None => self.rule(!e.values.is_empty(), false, "no values")?,
        }
        if self.deep {
            for v in &e.values {
                self.ev(v)?;
            }
        }
        Ok(())
    }
    fn dim(self, d: Option<&DimElement>) -> Verdict {
        if !self.index {
            return Ok(());
        }
        for v in d.iter().filter_map(|d| d.dim_array_index.as_ref()).flat_map(|x| &x.values) {
            self.ev(v)?;
        }
        Ok(())
    }
    fn field_info(self, f: &FieldInfo) -> Verdict {
        self.rule(dimable(&f.name), true, "field name")?;
        if let Some(p) = &f.derived_from {
            self.rule(path(p), true, "field path")?;
        }
        let w = f.bit_range.width;
        self.rule(w != 0, false, "zero width")?;
        for v in f.enumerated_values.iter().flat_map(|e| &e.values) {
            if let Some(v) = v.value {
                self.rule(fits(v, w), false, "value too wide")?;
            }
        }
        if let Some(WriteConstraint::Range(r)) = f.write_constraint {
            self.rule(fits(r.min, w) && fits(r.max, w), false, "write range too wide")?;
            self.rule(r.min <= r.max, false, "write range reversed")?;
        }
        let uses: Vec<Option<Usage>> = f
            .enumerated_values
            .iter()
            .map(|e| if e.derived_from.is_some() { None } else { Some(e.usage.unwrap_or(Usage::ReadWrite)) })
            .collect();
        let reads = |u: Option<Usage>| u.is_none() || u == Some(Usage::Read);
        let writes = |u: Option<Usage>| u.is_none() || u == Some(Usage::Write);
        let good = match uses[..] {
            [] | [_] => true,
            [a, b] => reads(a) && writes(b) || reads(b) && writes(a),
            _ => false,
        };
        self.rule(good, true, "usages")?;
        if self.deep {
            for e in &f.enumerated_values {
                self.evs(e)?;
            }
        }
        Ok(())
    }
    fn field(self, f: &Field) -> Verdict {
        let (i, d) = split(f);
        self.dim(d)?;
        self.field_info(i)
    }
    fn register_info(self, r: &RegisterInfo) -> Verdict {
        self.props(&r.properties)?;
        self.rule(dimable(&r.name), true, "register name")?;
        if let Some(n) = &r.alternate_group {
            self.rule(word(n), true, "alternate group")?;
        }
        if let Some(n) = &r.alternate_register {
            self.rule(dimable(n), true, "alternate register")?;
        }
        match &r.derived_from {
            Some(p) => self.rule(path(p), true, "register path")?,
            None => self.rule(r.fields.as_ref().map_or(true, |f| !f.is_empty()), true, "empty fields")?,
        }
        if self.deep {
            for f in r.fields.iter().flatten() {
                self.field(f)?;
            }
        }
        Ok(())
    }
    fn rc(self, x: &RegisterCluster) -> Verdict {
        match x {
            RegisterCluster::Register(r) => {
                let (i, d) = split(r);
                self.dim(d)?;
                self.register_info(i)
            }
            RegisterCluster::Cluster(c) => {
                let (i, d) = split(c);
                self.dim(d)?;
                self.cluster_info(i)
            }
        }
    }
    fn cluster_info(self, c: &ClusterInfo) -> Verdict {
        self.props(&c.default_register_properties)?;
        self.rule(dimable(&c.name), true, "cluster name")?;
        match &c.derived_from {
            Some(p) => self.rule(path(p), true, "cluster path")?,
            None => self.rule(!c.children.is_empty(), true, "empty cluster")?,
        }
        if self.deep {
            for x in &c.children {
                self.rc(x)?;
            }
        }
        Ok(())
    }
    fn peripheral_info(self, p: &PeripheralInfo) -> Verdict {
        self.props(&p.default_register_properties)?;
        self.rule(dimable(&p.name), true, "peripheral name")?;
        match &p.derived_from {
            // a peripheral is derived from a peripheral by its name
            Some(n) => self.rule(dimable(n), true, "peripheral reference")?,
            None => self.rule(p.registers.as_ref().map_or(true, |f| !f.is_empty()), true, "empty registers")?,
        }
        if self.deep {
            for x in p.registers.iter().flatten() {
                self.rc(x)?;
            }
        }
        Ok(())
    }
    fn device(self, d: &Device) -> Verdict {
        self.rule(!d.peripherals.is_empty(), false, "no peripherals")?;
        self.props(&d.default_register_properties)?;
        for p in &d.peripherals {
            let (i, e) = split(p);
            self.dim(e)?;
            self.peripheral_info(i)?;
        }
        Ok(())
    }
}

// ---- bottom-up building ----

struct Build(ValidateLevel);
type B<T> = Result<T, SvdError>;

impl Build {
    fn ev(&self, e: &EnumeratedValue) -> B<EnumeratedValue> {
        EnumeratedValue::builder()
            .name(e.name.clone())
            .description(e.description.clone())
            .value(e.value)
            .is_default(e.is_default)
            .build(self.0)
    }
    fn evs(&self, e: &EnumeratedValues) -> B<EnumeratedValues> {
        EnumeratedValues::builder()
            .name(e.name.clone())
            .usage(e.usage)
            .derived_from(e.derived_from.clone())
            .values(e.values.iter().map(|v| self.ev(v)).collect::<B<_>>()?)
            .build(self.0)
    }
    fn dim(&self, d: &DimElement) -> B<DimElement> {
        let dai = match &d.dim_array_index {
            Some(x) => Some(DimArrayIndex {
                header_enum_name: x.header_enum_name.clone(),
                values: x.values.iter().map(|v| self.ev(v)).collect::<B<_>>()?,
            }),
            None => None,
        };
        DimElement::builder()
            .dim(d.dim)
            .dim_increment(d.dim_increment)
            .dim_index(d.dim_index.clone())
            .dim_name(d.dim_name.clone())
            .dim_array_index(dai)
            .build(self.0)
    }
    fn any<T: Clone>(&self, x: &MaybeArray<T>, f: impl Fn(&T) -> B<T>) -> B<MaybeArray<T>> {
        let (i, d) = split(x);
        let i = f(i)?;
        Ok(match d {
            Some(d) => MaybeArray::Array(i, self.dim(d)?),
            None => MaybeArray::Single(i),
        })
    }
    fn field(&self, f: &FieldInfo) -> B<FieldInfo> {
        FieldInfo::builder()
            .name(f.name.clone())
            .description(f.description.clone())
            .bit_range(f.bit_range)
            .access(f.access)
            .modified_write_values(f.modified_write_values)
            .write_constraint(f.write_constraint)
            .read_action(f.read_action)
            .enumerated_values(f.enumerated_values.iter().map(|v| self.evs(v)).collect::<B<_>>()?)
            .derived_from(f.derived_from.clone())
            .build(self.0)
    }
    fn register(&self, r: &RegisterInfo) -> B<RegisterInfo> {
        let fields = match &r.fields {
            Some(v) => Some(v.iter().map(|f| self.any(f, |x| self.field(x))).collect::<B<Vec<_>>>()?),
            None => None,
        };
        RegisterInfo::builder()
            .name(r.name.clone())
            .display_name(r.display_name.clone())
            .description(r.description.clone())
            .alternate_group(r.alternate_group.clone())
            .alternate_register(r.alternate_register.clone())
            .address_offset(r.address_offset)
            .properties(r.properties)
            .datatype(r.datatype)
            .modified_write_values(r.modified_write_values)
            .write_constraint(r.write_constraint)
            .read_action(r.read_action)
            .fields(fields)
            .derived_from(r.derived_from.clone())
            .build(self.0)
    }
    fn rcs(&self, v: &[RegisterCluster]) -> B<Vec<RegisterCluster>> {
        v.iter()
            .map(|x| {
                Ok(match x {
                    RegisterCluster::Register(r) => RegisterCluster::Register(self.any(r, |x| self.register(x))?),
                    RegisterCluster::Cluster(c) => RegisterCluster::Cluster(self.any(c, |x| self.cluster(x))?),
                })
            })
            .collect()
    }
    fn cluster(&self, c: &ClusterInfo) -> B<ClusterInfo> {
        ClusterInfo::builder()
            .name(c.name.clone())
            .description(c.description.clone())
            .alternate_cluster(c.alternate_cluster.clone())
            .header_struct_name(c.header_struct_name.clone())
            .address_offset(c.address_offset)
            .default_register_properties(c.default_register_properties)
            .children(self.rcs(&c.children)?)
            .derived_from(c.derived_from.clone())
            .build(self.0)
    }
    fn peripheral(&self, p: &PeripheralInfo) -> B<PeripheralInfo> {
        let regs = match &p.registers {
            Some(v) => Some(self.rcs(v)?),
            None => None,
        };
        PeripheralInfo::builder()
            .name(p.name.clone())
            .display_name(p.display_name.clone())
            .version(p.version.clone())
            .description(p.description.clone())
            .alternate_peripheral(p.alternate_peripheral.clone())
            .group_name(p.group_name.clone())
            .prepend_to_name(p.prepend_to_name.clone())
            .append_to_name(p.append_to_name.clone())
            .header_struct_name(p.header_struct_name.clone())
            .base_address(p.base_address)
            .default_register_properties(p.default_register_properties)
            .address_block(p.address_block.clone())
            .interrupt(if p.interrupt.is_empty() { None } else { Some(p.interrupt.clone()) })
            .registers(regs)
            .derived_from(p.derived_from.clone())
            .build(self.0)
    }
    fn device(&self, d: &Device, omit: Omit) -> B<Device> {
        let per = d.peripherals.iter().map(|p| self.any(p, |x| self.peripheral(x))).collect::<B<Vec<_>>>()?;
        let mut b = Device::builder()
            .vendor(d.vendor.clone())
            .vendor_id(d.vendor_id.clone())
            .name(d.name.clone())
            .series(d.series.clone())
            .license_text(d.license_text.clone())
            .cpu(d.cpu.clone())
            .header_system_filename(d.header_system_filename.clone())
            .header_definitions_prefix(d.header_definitions_prefix.clone())
            .default_register_properties(d.default_register_properties)
            .peripherals(per)
            .xmlns_xs(d.xmlns_xs.clone())
            .no_namespace_schema_location(d.no_namespace_schema_location.clone())
            .schema_version(d.schema_version.clone());
        if !omit.version {
            b = b.version(d.version.clone());
        }
        if !omit.description {
            b = b.description(d.description.clone());
        }
        if !omit.unit {
            b = b.address_unit_bits(d.address_unit_bits);
        }
        if !omit.width {
            b = b.width(d.width);
        }
        b.build(self.0)
    }
}

#[derive(Clone, Copy, Default)]
struct Omit {
    version: bool,
    description: bool,
    unit: bool,
    width: bool,
}
impl Omit {
    fn any(self) -> bool {
        self.version || self.description || self.unit || self.width
    }
}

// ---- defects and near misses ----

fn all_rcs<'a>(v: &'a mut [RegisterCluster], out: &mut Vec<&'a mut RegisterCluster>, deep: bool) {
    // registers of all depths, or clusters with their contents left out
    for x in v {
        match x {
            RegisterCluster::Register(_) => {
                if !deep {
                    out.push(x)
                }
            }
            RegisterCluster::Cluster(_) => {
                if deep {
                    out.push(x)
                } else if let RegisterCluster::Cluster(c) = x {
                    all_rcs(&mut split_mut(c).0.children, out, deep)
                }
            }
        }
    }
}

fn registers(d: &mut Device) -> Vec<(&mut RegisterInfo, bool)> {
    let mut v = vec![];
    for p in &mut d.peripherals {
        if let Some(x) = &mut split_mut(p).0.registers {
            all_rcs(x, &mut v, false);
        }
    }
    v.into_iter()
        .filter_map(|x| match x {
            RegisterCluster::Register(r) => {
                let (r, d) = split_mut(r);
                Some((r, d.is_some()))
            }
            _ => None,
        })
        .collect()
}

fn fields(d: &mut Device) -> Vec<(&mut FieldInfo, bool)> {
    registers(d)
        .into_iter()
        .flat_map(|(r, _)| r.fields.iter_mut().flatten())
        .map(|f| {
            let (f, d) = split_mut(f);
            (f, d.is_some())
        })
        .collect()
}

/// One cluster, chosen by walking down at random.
fn a_cluster<'a>(d: &'a mut Device, r: &mut Rng) -> Option<(&'a mut ClusterInfo, bool)> {
    let mut tops = vec![];
    for p in &mut d.peripherals {
        if let Some(x) = &mut split_mut(p).0.registers {
            all_rcs(x, &mut tops, true);
        }
    }
    if tops.is_empty() {
        return None;
    }
    let n = r.below(tops.len());
    let mut cur = match tops.swap_remove(n) {
        RegisterCluster::Cluster(c) => c,
        _ => return None,
    };
    loop {
        let inner = split(cur).0.children.iter().filter(|x| matches!(x, RegisterCluster::Cluster(_))).count();
        if inner == 0 || r.bool() {
            let (c, d) = split_mut(cur);
            return Some((c, d.is_some()));
        }
        let n = r.below(inner);
        cur = split_mut(cur)
            .0
            .children
            .iter_mut()
            .filter_map(|x| match x {
                RegisterCluster::Cluster(c) => Some(c),
                _ => None,
            })
            .nth(n)
            .expect("inner cluster");
    }
}

const NAMES: &[&str] = &[
    "a", "_", "A9", "9a", "9", "a b", "a-b", "a.b", "é", "aé", "a+", "+", "_9", "__", "Z_z9", "a\u{301}", "a:b", "a/b", "ａ", "%", "a%",
    "a[0]", "a[]", "a(1)", "a&b", "<a>", "a\u{200b}", "0x1", "-1", "a%S", "[a]", "名",
];
const DIMS: &[&str] = &[
    "%s", "%sa", "%s_", "%s9", "%sa9", "a%s", "a%s9", "a%s_", "a%sb", "9%s", "_%s", "a[%s]", "_[%s]", "9[%s]", "[%s]", "[%s]a", "a[%s]b",
    "a%s%s", "%s%s", "a_%s_b", "a-%s", "%s-a", "a[%s", "a%s]", "a [%s]", "a%s[%s]", "a[%s][%s]", "é%s", "a%sé", "%%s", "a%s.b", "%s[%s]",
    "A9_%s_9", "a%s%", "[%s]9",
];

/// A name near the border of what is allowed; never with surrounding space.
fn border_name(r: &mut Rng, array: Option<bool>) -> String {
    let array = array.unwrap_or_else(|| r.pct(40));
    loop {
        let s = if r.pct(60) {
            r.pick(if array { DIMS } else { NAMES }).to_string()
        } else {
            let n = r.range(1, 6);
            (0..n)
                .map(|_| *r.pick(&["a", "Z", "_", "9", "0", "x1", "%s", "[%s]", "-", ".", "é", "%", " ", "["]))
                .collect()
        };
        if s.trim() == s && !s.is_empty() && s.contains("%s") == array {
            return s;
        }
    }
}

fn border_path(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let mut v: Vec<String> = (0..n).map(|_| border_name(r, None)).collect();
    if r.pct(8) {
        let k = r.below(v.len());
        v[k] = String::new();
    }
    v.join(".")
}

fn border(r: &mut Rng, bits: u32) -> u64 {
    let top = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    match r.below(6) {
        0 => top,
        1 | 2 => top.wrapping_add(1).max(top),
        3 => top.saturating_add(1),
        4 => u64::MAX,
        _ => r.u64(),
    }
}

fn spoil_props(p: &mut RegisterProperties, r: &mut Rng) {
    if r.pct(80) {
        p.size = Some(*r.pick(&[0, 1, 2, 7, 8, 16, 31, 32, 33, 62, 63, 64, 65, 128, u32::MAX]));
    }
    let s = p.size.unwrap_or(32);
    match r.below(5) {
        0 => p.reset_value = Some(border(r, s)),
        1 => p.reset_mask = Some(border(r, s)),
        2 => {
            let v = border(r, s);
            p.reset_value = Some(v);
            p.reset_mask = Some(v);
        }
        3 => {
            let m = gen::fit_bits(r.u64(), s);
            p.reset_mask = Some(m);
            p.reset_value = Some(m & r.u64());
            if r.bool() {
                // one bit outside
                p.reset_value = Some(p.reset_value.unwrap() ^ (1 << r.below(64)));
            }
        }
        _ => {
            p.reset_value = Some(gen::fit_bits(u64::MAX, s.saturating_sub(1)).wrapping_add(r.below(3) as u64));
            if r.bool() {
                p.reset_mask = None;
            }
        }
    }
}

fn spoil_field(f: &mut FieldInfo, array: bool, r: &mut Rng) {
    match r.below(13) {
        0 => f.name = border_name(r, Some(array)),
        1 => f.derived_from = Some(border_path(r)),
        2 => {
            f.bit_range.width = 0;
            f.bit_range.range_type = BitRangeType::OffsetWidth;
        }
        3 | 4 => {
            f.bit_range.width = *r.pick(&[1, 2, 3, 8, 31, 32, 33, 62, 63, 64, 65, 100]);
            f.bit_range.offset = r.below(70) as u32;
            let w = f.bit_range.width;
            if f.enumerated_values.is_empty() || r.pct(30) {
                let (a, b) = (border(r, w), border(r, w.min(63)));
                f.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange {
                    min: if r.bool() { a } else { 0 },
                    max: b,
                }));
            } else if let Some(v) = f.enumerated_values.last_mut().and_then(|e| e.values.last_mut()) {
                v.value = Some(border(r, w));
                v.is_default = None;
            }
        }
        5 => {
            let w = f.bit_range.width;
            let b = border(r, w);
            let a = match r.below(3) {
                0 => b,
                1 => b.saturating_sub(1),
                _ => b.saturating_add(1),
            };
            f.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: a, max: b }));
        }
        6 | 7 => {
            // how many enumerations, and what for
            let n = *r.pick(&[1, 2, 2, 2, 2, 3]);
            f.enumerated_values.truncate(n);
            while f.enumerated_values.len() < n {
                let mut e = gen::tpl_evs();
                let mut v = gen::tpl_ev();
                v.value = Some(0);
                e.values.push(v);
                f.enumerated_values.push(e);
            }
            for e in &mut f.enumerated_values {
                e.usage = *r.pick(&[None, Some(Usage::Read), Some(Usage::Write), Some(Usage::Read), Some(Usage::Write), Some(Usage::ReadWrite)]);
                e.derived_from = if r.pct(20) { Some("x.y".into()) } else { None };
            }
        }
        _ => {
            if f.enumerated_values.is_empty() {
                f.enumerated_values.push(gen::tpl_evs());
            }
            let n = r.below(f.enumerated_values.len());
            let e = &mut f.enumerated_values[n];
            match r.below(6) {
                0 => e.name = Some(border_name(r, None)),
                1 => e.derived_from = Some(border_path(r)),
                2 => {
                    e.values.clear();
                    if r.bool() {
                        e.derived_from = Some("a".into());
                    }
                }
                _ => {
                    if e.values.is_empty() {
                        e.values.push(gen::tpl_ev());
                    }
                    let w = f.bit_range.width;
                    let n = r.below(e.values.len());
                    let v = &mut e.values[n];
                    match r.below(4) {
                        0 => v.name = border_name(r, None),
                        1 => v.value = Some(border(r, w)),
                        _ => {
                            v.value = *r.pick(&[None, Some(0)]);
                            v.is_default = *r.pick(&[None, Some(false), Some(true)]);
                        }
                    }
                }
            }
        }
    }
}

fn spoil(d: &mut Device, r: &mut Rng) {
    match r.below(12) {
        0..=4 => {
            let mut v = fields(d);
            if !v.is_empty() {
                let n = r.below(v.len());
                let (f, a) = &mut v[n];
                spoil_field(f, *a, r);
            }
        }
        5..=7 => {
            let mut v = registers(d);
            if !v.is_empty() {
                let n = r.below(v.len());
                let (x, a) = &mut v[n];
                match r.below(7) {
                    0 => x.name = border_name(r, Some(*a)),
                    1 => x.derived_from = Some(border_path(r)),
                    2 => x.alternate_group = Some(border_name(r, None)),
                    3 => x.alternate_register = Some(border_name(r, None)),
                    4 => {
                        x.fields = Some(vec![]);
                        x.derived_from = if r.pct(30) { Some("a".into()) } else { None };
                    }
                    _ => spoil_props(&mut x.properties, r),
                }
            }
        }
        8 | 9 => {
            if let Some((c, a)) = a_cluster(d, r) {
                match r.below(5) {
                    0 => c.name = border_name(r, Some(a)),
                    1 => c.derived_from = Some(border_path(r)),
                    2 => {
                        c.children.clear();
                        c.derived_from = if r.pct(30) { Some("a".into()) } else { None };
                    }
                    _ => spoil_props(&mut c.default_register_properties, r),
                }
            }
        }
        10 => {
            if d.peripherals.is_empty() {
                return;
            }
            let n = r.below(d.peripherals.len());
            let (p, dim) = split_mut(&mut d.peripherals[n]);
            let a = dim.is_some();
            match r.below(5) {
                0 => p.name = border_name(r, Some(a)),
                1 => p.derived_from = Some(border_path(r)),
                2 => {
                    p.registers = Some(vec![]);
                    p.derived_from = if r.pct(30) { Some("a".into()) } else { None };
                }
                _ => spoil_props(&mut p.default_register_properties, r),
            }
        }
        _ => {
            if r.pct(30) {
                d.peripherals.clear();
            } else {
                spoil_props(&mut d.default_register_properties, r);
            }
        }
    }
}

fn lname(l: ValidateLevel) -> &'static str {
    match l {
        Disabled => "disabled",
        Weak => "weak",
        _ => "strict",
    }
}

/// Verdict of the rules at a level.
fn rules(l: ValidateLevel, deep: bool, index: bool, f: impl Fn(Judge) -> Verdict) -> Verdict {
    if l == Disabled {
        return Ok(());
    }
    f(Judge {
        strict: l == Strict,
        deep,
        index,
    })
}

fn judge(x: &mut Ctx, route: &str, l: ValidateLevel, want: Verdict, got: Result<(), String>, detail: impl FnOnce() -> String) -> R {
    x.eval();
    match (want, got) {
        (Ok(()), Ok(())) => x.ev(&format!("{route} accepts at {} level", lname(l)), 1),
        (Err(w), Err(_)) => {
            x.ev(&format!("{route} rejects at {} level", lname(l)), 1);
            x.ev(&format!("rejected: {w}"), 1);
        }
        (Ok(()), Err(m)) => {
            return fail(
                &format!("{route} rejects"),
                format!("{route} at {} level rejects what the rules allow: {m}", lname(l)),
                detail(),
            )
        }
        (Err(w), Ok(())) => {
            return fail(
                &format!("{route} accepts"),
                format!("{route} at {} level accepts what the rules forbid ({w})", lname(l)),
                detail(),
            )
        }
    }
    Ok(())
}

/// Own rules of single objects: `validate`, `validate_all`, and `modify_from`
/// which turns a minimal object into this one.
macro_rules! one {
    ($x:expr, $l:expr, $o:expr, $judge:ident, $tpl:expr, $builder:ident) => {{
        let o = $o;
        let own = rules($l, false, false, |j| j.$judge(o));
        let m = sut("validating", || o.validate($l).map_err(|e| e.to_string()))?;
        judge($x, "validate", $l, own, m, || format!("{o:?}"))?;
        let all = rules($l, true, false, |j| j.$judge(o));
        let m = sut("validating", || o.validate_all($l).map_err(|e| e.to_string()))?;
        judge($x, "validate_all", $l, all, m, || format!("{o:?}"))?;
        if o.derived_from.is_none() {
            let mut t = $tpl;
            let b = $builder::from(o.clone());
            let m = sut("modifying", || t.modify_from(b, $l).map_err(|e| e.to_string()))?;
            let own = rules($l, false, false, |j| j.$judge(o));
            judge($x, "modify_from", $l, own, m, || format!("{o:?}"))?;
        }
        // built as it is
        let m = sut("building", || $builder::from(o.clone()).build($l).map(|_| ()).map_err(|e| e.to_string()))?;
        judge($x, "build", $l, own, m, || format!("{o:?}"))?;
    }};
}

pub fn c06(x: &mut Ctx) -> R {
    let lvl = *x.rng.pick(&[2u8, 2, 2, 1, 1, 0]);
    let mut o = Opt::random(&mut x.rng, lvl);
    o.unique = x.rng.pct(60);
    o.empty_fields = true;
    o.budget = o.budget.min(60);
    let mut d = gen::device(&mut x.rng, o);
    let n = *x.rng.pick(&[0, 1, 1, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        spoil(&mut d, &mut x.rng);
    }
    let want = device(&d);
    x.sample(|| want.render());
    x.seen(want.hash64());

    // finished device
    for l in LEVELS {
        let v = rules(l, true, false, |j| j.device(&d));
        let got = sut("validating", || d.validate_all(l).map_err(|e| e.to_string()))?;
        judge(x, "recursive validation", l, v, got, || want.render())?;
        if let Some(m) = diff(&want, &device(&d)) {
            return fail("changed", format!("validation changed the device: {m}"), want.render());
        }
    }
    // shallow verdicts of one object of every kind
    {
        let l = LEVELS[x.rng.below(3)];
        let v = if l != Disabled && d.peripherals.is_empty() { Err("no peripherals") } else { Ok(()) };
        let got = sut("validating", || d.validate(l).map_err(|e| e.to_string()))?;
        judge(x, "validate", l, v, got, || want.render())?;
        shallow(x, &d, l)?;
    }

    // bottom-up
    let mut omit = Omit::default();
    if x.rng.pct(12) {
        let r = &mut x.rng;
        omit = Omit {
            version: r.pct(40),
            description: r.pct(40),
            unit: r.pct(40),
            width: r.pct(40),
        };
        if omit.version {
            d.version = "1.0".into();
        }
        if omit.description {
            d.description = "".into();
        }
        if omit.unit {
            d.address_unit_bits = 8;
        }
        if omit.width {
            d.width = 32;
        }
    }
    let want = device(&d);
    let with_header = |l: ValidateLevel| {
        if l == Strict && omit.any() {
            return Err("device header");
        }
        rules(l, true, true, |j| j.device(&d))
    };
    for l in LEVELS {
        let got = sut("building", || Build(l).device(&d, omit).map_err(|e| e.to_string()))?;
        judge(x, "building", l, with_header(l), got.as_ref().map(|_| ()).map_err(|e| e.clone()), || want.render())?;
        if let Ok(g) = got {
            if let Some(m) = diff(&want, &device(&g)) {
                return fail("built differs", format!("device built at {} level: {m}", lname(l)), want.render());
            }
        }
    }

    // document
    let vary = x.rng.bool();
    let mut e = Sty { r: &mut x.rng, vary }.device(&d);
    for (o, t) in [
        (omit.version, "version"),
        (omit.description, "description"),
        (omit.unit, "addressUnitBits"),
        (omit.width, "width"),
    ] {
        if o {
            e.remove(t);
        }
    }
    let lay = if vary { Layout::random(&mut x.rng) } else { Layout::plain() };
    let doc = write(&e, &lay, &mut x.rng);
    x.seen(hash_str(&doc.text));
    for l in LEVELS {
        let got = parse_at(&doc.text, l)?;
        judge(x, "parsing", l, with_header(l), got.as_ref().map(|_| ()).map_err(|e| e.clone()), || doc.text.clone())?;
        if let Ok(g) = got {
            if let Some(m) = diff(&want, &device(&g)) {
                return fail("parsed differs", format!("device parsed at {} level: {m}", lname(l)), doc.text);
            }
        }
    }
    // the level when none is asked for
    let got = sut("parsing", || svd_parser::parse(&doc.text).map_err(|e| format!("{e:#}")))?;
    judge(x, "parsing by default", Weak, with_header(Weak), got.map(|_| ()), || doc.text.clone())?;
    x.ev("devices", 1);
    Ok(())
}

fn shallow(x: &mut Ctx, d: &Device, l: ValidateLevel) -> R {
    let Some(p) = (!d.peripherals.is_empty()).then(|| split(&d.peripherals[x.rng.below(d.peripherals.len())]).0) else {
        return Ok(());
    };
    // own rules of `validate` leave the register properties to theirs
    one_peripheral(x, p, l)?;
    let mut regs: Vec<&RegisterInfo> = vec![];
    let mut cls: Vec<&ClusterInfo> = vec![];
    fn walk<'a>(v: &'a [RegisterCluster], regs: &mut Vec<&'a RegisterInfo>, cls: &mut Vec<&'a ClusterInfo>) {
        for c in v {
            match c {
                RegisterCluster::Register(r) => regs.push(split(r).0),
                RegisterCluster::Cluster(c) => {
                    let c = split(c).0;
                    cls.push(c);
                    walk(&c.children, regs, cls);
                }
            }
        }
    }
    walk(p.registers.as_deref().unwrap_or(&[]), &mut regs, &mut cls);
    if !cls.is_empty() {
        let c = cls[x.rng.below(cls.len())];
        one_cluster(x, c, l)?;
    }
    if !regs.is_empty() {
        let r = regs[x.rng.below(regs.len())];
        one_register(x, r, l)?;
    }
    let fs: Vec<&FieldInfo> = regs.iter().flat_map(|r| r.fields.iter().flatten()).map(|f| split(f).0).collect();
    if !fs.is_empty() {
        let f = fs[x.rng.below(fs.len())];
        one!(x, l, f, field_info, gen::tpl_field(), FieldInfoBuilder);
        for e in &f.enumerated_values {
            one!(x, l, e, evs, gen::tpl_evs(), EnumeratedValuesBuilder);
            for v in &e.values {
                let want = rules(l, false, false, |j| j.ev(v));
                let m = sut("validating", || v.validate(l).map_err(|e| e.to_string()))?;
                judge(x, "validate", l, want, m, || format!("{v:?}"))?;
                let mut t = gen::tpl_ev();
                let b = EnumeratedValueBuilder::from(v.clone());
                let m = sut("modifying", || t.modify_from(b, l).map_err(|e| e.to_string()))?;
                judge(x, "modify_from", l, want, m, || format!("{v:?}"))?;
            }
        }
    }
    Ok(())
}

/// Objects with register properties: `validate` judges all but those.
macro_rules! with_props {
    ($fn:ident, $t:ty, $judge:ident, $props:ident, $tpl:path, $builder:ident, $empty:expr) => {
        fn $fn(x: &mut Ctx, o: &$t, l: ValidateLevel) -> R {
            let mut bare = o.clone();
            bare.$props = RegisterProperties::new();
            let own = rules(l, false, false, |j| j.$judge(&bare));
            let m = sut("validating", || bare.validate(l).map_err(|e| e.to_string()))?;
            judge(x, "validate", l, own, m, || format!("{bare:?}"))?;
            let props = rules(l, false, false, |j| j.props(&o.$props));
            let m = sut("validating", || o.$props.validate(l).map_err(|e| e.to_string()))?;
            judge(x, "validate", l, props, m, || format!("{:?}", o.$props))?;
            let mut t = RegisterProperties::new();
            let m = sut("modifying", || t.modify_from(o.$props, l).map_err(|e| e.to_string()))?;
            judge(x, "modify_from", l, props, m, || format!("{:?}", o.$props))?;
            let m = sut("building", || o.$props.build(l).map(|_| ()).map_err(|e| e.to_string()))?;
            judge(x, "build", l, props, m, || format!("{:?}", o.$props))?;
            let all = rules(l, true, false, |j| j.$judge(o));
            let m = sut("validating", || o.validate_all(l).map_err(|e| e.to_string()))?;
            judge(x, "validate_all", l, all, m, || format!("{o:?}"))?;
            let own = rules(l, false, false, |j| j.$judge(o));
            let m = sut("building", || $builder::from(o.clone()).build(l).map(|_| ()).map_err(|e| e.to_string()))?;
            judge(x, "build", l, own, m, || format!("{o:?}"))?;
            // a modification by an empty list removes the list
            if o.derived_from.is_none() && !$empty(o) {
                let mut t = $tpl();
                let b = $builder::from(o.clone());
                let m = sut("modifying", || t.modify_from(b, l).map_err(|e| e.to_string()))?;
                judge(x, "modify_from", l, own, m, || format!("{o:?}"))?;
            }
            Ok(())
        }
    };
}
with_props!(one_peripheral, PeripheralInfo, peripheral_info, default_register_properties, gen::tpl_peripheral, PeripheralInfoBuilder, |p: &PeripheralInfo| p.registers == Some(vec![]));
with_props!(one_cluster, ClusterInfo, cluster_info, default_register_properties, gen::tpl_cluster, ClusterInfoBuilder, |_: &ClusterInfo| false);
with_props!(one_register, RegisterInfo, register_info, properties, gen::tpl_register, RegisterInfoBuilder, |r: &RegisterInfo| r.fields == Some(vec![]));
