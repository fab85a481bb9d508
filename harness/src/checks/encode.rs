//! C07 round trip, C08 structure, C09 formats, C10 sorting of the encoder.
use crate::dump::*;
use crate::gen::{self, Opt};
use crate::rng::{hash_str, Rng};
use crate::sup::*;
use crate::xml::*;
use svd_encoder::{Config, DerivableSorting, IdentifierFormat, NumberFormat, RcSorting, Sorting};
use svd_rs::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Nf {
    Ux,
    Ux8,
    Ux16,
    Lx,
    Lx8,
    Lx16,
    Dec,
    Bin,
}
pub const NFS: [Nf; 8] = [Nf::Ux, Nf::Ux8, Nf::Ux16, Nf::Lx, Nf::Lx8, Nf::Lx16, Nf::Dec, Nf::Bin];

impl Nf {
    fn name(self) -> &'static str {
        match self {
            Nf::Ux => "UpperHex",
            Nf::Ux8 => "UpperHex8",
            Nf::Ux16 => "UpperHex16",
            Nf::Lx => "LowerHex",
            Nf::Lx8 => "LowerHex8",
            Nf::Lx16 => "LowerHex16",
            Nf::Dec => "Dec",
            Nf::Bin => "Bin",
        }
    }
    fn value(self) -> NumberFormat {
        match self {
            Nf::Ux => NumberFormat::UpperHex,
            Nf::Ux8 => NumberFormat::UpperHex8,
            Nf::Ux16 => NumberFormat::UpperHex16,
            Nf::Lx => NumberFormat::LowerHex,
            Nf::Lx8 => NumberFormat::LowerHex8,
            Nf::Lx16 => NumberFormat::LowerHex16,
            Nf::Dec => NumberFormat::Dec,
            Nf::Bin => NumberFormat::Bin,
        }
    }
    pub fn text(self, v: u64) -> String {
        let digits = |base: u64, upper: bool| {
            let mut s = vec![];
            let mut n = v;
            loop {
                let d = (n % base) as u32;
                let c = char::from_digit(d, 16).unwrap();
                s.push(if upper { c.to_ascii_uppercase() } else { c });
                n /= base;
                if n == 0 {
                    break;
                }
            }
            s.reverse();
            s.into_iter().collect::<String>()
        };
        let pad = |s: String, n: usize| format!("{}{s}", "0".repeat(n.saturating_sub(s.len())));
        let wide = if v >> 32 != 0 { 16 } else { 8 };
        match self {
            Nf::Ux => format!("0x{}", digits(16, true)),
            Nf::Ux8 => format!("0x{}", pad(digits(16, true), 8)),
            Nf::Ux16 => format!("0x{}", pad(digits(16, true), wide)),
            Nf::Lx => format!("0x{}", digits(16, false)),
            Nf::Lx8 => format!("0x{}", pad(digits(16, false), 8)),
            Nf::Lx16 => format!("0x{}", pad(digits(16, false), wide)),
            Nf::Dec => digits(10, false),
            Nf::Bin => format!("0b{}", digits(2, false)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cf {
    Camel,
    Pascal,
    Snake,
    Constant,
}
pub const CFS: [Cf; 4] = [Cf::Camel, Cf::Pascal, Cf::Snake, Cf::Constant];

impl Cf {
    fn name(self) -> &'static str {
        match self {
            Cf::Camel => "Camel",
            Cf::Pascal => "Pascal",
            Cf::Snake => "Snake",
            Cf::Constant => "Constant",
        }
    }
    fn value(self) -> IdentifierFormat {
        match self {
            Cf::Camel => IdentifierFormat::Camel,
            Cf::Pascal => IdentifierFormat::Pascal,
            Cf::Snake => IdentifierFormat::Snake,
            Cf::Constant => IdentifierFormat::Constant,
        }
    }
    /// Words: split at separators, from lower to upper case, and before the
    /// last capital of an acronym.
    pub fn text(self, s: &str) -> String {
        let c: Vec<char> = s.chars().collect();
        let mut words: Vec<String> = vec![];
        let mut cur = String::new();
        for i in 0..c.len() {
            if matches!(c[i], '_' | '-' | ' ') {
                words.push(std::mem::take(&mut cur));
                continue;
            }
            if i > 0 && !cur.is_empty() {
                let up = |k: usize| c[k].is_uppercase();
                let low = |k: usize| c[k].is_lowercase();
                let lower_upper = low(i - 1) && up(i);
                let acronym = up(i - 1) && up(i) && i + 1 < c.len() && low(i + 1);
                if lower_upper || acronym {
                    words.push(std::mem::take(&mut cur));
                }
            }
            cur.push(c[i]);
        }
        words.push(cur);
        words.retain(|w| !w.is_empty());
        let cap = |w: &String| {
            let l = w.to_lowercase();
            let mut ch = l.chars();
            match ch.next() {
                Some(f) => f.to_uppercase().collect::<String>() + ch.as_str(),
                None => String::new(),
            }
        };
        let t = match self {
            Cf::Snake => words.iter().map(|w| w.to_lowercase()).collect::<Vec<_>>().join("_"),
            Cf::Constant => words.iter().map(|w| w.to_uppercase()).collect::<Vec<_>>().join("_"),
            Cf::Pascal => words.iter().map(cap).collect::<String>(),
            Cf::Camel => words
                .iter()
                .enumerate()
                .map(|(i, w)| if i == 0 { w.to_lowercase() } else { cap(w) })
                .collect::<String>(),
        };
        t.replace("%S", "%s")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord3 {
    Offset,
    Reversed,
    Name,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Srt {
    pub last: bool,
    pub by: Option<Ord3>,
    /// None unchanged, Some(true) registers first
    pub kind: Option<bool>,
}
impl Srt {
    fn random(r: &mut Rng, kinds: bool) -> Srt {
        Srt {
            last: r.bool(),
            by: *r.pick(&[None, Some(Ord3::Offset), Some(Ord3::Reversed), Some(Ord3::Name)]),
            kind: if kinds { *r.pick(&[None, Some(true), Some(false)]) } else { None },
        }
    }
    fn by(self) -> Option<Sorting> {
        self.by.map(|b| match b {
            Ord3::Offset => Sorting::Offset,
            Ord3::Reversed => Sorting::OffsetReversed,
            Ord3::Name => Sorting::Name,
        })
    }
    fn derivable(self) -> DerivableSorting {
        if self.last {
            DerivableSorting::DeriveLast(self.by())
        } else {
            DerivableSorting::Unchanged(self.by())
        }
    }
    fn rc(self) -> RcSorting {
        match self.kind {
            None => RcSorting::Unchanged(self.derivable()),
            Some(true) => RcSorting::RegistersFirst(self.derivable()),
            Some(false) => RcSorting::ClustersFirst(self.derivable()),
        }
    }
    fn text(self, r: &mut Rng) -> String {
        let mut v = vec![];
        if self.last {
            v.push("DerivedLast");
        }
        match self.by {
            Some(Ord3::Offset) => v.push("Offset"),
            Some(Ord3::Reversed) => v.push("OffsetReversed"),
            Some(Ord3::Name) => v.push("Name"),
            None => {}
        }
        match self.kind {
            Some(true) => v.push("RegistersFirst"),
            Some(false) => v.push("ClustersFirst"),
            None => {}
        }
        if v.is_empty() {
            v.push("Unchanged");
        }
        r.shuffle(&mut v);
        v.join(",")
    }
    /// The expected order of a list, as indexes.
    fn order(self, keys: &[(u64, &str, bool, bool)]) -> Vec<usize> {
        let mut v: Vec<usize> = (0..keys.len()).collect();
        // repeated stable passes, least significant first
        match self.by {
            None => {}
            Some(Ord3::Name) => v.sort_by(|&a, &b| keys[a].1.as_bytes().cmp(keys[b].1.as_bytes())),
            Some(Ord3::Offset) => v.sort_by(|&a, &b| keys[a].0.cmp(&keys[b].0)),
            Some(Ord3::Reversed) => v.sort_by(|&a, &b| keys[b].0.cmp(&keys[a].0)),
        }
        if self.last {
            v.sort_by_key(|&i| keys[i].2);
        }
        if let Some(regs) = self.kind {
            v.sort_by_key(|&i| keys[i].3 != regs);
        }
        v
    }
}

pub const NUMS: [&str; 11] = [
    "peripheral_base_address",
    "address_block_offset",
    "address_block_size",
    "cluster_address_offset",
    "register_address_offset",
    "register_size",
    "register_reset_value",
    "register_reset_mask",
    "enumerated_value_value",
    "dim_dim",
    "dim_increment",
];
pub const NAMES: [&str; 8] = [
    "peripheral_name",
    "interrupt_name",
    "cluster_name",
    "register_name",
    "field_name",
    "enumerated_values_name",
    "enumerated_value_name",
    "dim_array_index_header_enum_name",
];

/// The encoder options, as this harness understands them.
#[derive(Clone, Debug, PartialEq)]
pub struct ECfg {
    pub nums: [Nf; 11],
    pub names: [Option<Cf>; 8],
    pub bits: Option<BitRangeType>,
    pub ps: Srt,
    pub rs: Srt,
    pub fs: Srt,
}

impl ECfg {
    pub fn default() -> ECfg {
        ECfg {
            nums: [
                Nf::Ux8,
                Nf::Ux,
                Nf::Ux,
                Nf::Ux,
                Nf::Ux,
                Nf::Lx,
                Nf::Ux16,
                Nf::Ux16,
                Nf::Dec,
                Nf::Dec,
                Nf::Ux,
            ],
            names: [None; 8],
            bits: None,
            ps: Srt::default(),
            rs: Srt::default(),
            fs: Srt::default(),
        }
    }
    pub fn random_formats(r: &mut Rng) -> ECfg {
        let mut c = ECfg::default();
        match r.below(4) {
            0 => {
                // one option alone
                match r.below(20) {
                    i @ 0..=10 => c.nums[i] = *r.pick(&NFS),
                    i @ 11..=18 => c.names[i - 11] = Some(*r.pick(&CFS)),
                    _ => c.bits = Some(bits(r)),
                }
            }
            1 => {
                for i in 0..11 {
                    c.nums[i] = *r.pick(&NFS);
                }
            }
            2 => {
                for i in 0..8 {
                    c.names[i] = if r.pct(70) { Some(*r.pick(&CFS)) } else { None };
                }
                c.bits = if r.bool() { Some(bits(r)) } else { None };
            }
            _ => {
                for i in 0..11 {
                    if r.bool() {
                        c.nums[i] = *r.pick(&NFS);
                    }
                }
                for i in 0..8 {
                    c.names[i] = if r.bool() { Some(*r.pick(&CFS)) } else { None };
                }
                c.bits = if r.bool() { Some(bits(r)) } else { None };
            }
        }
        c
    }
    /// Nothing but the defaults.
    pub fn plain(&self) -> bool {
        format!("{self:?}") == format!("{:?}", ECfg::default())
    }
    pub fn random_sorting(r: &mut Rng) -> ECfg {
        let mut c = ECfg::default();
        let k = r.below(4);
        if k == 0 || k == 3 {
            c.ps = Srt::random(r, false);
        }
        if k == 1 || k == 3 {
            c.rs = Srt::random(r, true);
        }
        if k == 2 || k == 3 {
            c.fs = Srt::random(r, false);
        }
        c
    }
    /// By assignment of the public fields.
    pub fn direct(&self) -> Config {
        let mut c = Config::default();
        let n = |i: usize| self.nums[i].value();
        c.peripheral_base_address = n(0);
        c.address_block_offset = n(1);
        c.address_block_size = n(2);
        c.cluster_address_offset = n(3);
        c.register_address_offset = n(4);
        c.register_size = n(5);
        c.register_reset_value = n(6);
        c.register_reset_mask = n(7);
        c.enumerated_value_value = n(8);
        c.dim_dim = n(9);
        c.dim_increment = n(10);
        let n = |i: usize| self.names[i].map(Cf::value);
        c.peripheral_name = n(0);
        c.interrupt_name = n(1);
        c.cluster_name = n(2);
        c.register_name = n(3);
        c.field_name = n(4);
        c.enumerated_values_name = n(5);
        c.enumerated_value_name = n(6);
        c.dim_array_index_header_enum_name = n(7);
        if let Some(b) = self.bits {
            c.update("field_bit_range", bits_name(b));
        }
        c.peripheral_sorting = self.ps.derivable();
        c.register_cluster_sorting = self.rs.rc();
        c.field_sorting = self.fs.derivable();
        c
    }
    /// By the setters.
    pub fn setters(&self) -> Config {
        let mut c = Config::default();
        let n = |i: usize| self.nums[i].value();
        let m = |i: usize| self.names[i].map(Cf::value);
        c = c
            .peripheral_base_address(n(0))
            .address_block_offset(n(1))
            .address_block_size(n(2))
            .cluster_address_offset(n(3))
            .register_address_offset(n(4))
            .register_size(n(5))
            .register_reset_value(n(6))
            .register_reset_mask(n(7))
            .enumerated_value_value(n(8))
            .dim_dim(n(9))
            .dim_increment(n(10))
            .peripheral_name(m(0))
            .interrupt_name(m(1))
            .cluster_name(m(2))
            .register_name(m(3))
            .field_name(m(4))
            .enumerated_values_name(m(5))
            .enumerated_value_name(m(6))
            .peripheral_sorting(self.ps.derivable())
            .register_cluster_sorting(self.rs.rc())
            .field_sorting(self.fs.derivable());
        c.dim_array_index_header_enum_name = m(7);
        if let Some(b) = self.bits {
            c.update("field_bit_range", bits_name(b));
        }
        c
    }
    /// By names and texts, in random order.
    pub fn texts(&self, r: &mut Rng) -> Config {
        let mut v: Vec<(&str, String)> = vec![];
        for i in 0..11 {
            if self.nums[i] != ECfg::default().nums[i] || r.bool() {
                v.push((NUMS[i], self.nums[i].name().into()));
            }
        }
        for i in 0..8 {
            if let Some(c) = self.names[i] {
                v.push((NAMES[i], c.name().into()));
            }
        }
        if let Some(b) = self.bits {
            v.push(("field_bit_range", bits_name(b).into()));
        }
        for (k, s) in [
            ("peripheral_sorting", self.ps),
            ("register_cluster_sorting", self.rs),
            ("field_sorting", self.fs),
        ] {
            if s != Srt::default() || r.pct(20) {
                v.push((k, s.text(r)));
            }
        }
        r.shuffle(&mut v);
        // what an option was set to before does not matter
        for i in 0..v.len() {
            if !r.pct(30) {
                continue;
            }
            let k = v[i].0;
            let x = if NUMS.contains(&k) {
                r.pick(&NFS).name().to_string()
            } else if NAMES.contains(&k) {
                r.pick(&CFS).name().to_string()
            } else if k == "field_bit_range" {
                bits_name(bits(r)).to_string()
            } else {
                Srt::random(r, k == "register_cluster_sorting").text(r)
            };
            let at = r.below(i + 1);
            v.insert(at, (k, x));
        }
        let mut c = Config::default();
        for (k, x) in v {
            c.update(k, &x);
        }
        c
    }
}

fn bits(r: &mut Rng) -> BitRangeType {
    *r.pick(&[BitRangeType::BitRange, BitRangeType::OffsetWidth, BitRangeType::MsbLsb])
}
fn bits_name(b: BitRangeType) -> &'static str {
    match b {
        BitRangeType::BitRange => "BitRange",
        BitRangeType::OffsetWidth => "OffsetWidth",
        BitRangeType::MsbLsb => "MsbLsb",
    }
}

/// What the encoder has to write.
pub struct Pred<'c> {
    pub c: &'c ECfg,
}

impl Pred<'_> {
    pub fn num(&self, i: usize, v: u64) -> String {
        self.c.nums[i].text(v)
    }
    pub fn nm(&self, i: usize, v: &str) -> String {
        match self.c.names[i] {
            Some(f) => f.text(v),
            None => v.to_string(),
        }
    }
    pub fn t(&self, e: &mut El, tag: &str, v: &str) {
        e.push(El::leaf(tag, v));
    }
    pub fn ot(&self, e: &mut El, tag: &str, v: &Option<String>) {
        if let Some(v) = v {
            self.t(e, tag, v);
        }
    }
    pub fn on(&self, e: &mut El, tag: &str, k: usize, v: &Option<String>) {
        if let Some(v) = v {
            self.t(e, tag, &self.nm(k, v));
        }
    }
    pub fn from(&self, e: &mut El, k: usize, v: &Option<String>) {
        if let Some(v) = v {
            e.attrs.push(("derivedFrom".into(), self.nm(k, v)));
        }
    }
    pub fn props(&self, e: &mut El, p: &RegisterProperties) {
        if let Some(v) = p.size {
            self.t(e, "size", &self.num(5, v as u64));
        }
        if let Some(v) = p.access {
            self.t(e, "access", access(v));
        }
        if let Some(v) = p.protection {
            self.t(e, "protection", protection(v));
        }
        if let Some(v) = p.reset_value {
            self.t(e, "resetValue", &self.num(6, v));
        }
        if let Some(v) = p.reset_mask {
            self.t(e, "resetMask", &self.num(7, v));
        }
    }
    pub fn ev(&self, v: &EnumeratedValue) -> El {
        let mut e = El::new("enumeratedValue");
        self.t(&mut e, "name", &self.nm(6, &v.name));
        self.ot(&mut e, "description", &v.description);
        if let Some(v) = v.value {
            self.t(&mut e, "value", &self.num(8, v));
        }
        if let Some(v) = v.is_default {
            self.t(&mut e, "isDefault", if v { "true" } else { "false" });
        }
        e
    }
    pub fn evs(&self, v: &EnumeratedValues) -> El {
        let mut e = El::new("enumeratedValues");
        self.from(&mut e, 5, &v.derived_from);
        self.on(&mut e, "name", 5, &v.name);
        if let Some(u) = v.usage {
            self.t(&mut e, "usage", usage(u));
        }
        for x in &v.values {
            e.push(self.ev(x));
        }
        e
    }
    pub fn dim(&self, e: &mut El, d: Option<&DimElement>) {
        let Some(d) = d else { return };
        self.t(e, "dim", &self.num(9, d.dim as u64));
        self.t(e, "dimIncrement", &self.num(10, d.dim_increment as u64));
        if let Some(l) = &d.dim_index {
            self.t(e, "dimIndex", &index_text(l));
        }
        self.ot(e, "dimName", &d.dim_name);
        if let Some(x) = &d.dim_array_index {
            e.push(self.dai(x));
        }
    }
    pub fn wc(&self, e: &mut El, w: &WriteConstraint) {
        let mut c = El::new("writeConstraint");
        let b = |v: bool| if v { "true" } else { "false" };
        match w {
            WriteConstraint::WriteAsRead(v) => self.t(&mut c, "writeAsRead", b(*v)),
            WriteConstraint::UseEnumeratedValues(v) => self.t(&mut c, "useEnumeratedValues", b(*v)),
            WriteConstraint::Range(r) => {
                let mut x = El::new("range");
                self.t(&mut x, "minimum", &r.min.to_string());
                self.t(&mut x, "maximum", &r.max.to_string());
                c.push(x);
            }
        }
        e.push(c);
    }
    pub fn field(&self, f: &Field) -> El {
        let (f, d) = split(f);
        let mut e = El::new("field");
        self.from(&mut e, 4, &f.derived_from);
        self.dim(&mut e, d);
        self.t(&mut e, "name", &self.nm(4, &f.name));
        self.ot(&mut e, "description", &f.description);
        let b = f.bit_range;
        let msb = b.offset as u64 + b.width as u64 - 1;
        match self.c.bits.unwrap_or(b.range_type) {
            BitRangeType::BitRange => self.t(&mut e, "bitRange", &format!("[{msb}:{}]", b.offset)),
            BitRangeType::OffsetWidth => {
                self.t(&mut e, "bitOffset", &b.offset.to_string());
                self.t(&mut e, "bitWidth", &b.width.to_string());
            }
            BitRangeType::MsbLsb => {
                self.t(&mut e, "lsb", &b.offset.to_string());
                self.t(&mut e, "msb", &msb.to_string());
            }
        }
        if let Some(v) = f.access {
            self.t(&mut e, "access", access(v));
        }
        if let Some(v) = f.modified_write_values {
            self.t(&mut e, "modifiedWriteValues", mwv(v));
        }
        if let Some(v) = &f.write_constraint {
            self.wc(&mut e, v);
        }
        if let Some(v) = f.read_action {
            self.t(&mut e, "readAction", readaction(v));
        }
        for v in &f.enumerated_values {
            e.push(self.evs(v));
        }
        e
    }
    pub fn register(&self, r: &Register) -> El {
        let (r, d) = split(r);
        let mut e = El::new("register");
        self.from(&mut e, 3, &r.derived_from);
        self.dim(&mut e, d);
        self.t(&mut e, "name", &self.nm(3, &r.name));
        self.ot(&mut e, "displayName", &r.display_name);
        self.ot(&mut e, "description", &r.description);
        self.ot(&mut e, "alternateGroup", &r.alternate_group);
        self.on(&mut e, "alternateRegister", 3, &r.alternate_register);
        self.t(&mut e, "addressOffset", &self.num(4, r.address_offset as u64));
        self.props(&mut e, &r.properties);
        if let Some(v) = r.datatype {
            self.t(&mut e, "dataType", datatype(v));
        }
        if let Some(v) = r.modified_write_values {
            self.t(&mut e, "modifiedWriteValues", mwv(v));
        }
        if let Some(v) = &r.write_constraint {
            self.wc(&mut e, v);
        }
        if let Some(v) = r.read_action {
            self.t(&mut e, "readAction", readaction(v));
        }
        if let Some(v) = r.fields.as_ref().filter(|v| !v.is_empty()) {
            let mut fs = El::new("fields");
            let keys: Vec<_> = v
                .iter()
                .map(|f| {
                    let f = split(f).0;
                    (
                        f.bit_range.offset as u64,
                        f.name.as_str(),
                        f.derived_from.is_some()
                            || f.enumerated_values.iter().any(|e| e.derived_from.is_some()),
                        true,
                    )
                })
                .collect();
            for i in self.c.fs.order(&keys) {
                fs.push(self.field(&v[i]));
            }
            e.push(fs);
        }
        e
    }
    pub fn cluster(&self, c: &Cluster) -> El {
        let (c, d) = split(c);
        let mut e = El::new("cluster");
        self.from(&mut e, 2, &c.derived_from);
        self.dim(&mut e, d);
        self.t(&mut e, "name", &self.nm(2, &c.name));
        self.ot(&mut e, "description", &c.description);
        self.on(&mut e, "alternateCluster", 2, &c.alternate_cluster);
        self.ot(&mut e, "headerStructName", &c.header_struct_name);
        self.t(&mut e, "addressOffset", &self.num(3, c.address_offset as u64));
        self.props(&mut e, &c.default_register_properties);
        for x in &c.children {
            e.push(self.rc(x));
        }
        e
    }
    pub fn rc(&self, x: &RegisterCluster) -> El {
        match x {
            RegisterCluster::Register(r) => self.register(r),
            RegisterCluster::Cluster(c) => self.cluster(c),
        }
    }
    pub fn peripheral(&self, p: &Peripheral) -> El {
        let (p, d) = split(p);
        let mut e = El::new("peripheral");
        self.from(&mut e, 0, &p.derived_from);
        self.dim(&mut e, d);
        self.t(&mut e, "name", &self.nm(0, &p.name));
        self.ot(&mut e, "displayName", &p.display_name);
        self.ot(&mut e, "version", &p.version);
        self.ot(&mut e, "description", &p.description);
        self.on(&mut e, "alternatePeripheral", 0, &p.alternate_peripheral);
        self.ot(&mut e, "groupName", &p.group_name);
        self.on(&mut e, "prependToName", 0, &p.prepend_to_name);
        self.on(&mut e, "appendToName", 0, &p.append_to_name);
        self.on(&mut e, "headerStructName", 0, &p.header_struct_name);
        self.t(&mut e, "baseAddress", &self.num(0, p.base_address));
        self.props(&mut e, &p.default_register_properties);
        for a in p.address_block.iter().flatten() {
            e.push(self.block(a));
        }
        for i in &p.interrupt {
            e.push(self.interrupt(i));
        }
        if let Some(v) = &p.registers {
            let mut rs = El::new("registers");
            let keys: Vec<_> = v
                .iter()
                .map(|x| match x {
                    RegisterCluster::Register(r) => {
                        let r = split(r).0;
                        (r.address_offset as u64, r.name.as_str(), r.derived_from.is_some(), true)
                    }
                    RegisterCluster::Cluster(c) => {
                        let c = split(c).0;
                        (c.address_offset as u64, c.name.as_str(), c.derived_from.is_some(), false)
                    }
                })
                .collect();
            for i in self.c.rs.order(&keys) {
                rs.push(self.rc(&v[i]));
            }
            e.push(rs);
        }
        e
    }
    pub fn block(&self, a: &AddressBlock) -> El {
        let mut x = El::new("addressBlock");
        self.t(&mut x, "offset", &self.num(1, a.offset as u64));
        self.t(&mut x, "size", &self.num(2, a.size as u64));
        self.t(&mut x, "usage", abusage(a.usage));
        if let Some(v) = a.protection {
            self.t(&mut x, "protection", protection(v));
        }
        x
    }
    pub fn interrupt(&self, i: &Interrupt) -> El {
        let mut x = El::new("interrupt");
        self.t(&mut x, "name", &self.nm(1, &i.name));
        self.ot(&mut x, "description", &i.description);
        self.t(&mut x, "value", &i.value.to_string());
        x
    }
    pub fn dai(&self, x: &DimArrayIndex) -> El {
        let mut a = El::new("dimArrayIndex");
        self.on(&mut a, "headerEnumName", 7, &x.header_enum_name);
        for v in &x.values {
            a.push(self.ev(v));
        }
        a
    }
    pub fn cpu(&self, c: &Cpu) -> El {
        // plain notation is the encoder's notation here
        let mut rng = Rng::new(0);
        let mut s = Sty { r: &mut rng, vary: false };
        let mut only = gen::tpl_device();
        only.cpu = Some(c.clone());
        s.device(&only).child("cpu").unwrap().clone()
    }
    pub fn device(&self, d: &Device) -> El {
        let mut e = El::new("device");
        e.attrs.push(("schemaVersion".into(), d.schema_version.clone()));
        e.attrs.push(("xmlns:xs".into(), d.xmlns_xs.clone()));
        e.attrs
            .push(("xs:noNamespaceSchemaLocation".into(), d.no_namespace_schema_location.clone()));
        self.ot(&mut e, "vendor", &d.vendor);
        self.ot(&mut e, "vendorID", &d.vendor_id);
        self.t(&mut e, "name", &d.name);
        self.ot(&mut e, "series", &d.series);
        self.t(&mut e, "version", &d.version);
        self.t(&mut e, "description", &d.description);
        self.ot(&mut e, "licenseText", &d.license_text);
        if let Some(c) = &d.cpu {
            e.push(self.cpu(c));
        }
        self.ot(&mut e, "headerSystemFilename", &d.header_system_filename);
        self.ot(&mut e, "headerDefinitionsPrefix", &d.header_definitions_prefix);
        self.t(&mut e, "addressUnitBits", &d.address_unit_bits.to_string());
        self.t(&mut e, "width", &d.width.to_string());
        self.props(&mut e, &d.default_register_properties);
        let mut ps = El::new("peripherals");
        let keys: Vec<_> = d
            .peripherals
            .iter()
            .map(|p| {
                let p = split(p).0;
                (p.base_address, p.name.as_str(), p.derived_from.is_some(), true)
            })
            .collect();
        for i in self.c.ps.order(&keys) {
            ps.push(self.peripheral(&d.peripherals[i]));
        }
        e.push(ps);
        e
    }
}

/// An index list is written as a range when it is a run of plain numbers.
fn index_text(l: &[String]) -> String {
    let plain = |s: &String| {
        !s.is_empty()
            && s.bytes().all(|b| b.is_ascii_digit())
            && (s == "0" || !s.starts_with('0'))
            && s.parse::<u32>().is_ok()
    };
    if !l.is_empty() && l.iter().all(plain) {
        let n: Vec<u64> = l.iter().map(|s| s.parse().unwrap()).collect();
        if n.windows(2).all(|w| w[1] == w[0] + 1) {
            return format!("{}-{}", n[0], n[n.len() - 1]);
        }
    }
    l.join(",")
}

/// First difference between the expected and the written element.
pub fn el_diff(want: &El, got: &El, path: &str) -> Option<String> {
    let path = format!("{path}/{}", want.tag);
    if want.tag != got.tag {
        return Some(format!("{path}: <{}> wanted, <{}> found", want.tag, got.tag));
    }
    let mut a = want.attrs.clone();
    let mut b = got.attrs.clone();
    a.sort();
    b.sort();
    if a != b {
        return Some(format!("{path}: attributes {a:?} wanted, {b:?} found"));
    }
    let ka: Vec<&El> = want.els().collect();
    let kb: Vec<&El> = got.els().collect();
    if ka.is_empty() && kb.is_empty() {
        if want.text() != got.text() {
            return Some(format!("{path}: text {:?} wanted, {:?} found", want.text(), got.text()));
        }
        return None;
    }
    if !got.text().trim().is_empty() && !kb.is_empty() {
        return Some(format!("{path}: stray text {:?}", got.text()));
    }
    for (i, (x, y)) in ka.iter().zip(&kb).enumerate() {
        let p = format!("{path}[{i}]");
        if let Some(d) = el_diff(x, y, &p) {
            return Some(d);
        }
    }
    if ka.len() != kb.len() {
        let n = ka.len().min(kb.len());
        return Some(match ka.get(n) {
            Some(x) => format!("{path}: <{}> wanted, missing", x.tag),
            None => format!("{path}: <{}> not wanted", kb[n].tag),
        });
    }
    None
}

pub fn parse_xml(text: &str) -> Result<El, String> {
    let mut opt = roxmltree::ParsingOptions::default();
    opt.nodes_limit = u32::MAX;
    let doc = roxmltree::Document::parse_with_options(text, opt).map_err(|e| e.to_string())?;
    let root = doc.root_element();
    let mut e = from_rox(root);
    for n in root.namespaces() {
        match n.name() {
            Some("xml") => {}
            Some(p) => e.attrs.push((format!("xmlns:{p}"), n.uri().to_string())),
            None => e.attrs.push(("xmlns".into(), n.uri().to_string())),
        }
    }
    Ok(e)
}

fn level(lvl: u8) -> ValidateLevel {
    match lvl {
        0 => ValidateLevel::Disabled,
        1 => ValidateLevel::Weak,
        _ => ValidateLevel::Strict,
    }
}

pub fn parse_at(text: &str, l: ValidateLevel) -> R<Result<Device, String>> {
    sut("parsing", || {
        svd_parser::parse_with_config(text, &svd_parser::Config::default().validate_level(l))
            .map_err(|e| format!("{e:#}"))
    })
}

pub fn encode(d: &Device, c: &Config) -> R<String> {
    sut("encoding", || svd_encoder::encode_with_config(d, c).unwrap())
}

pub fn c07(x: &mut Ctx) -> R {
    let lvl = x.rng.below(3) as u8;
    let mut o = Opt::random(&mut x.rng, lvl);
    o.unique = x.rng.pct(60);
    let d = gen::device(&mut x.rng, o);
    let want = device(&d);
    let text = sut("encoding", || svd_encoder::encode(&d).unwrap())?;
    x.eval();
    x.seen(want.hash64());
    x.ev("values compared", want.nodes());
    x.sample(|| text.clone());
    let back = match parse_at(&text, level(lvl))? {
        Ok(b) => b,
        Err(e) => return fail("not parsed", format!("the encoded device does not parse: {e}"), text),
    };
    if let Some(e) = diff(&want, &device(&back)) {
        return fail("differs", format!("after encoding and parsing: {e}"), text);
    }
    if back != d {
        return fail("eq", "the parsed device is not == to the original one", text);
    }
    let again = sut("encoding", || svd_encoder::encode(&back).unwrap())?;
    if again != text {
        return fail("text", "encoding the parsed device gives another text", format!("{text}\n---\n{again}"));
    }
    x.ev("round trips", 1);
    Ok(())
}

pub fn c08(x: &mut Ctx) -> R {
    let lvl = x.rng.below(3) as u8;
    let mut o = Opt::random(&mut x.rng, lvl);
    o.unique = x.rng.pct(80);
    o.empty_fields = x.rng.pct(20);
    let d = gen::device(&mut x.rng, o);
    let c = ECfg::default();
    let text = sut("encoding", || svd_encoder::encode(&d).unwrap())?;
    judge(x, &d, &c, &text)?;
    x.ev("documents", 1);
    if text.contains("&lt;") || text.contains("&amp;") {
        x.ev("documents with escapes", 1);
    }
    Ok(())
}

fn judge(x: &mut Ctx, d: &Device, c: &ECfg, text: &str) -> R {
    x.eval();
    x.seen(hash_str(text));
    x.sample(|| text.to_string());
    let got = match parse_xml(text) {
        Ok(e) => e,
        Err(e) => return fail("malformed", format!("the output is not well-formed XML: {e}"), text),
    };
    let want = Pred { c }.device(d);
    x.ev("elements compared", want.count());
    if let Some(e) = el_diff(&want, &got, "") {
        let kind = if e.contains(": text") { "text" } else { "structure" };
        return fail(kind, format!("output: {e}"), format!("{c:?}\n{text}"));
    }
    Ok(())
}

pub fn c09(x: &mut Ctx) -> R {
    let lvl = if x.rng.pct(60) { 2 } else { x.rng.below(2) as u8 };
    let mut o = Opt::random(&mut x.rng, lvl);
    o.wordy = true;
    o.wild_text = x.rng.pct(20);
    o.unique = x.rng.pct(60);
    let d = gen::device(&mut x.rng, o);
    let c = ECfg::random_formats(&mut x.rng);
    let a = sut("Config::update", || c.direct())?;
    let text = encode(&d, &a)?;
    judge(x, &d, &c, &text)?;
    x.ev("documents", 1);
    for i in 0..11 {
        if c.nums[i] != ECfg::default().nums[i] {
            x.ev(&format!("option {}", NUMS[i]), 1);
        }
    }
    for i in 0..8 {
        if c.names[i].is_some() {
            x.ev(&format!("option {}", NAMES[i]), 1);
        }
    }
    // by setters, and by names and texts
    let b = c.setters();
    let t2 = encode(&d, &b)?;
    if t2 != text {
        return fail("setters", "setting options by setters and directly differ", format!("{c:?}\n{text}\n---\n{t2}"));
    }
    let mut r = x.rng.clone();
    let b = sut("Config::update", || c.texts(&mut r))?;
    let t3 = encode(&d, &b)?;
    if t3 != text {
        return fail("update", "setting options by text and directly differ", format!("{c:?}\n{text}\n---\n{t3}"));
    }
    if c.names.iter().all(Option::is_none) {
        // all numbers still denote the same values
        let back = match parse_at(&text, level(lvl))? {
            Ok(b) => b,
            Err(e) => return fail("not parsed", format!("the formatted output does not parse: {e}"), text),
        };
        let (mut want, mut got) = (device(&d), device(&back));
        if c.bits.is_some() {
            want = want.without(&["range_type"]);
            got = got.without(&["range_type"]);
        }
        if let Some(e) = diff(&want, &got) {
            return fail("denotes", format!("formatted output denotes another device: {e}"), text);
        }
        x.ev("read back", 1);
    }
    Ok(())
}

/// Fewer distinct keys, so that ties and order changes are frequent.
fn collide(d: &mut Device, r: &mut Rng) {
    const BASE: [u64; 8] = [
        0,
        1,
        0x4000_0000,
        0x8000_0000,
        0xffff_ffff,
        0x1_0000_0000,
        0x8000_0000_0000_0000,
        u64::MAX,
    ];
    const OFFS: [u32; 7] = [0, 4, 8, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, u32::MAX];
    fn rcs(v: &mut [RegisterCluster], r: &mut Rng, pct: usize) {
        for x in v {
            match x {
                RegisterCluster::Register(g) => {
                    let g = split_mut(g).0;
                    if r.pct(pct) {
                        g.address_offset = *r.pick(&OFFS);
                    }
                    for f in g.fields.iter_mut().flatten() {
                        let f = split_mut(f).0;
                        if r.pct(pct) {
                            let o = *r.pick(&OFFS);
                            f.bit_range.offset = o.min(u32::MAX - (f.bit_range.width - 1));
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let c = split_mut(c).0;
                    if r.pct(pct) {
                        c.address_offset = *r.pick(&OFFS);
                    }
                    rcs(&mut c.children, r, pct);
                }
            }
        }
    }
    let pct = *r.pick(&[0, 50, 90]);
    for p in &mut d.peripherals {
        let p = split_mut(p).0;
        if r.pct(pct) {
            p.base_address = *r.pick(&BASE);
        }
        if let Some(v) = &mut p.registers {
            rcs(v, r, pct);
        }
    }
}

/// Siblings whose names differ in little, so that any order of names other than
/// that of their characters shows.
fn alike(d: &mut Device, r: &mut Rng) {
    const TAILS: [&str; 22] = [
        "", "9", "10", "2", "02", "1", "100", "A", "a", "B", "_", "_1", "_A", "-1", "1A", "10_2", "é", "%s", "[%s]",
        "%s_1", "2%s", "10%s",
    ];
    let stem = r.pick(&["R", "r", "CH", "x_", "é"]).to_string();
    let pct = *r.pick(&[50, 100]);
    let name = move |array: bool, n: &mut String, r: &mut Rng| {
        if !r.pct(pct) {
            return;
        }
        *n = match r.below(8) {
            0 => format!("{}{}", stem.to_uppercase(), r.pick(&TAILS)),
            1 => format!("{}{}", stem.to_lowercase(), r.pick(&TAILS)),
            _ => format!("{stem}{}", r.pick(&TAILS)),
        };
        if array && !n.contains("%s") {
            n.push_str("%s");
        }
    };
    fn rcs(v: &mut [RegisterCluster], name: &dyn Fn(bool, &mut String, &mut Rng), r: &mut Rng) {
        for x in v {
            match x {
                RegisterCluster::Register(g) => {
                    name(g.is_array(), &mut split_mut(g).0.name, r);
                    for f in split_mut(g).0.fields.iter_mut().flatten() {
                        name(f.is_array(), &mut split_mut(f).0.name, r);
                    }
                }
                RegisterCluster::Cluster(c) => {
                    name(c.is_array(), &mut split_mut(c).0.name, r);
                    rcs(&mut split_mut(c).0.children, name, r);
                }
            }
        }
    }
    for p in &mut d.peripherals {
        name(p.is_array(), &mut split_mut(p).0.name, r);
        if let Some(v) = &mut split_mut(p).0.registers {
            rcs(v, &name, r);
        }
    }
}

/// Long lists of siblings with few distinct keys, told apart by a description.
fn crowd(d: &mut Device, r: &mut Rng) {
    fn many<T: Clone>(v: &mut Vec<T>, r: &mut Rng, mut mark: impl FnMut(&mut T, String, &mut Rng)) {
        if v.is_empty() {
            return;
        }
        let n = r.range(22, 90);
        let seeds = v.len().min(6);
        v.truncate(seeds);
        while v.len() < n {
            let t = v[r.below(seeds)].clone();
            v.push(t);
        }
        for (i, t) in v.iter_mut().enumerate() {
            mark(t, format!("no {i}"), r);
        }
    }
    let kind = r.below(3);
    let keys = r.range(1, 9);
    let derived = r.pct(50);
    if kind == 0 {
        many(&mut d.peripherals, r, |p, t, r| {
            let p = split_mut(p).0;
            p.description = Some(t);
            p.base_address = (r.below(keys) as u64) << 30;
            if derived {
                p.derived_from = if r.bool() { Some("X".into()) } else { None };
            }
            p.registers = None;
        });
        return;
    }
    for p in &mut d.peripherals {
        let p = split_mut(p).0;
        let Some(v) = p.registers.as_mut() else { continue };
        if kind == 1 {
            many(v, r, |rc, t, r| match rc {
                RegisterCluster::Register(g) => {
                    let g = split_mut(g).0;
                    g.description = Some(t);
                    g.address_offset = (r.below(keys) as u32) << 29;
                    g.fields = None;
                    if derived {
                        g.derived_from = if r.bool() { Some("X".into()) } else { None };
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let c = split_mut(c).0;
                    c.description = Some(t);
                    c.address_offset = (r.below(keys) as u32) << 29;
                    if derived {
                        c.derived_from = if r.bool() { Some("X".into()) } else { None };
                    }
                    c.children.truncate(1);
                }
            });
            return;
        }
        for rc in v {
            let RegisterCluster::Register(g) = rc else { continue };
            let Some(fs) = split_mut(g).0.fields.as_mut() else { continue };
            many(fs, r, |f, t, r| {
                let f = split_mut(f).0;
                f.description = Some(t);
                f.bit_range.width = 1;
                f.bit_range.offset = r.below(keys) as u32;
                if derived {
                    f.derived_from = if r.bool() { Some("X".into()) } else { None };
                }
            });
            return;
        }
    }
}

pub fn c10(x: &mut Ctx) -> R {
    let mut o = Opt::random(&mut x.rng, 0);
    o.derive = x.rng.pct(80);
    o.unique = x.rng.bool();
    o.max_depth = x.rng.range(1, 3);
    o.dense = *x.rng.pick(&[0, 10, 40]);
    if x.rng.pct(30) {
        o.budget = 150;
    }
    let mut d = gen::device(&mut x.rng, o);
    collide(&mut d, &mut x.rng);
    if x.rng.pct(15) {
        crowd(&mut d, &mut x.rng);
        x.ev("long lists with few distinct keys", 1);
    }
    if x.rng.pct(25) {
        alike(&mut d, &mut x.rng);
        x.ev("devices with siblings of similar names", 1);
    }
    let mut c = ECfg::random_sorting(&mut x.rng);
    if x.rng.pct(15) {
        // together with formats
        let f = ECfg::random_formats(&mut x.rng);
        c = ECfg { ps: c.ps, rs: c.rs, fs: c.fs, ..f };
    }
    let text = if x.rng.bool() {
        encode(&d, &c.direct())?
    } else {
        let mut r = x.rng.clone();
        let b = sut("Config::update", || c.texts(&mut r))?;
        encode(&d, &b)?
    };
    judge(x, &d, &c, &text)?;
    if c.ps != Srt::default() && d.peripherals.len() > 1 {
        x.ev("sorted peripheral lists", 1);
    }
    if c.rs != Srt::default() {
        x.ev("register lists under sorting", d.peripherals.len());
    }
    if c.fs != Srt::default() {
        x.ev("field lists under sorting", 1);
    }
    Ok(())
}
