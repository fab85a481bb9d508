//! Random devices. Objects are made with a minimal builder call at disabled
//! validation and then filled by direct assignment of their public fields.
use crate::dump::*;
use crate::rng::Rng;
use svd_rs::ValidateLevel::Disabled;
use svd_rs::*;

#[derive(Clone, Debug)]
pub struct Opt {
    /// 0: anything of the right shape, 1: valid at weak level, 2: valid at strict level
    pub lvl: u8,
    /// number of elements to aim for
    pub budget: usize,
    pub max_depth: usize,
    pub arrays: bool,
    pub clusters: bool,
    /// random derivedFrom texts that resolve to nothing
    pub derive: bool,
    /// sibling names unique, also after expansion
    pub unique: bool,
    /// texts with markup characters, non-ASCII, line breaks
    pub wild_text: bool,
    /// offsets and increments small enough for expansion
    pub fit: bool,
    /// bit ranges inside 0..64
    pub small_bits: bool,
    /// allow `fields: Some([])`
    pub empty_fields: bool,
    /// ASCII identifiers made of words, for case conversion
    pub wordy: bool,
    /// enumerations
    pub enums: bool,
    /// everything optional is present with this probability
    pub dense: usize,
}

impl Opt {
    pub fn random(r: &mut Rng, lvl: u8) -> Opt {
        Opt {
            lvl,
            budget: match r.below(12) {
                0 => 1,
                1 | 2 => 6,
                3..=8 => 25,
                9 | 10 => 60,
                _ => 200,
            },
            max_depth: *r.pick(&[1, 2, 3, 3, 4, 6]),
            arrays: r.pct(75),
            clusters: r.pct(80),
            derive: r.pct(50),
            unique: true,
            wild_text: r.pct(60),
            fit: false,
            small_bits: r.pct(60),
            empty_fields: false,
            wordy: r.pct(50),
            enums: r.pct(85),
            dense: *r.pick(&[0, 15, 30, 50, 50, 75, 100]),
        }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub o: Opt,
    pub n: u32,
    pub left: isize,
    /// names of the elements around, without placeholders
    pub outer: Vec<String>,
}

const WORDS: &[&str] = &[
    "GPIO", "gpio", "Ctrl", "STATUS", "x", "A", "Dma", "rx", "TX", "CR", "sr", "Int", "EN", "en",
    "UART", "Usb", "timer", "HSE", "pllRdy", "fooBarBaz", "ABCDef", "HTTPServer", "a1", "B2", "r0",
    "X9Y", "u8", "D10", "abcDEF", "iOS", "Z",
];
const TEXTS: &[&str] = &[
    "Description",
    "a",
    "0",
    "Control register, bits 3-0",
    "100 %",
    "value: [7:0]",
    "1.2",
    "true",
    "r1p0",
    "%s",
    "item %s of [%s]",
    "ch %s",
];
const WILD: &[&str] = &[
    "<b>&\"quoted\" 'single'</b>",
    "a<b && c>d",
    "]]>",
    "<![CDATA[x]]>",
    "&amp; &lt;",
    "&#65;",
    "line one\nline two",
    "line one\n\n   indented\n\ttab",
    "Grüße, Ω≥µ 漢字 🦀",
    "a  b   c",
    "<!-- not a comment -->",
    "<?pi?>",
    "\u{a0}nbsp\u{a0}inside\u{a0}.",
    "- dash, comma",
    "{\"json\": [1, 2]}",
    "key: value # yaml",
    "'",
    "\"",
    "null",
    "~",
    "0x10",
    "1e3",
    "-",
    "\\n \\\\ \\t",
    "line one\r\nline two",
    "old\rline ends",
    "\u{7f}\u{85}x",
];

fn base26(mut n: u32) -> String {
    // letters without q
    const L: &[u8] = b"abcdefghijklmnoprstuvwxyz";
    let mut s = String::new();
    loop {
        s.push(L[(n % 25) as usize] as char);
        n /= 25;
        if n == 0 {
            return s;
        }
    }
}

pub fn tpl_device() -> Device {
    Device::builder()
        .name("d".into())
        .version("1".into())
        .description("d".into())
        .address_unit_bits(8)
        .width(32)
        .peripherals(vec![])
        .build(Disabled)
        .expect("minimal device")
}
pub fn tpl_peripheral() -> PeripheralInfo {
    PeripheralInfo::builder()
        .name("p".into())
        .base_address(0)
        .build(Disabled)
        .expect("minimal peripheral")
}
pub fn tpl_cluster() -> ClusterInfo {
    ClusterInfo::builder()
        .name("c".into())
        .address_offset(0)
        .children(vec![])
        .build(Disabled)
        .expect("minimal cluster")
}
pub fn tpl_register() -> RegisterInfo {
    RegisterInfo::builder()
        .name("r".into())
        .address_offset(0)
        .build(Disabled)
        .expect("minimal register")
}
pub fn tpl_field() -> FieldInfo {
    FieldInfo::builder()
        .name("f".into())
        .bit_range(BitRange {
            offset: 0,
            width: 1,
            range_type: BitRangeType::OffsetWidth,
        })
        .build(Disabled)
        .expect("minimal field")
}
pub fn tpl_evs() -> EnumeratedValues {
    EnumeratedValues::builder().build(Disabled).expect("minimal enumeratedValues")
}
pub fn tpl_ev() -> EnumeratedValue {
    EnumeratedValue::builder()
        .name("e".into())
        .build(Disabled)
        .expect("minimal enumeratedValue")
}
pub fn tpl_dim() -> DimElement {
    DimElement::builder()
        .dim(1)
        .dim_increment(1)
        .build(Disabled)
        .expect("minimal dimElement")
}
pub fn tpl_interrupt() -> Interrupt {
    Interrupt::builder()
        .name("i".into())
        .value(0)
        .build(Disabled)
        .expect("minimal interrupt")
}
pub fn tpl_address_block() -> AddressBlock {
    AddressBlock::builder()
        .offset(0)
        .size(1)
        .usage(AddressBlockUsage::Registers)
        .build(Disabled)
        .expect("minimal addressBlock")
}
pub fn tpl_cpu() -> Cpu {
    Cpu::builder()
        .name("c".into())
        .revision("r".into())
        .endian(Endian::Little)
        .mpu_present(false)
        .fpu_present(false)
        .nvic_priority_bits(0)
        .has_vendor_systick(false)
        .build(Disabled)
        .expect("minimal cpu")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// `^[_A-Za-z0-9]*$` at strict level
    Plain,
    /// name of an array
    Array,
    /// name of a single, may not hold a placeholder
    Single,
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, o: Opt) -> Self {
        let left = o.budget as isize;
        Gen { r, o, n: 0, left, outer: vec![] }
    }
    pub fn opt(&mut self) -> bool {
        let d = self.o.dense;
        self.r.pct(d)
    }
    pub fn word(&mut self) -> String {
        if self.o.lvl < 2 && !self.o.wordy && self.r.pct(6) {
            return self.r.pick(&["é", "µC", "a b", "x+y", "1st", "a-b", "ß", "名", "a%b", "%d", "a[b]"]).to_string();
        }
        if self.r.below(250) == 0 {
            return self.long(self.o.lvl < 2 && !self.o.wordy);
        }
        let mut s = self.r.pick(WORDS).to_string();
        for _ in 0..self.r.count(3) {
            match self.r.below(6) {
                0 | 1 => s.push('_'),
                2 if self.o.lvl < 2 && self.r.pct(30) => s.push(*self.r.pick(&['-', ' '])),
                3 => s.push_str(&self.r.below(20).to_string()),
                _ => {}
            }
            s.push_str(*self.r.pick(WORDS));
        }
        s
    }
    /// A long run of few different characters.
    pub fn long(&mut self, wide: bool) -> String {
        let n = 20usize << self.r.below(6);
        let n = self.r.range(n, 2 * n);
        let mut s = String::from("L");
        let c = if wide { *self.r.pick(&['é', '漢', '🦀', 'a']) } else { 'a' };
        while s.len() < n {
            s.push(if self.r.below(40) == 0 { *self.r.pick(&['b', '_', '7']) } else { c });
        }
        s
    }
    fn core(&mut self) -> String {
        let mut s = self.word();
        if !self.outer.is_empty() && self.r.pct(12) {
            // a name that holds that of an element around
            let n = self.r.pick(&self.outer).clone();
            if n.len() < 60 {
                let sep = *self.r.pick(&["", "_", "_x"]);
                s = match self.r.below(4) {
                    0 => n,
                    1 => format!("{s}{sep}{n}"),
                    _ => format!("{n}{sep}{s}"),
                };
            }
        }
        if self.o.unique {
            s.push('q');
            s.push_str(&base26(self.n));
            s.push('Q');
            self.n += 1;
        }
        if !self.o.wordy && self.r.pct(6) {
            s = match self.r.below(4) {
                0 => format!("_{s}"),
                1 => format!("__{s}"),
                2 => format!("{s}_"),
                _ => format!("{s}__"),
            };
        }
        s
    }
    /// The element of this name is opened.
    fn enter(&mut self, n: &str) {
        self.outer.push(n.replace("[%s]", "").replace("%s", ""));
    }
    fn leave(&mut self) {
        self.outer.pop();
    }
    pub fn name(&mut self, k: Kind) -> String {
        let c = self.core();
        match k {
            Kind::Plain | Kind::Single => c,
            Kind::Array => {
                let n = if self.o.lvl >= 2 { 4 } else { 8 };
                match self.r.below(n) {
                    0 => format!("{c}%s"),
                    1 => format!("{c}[%s]"),
                    2 => format!("%s{c}"),
                    3 => {
                        let w = self.word();
                        // digits may not follow a placeholder in front, letters may
                        format!("{c}%s{w}")
                    }
                    4 => format!("{c}[%s]_x"),
                    5 => format!("{c}_%s_%s"),
                    6 => format!("[%s]{c}"),
                    _ => format!("{c}_%s"),
                }
            }
        }
    }
    pub fn text(&mut self) -> String {
        if self.r.below(150) == 0 {
            let w = self.o.wild_text;
            return self.long(w);
        }
        if self.o.wild_text {
            match self.r.below(6) {
                0 => {
                    let mut s = self.r.pick(WILD).to_string();
                    if self.r.bool() {
                        s.push(' ');
                        s.push_str(*self.r.pick(WILD));
                    }
                    s = s.trim().to_string();
                    return s;
                }
                1 => {
                    let n = self.r.range(1, 12);
                    let mut s = String::new();
                    for _ in 0..n {
                        let c = match self.r.below(5) {
                            0 => *self.r.pick(&['<', '>', '&', '"', '\'', ';', '#', '[', ']', '=', '%', '\\']),
                            1 => char::from(self.r.range(0x21, 0x7e) as u8),
                            2 => ' ',
                            3 => *self.r.pick(&['é', 'Ω', '🦀', '\u{2028}', '\u{feff}', '文', '\u{300}']),
                            _ => char::from(self.r.range(b'a' as usize, b'z' as usize) as u8),
                        };
                        s.push(c);
                    }
                    let s = s.trim().to_string();
                    if !s.is_empty() {
                        return s;
                    }
                }
                _ => {}
            }
        }
        if self.r.pct(50) {
            self.r.pick(TEXTS).to_string()
        } else {
            self.word()
        }
    }
    fn ot(&mut self) -> Option<String> {
        if self.opt() {
            Some(self.text())
        } else {
            None
        }
    }
    fn oname(&mut self) -> Option<String> {
        if self.opt() {
            Some(self.word())
        } else {
            None
        }
    }
    pub fn plain_word(&mut self) -> String {
        // legal for `check_name` at strict level
        if self.o.lvl >= 2 {
            let w = self.word();
            if self.r.pct(10) {
                format!("{}{w}", self.r.below(10))
            } else {
                w
            }
        } else {
            self.word()
        }
    }
    pub fn derived(&mut self, path: bool) -> String {
        let mut s = self.word();
        if path && self.r.pct(40) {
            for _ in 0..self.r.range(1, 3) {
                s.push('.');
                s.push_str(&self.word());
            }
        }
        if self.r.pct(15) {
            s.push_str(*self.r.pick(&["%s", "[%s]"]));
        }
        s
    }
    pub fn props(&mut self) -> RegisterProperties {
        let mut p = RegisterProperties::new();
        if self.opt() {
            p.size = Some(if self.r.pct(70) {
                *self.r.pick(&[8, 16, 32, 64])
            } else if self.r.pct(60) {
                self.r.range(0, 70) as u32
            } else {
                self.r.u32()
            });
        }
        if self.opt() {
            p.access = Some(*self.r.pick(&ACCESS));
        }
        if self.opt() {
            p.protection = Some(*self.r.pick(&PROTECTION));
        }
        if self.opt() {
            p.reset_value = Some(self.r.u64());
        }
        if self.opt() {
            p.reset_mask = Some(if self.r.bool() { self.r.u64() } else { u64::MAX });
        }
        if self.o.lvl >= 1 {
            if let (Some(s), Some(v)) = (p.size, p.reset_value.as_mut()) {
                *v = fit_bits(*v, s);
            }
        }
        if self.o.lvl >= 2 {
            if let (Some(s), Some(m)) = (p.size, p.reset_mask.as_mut()) {
                *m = fit_bits(*m, s);
            }
            if let (Some(v), Some(m)) = (p.reset_value, p.reset_mask.as_mut()) {
                *m |= v;
            }
        }
        p
    }
    pub fn ev(&mut self, limit: u64) -> EnumeratedValue {
        let mut e = tpl_ev();
        e.name = self.plain_core();
        e.description = self.ot();
        match self.r.below(6) {
            0 => e.is_default = Some(true),
            1 if self.o.lvl < 2 => {
                e.is_default = Some(true);
                e.value = Some(self.value(limit));
            }
            2 => {
                e.is_default = Some(false);
                e.value = Some(self.value(limit));
            }
            _ => e.value = Some(self.value(limit)),
        }
        if self.o.lvl == 0 && self.r.pct(10) {
            e.value = None;
            e.is_default = if self.r.bool() { None } else { Some(false) };
        }
        e
    }
    fn plain_core(&mut self) -> String {
        if self.o.lvl >= 2 {
            let w = self.plain_word();
            if self.o.unique {
                self.n += 1;
                format!("{w}q{}Q", base26(self.n))
            } else {
                w
            }
        } else {
            self.core()
        }
    }
    /// A value <= limit
    pub fn value(&mut self, limit: u64) -> u64 {
        if self.r.pct(15) {
            return limit;
        }
        let v = self.r.u64();
        if v <= limit {
            v
        } else {
            v % (limit + 1)
        }
    }
    pub fn evs(&mut self, limit: u64) -> EnumeratedValues {
        let mut e = tpl_evs();
        if self.opt() {
            e.name = Some(self.plain_core());
        }
        if self.opt() {
            e.usage = Some(*self.r.pick(&USAGE));
        }
        if self.o.derive && self.r.pct(20) {
            e.derived_from = Some(self.derived(true));
        }
        let min = if self.o.lvl == 0 || e.derived_from.is_some() { 0 } else { 1 };
        let n = self.r.count(6).max(min);
        for _ in 0..n {
            self.left -= 1;
            let v = self.ev(limit);
            e.values.push(v);
        }
        e
    }
    pub fn bit_range(&mut self) -> BitRange {
        let range_type = *self.r.pick(&[
            BitRangeType::BitRange,
            BitRangeType::OffsetWidth,
            BitRangeType::MsbLsb,
        ]);
        let (offset, width) = if self.o.small_bits || self.r.pct(60) {
            let o = self.r.range(0, 63);
            let w = match self.r.below(4) {
                0 => 1,
                1 => self.r.range(1, 64 - o),
                2 => self.r.range(1, (64 - o).min(8)),
                _ => 64 - o,
            };
            (o as u32, w as u32)
        } else {
            let o = self.r.u32();
            let w = self.r.u32().max(1);
            // the highest bit has to be a u32
            (o.min(u32::MAX - (w - 1)), w)
        };
        BitRange {
            offset,
            width,
            range_type,
        }
    }
    pub fn wc(&mut self, limit: u64) -> WriteConstraint {
        match self.r.below(4) {
            0 => WriteConstraint::WriteAsRead(self.r.bool()),
            1 => WriteConstraint::UseEnumeratedValues(self.r.bool()),
            _ => {
                let a = self.value(limit);
                let b = self.value(limit);
                let (min, max) = if self.o.lvl >= 1 { (a.min(b), a.max(b)) } else { (a, b) };
                WriteConstraint::Range(WriteConstraintRange { min, max })
            }
        }
    }
    pub fn field_info(&mut self, k: Kind) -> FieldInfo {
        self.left -= 1;
        let mut f = tpl_field();
        f.name = self.name(k);
        f.description = self.ot();
        f.bit_range = self.bit_range();
        let w = f.bit_range.width;
        let limit = if self.o.lvl == 0 && self.r.pct(20) || w >= 64 {
            u64::MAX
        } else {
            (1u64 << w) - 1
        };
        if self.opt() {
            f.access = Some(*self.r.pick(&ACCESS));
        }
        if self.opt() {
            f.modified_write_values = Some(*self.r.pick(&MWV));
        }
        if self.opt() {
            f.write_constraint = Some(self.wc(limit));
        }
        if self.opt() {
            f.read_action = Some(*self.r.pick(&READACTION));
        }
        if self.o.enums && self.r.pct(60) {
            let n = if self.o.lvl < 2 { self.r.count(4) } else { self.r.count(2) };
            for _ in 0..n {
                let e = self.evs(limit);
                f.enumerated_values.push(e);
            }
            if self.o.lvl >= 2 && n == 2 {
                // one for reading and one for writing; a derived one fits either
                let (a, b) = if self.r.bool() { (0, 1) } else { (1, 0) };
                f.enumerated_values[a].usage = Some(Usage::Read);
                f.enumerated_values[b].usage = Some(Usage::Write);
            }
        }
        if self.o.derive && self.r.pct(15) {
            f.derived_from = Some(self.derived(true));
        }
        f
    }
    pub fn dim(&mut self) -> DimElement {
        let mut d = tpl_dim();
        d.dim = match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => self.r.range(10, 30) as u32,
            _ => self.r.range(2, 5) as u32,
        };
        d.dim_increment = if self.o.fit { self.r.below(64) as u32 } else { self.r.u32() };
        if self.opt() && d.dim > 0 {
            d.dim_index = Some(self.index_list(d.dim as usize));
        }
        if self.opt() {
            d.dim_name = Some(self.word());
        }
        if self.r.pct(20) {
            d.dim_array_index = Some(self.dim_array_index(&d.clone()));
        }
        d
    }
    pub fn index_list(&mut self, n: usize) -> Vec<String> {
        match self.r.below(11) {
            9 if n <= 26 => {
                // single letters of both cases in some order
                let mut v: Vec<u8> = (b'a'..=b'z').chain(b'A'..=b'Z').filter(|c| !b"qQ".contains(c)).collect();
                while v.len() > n {
                    let k = self.r.below(v.len());
                    v.remove(k);
                }
                if self.r.bool() {
                    v.sort();
                }
                v.iter().map(|c| char::from(*c).to_string()).collect()
            }
            10 => {
                // ascending numbers with gaps, or few distinct values
                let mut k = self.r.below(12);
                (0..n)
                    .map(|_| {
                        k += 1 + if self.r.pct(25) { 1 + self.r.below(9) } else { 0 };
                        k.to_string()
                    })
                    .collect()
            }
            0 => (0..n).map(|i| i.to_string()).collect(),
            1 | 2 => {
                let s = self.r.below(200);
                (s..s + n).map(|i| i.to_string()).collect()
            }
            3 if n <= 26 => {
                let s = self.r.below(27 - n);
                let b = if self.r.bool() { b'a' } else { b'A' };
                (0..n).map(|i| char::from(b + (s + i) as u8).to_string()).map(|s| s.replace(['q', 'Q'], "zz")).collect()
            }
            4 => (0..n).map(|i| format!("{i:02}")).collect(),
            5 => (0..n).rev().map(|i| i.to_string()).collect(),
            6 => (0..n).map(|i| (i * 2 + 1).to_string()).collect(),
            7 => (0..n).map(|i| format!("{}{i}", self.r.pick(&["ch", "X", "_", "k_"]))).collect(),
            _ => {
                // consecutive but for one
                let mut v: Vec<String> = (0..n).map(|i| (i + 3).to_string()).collect();
                let k = self.r.below(n);
                v[k] = (*self.r.pick(&["A", "007", "4294967296", "99", "z1"])).to_string();
                v
            }
        }
    }
    pub fn dim_array_index(&mut self, d: &DimElement) -> DimArrayIndex {
        let mut values = vec![];
        let n = self.r.range(if self.o.lvl == 0 { 0 } else { 1 }, 4);
        for _ in 0..n {
            let mut e = self.ev(u64::MAX);
            if self.r.pct(75) {
                // aim at an index in use
                let i = self.r.below(d.dim.max(1) as usize);
                let t = match &d.dim_index {
                    Some(l) => l.get(i).cloned().unwrap_or_default(),
                    None => i.to_string(),
                };
                if let Ok(v) = t.parse() {
                    e.value = Some(v);
                    e.is_default = None;
                }
            }
            values.push(e);
        }
        DimArrayIndex {
            header_enum_name: if self.opt() { Some(self.word()) } else { None },
            values,
        }
    }
    fn offset(&mut self) -> u32 {
        if self.o.fit {
            (self.r.below(0x400) * 4) as u32
        } else {
            self.r.u32()
        }
    }
    fn maybe_array<T>(&mut self, f: impl FnOnce(&mut Self, Kind) -> T) -> MaybeArray<T> {
        if self.o.arrays && self.r.pct(25) {
            let i = f(self, Kind::Array);
            let d = self.dim();
            MaybeArray::Array(i, d)
        } else {
            MaybeArray::Single(f(self, Kind::Single))
        }
    }
    pub fn field(&mut self) -> Field {
        let mut f = self.maybe_array(|g, k| g.field_info(k));
        if self.o.fit {
            if let MaybeArray::Array(i, d) = &mut f {
                // keep the last item addressable
                let span = d.dim_increment as u64 * d.dim as u64;
                if i.bit_range.offset as u64 + i.bit_range.width as u64 + span > u32::MAX as u64 {
                    i.bit_range.offset = self.r.below(32) as u32;
                    i.bit_range.width = 1 + self.r.below(32) as u32;
                    let l = if i.bit_range.width >= 64 { u64::MAX } else { (1 << i.bit_range.width) - 1 };
                    for e in &mut i.enumerated_values {
                        for v in &mut e.values {
                            v.value = v.value.map(|x| x.min(l));
                        }
                    }
                    if let Some(WriteConstraint::Range(r)) = &mut i.write_constraint {
                        r.min = r.min.min(l);
                        r.max = r.max.min(l);
                    }
                }
            }
        }
        f
    }
    pub fn register_info(&mut self, k: Kind) -> RegisterInfo {
        self.left -= 1;
        let mut r = tpl_register();
        r.name = self.name(k);
        r.display_name = self.ot();
        r.description = self.ot();
        r.alternate_group = if self.opt() { Some(self.plain_word()) } else { None };
        r.alternate_register = self.oname();
        r.address_offset = self.offset();
        r.properties = self.props();
        if self.opt() {
            r.datatype = Some(*self.r.pick(&DATATYPE));
        }
        if self.opt() {
            r.modified_write_values = Some(*self.r.pick(&MWV));
        }
        if self.opt() {
            r.write_constraint = Some(self.wc(u64::MAX));
        }
        if self.opt() {
            r.read_action = Some(*self.r.pick(&READACTION));
        }
        if self.o.derive && self.r.pct(15) {
            r.derived_from = Some(self.derived(true));
        }
        if self.r.pct(75) {
            let mut v = vec![];
            let n = match self.r.below(10) {
                0..=2 => 1,
                3..=6 => self.r.range(1, 3),
                7 | 8 => self.r.range(2, 6),
                _ => self.r.range(6, 20),
            };
            self.enter(&r.name);
            for _ in 0..n {
                if self.left <= 0 && !v.is_empty() {
                    break;
                }
                v.push(self.field());
            }
            self.leave();
            r.fields = Some(v);
        } else if self.o.empty_fields && self.r.pct(30) && (self.o.lvl < 2 || r.derived_from.is_some()) {
            r.fields = Some(vec![]);
        }
        r
    }
    pub fn register(&mut self) -> Register {
        self.maybe_array(|g, k| g.register_info(k))
    }
    pub fn cluster_info(&mut self, k: Kind, depth: usize) -> ClusterInfo {
        self.left -= 1;
        let mut c = tpl_cluster();
        c.name = self.name(k);
        c.description = self.ot();
        c.alternate_cluster = self.oname();
        c.header_struct_name = self.oname();
        c.address_offset = self.offset();
        c.default_register_properties = self.props();
        if self.o.derive && self.r.pct(15) {
            c.derived_from = Some(self.derived(true));
        }
        let min = if self.o.lvl < 2 || c.derived_from.is_some() { 0 } else { 1 };
        let n = self.r.count(6).max(min);
        self.enter(&c.name);
        c.children = self.rcs(n, depth + 1, min);
        self.leave();
        c
    }
    pub fn cluster(&mut self, depth: usize) -> Cluster {
        self.maybe_array(|g, k| g.cluster_info(k, depth))
    }
    pub fn rcs(&mut self, n: usize, depth: usize, min: usize) -> Vec<RegisterCluster> {
        let mut v = vec![];
        for _ in 0..n {
            if self.left <= 0 && v.len() >= min {
                break;
            }
            v.push(if self.o.clusters && depth < self.o.max_depth && self.r.pct(35) {
                RegisterCluster::Cluster(self.cluster(depth))
            } else {
                RegisterCluster::Register(self.register())
            });
        }
        v
    }
    pub fn interrupt(&mut self) -> Interrupt {
        let mut i = tpl_interrupt();
        i.name = if self.o.unique { self.core() } else { self.word() };
        i.description = self.ot();
        i.value = self.r.u32();
        i
    }
    pub fn address_block(&mut self) -> AddressBlock {
        let mut a = tpl_address_block();
        a.offset = self.r.u32();
        a.size = self.r.u32();
        a.usage = *self.r.pick(&ABUSAGE);
        if self.opt() {
            a.protection = Some(*self.r.pick(&PROTECTION));
        }
        a
    }
    pub fn peripheral_info(&mut self, k: Kind) -> PeripheralInfo {
        self.left -= 1;
        let mut p = tpl_peripheral();
        p.name = self.name(k);
        p.display_name = self.ot();
        p.version = self.ot();
        p.description = self.ot();
        p.alternate_peripheral = self.oname();
        p.group_name = self.ot();
        p.prepend_to_name = self.oname();
        p.append_to_name = self.oname();
        p.header_struct_name = self.oname();
        p.base_address = if self.o.fit { self.r.u64() >> 1 } else { self.r.u64() };
        p.default_register_properties = self.props();
        if self.opt() {
            let n = self.r.range(1, 3);
            p.address_block = Some((0..n).map(|_| self.address_block()).collect());
        }
        let n = if self.opt() { self.r.count(4) } else { 0 };
        p.interrupt = (0..n).map(|_| self.interrupt()).collect();
        if self.o.derive && self.r.pct(15) {
            p.derived_from = Some(self.derived(false));
        }
        let min = if self.o.lvl < 2 || p.derived_from.is_some() { 0 } else { 1 };
        if self.r.pct(85) {
            let n = self.r.range(1, 8).max(min);
            self.enter(&p.name);
            p.registers = Some(self.rcs(n, 0, min));
            self.leave();
            if self.o.lvl < 2 && self.r.pct(5) {
                p.registers = Some(vec![]);
            }
        }
        p
    }
    pub fn peripheral(&mut self) -> Peripheral {
        self.maybe_array(|g, k| g.peripheral_info(k))
    }
    pub fn cpu(&mut self) -> Cpu {
        let mut c = tpl_cpu();
        c.name = if self.r.bool() { self.r.pick(&["CM0", "CM4", "CA9", "other"]).to_string() } else { self.text() };
        c.revision = self.text();
        c.endian = *self.r.pick(&ENDIAN);
        c.mpu_present = self.r.bool();
        c.fpu_present = self.r.bool();
        let mut ob = || if self.o.dense > 0 && self.r.pct(self.o.dense) { Some(self.r.bool()) } else { None };
        c.fpu_double_precision = ob();
        c.dsp_present = ob();
        c.icache_present = ob();
        c.dcache_present = ob();
        c.itcm_present = ob();
        c.dtcm_present = ob();
        c.vtor_present = ob();
        c.nvic_priority_bits = self.r.u32();
        c.has_vendor_systick = self.r.bool();
        if self.opt() {
            c.device_num_interrupts = Some(self.r.u32());
        }
        if self.opt() {
            c.sau_num_regions = Some(self.r.u32());
        }
        c
    }
    pub fn device(&mut self) -> Device {
        let mut d = tpl_device();
        d.vendor = self.ot();
        d.vendor_id = self.ot();
        d.name = self.word();
        d.series = self.ot();
        d.version = self.text();
        d.description = self.text();
        d.license_text = self.ot();
        d.cpu = if self.opt() { Some(self.cpu()) } else { None };
        d.header_system_filename = self.ot();
        d.header_definitions_prefix = self.ot();
        d.address_unit_bits = self.r.u32();
        d.width = self.r.u32();
        d.default_register_properties = self.props();
        if self.opt() {
            d.xmlns_xs = "http://example.com/ns?a=1&b=<2>".into();
        }
        if self.opt() {
            d.no_namespace_schema_location = "schema \"1.3\" <x>.xsd".into();
        }
        if self.opt() {
            d.schema_version = "1.3.9".into();
        }
        loop {
            let p = self.peripheral();
            d.peripherals.push(p);
            if self.left <= 0 || d.peripherals.len() > 40 {
                break;
            }
        }
        if self.o.lvl == 0 && self.r.pct(2) {
            d.peripherals.clear();
        }
        if self.r.pct(40) {
            self.coincide(&mut d);
        }
        if !self.o.unique && self.r.pct(40) {
            self.twins(&mut d);
        }
        d
    }
    /// A sibling that is the same, or the same but for one part.
    fn twin<T: Clone>(&mut self, v: &mut Vec<T>, pct: usize, alter: impl FnOnce(&mut Self, &mut T)) {
        if v.is_empty() || v.len() > 60 || !self.r.pct(pct) {
            return;
        }
        let k = self.r.below(v.len());
        let mut t = v[k].clone();
        alter(self, &mut t);
        let at = if self.r.pct(70) { k + 1 } else { self.r.below(v.len() + 1) };
        v.insert(at, t);
    }
    /// Siblings of equal names; only where names need not be unique.
    fn twins(&mut self, d: &mut Device) {
        for p in &mut d.peripherals {
            self.twin(&mut p.interrupt, 40, |g, i| match g.r.below(3) {
                0 => i.description = g.ot(),
                1 => i.value = g.r.u32(),
                _ => {}
            });
            if let Some(v) = p.registers.as_mut() {
                self.twin_rcs(v);
            }
        }
        self.twin(&mut d.peripherals, 25, |g, p| match g.r.below(3) {
            0 => p.base_address = g.r.u64() >> 1,
            1 => p.description = g.ot(),
            _ => {}
        });
    }
    fn twin_rcs(&mut self, v: &mut Vec<RegisterCluster>) {
        for rc in v.iter_mut() {
            match rc {
                RegisterCluster::Cluster(c) => self.twin_rcs(&mut c.children),
                RegisterCluster::Register(r) => {
                    if let Some(fs) = r.fields.as_mut() {
                        for f in fs.iter_mut() {
                            for e in &mut f.enumerated_values {
                                // strict levels know no two of a kind
                                self.twin(&mut e.values, 12, |g, v| match g.r.below(2) {
                                    0 => v.description = g.ot(),
                                    _ => {}
                                });
                            }
                        }
                        self.twin(fs, 15, |g, f| match g.r.below(3) {
                            0 => f.description = g.ot(),
                            1 => f.access = Some(*g.r.pick(&ACCESS)),
                            _ => {}
                        });
                    }
                }
            }
        }
        self.twin(v, 20, |g, rc| match rc {
            RegisterCluster::Register(r) => match g.r.below(4) {
                0 => r.description = g.ot(),
                1 => r.fields = None,
                2 => r.address_offset = g.offset(),
                _ => {}
            },
            RegisterCluster::Cluster(c) => match g.r.below(3) {
                0 => c.description = g.ot(),
                1 => c.address_offset = g.offset(),
                _ => {}
            },
        });
    }
    /// Makes values equal that are seldom equal by chance.
    fn coincide(&mut self, d: &mut Device) {
        for i in 0..d.peripherals.len() {
            if i > 0 && self.r.pct(15) {
                d.peripherals[i].base_address = d.peripherals[i - 1].base_address;
            }
            if i > 0 && self.r.pct(10) {
                d.peripherals[i].address_block = d.peripherals[i - 1].address_block.clone();
            }
            if i > 0 && self.r.pct(10) {
                d.peripherals[i].default_register_properties = d.peripherals[i - 1].default_register_properties;
            }
            let p = &mut *d.peripherals[i];
            if self.r.pct(10) {
                p.display_name = Some(p.name.clone());
            }
            if self.r.pct(10) {
                p.group_name = Some(p.name.clone());
            }
            if self.r.pct(10) {
                p.version = p.description.clone();
            }
            if let Some(ab) = p.address_block.as_mut() {
                if self.r.pct(25) {
                    let k = self.r.below(ab.len().max(1));
                    if let Some(a) = ab.get(k).cloned() {
                        ab.insert(k + self.r.below(2), a);
                    }
                }
            }
            for k in 1..p.interrupt.len() {
                if self.r.pct(20) {
                    p.interrupt[k].value = p.interrupt[k - 1].value;
                }
                if self.r.pct(20) {
                    p.interrupt[k].description = p.interrupt[k - 1].description.clone();
                }
                if !self.o.unique && self.r.pct(20) {
                    p.interrupt[k] = p.interrupt[k - 1].clone();
                }
            }
            let own = p.default_register_properties;
            if let Some(v) = p.registers.as_mut() {
                self.coincide_rcs(v, "", own);
            }
        }
    }
    fn coincide_rcs(&mut self, v: &mut [RegisterCluster], prefix: &str, above: RegisterProperties) {
        let offsets: Vec<u32> = v.iter().map(|rc| rc.address_offset()).collect();
        for (i, rc) in v.iter_mut().enumerate() {
            let same = if i > 0 && self.r.pct(20) { Some(offsets[self.r.below(i)]) } else { None };
            match rc {
                RegisterCluster::Cluster(c) => {
                    c.address_offset = same.unwrap_or(c.address_offset);
                    if self.r.pct(10) {
                        c.description = Some(c.name.clone());
                    }
                    if self.r.pct(10) {
                        c.header_struct_name = Some(c.name.replace(['[', ']', '%'], ""));
                    }
                    if self.r.pct(10) {
                        c.default_register_properties = above;
                    }
                    let p = format!("{prefix}{}_", c.name);
                    let own = c.default_register_properties;
                    self.coincide_rcs(&mut c.children, &p, own);
                }
                RegisterCluster::Register(r) => {
                    r.address_offset = same.unwrap_or(r.address_offset);
                    match self.r.below(12) {
                        0 => r.display_name = Some(r.name.clone()),
                        1 => r.display_name = Some(format!("{prefix}{}", r.name)),
                        2 => r.description = Some(r.name.clone()),
                        3 => r.description = r.display_name.clone(),
                        4 => r.display_name = r.description.clone(),
                        _ => {}
                    }
                    if self.r.pct(10) {
                        r.properties = above;
                    }
                    for f in r.fields_mut() {
                        if self.r.pct(8) {
                            f.description = Some(f.name.clone());
                        }
                        for e in &mut f.enumerated_values {
                            for k in 1..e.values.len() {
                                if self.r.pct(15) {
                                    e.values[k].value = e.values[k - 1].value;
                                    e.values[k].is_default = e.values[k - 1].is_default;
                                }
                                if self.r.pct(15) {
                                    e.values[k].description = Some(e.values[k].name.clone());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn fit_bits(v: u64, bits: u32) -> u64 {
    if bits >= 64 {
        v
    } else {
        v & ((1u64 << bits) - 1)
    }
}

/// A random device of the given validity.
pub fn device(r: &mut Rng, o: Opt) -> Device {
    Gen::new(r, o).device()
}
