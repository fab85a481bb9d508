//! C16 serialization to JSON and YAML, C17 deserialization of equivalent and
//! of bad documents.
use crate::dump::{self, diff, device, split};
use crate::dump::split_mut;
use crate::gen::{self, Opt};
use crate::rng::{hash_str, Rng};
use crate::sup::*;
use crate::xml::Sty;
use serde_json::{json, Map, Value};
use svd_rs::*;

/// What the value of a key has to be.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Str,
    U32,
    U64,
    Bool,
    Word,
    /// list of objects
    List,
    Obj,
    /// `registers` and `children`: list of `{register: ..}` and `{cluster: ..}`
    Rcs,
    Constraint,
    Index,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Need {
    Req,
    Opt,
    /// left out when empty, may not be null
    Default,
}

struct Ent {
    key: &'static str,
    ty: Ty,
    need: Need,
    val: Option<Value>,
}

/// Writes a device as a JSON tree of the documented form, in the exact form or
/// an equivalent one, or with one defect at the n-th place where one may be.
struct W<'r> {
    r: &'r mut Rng,
    vary: bool,
    /// avoid what the reader of YAML takes for something else
    yaml: bool,
    site: usize,
    /// kind of the sites passed
    kinds: Vec<&'static str>,
    target: Option<usize>,
    planted: Option<String>,
    junk: usize,
    nulls: usize,
}

const JUNK: &[&str] = &["x-note", "comment", "_id", "zzz", "Name", "$ref", "dim_", "bit", "é", "", "uses"];

impl<'r> W<'r> {
    fn new(r: &'r mut Rng, vary: bool, yaml: bool) -> W<'r> {
        W {
            r,
            vary,
            yaml,
            site: 0,
            kinds: vec![],
            target: None,
            planted: None,
            junk: 0,
            nulls: 0,
        }
    }
    fn here(&mut self, kind: &'static str) -> bool {
        self.site += 1;
        self.kinds.push(kind);
        self.target == Some(self.site - 1)
    }
    fn any(&mut self, depth: usize) -> Value {
        match self.r.below(if depth > 2 { 5 } else { 8 }) {
            0 => Value::Null,
            1 => Value::Bool(self.r.bool()),
            2 => json!(self.r.u64()),
            3 => json!("text"),
            4 => json!(-1),
            5 => json!(1.5),
            6 => {
                let n = self.r.below(3);
                Value::Array((0..n).map(|_| self.any(depth + 1)).collect())
            }
            _ => {
                let n = self.r.below(3);
                let mut m = Map::new();
                for _ in 0..n {
                    let k = *self.r.pick(&["name", "dim", "a", "register", "lsb"]);
                    let v = self.any(depth + 1);
                    m.insert(k.into(), v);
                }
                Value::Object(m)
            }
        }
    }
    /// A value of another type than asked for.
    fn wrong(&mut self, ty: Ty, opt: bool) -> Value {
        let list = json!([]);
        let map = json!({});
        let mut v = match ty {
            Ty::Str => vec![list, map],
            Ty::U32 => vec![
                json!(-1),
                json!(4294967296u64),
                json!(u64::MAX),
                json!(1.5),
                json!("abc"),
                list,
                map,
                json!("-"),
                json!(-2147483648i64),
            ],
            Ty::U64 => vec![json!(-1), json!(1.5), json!("abc"), list, map, json!(1e30), json!(i64::MIN)],
            Ty::Bool => vec![json!(2), json!("maybe"), list, map, json!(1.5)],
            Ty::Word => vec![json!("no-such-word"), json!(7), list, json!("READ-ONLY"), json!("oneToEat")],
            Ty::List | Ty::Rcs => vec![map, json!("abc"), json!(3), json!([3]), json!(["abc"]), json!(true)],
            Ty::Obj => vec![json!("abc"), json!(3), json!(true)],
            Ty::Constraint => vec![
                json!("abc"),
                json!(3),
                map,
                json!({"rangeX": {"minimum": 0, "maximum": 1}}),
                json!({"range": {"minimum": 0}}),
                json!({"range": {"maximum": 0}}),
                json!({"range": 5}),
                json!({"writeAsRead": 5}),
                json!({"useEnumeratedValues": "abc"}),
                json!({"range": {"minimum": -1, "maximum": 1}}),
                json!({"write_as_read": true}),
            ],
            Ty::Index => vec![
                json!("5-2"),
                json!("1-0"),
                json!("Z-A"),
                json!("d-b"),
                json!("0-B"),
                json!("4294967296-4294967297"),
                json!("-"),
                json!("3-"),
                json!(5),
                map,
                json!([[0]]),
                json!(1.5),
                json!(true),
            ],
        };
        if ty == Ty::Rcs {
            v.push(json!([{}]));
            v.push(json!([{"field": {}}]));
            v.push(json!([{"register": {}}]));
            v.push(json!([{"cluster": []}]));
            v.push(json!([{"Register": {"name": "a", "addressOffset": 0}}]));
        }
        if !self.yaml {
            // a scalar is any text in YAML
            match ty {
                Ty::Str => v.extend([json!(5), json!(true), json!(1.5)]),
                Ty::Bool => v.extend([json!("true"), json!(0), json!(1)]),
                Ty::U32 | Ty::U64 => v.extend([json!("1"), json!(true), json!(1.0), json!("0x10")]),
                _ => {}
            }
            if !opt && ty != Ty::List {
                v.push(Value::Null);
            }
        }
        let n = self.r.below(v.len());
        v.swap_remove(n)
    }
    fn obj(&mut self, mut es: Vec<Ent>) -> Map<String, Value> {
        let mut m = Map::new();
        let mut added: Vec<(String, Value)> = vec![];
        for e in &mut es {
            if e.val == Some(Value::Null) {
                continue;
            }
            if self.here(kind(e.ty, e.need)) {
                let drop = e.need == Need::Req && self.r.bool();
                if drop {
                    self.planted = Some("missing key".into());
                    e.val = None;
                    e.need = Need::Default;
                } else {
                    let w = self.wrong(e.ty, e.need == Need::Opt);
                    self.planted = Some(format!("wrong {:?}", e.ty));
                    e.val = Some(w);
                }
            }
        }
        if self.vary {
            if self.r.pct(60) {
                self.r.shuffle(&mut es);
            }
            if self.r.pct(15) {
                let n = self.r.range(1, 2);
                for _ in 0..n {
                    let k = self.r.pick(JUNK).to_string();
                    let v = self.any(0);
                    added.push((k, v));
                    self.junk += 1;
                }
            }
        }
        let front = self.r.bool();
        if front {
            m.extend(added.drain(..));
        }
        for e in es {
            match e.val {
                Some(v) => {
                    m.insert(e.key.into(), v);
                }
                None => {
                    if self.vary && e.need == Need::Opt && self.r.pct(10) {
                        self.nulls += 1;
                        m.insert(e.key.into(), Value::Null);
                    }
                }
            }
        }
        m.extend(added);
        m
    }
    fn props(&mut self, p: &RegisterProperties, es: &mut Vec<Ent>) {
        es.extend([
            opt("size", Ty::U32, p.size.map(|v| json!(v))),
            opt("access", Ty::Word, p.access.map(|v| json!(dump::access(v)))),
            opt("protection", Ty::Word, p.protection.map(|v| json!(dump::protection(v)))),
            opt("resetValue", Ty::U64, p.reset_value.map(|v| json!(v))),
            opt("resetMask", Ty::U64, p.reset_mask.map(|v| json!(v))),
        ]);
    }
    fn ev(&mut self, v: &EnumeratedValue) -> Value {
        let es = vec![
            req("name", Ty::Str, json!(v.name)),
            ot("description", &v.description),
            opt("value", Ty::U64, v.value.map(|v| json!(v))),
            opt("is_default", Ty::Bool, v.is_default.map(|v| json!(v))),
        ];
        Value::Object(self.obj(es))
    }
    fn list<T>(&mut self, v: &[T], f: impl Fn(&mut Self, &T) -> Value) -> Value {
        Value::Array(v.iter().map(|x| f(self, x)).collect())
    }
    fn evs(&mut self, v: &EnumeratedValues) -> Value {
        let values = self.list(&v.values, Self::ev);
        let es = vec![
            ot("name", &v.name),
            opt("usage", Ty::Word, v.usage.map(|v| json!(dump::usage(v)))),
            ot("derived_from", &v.derived_from),
            default("values", values),
        ];
        Value::Object(self.obj(es))
    }
    fn dai(&mut self, v: &DimArrayIndex) -> Value {
        let values = self.list(&v.values, Self::ev);
        let es = vec![ot("headerEnumName", &v.header_enum_name), req("values", Ty::List, values)];
        Value::Object(self.obj(es))
    }
    fn index(&mut self, l: &[String]) -> Value {
        if !self.vary {
            return json!(l.join(","));
        }
        if self.r.pct(40) {
            return json!(l);
        }
        json!(Sty { r: self.r, vary: true }.index_text(l))
    }
    fn dim(&mut self, d: Option<&DimElement>, es: &mut Vec<Ent>) {
        match d {
            Some(d) => {
                es.push(req("dim", Ty::U32, json!(d.dim)));
                es.push(req("dimIncrement", Ty::U32, json!(d.dim_increment)));
                let i = d.dim_index.as_ref().map(|l| self.index(l));
                es.push(opt("dimIndex", Ty::Index, i));
                es.push(ot("dimName", &d.dim_name));
                let i = d.dim_array_index.as_ref().map(|l| self.dai(l));
                es.push(opt("dimArrayIndex", Ty::Obj, i));
            }
            None if self.vary && self.r.pct(5) => {
                self.nulls += 1;
                for k in ["dim", "dimIncrement", "dimIndex", "dimName", "dimArrayIndex"] {
                    es.push(Ent {
                        key: k,
                        ty: Ty::Obj,
                        need: Need::Opt,
                        val: Some(Value::Null),
                    });
                }
            }
            None => {}
        }
    }
    fn bits(&mut self, b: &BitRange, es: &mut Vec<Ent>) {
        let msb = b.offset as u64 + b.width as u64 - 1;
        if self.here("bits") {
            let n = self.r.below(7);
            self.planted = Some("bit range".into());
            let odd = self.bad_bits();
            let (k, v): (&[&'static str], Vec<Value>) = match n {
                0 => (&[], vec![]),
                1 => (
                    &["bitRange"],
                    vec![self.r.pick(&[json!("[0:1]"), json!("[7:8]"), json!("[x:0]"), json!("[3:]"), json!(""), json!("[5]"), json!("[:0]"), json!("7..0"), json!(7), json!([7, 0]), json!("[3:2:1]"), json!("[4294967296:0]"), json!("[-1:0]"), odd.clone(), odd.clone(), odd]).clone()],
                ),
                2 => (&["lsb", "msb"], vec![json!(5), json!(4)]),
                3 => (&["lsb", "msb"], vec![json!(u32::MAX), json!(0)]),
                4 => {
                    let w = self.wrong(Ty::U32, true);
                    (&["bitOffset", "bitWidth"], if self.r.bool() { vec![json!(0), w] } else { vec![w, json!(1)] })
                }
                5 => {
                    let w = self.wrong(Ty::U32, true);
                    (&["msb", "lsb"], if self.r.bool() { vec![json!(0), w] } else { vec![w, json!(0)] })
                }
                _ => {
                    // half a notation
                    let k: &[&'static str] = *self.r.pick(&[&["bitOffset"][..], &["bitWidth"], &["lsb"], &["msb"], &["lsb", "bitWidth"], &["bitOffset", "msb"]]);
                    (k, k.iter().map(|_| json!(1)).collect())
                }
            };
            for (k, v) in k.iter().zip(v) {
                es.push(Ent {
                    key: k,
                    ty: Ty::U32,
                    need: Need::Default,
                    val: Some(v),
                });
            }
            return;
        }
        let mut add = |k, v| {
            es.push(Ent {
                key: k,
                ty: Ty::U32,
                need: Need::Default,
                val: Some(v),
            })
        };
        match b.range_type {
            BitRangeType::BitRange => add("bitRange", json!(format!("[{msb}:{}]", b.offset))),
            BitRangeType::OffsetWidth => {
                add("bitOffset", json!(b.offset));
                add("bitWidth", json!(b.width));
            }
            BitRangeType::MsbLsb => {
                add("lsb", json!(b.offset));
                add("msb", json!(msb));
            }
        }
    }
    /// A bit range text with something wrong in it.
    fn bad_bits(&mut self) -> Value {
        let r = &mut *self.r;
        loop {
            let (a, b) = (r.below(64), r.below(8));
            let mut t = format!("[{}:{}]", a.max(b), a.min(b));
            match r.below(4) {
                0 => t += *r.pick(&["x", " ", "]", "[", "[1:0]", ",", "é", " [3:0]", "0", "\n"]),
                1 => t = format!("{}{t}", r.pick(&["x", " ", "]", "[", "[1:0]", ",", "é", "0", "-"])),
                _ => {
                    let mut c: Vec<char> = t.chars().collect();
                    let i = r.below(c.len());
                    match r.below(3) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c[i] = *r.pick(&['[', ']', ':', 'x', ' ', '-', '.', 'é']),
                        _ => c.insert(i, *r.pick(&['[', ']', ':', 'x', ' ', '-', '.', 'é'])),
                    }
                    t = c.into_iter().collect();
                }
            }
            if super::parse::bits_of(&t).is_none() && !t.contains('+') {
                return json!(t);
            }
        }
    }
    fn wc(&mut self, w: &WriteConstraint) -> Value {
        match w {
            WriteConstraint::WriteAsRead(b) => json!({ "writeAsRead": b }),
            WriteConstraint::UseEnumeratedValues(b) => json!({ "useEnumeratedValues": b }),
            WriteConstraint::Range(r) => {
                let es = vec![req("minimum", Ty::U64, json!(r.min)), req("maximum", Ty::U64, json!(r.max))];
                json!({ "range": self.obj(es) })
            }
        }
    }
    fn field(&mut self, f: &Field) -> Value {
        let (f, d) = split(f);
        let mut es = vec![];
        self.dim(d, &mut es);
        es.push(req("name", Ty::Str, json!(f.name)));
        es.push(ot("description", &f.description));
        // as a site of its own the bit range comes without checks of its keys
        let mut bits = vec![];
        self.bits(&f.bit_range, &mut bits);
        es.push(opt("access", Ty::Word, f.access.map(|v| json!(dump::access(v)))));
        es.push(opt("modifiedWriteValues", Ty::Word, f.modified_write_values.map(|v| json!(dump::mwv(v)))));
        let w = f.write_constraint.as_ref().map(|w| self.wc(w));
        es.push(opt("writeConstraint", Ty::Constraint, w));
        es.push(opt("readAction", Ty::Word, f.read_action.map(|v| json!(dump::readaction(v)))));
        let v = self.list(&f.enumerated_values, Self::evs);
        es.push(default("enumeratedValues", v));
        es.push(ot("derivedFrom", &f.derived_from));
        let mut m = self.obj(es);
        for b in bits {
            m.insert(b.key.into(), b.val.expect("bits"));
        }
        if self.vary && self.r.bool() {
            let mut v: Vec<(String, Value)> = m.into_iter().collect();
            self.r.shuffle(&mut v);
            m = v.into_iter().collect();
        }
        Value::Object(m)
    }
    fn register(&mut self, r: &Register) -> Value {
        let (r, d) = split(r);
        let mut es = vec![];
        self.dim(d, &mut es);
        es.push(req("name", Ty::Str, json!(r.name)));
        es.push(ot("displayName", &r.display_name));
        es.push(ot("description", &r.description));
        es.push(ot("alternateGroup", &r.alternate_group));
        es.push(ot("alternateRegister", &r.alternate_register));
        es.push(req("addressOffset", Ty::U32, json!(r.address_offset)));
        self.props(&r.properties, &mut es);
        es.push(opt("datatype", Ty::Word, r.datatype.map(|v| json!(short_type(v)))));
        es.push(opt("modifiedWriteValues", Ty::Word, r.modified_write_values.map(|v| json!(dump::mwv(v)))));
        let w = r.write_constraint.as_ref().map(|w| self.wc(w));
        es.push(opt("writeConstraint", Ty::Constraint, w));
        es.push(opt("readAction", Ty::Word, r.read_action.map(|v| json!(dump::readaction(v)))));
        let v = r.fields.as_ref().map(|v| self.list(v, Self::field));
        es.push(opt("fields", Ty::List, v));
        es.push(ot("derivedFrom", &r.derived_from));
        Value::Object(self.obj(es))
    }
    fn cluster(&mut self, c: &Cluster) -> Value {
        let (c, d) = split(c);
        let mut es = vec![];
        self.dim(d, &mut es);
        es.push(req("name", Ty::Str, json!(c.name)));
        es.push(ot("description", &c.description));
        es.push(ot("alternateCluster", &c.alternate_cluster));
        es.push(ot("headerStructName", &c.header_struct_name));
        es.push(req("addressOffset", Ty::U32, json!(c.address_offset)));
        self.props(&c.default_register_properties, &mut es);
        let v = self.list(&c.children, Self::rc);
        es.push(req("children", Ty::Rcs, v));
        es.push(ot("derivedFrom", &c.derived_from));
        Value::Object(self.obj(es))
    }
    fn rc(&mut self, x: &RegisterCluster) -> Value {
        match x {
            RegisterCluster::Register(r) => json!({ "register": self.register(r) }),
            RegisterCluster::Cluster(c) => json!({ "cluster": self.cluster(c) }),
        }
    }
    fn block(&mut self, a: &AddressBlock) -> Value {
        let es = vec![
            req("offset", Ty::U32, json!(a.offset)),
            req("size", Ty::U32, json!(a.size)),
            req("usage", Ty::Word, json!(dump::abusage(a.usage))),
            opt("protection", Ty::Word, a.protection.map(|v| json!(dump::protection(v)))),
        ];
        Value::Object(self.obj(es))
    }
    fn interrupt(&mut self, i: &Interrupt) -> Value {
        let es = vec![
            req("name", Ty::Str, json!(i.name)),
            ot("description", &i.description),
            req("value", Ty::U32, json!(i.value)),
        ];
        Value::Object(self.obj(es))
    }
    fn peripheral(&mut self, p: &Peripheral) -> Value {
        let (p, d) = split(p);
        let mut es = vec![];
        self.dim(d, &mut es);
        es.push(req("name", Ty::Str, json!(p.name)));
        es.push(ot("displayName", &p.display_name));
        es.push(ot("version", &p.version));
        es.push(ot("description", &p.description));
        es.push(ot("alternatePeripheral", &p.alternate_peripheral));
        es.push(ot("groupName", &p.group_name));
        es.push(ot("prependToName", &p.prepend_to_name));
        es.push(ot("appendToName", &p.append_to_name));
        es.push(ot("headerStructName", &p.header_struct_name));
        es.push(req("baseAddress", Ty::U64, json!(p.base_address)));
        self.props(&p.default_register_properties, &mut es);
        let v = p.address_block.as_ref().map(|v| self.list(v, Self::block));
        es.push(opt("addressBlock", Ty::List, v));
        let v = self.list(&p.interrupt, Self::interrupt);
        es.push(default("interrupt", v));
        let v = p.registers.as_ref().map(|v| self.list(v, Self::rc));
        es.push(opt("registers", Ty::Rcs, v));
        es.push(ot("derivedFrom", &p.derived_from));
        Value::Object(self.obj(es))
    }
    fn cpu(&mut self, c: &Cpu) -> Value {
        let b = |k, v: Option<bool>| opt(k, Ty::Bool, v.map(|v| json!(v)));
        let es = vec![
            req("name", Ty::Str, json!(c.name)),
            req("revision", Ty::Str, json!(c.revision)),
            req("endian", Ty::Word, json!(dump::endian(c.endian))),
            req("mpuPresent", Ty::Bool, json!(c.mpu_present)),
            req("fpuPresent", Ty::Bool, json!(c.fpu_present)),
            b("fpuDP", c.fpu_double_precision),
            b("dspPresent", c.dsp_present),
            b("icachePresent", c.icache_present),
            b("dcachePresent", c.dcache_present),
            b("itcmPresent", c.itcm_present),
            b("dtcmPresent", c.dtcm_present),
            b("vtorPresent", c.vtor_present),
            req("nvicPrioBits", Ty::U32, json!(c.nvic_priority_bits)),
            req("vendorSystickConfig", Ty::Bool, json!(c.has_vendor_systick)),
            opt("deviceNumInterrupts", Ty::U32, c.device_num_interrupts.map(|v| json!(v))),
            opt("sauNumRegions", Ty::U32, c.sau_num_regions.map(|v| json!(v))),
        ];
        Value::Object(self.obj(es))
    }
    fn device(&mut self, d: &Device) -> Value {
        let mut es = vec![
            ot("vendor", &d.vendor),
            ot("vendorID", &d.vendor_id),
            req("name", Ty::Str, json!(d.name)),
            ot("series", &d.series),
            req("version", Ty::Str, json!(d.version)),
            req("description", Ty::Str, json!(d.description)),
            ot("licenseText", &d.license_text),
            ot("headerSystemFilename", &d.header_system_filename),
            ot("headerDefinitionsPrefix", &d.header_definitions_prefix),
            req("addressUnitBits", Ty::U32, json!(d.address_unit_bits)),
            req("width", Ty::U32, json!(d.width)),
        ];
        let c = d.cpu.as_ref().map(|c| self.cpu(c));
        es.push(opt("cpu", Ty::Obj, c));
        self.props(&d.default_register_properties, &mut es);
        let v = self.list(&d.peripherals, Self::peripheral);
        es.push(req("peripherals", Ty::List, v));
        Value::Object(self.obj(es))
    }
}

fn kind(t: Ty, n: Need) -> &'static str {
    match (t, n) {
        (Ty::Str, Need::Req) => "required text",
        (Ty::Str, _) => "text",
        (Ty::U32, Need::Req) => "required u32",
        (Ty::U32, _) => "u32",
        (Ty::U64, Need::Req) => "required u64",
        (Ty::U64, _) => "u64",
        (Ty::Bool, Need::Req) => "required bool",
        (Ty::Bool, _) => "bool",
        (Ty::Word, Need::Req) => "required word",
        (Ty::Word, _) => "word",
        (Ty::List, Need::Req) => "required list",
        (Ty::List, _) => "list",
        (Ty::Obj, _) => "object",
        (Ty::Rcs, _) => "registers",
        (Ty::Constraint, _) => "constraint",
        (Ty::Index, _) => "index",
    }
}

fn req(key: &'static str, ty: Ty, v: Value) -> Ent {
    Ent {
        key,
        ty,
        need: Need::Req,
        val: Some(v),
    }
}
fn opt(key: &'static str, ty: Ty, val: Option<Value>) -> Ent {
    Ent {
        key,
        ty,
        need: Need::Opt,
        val,
    }
}
fn ot(key: &'static str, v: &Option<String>) -> Ent {
    opt(key, Ty::Str, v.as_ref().map(|v| json!(v)))
}
/// A list left out when it is empty.
fn default(key: &'static str, v: Value) -> Ent {
    let empty = v.as_array().map_or(true, |a| a.is_empty());
    Ent {
        key,
        ty: Ty::List,
        need: Need::Default,
        val: if empty { None } else { Some(v) },
    }
}
fn short_type(d: DataType) -> String {
    let w = dump::datatype(d);
    let (w, ptr) = match w.strip_suffix(" *") {
        Some(w) => (w, "_ptr"),
        None => (w, ""),
    };
    let w = w.strip_suffix("_t").expect("type");
    let w = match w.strip_prefix("uint") {
        Some(n) => format!("u{n}"),
        None => format!("i{}", w.strip_prefix("int").expect("type")),
    };
    w + ptr
}

/// First difference of two JSON trees, order of keys apart.
fn jdiff(want: &Value, got: &Value, at: &str) -> Option<String> {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in a {
                match b.get(k) {
                    None => return Some(format!("{at}: key `{k}` missing")),
                    Some(w) => {
                        if let Some(m) = jdiff(v, w, &format!("{at}/{k}")) {
                            return Some(m);
                        }
                    }
                }
            }
            b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{at}: key `{k}` not expected"))
        }
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at}: {} entries wanted, {} found", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (v, w))| jdiff(v, w, &format!("{at}/{i}")))
        }
        _ if want == got => None,
        _ => Some(format!("{at}: {want} wanted, {got} found")),
    }
}

fn nodes(v: &Value) -> usize {
    match v {
        Value::Object(m) => 1 + m.values().map(nodes).sum::<usize>(),
        Value::Array(a) => 1 + a.iter().map(nodes).sum::<usize>(),
        _ => 1,
    }
}

fn strings<'a>(v: &'a Value, out: &mut Vec<&'a str>) {
    match v {
        Value::Object(m) => m.values().for_each(|v| strings(v, out)),
        Value::Array(a) => a.iter().for_each(|v| strings(v, out)),
        Value::String(s) => out.push(s),
        _ => {}
    }
}

/// Whether serde_yaml carries the texts of a tree at all.
fn yaml_carries(v: &Value) -> bool {
    let mut t = vec![];
    strings(v, &mut t);
    t.iter().all(|s| {
        let d = serde_yaml::to_string(&vec![s]).ok();
        let back: Option<Vec<String>> = d.and_then(|d| serde_yaml::from_str(&d).ok());
        back.map_or(false, |b| b[0] == **s)
    })
}

fn from_json(t: &str) -> R<Result<Device, String>> {
    sut("reading JSON", || serde_json::from_str(t).map_err(|e| e.to_string()))
}
fn from_value(t: &Value) -> R<Result<Device, String>> {
    sut("reading a JSON tree", || serde_json::from_value(t.clone()).map_err(|e| e.to_string()))
}
fn from_yaml(t: &str) -> R<Result<Device, String>> {
    sut("reading YAML", || serde_yaml::from_str(t).map_err(|e| e.to_string()))
}

/// A device whose schema attributes are the defaults, for what is read back.
fn plain_schema(d: &Device) -> Device {
    let mut d = d.clone();
    d.schema_version = "1.1".into();
    d.no_namespace_schema_location = "CMSIS-SVD_Schema_1_1.xsd".into();
    d.xmlns_xs = "http://www.w3.org/2001/XMLSchema-instance".into();
    d
}

fn a_device(x: &mut Ctx) -> Device {
    let lvl = x.rng.below(3) as u8;
    let mut o = Opt::random(&mut x.rng, lvl);
    o.unique = x.rng.pct(60);
    o.empty_fields = true;
    o.budget = o.budget.min(60);
    let mut d = gen::device(&mut x.rng, o);
    if x.rng.pct(15) {
        let n = empty_texts(&mut d, &mut x.rng);
        x.ev("texts present but empty", n);
    }
    d
}

/// Makes some optional texts present and empty, which only builders refuse.
fn empty_texts(d: &mut Device, r: &mut Rng) -> usize {
    let mut n = 0;
    let pct = *r.pick(&[2, 10, 40]);
    let mut e = |t: &mut Option<String>| {
        if r.pct(pct) {
            *t = Some(String::new());
            n += 1;
        }
    };
    for t in [
        &mut d.vendor,
        &mut d.vendor_id,
        &mut d.series,
        &mut d.license_text,
        &mut d.header_system_filename,
        &mut d.header_definitions_prefix,
    ] {
        e(t)
    }
    fn dim(d: &mut Option<&mut DimElement>, e: &mut dyn FnMut(&mut Option<String>)) {
        if let Some(d) = d {
            e(&mut d.dim_name);
            if let Some(a) = &mut d.dim_array_index {
                e(&mut a.header_enum_name);
                a.values.iter_mut().for_each(|v| e(&mut v.description));
            }
        }
    }
    fn rcs(v: &mut [RegisterCluster], e: &mut dyn FnMut(&mut Option<String>)) {
        for x in v {
            match x {
                RegisterCluster::Register(r) => {
                    let (r, mut d) = split_mut(r);
                    dim(&mut d, e);
                    for t in [
                        &mut r.display_name,
                        &mut r.description,
                        &mut r.alternate_group,
                        &mut r.alternate_register,
                        &mut r.derived_from,
                    ] {
                        e(t)
                    }
                    for f in r.fields.iter_mut().flatten() {
                        let (f, mut d) = split_mut(f);
                        dim(&mut d, e);
                        e(&mut f.description);
                        e(&mut f.derived_from);
                        for v in &mut f.enumerated_values {
                            e(&mut v.name);
                            e(&mut v.derived_from);
                            v.values.iter_mut().for_each(|v| e(&mut v.description));
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let (c, mut d) = split_mut(c);
                    dim(&mut d, e);
                    for t in [
                        &mut c.description,
                        &mut c.header_struct_name,
                        &mut c.alternate_cluster,
                        &mut c.derived_from,
                    ] {
                        e(t)
                    }
                    rcs(&mut c.children, e);
                }
            }
        }
    }
    for p in &mut d.peripherals {
        let (p, mut dd) = split_mut(p);
        dim(&mut dd, &mut e);
        for t in [
            &mut p.display_name,
            &mut p.version,
            &mut p.description,
            &mut p.alternate_peripheral,
            &mut p.group_name,
            &mut p.prepend_to_name,
            &mut p.append_to_name,
            &mut p.header_struct_name,
            &mut p.derived_from,
        ] {
            e(t)
        }
        p.interrupt.iter_mut().for_each(|i| e(&mut i.description));
        rcs(p.registers.as_deref_mut().unwrap_or(&mut []), &mut e);
    }
    n
}

fn arrays(d: &Device) -> (usize, usize) {
    // with and without index list
    fn count<T>(a: &MaybeArray<T>, n: &mut (usize, usize)) {
        if let Some(d) = split(a).1 {
            if d.dim_index.is_some() {
                n.0 += 1
            } else {
                n.1 += 1
            }
        }
    }
    fn rcs(v: &[RegisterCluster], n: &mut (usize, usize)) {
        for x in v {
            match x {
                RegisterCluster::Register(r) => {
                    count(r, n);
                    split(r).0.fields.iter().flatten().for_each(|f| count(f, n));
                }
                RegisterCluster::Cluster(c) => {
                    count(c, n);
                    rcs(&split(c).0.children, n);
                }
            }
        }
    }
    let mut n = (0, 0);
    for p in &d.peripherals {
        count(p, &mut n);
        rcs(split(p).0.registers.as_deref().unwrap_or(&[]), &mut n);
    }
    n
}

pub fn c16(x: &mut Ctx) -> R {
    let d = a_device(x);
    let want = device(&plain_schema(&d));
    let tree = W::new(&mut x.rng, false, false).device(&d);
    let (ai, an) = arrays(&d);
    x.ev("arrays with index list", ai);
    x.ev("arrays without index list", an);
    x.eval();

    let text = match sut("writing JSON", || serde_json::to_string(&d).map_err(|e| e.to_string()))? {
        Ok(t) => t,
        Err(m) => return fail("not written", format!("JSON: {m}"), want.render()),
    };
    x.seen(hash_str(&text));
    x.sample(|| text.clone());
    let got: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => return fail("not JSON", e.to_string(), text),
    };
    if let Some(m) = jdiff(&tree, &got, "") {
        return fail("tree", format!("JSON: {m}"), text);
    }
    x.ev("JSON values compared", nodes(&tree));
    let pretty = x.rng.bool();
    let again = sut("writing JSON", || {
        if pretty {
            serde_json::to_string_pretty(&d).map_err(|e| e.to_string())
        } else {
            serde_json::to_string(&d).map_err(|e| e.to_string())
        }
    })?;
    match again {
        Ok(t) if !pretty && t != text => return fail("not repeatable", "JSON written twice differs", format!("{text}\n{t}")),
        Ok(t) => match from_json(&t)? {
            Ok(g) => {
                if let Some(m) = diff(&want, &device(&g)) {
                    return fail("differs", format!("device read back from JSON: {m}"), t);
                }
                let once = sut("writing JSON", || serde_json::to_string(&g).map_err(|e| e.to_string()))?;
                if once.as_ref() != Ok(&text) {
                    return fail("not repeatable", "JSON of the device read back differs", text);
                }
            }
            Err(m) => return fail("not read back", format!("JSON: {m}"), t),
        },
        Err(m) => return fail("not written", m, text),
    }
    let tv = sut("writing a JSON tree", || serde_json::to_value(&d).map_err(|e| e.to_string()))?;
    match tv {
        Err(m) => return fail("not written", m, text),
        Ok(v) => {
            if let Some(m) = jdiff(&tree, &v, "") {
                return fail("tree", format!("JSON tree: {m}"), text);
            }
            match from_value(&v)? {
                Ok(g) => {
                    if let Some(m) = diff(&want, &device(&g)) {
                        return fail("differs", format!("device read back from a JSON tree: {m}"), text);
                    }
                }
                Err(m) => return fail("not read back", format!("JSON tree: {m}"), text),
            }
        }
    }
    x.ev("JSON round trips", 1);

    if !yaml_carries(&tree) {
        x.ev("texts YAML cannot carry", 1);
        return Ok(());
    }
    let text = match sut("writing YAML", || serde_yaml::to_string(&d).map_err(|e| e.to_string()))? {
        Ok(t) => t,
        Err(m) => return fail("not written", format!("YAML: {m}"), want.render()),
    };
    x.eval();
    let again = sut("writing YAML", || serde_yaml::to_string(&d).map_err(|e| e.to_string()))?;
    if again.as_ref() != Ok(&text) {
        return fail("not repeatable", "YAML written twice differs", text);
    }
    let got: Value = match serde_yaml::from_str(&text) {
        Ok(v) => v,
        Err(e) => return fail("not YAML", e.to_string(), text),
    };
    if let Some(m) = jdiff(&tree, &got, "") {
        return fail("tree", format!("YAML: {m}"), text);
    }
    match from_yaml(&text)? {
        Ok(g) => {
            if let Some(m) = diff(&want, &device(&g)) {
                return fail("differs", format!("device read back from YAML: {m}"), text);
            }
        }
        Err(m) => return fail("not read back", format!("YAML: {m}"), text),
    }
    x.ev("YAML round trips", 1);
    parts(x, &d)
}

/// Parts of a device on their own.
fn parts(x: &mut Ctx, d: &Device) -> R {
    macro_rules! part {
        ($v:expr, $t:ty, $dump:path) => {{
            let v: &$t = $v;
            let want = $dump(v);
            let t = sut("writing JSON", || serde_json::to_string(v).map_err(|e| e.to_string()))?;
            let t = match t {
                Ok(t) => t,
                Err(m) => return fail("not written", m, want.render()),
            };
            let g: Result<$t, String> = sut("reading JSON", || serde_json::from_str(&t).map_err(|e| e.to_string()))?;
            x.eval();
            match g {
                Ok(g) => {
                    if let Some(m) = diff(&want, &$dump(&g)) {
                        return fail("differs", format!("{} read back from JSON: {m}", stringify!($t)), t);
                    }
                }
                Err(m) => return fail("not read back", format!("{}: {m}", stringify!($t)), t),
            }
            x.ev("parts on their own", 1);
        }};
    }
    part!(&d.default_register_properties, RegisterProperties, dump::props);
    if let Some(c) = &d.cpu {
        part!(c, Cpu, dump::cpu);
    }
    if d.peripherals.is_empty() {
        return Ok(());
    }
    let p = &d.peripherals[x.rng.below(d.peripherals.len())];
    part!(p, Peripheral, dump::peripheral);
    let (i, dim) = split(p);
    part!(i, PeripheralInfo, dump::peripheral_info);
    if let Some(dim) = dim {
        part!(dim, DimElement, dump::dim);
    }
    for a in i.address_block.iter().flatten().take(1) {
        part!(a, AddressBlock, dump::address_block);
    }
    for a in i.interrupt.iter().take(1) {
        part!(a, Interrupt, dump::interrupt);
    }
    let v = i.registers.as_deref().unwrap_or(&[]);
    if v.is_empty() {
        return Ok(());
    }
    let rc = &v[x.rng.below(v.len())];
    part!(rc, RegisterCluster, dump::rc);
    match rc {
        RegisterCluster::Cluster(c) => {
            part!(c, Cluster, dump::cluster);
            let (i, dim) = split(c);
            part!(i, ClusterInfo, dump::cluster_info);
            if let Some(dim) = dim {
                part!(dim, DimElement, dump::dim);
            }
        }
        RegisterCluster::Register(r) => {
            part!(r, Register, dump::register);
            let (i, dim) = split(r);
            part!(i, RegisterInfo, dump::register_info);
            if let Some(dim) = dim {
                part!(dim, DimElement, dump::dim);
            }
            for f in i.fields.iter().flatten().take(2) {
                part!(f, Field, dump::field);
                let (i, dim) = split(f);
                part!(i, FieldInfo, dump::field_info);
                part!(&i.bit_range, BitRange, dump::bit_range);
                if let Some(dim) = dim {
                    part!(dim, DimElement, dump::dim);
                }
                if let Some(w) = &i.write_constraint {
                    part!(w, WriteConstraint, dump::wc);
                }
                for e in i.enumerated_values.iter().take(1) {
                    part!(e, EnumeratedValues, dump::evs);
                    for v in e.values.iter().take(1) {
                        part!(v, EnumeratedValue, dump::ev);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c17(x: &mut Ctx) -> R {
    match x.rng.below(4) {
        0 => equivalent(x),
        1 | 2 => bad(x),
        _ => mutated(x),
    }
}

fn equivalent(x: &mut Ctx) -> R {
    let d = a_device(x);
    let want = device(&plain_schema(&d));
    let mut w = W::new(&mut x.rng, true, false);
    let tree = w.device(&d);
    let (junk, nulls) = (w.junk, w.nulls);
    x.ev("unknown keys", junk);
    x.ev("explicit nulls", nulls);
    let text = if x.rng.bool() { tree.to_string() } else { serde_json::to_string_pretty(&tree).unwrap() };
    x.seen(hash_str(&text));
    x.sample(|| text.clone());
    let routes: [(&str, &dyn Fn() -> R<Result<Device, String>>); 3] = [
        ("JSON", &|| from_json(&text)),
        ("JSON tree", &|| from_value(&tree)),
        ("JSON reader", &|| {
            sut("reading JSON", || serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string()))
        }),
    ];
    for (n, f) in routes {
        x.eval();
        match f()? {
            Ok(g) => {
                if let Some(m) = diff(&want, &device(&g)) {
                    return fail("differs", format!("device read from {n}: {m}"), text.clone());
                }
            }
            Err(m) => return fail("not read", format!("an equivalent document is not read from {n}: {m}"), text.clone()),
        }
    }
    x.ev("equivalent JSON documents", 1);
    if yaml_carries(&tree) {
        let y = serde_yaml::to_string(&tree).unwrap();
        x.eval();
        match from_yaml(&y)? {
            Ok(g) => {
                if let Some(m) = diff(&want, &device(&g)) {
                    return fail("differs", format!("device read from YAML: {m}"), y);
                }
            }
            Err(m) => return fail("not read", format!("an equivalent document is not read from YAML: {m}"), y),
        }
        x.ev("equivalent YAML documents", 1);
    }
    Ok(())
}

fn bad(x: &mut Ctx) -> R {
    let d = a_device(x);
    let yaml = x.rng.pct(35);
    let vary = x.rng.pct(40);
    let fork = x.rng.next();
    let mut r = Rng::new(fork);
    let mut w = W::new(&mut r, vary, yaml);
    w.device(&d);
    let mut kinds = w.kinds.clone();
    kinds.sort();
    kinds.dedup();
    let k = *x.rng.pick(&kinds);
    let sites: Vec<usize> = (0..w.site).filter(|i| w.kinds[*i] == k).collect();
    // the same again with one defect; later random choices may differ
    let mut r = Rng::new(fork);
    let mut w = W::new(&mut r, vary, yaml);
    w.target = Some(*x.rng.pick(&sites));
    let tree = w.device(&d);
    let Some(what) = w.planted.take() else {
        x.ev("no place for the defect", 1);
        return Ok(());
    };
    let text = if yaml {
        if !yaml_carries(&tree) {
            x.ev("texts YAML cannot carry", 1);
            return Ok(());
        }
        serde_yaml::to_string(&tree).unwrap()
    } else {
        tree.to_string()
    };
    x.seen(hash_str(&text));
    x.eval();
    let got = if yaml { from_yaml(&text)? } else { from_json(&text)? };
    match got {
        Ok(_) => fail("accepted", format!("{} with a defect ({what}) was read", if yaml { "YAML" } else { "JSON" }), text),
        Err(_) => {
            if !yaml {
                if from_value(&tree)?.is_ok() {
                    return fail("accepted", format!("JSON tree with a defect ({what}) was read"), text);
                }
            }
            x.ev(&format!("refused {}: {what}", if yaml { "YAML" } else { "JSON" }), 1);
            Ok(())
        }
    }
}

/// Anything may come of it but a panic.
fn mutated(x: &mut Ctx) -> R {
    let d = a_device(x);
    let vary = x.rng.bool();
    let mut tree = W::new(&mut x.rng, vary, false).device(&d);
    let n = x.rng.range(1, 6);
    for _ in 0..n {
        mutate(&mut tree, &mut x.rng);
    }
    x.eval();
    let g = from_value(&tree)?;
    x.ev(if g.is_ok() { "mutated trees read" } else { "mutated trees refused" }, 1);
    let y = serde_yaml::to_string(&tree).unwrap();
    let g = from_yaml(&y)?;
    x.ev(if g.is_ok() { "mutated YAML read" } else { "mutated YAML refused" }, 1);
    let mut t = tree.to_string().into_bytes();
    x.seen(hash_str(&y));
    let n = x.rng.below(5);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let k = x.rng.below(t.len());
        match x.rng.below(5) {
            0 => t[k] = *x.rng.pick(b"{}[]\",:0-9.eE\\ntfu \xff\x00"),
            1 => {
                t.remove(k);
            }
            2 => t.truncate(k),
            3 => {
                let e = (k + x.rng.below(40)).min(t.len());
                let c: Vec<u8> = t[k..e].to_vec();
                let at = x.rng.below(t.len());
                t.splice(at..at, c);
            }
            _ => t.insert(k, *x.rng.pick(b"{}[]\",:0-9.eE\\ ")),
        }
    }
    let g: Result<Device, String> = sut("reading JSON", || serde_json::from_slice(&t).map_err(|e| e.to_string()))?;
    x.ev(if g.is_ok() { "mutated JSON read" } else { "mutated JSON refused" }, 1);
    Ok(())
}

fn mutate(v: &mut Value, r: &mut Rng) {
    let n = nodes(v);
    let mut k = r.below(n);
    fn at<'a>(v: &'a mut Value, k: &mut usize) -> Option<&'a mut Value> {
        if *k == 0 {
            return Some(v);
        }
        *k -= 1;
        match v {
            Value::Object(m) => m.values_mut().find_map(|v| at(v, k)),
            Value::Array(a) => a.iter_mut().find_map(|v| at(v, k)),
            _ => None,
        }
    }
    let other = {
        let mut j = r.below(n);
        at(v, &mut j).map(|v| v.clone()).filter(|v| nodes(v) < 60)
    };
    let Some(v) = at(v, &mut k) else { return };
    match r.below(7) {
        0 => {
            if let Some(o) = other {
                *v = o
            }
        }
        1 => *v = json!(*r.pick(&[0, 1, 31, 32, 64, 65, u32::MAX as u64, 1 << 32, u64::MAX])),
        2 => {
            *v = json!(*r.pick(&[
                "", "[0:0]", "[0:1]", "[4294967295:0]", "[4294967295:1]", "0-4", "A-Z", "4294967295-4294967295", "%s", "read-only", "-", "a-b-c", "é-ü", "0-é", ",", "0,", "[é:0]", "[", "]", "[:]", "A-é", "[0:0"
            ]))
        }
        3 => *v = Value::Null,
        4 => match v {
            Value::Object(m) if !m.is_empty() => {
                let k = m.keys().nth(r.below(m.len())).cloned().unwrap();
                m.remove(&k);
            }
            Value::Array(a) if !a.is_empty() => {
                let k = r.below(a.len());
                a.remove(k);
            }
            _ => *v = json!([]),
        },
        5 => {
            if let Value::Object(m) = v {
                let k = *r.pick(&["msb", "lsb", "bitOffset", "bitWidth", "bitRange", "dim", "dimIncrement", "dimIndex", "dimName", "register", "range", "value", "is_default", "derivedFrom"]);
                m.insert(
                    k.into(),
                    r.pick(&[json!(0), json!(u32::MAX), json!("[7:0]"), json!("0-3"), json!("a,b"), json!(["a"]), json!({}), json!(-1)]).clone(),
                );
            } else {
                *v = json!({"name": "a"});
            }
        }
        _ => {
            if let Value::Array(a) = v {
                if let Some(o) = other {
                    a.push(o);
                }
            } else {
                *v = json!(-1);
            }
        }
    }
}
