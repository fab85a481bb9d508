//! Deep value trees of SVD objects, made by reading every public field. All
//! comparisons between devices go through these trees, never through the
//! library's own PartialEq.
use svd_rs::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    S(String),
    L(Vec<V>),
    M(Vec<(&'static str, V)>),
}

impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::M(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.render_to(&mut s);
        s
    }
    fn render_to(&self, o: &mut String) {
        match self {
            V::S(s) => o.push_str(&format!("{s:?}")),
            V::L(l) => {
                o.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.render_to(o);
                }
                o.push(']');
            }
            V::M(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(k);
                    o.push(':');
                    x.render_to(o);
                }
                o.push('}');
            }
        }
    }
    pub fn hash64(&self) -> u64 {
        crate::rng::hash_str(&self.render())
    }
    pub fn nodes(&self) -> usize {
        match self {
            V::S(_) => 1,
            V::L(l) => 1 + l.iter().map(V::nodes).sum::<usize>(),
            V::M(m) => 1 + m.iter().map(|x| x.1.nodes()).sum::<usize>(),
        }
    }
    /// Removes map entries for which `f(parent-key, key)` holds, at any depth.
    pub fn without(&self, keys: &[&str]) -> V {
        match self {
            V::S(_) => self.clone(),
            V::L(l) => V::L(l.iter().map(|x| x.without(keys)).collect()),
            V::M(m) => V::M(
                m.iter()
                    .filter(|x| !keys.contains(&x.0))
                    .map(|x| (x.0, x.1.without(keys)))
                    .collect(),
            ),
        }
    }
}

fn short(v: &V) -> String {
    let s = v.render();
    if s.len() > 160 {
        let mut e = 160;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s
    }
}

/// First difference between two trees: (path, expected, got).
pub fn diff(want: &V, got: &V) -> Option<String> {
    fn go(a: &V, b: &V, path: &mut String) -> Option<String> {
        match (a, b) {
            (V::S(x), V::S(y)) if x == y => None,
            (V::L(x), V::L(y)) => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let l = path.len();
                    path.push_str(&format!("[{i}]"));
                    if let Some(d) = go(p, q, path) {
                        return Some(d);
                    }
                    path.truncate(l);
                }
                if x.len() != y.len() {
                    return Some(format!("{path}: {} items wanted, {} found", x.len(), y.len()));
                }
                None
            }
            (V::M(x), V::M(y)) => {
                for (k, p) in x {
                    let l = path.len();
                    path.push('.');
                    path.push_str(k);
                    match b.get(k) {
                        None => return Some(format!("{path}: wanted {}, missing", short(p))),
                        Some(q) => {
                            if let Some(d) = go(p, q, path) {
                                return Some(d);
                            }
                        }
                    }
                    path.truncate(l);
                }
                for (k, q) in y {
                    if a.get(k).is_none() {
                        return Some(format!("{path}.{k}: not wanted, found {}", short(q)));
                    }
                }
                None
            }
            _ => Some(format!("{path}: wanted {}, found {}", short(a), short(b))),
        }
    }
    if want == got {
        return None;
    }
    go(want, got, &mut String::new())
}

pub struct B(Vec<(&'static str, V)>);
impl B {
    pub fn new() -> B {
        B(vec![])
    }
    pub fn s(mut self, k: &'static str, v: &str) -> Self {
        self.0.push((k, V::S(v.to_string())));
        self
    }
    pub fn n(self, k: &'static str, v: impl ToString) -> Self {
        let s = v.to_string();
        self.s(k, &s)
    }
    pub fn os(self, k: &'static str, v: &Option<String>) -> Self {
        match v {
            Some(v) => self.s(k, v),
            None => self,
        }
    }
    pub fn on<T: ToString>(self, k: &'static str, v: &Option<T>) -> Self {
        match v {
            Some(v) => self.n(k, v.to_string()),
            None => self,
        }
    }
    pub fn v(mut self, k: &'static str, v: V) -> Self {
        self.0.push((k, v));
        self
    }
    pub fn ov(self, k: &'static str, v: Option<V>) -> Self {
        match v {
            Some(v) => self.v(k, v),
            None => self,
        }
    }
    pub fn m(mut self, v: V) -> Self {
        if let V::M(m) = v {
            self.0.extend(m)
        }
        self
    }
    pub fn end(self) -> V {
        V::M(self.0)
    }
}

pub fn access(a: Access) -> &'static str {
    match a {
        Access::ReadOnly => "read-only",
        Access::ReadWrite => "read-write",
        Access::ReadWriteOnce => "read-writeOnce",
        Access::WriteOnce => "writeOnce",
        Access::WriteOnly => "write-only",
    }
}
pub fn protection(a: Protection) -> &'static str {
    match a {
        Protection::Secure => "s",
        Protection::NonSecure => "n",
        Protection::Privileged => "p",
    }
}
pub fn usage(a: Usage) -> &'static str {
    match a {
        Usage::Read => "read",
        Usage::Write => "write",
        Usage::ReadWrite => "read-write",
    }
}
pub fn abusage(a: AddressBlockUsage) -> &'static str {
    match a {
        AddressBlockUsage::Registers => "registers",
        AddressBlockUsage::Buffer => "buffer",
        AddressBlockUsage::Reserved => "reserved",
    }
}
pub fn endian(a: Endian) -> &'static str {
    match a {
        Endian::Little => "little",
        Endian::Big => "big",
        Endian::Selectable => "selectable",
        Endian::Other => "other",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}
pub fn mwv(a: ModifiedWriteValues) -> &'static str {
    use ModifiedWriteValues::*;
    match a {
        OneToClear => "oneToClear",
        OneToSet => "oneToSet",
        OneToToggle => "oneToToggle",
        ZeroToClear => "zeroToClear",
        ZeroToSet => "zeroToSet",
        ZeroToToggle => "zeroToToggle",
        Clear => "clear",
        Set => "set",
        Modify => "modify",
    }
}
pub fn readaction(a: ReadAction) -> &'static str {
    use ReadAction::*;
    match a {
        Clear => "clear",
        Set => "set",
        Modify => "modify",
        ModifyExternal => "modifyExternal",
    }
}
pub fn datatype(a: DataType) -> &'static str {
    use DataType::*;
    match a {
        U8 => "uint8_t",
        U16 => "uint16_t",
        U32 => "uint32_t",
        U64 => "uint64_t",
        I8 => "int8_t",
        I16 => "int16_t",
        I32 => "int32_t",
        I64 => "int64_t",
        U8Ptr => "uint8_t *",
        U16Ptr => "uint16_t *",
        U32Ptr => "uint32_t *",
        U64Ptr => "uint64_t *",
        I8Ptr => "int8_t *",
        I16Ptr => "int16_t *",
        I32Ptr => "int32_t *",
        I64Ptr => "int64_t *",
    }
}
pub const ACCESS: [Access; 5] = [
    Access::ReadOnly,
    Access::ReadWrite,
    Access::ReadWriteOnce,
    Access::WriteOnce,
    Access::WriteOnly,
];
pub const PROTECTION: [Protection; 3] =
    [Protection::Secure, Protection::NonSecure, Protection::Privileged];
pub const USAGE: [Usage; 3] = [Usage::Read, Usage::Write, Usage::ReadWrite];
pub const ABUSAGE: [AddressBlockUsage; 3] = [
    AddressBlockUsage::Registers,
    AddressBlockUsage::Buffer,
    AddressBlockUsage::Reserved,
];
pub const ENDIAN: [Endian; 4] = [Endian::Little, Endian::Big, Endian::Selectable, Endian::Other];
pub const MWV: [ModifiedWriteValues; 9] = [
    ModifiedWriteValues::OneToClear,
    ModifiedWriteValues::OneToSet,
    ModifiedWriteValues::OneToToggle,
    ModifiedWriteValues::ZeroToClear,
    ModifiedWriteValues::ZeroToSet,
    ModifiedWriteValues::ZeroToToggle,
    ModifiedWriteValues::Clear,
    ModifiedWriteValues::Set,
    ModifiedWriteValues::Modify,
];
pub const READACTION: [ReadAction; 4] = [
    ReadAction::Clear,
    ReadAction::Set,
    ReadAction::Modify,
    ReadAction::ModifyExternal,
];
pub const DATATYPE: [DataType; 16] = [
    DataType::U8,
    DataType::U16,
    DataType::U32,
    DataType::U64,
    DataType::I8,
    DataType::I16,
    DataType::I32,
    DataType::I64,
    DataType::U8Ptr,
    DataType::U16Ptr,
    DataType::U32Ptr,
    DataType::U64Ptr,
    DataType::I8Ptr,
    DataType::I16Ptr,
    DataType::I32Ptr,
    DataType::I64Ptr,
];

fn s(x: impl ToString) -> V {
    V::S(x.to_string())
}

pub fn props(p: &RegisterProperties) -> V {
    B::new()
        .on("size", &p.size)
        .on("access", &p.access.map(access))
        .on("protection", &p.protection.map(protection))
        .on("resetValue", &p.reset_value)
        .on("resetMask", &p.reset_mask)
        .end()
}

pub fn bit_range(r: &BitRange) -> V {
    B::new()
        .n("offset", r.offset)
        .n("width", r.width)
        .s(
            "range_type",
            match r.range_type {
                BitRangeType::BitRange => "BitRange",
                BitRangeType::OffsetWidth => "OffsetWidth",
                BitRangeType::MsbLsb => "MsbLsb",
            },
        )
        .end()
}

pub fn wc(w: &WriteConstraint) -> V {
    match w {
        WriteConstraint::WriteAsRead(b) => B::new().n("writeAsRead", b).end(),
        WriteConstraint::UseEnumeratedValues(b) => B::new().n("useEnumeratedValues", b).end(),
        WriteConstraint::Range(r) => B::new().n("min", r.min).n("max", r.max).end(),
    }
}

pub fn ev(e: &EnumeratedValue) -> V {
    B::new()
        .s("name", &e.name)
        .os("description", &e.description)
        .on("value", &e.value)
        .on("isDefault", &e.is_default)
        .end()
}

pub fn evs(e: &EnumeratedValues) -> V {
    B::new()
        .os("name", &e.name)
        .on("usage", &e.usage.map(usage))
        .os("derivedFrom", &e.derived_from)
        .v("values", V::L(e.values.iter().map(ev).collect()))
        .end()
}

pub fn dim(d: &DimElement) -> V {
    B::new()
        .n("dim", d.dim)
        .n("dimIncrement", d.dim_increment)
        .ov(
            "dimIndex",
            d.dim_index.as_ref().map(|v| V::L(v.iter().map(s).collect())),
        )
        .os("dimName", &d.dim_name)
        .ov(
            "dimArrayIndex",
            d.dim_array_index.as_ref().map(|x| {
                B::new()
                    .os("headerEnumName", &x.header_enum_name)
                    .v("values", V::L(x.values.iter().map(ev).collect()))
                    .end()
            }),
        )
        .end()
}

pub fn split<T>(a: &MaybeArray<T>) -> (&T, Option<&DimElement>) {
    match a {
        MaybeArray::Single(i) => (i, None),
        MaybeArray::Array(i, d) => (i, Some(d)),
    }
}
pub fn split_mut<T>(a: &mut MaybeArray<T>) -> (&mut T, Option<&mut DimElement>) {
    match a {
        MaybeArray::Single(i) => (i, None),
        MaybeArray::Array(i, d) => (i, Some(d)),
    }
}
pub fn join<T>(i: T, d: Option<DimElement>) -> MaybeArray<T> {
    match d {
        None => MaybeArray::Single(i),
        Some(d) => MaybeArray::Array(i, d),
    }
}

fn arr<T>(a: &MaybeArray<T>, f: fn(&T) -> V) -> V {
    let (i, d) = split(a);
    B::new().m(f(i)).ov("dimElement", d.map(dim)).end()
}

pub fn field_info(f: &FieldInfo) -> V {
    B::new()
        .s("name", &f.name)
        .os("description", &f.description)
        .v("bitRange", bit_range(&f.bit_range))
        .on("access", &f.access.map(access))
        .on("modifiedWriteValues", &f.modified_write_values.map(mwv))
        .ov("writeConstraint", f.write_constraint.as_ref().map(wc))
        .on("readAction", &f.read_action.map(readaction))
        .v("enumeratedValues", V::L(f.enumerated_values.iter().map(evs).collect()))
        .os("derivedFrom", &f.derived_from)
        .end()
}
pub fn field(f: &Field) -> V {
    arr(f, field_info)
}

pub fn register_info(r: &RegisterInfo) -> V {
    B::new()
        .s("name", &r.name)
        .os("displayName", &r.display_name)
        .os("description", &r.description)
        .os("alternateGroup", &r.alternate_group)
        .os("alternateRegister", &r.alternate_register)
        .n("addressOffset", r.address_offset)
        .v("properties", props(&r.properties))
        .on("dataType", &r.datatype.map(datatype))
        .on("modifiedWriteValues", &r.modified_write_values.map(mwv))
        .ov("writeConstraint", r.write_constraint.as_ref().map(wc))
        .on("readAction", &r.read_action.map(readaction))
        .ov("fields", r.fields.as_ref().map(|v| V::L(v.iter().map(field).collect())))
        .os("derivedFrom", &r.derived_from)
        .end()
}
pub fn register(r: &Register) -> V {
    arr(r, register_info)
}
pub fn cluster_info(c: &ClusterInfo) -> V {
    B::new()
        .s("name", &c.name)
        .os("description", &c.description)
        .os("alternateCluster", &c.alternate_cluster)
        .os("headerStructName", &c.header_struct_name)
        .n("addressOffset", c.address_offset)
        .v("properties", props(&c.default_register_properties))
        .v("children", V::L(c.children.iter().map(rc).collect()))
        .os("derivedFrom", &c.derived_from)
        .end()
}
pub fn cluster(c: &Cluster) -> V {
    arr(c, cluster_info)
}
pub fn rc(x: &RegisterCluster) -> V {
    match x {
        RegisterCluster::Register(r) => B::new().v("register", register(r)).end(),
        RegisterCluster::Cluster(c) => B::new().v("cluster", cluster(c)).end(),
    }
}
pub fn address_block(a: &AddressBlock) -> V {
    B::new()
        .n("offset", a.offset)
        .n("size", a.size)
        .s("usage", abusage(a.usage))
        .on("protection", &a.protection.map(protection))
        .end()
}
pub fn interrupt(i: &Interrupt) -> V {
    B::new()
        .s("name", &i.name)
        .os("description", &i.description)
        .n("value", i.value)
        .end()
}
pub fn peripheral_info(p: &PeripheralInfo) -> V {
    B::new()
        .s("name", &p.name)
        .os("displayName", &p.display_name)
        .os("version", &p.version)
        .os("description", &p.description)
        .os("alternatePeripheral", &p.alternate_peripheral)
        .os("groupName", &p.group_name)
        .os("prependToName", &p.prepend_to_name)
        .os("appendToName", &p.append_to_name)
        .os("headerStructName", &p.header_struct_name)
        .n("baseAddress", p.base_address)
        .v("properties", props(&p.default_register_properties))
        .ov(
            "addressBlock",
            p.address_block.as_ref().map(|v| V::L(v.iter().map(address_block).collect())),
        )
        .v("interrupt", V::L(p.interrupt.iter().map(interrupt).collect()))
        .ov("registers", p.registers.as_ref().map(|v| V::L(v.iter().map(rc).collect())))
        .os("derivedFrom", &p.derived_from)
        .end()
}
pub fn peripheral(p: &Peripheral) -> V {
    arr(p, peripheral_info)
}
pub fn cpu(c: &Cpu) -> V {
    B::new()
        .s("name", &c.name)
        .s("revision", &c.revision)
        .s("endian", endian(c.endian))
        .n("mpuPresent", c.mpu_present)
        .n("fpuPresent", c.fpu_present)
        .on("fpuDP", &c.fpu_double_precision)
        .on("dspPresent", &c.dsp_present)
        .on("icachePresent", &c.icache_present)
        .on("dcachePresent", &c.dcache_present)
        .on("itcmPresent", &c.itcm_present)
        .on("dtcmPresent", &c.dtcm_present)
        .on("vtorPresent", &c.vtor_present)
        .n("nvicPrioBits", c.nvic_priority_bits)
        .n("vendorSystickConfig", c.has_vendor_systick)
        .on("deviceNumInterrupts", &c.device_num_interrupts)
        .on("sauNumRegions", &c.sau_num_regions)
        .end()
}
pub fn device(d: &Device) -> V {
    B::new()
        .os("vendor", &d.vendor)
        .os("vendorID", &d.vendor_id)
        .s("name", &d.name)
        .os("series", &d.series)
        .s("version", &d.version)
        .s("description", &d.description)
        .os("licenseText", &d.license_text)
        .ov("cpu", d.cpu.as_ref().map(cpu))
        .os("headerSystemFilename", &d.header_system_filename)
        .os("headerDefinitionsPrefix", &d.header_definitions_prefix)
        .n("addressUnitBits", d.address_unit_bits)
        .n("width", d.width)
        .v("properties", props(&d.default_register_properties))
        .v("peripherals", V::L(d.peripherals.iter().map(peripheral).collect()))
        .s("xmlnsXs", &d.xmlns_xs)
        .s("noNamespaceSchemaLocation", &d.no_namespace_schema_location)
        .s("schemaVersion", &d.schema_version)
        .end()
}
