//! C15 builders and modifications.
use crate::dump::{self, V};
use crate::gen::{self, Gen, Kind, Opt};
use crate::rng::{hash_str, Rng};
use crate::sup::*;
use std::collections::BTreeMap;
use svd_rs::ValidateLevel::*;
use svd_rs::*;

/// An object as a flat map; register properties and bit ranges are split up.
type Flat = BTreeMap<String, V>;

fn flat(v: &V) -> Flat {
    let mut m = Flat::new();
    if let V::M(x) = v {
        for (k, v) in x {
            match (*k, v) {
                ("properties" | "bitRange", V::M(y)) => {
                    for (q, w) in y {
                        m.insert(format!("{k}.{q}"), w.clone());
                    }
                }
                _ => {
                    m.insert(k.to_string(), v.clone());
                }
            }
        }
    }
    m
}

struct Step<B> {
    setter: &'static str,
    /// keys the setter is responsible for, with the values it sets
    keys: Vec<String>,
    set: Flat,
    apply: Box<dyn FnOnce(B) -> B>,
}

fn step<B>(from: &Flat, setter: &'static str, keys: &[&str], apply: impl FnOnce(B) -> B + 'static) -> Step<B> {
    let mut all = vec![];
    for k in keys {
        match *k {
            "properties" => all.extend(
                ["size", "access", "protection", "resetValue", "resetMask"].map(|x| format!("properties.{x}")),
            ),
            "bitRange" => all.extend(["offset", "width", "range_type"].map(|x| format!("bitRange.{x}"))),
            k => all.push(k.to_string()),
        }
    }
    let set = from.iter().filter(|x| all.contains(x.0)).map(|x| (x.0.clone(), x.1.clone())).collect();
    Step {
        setter,
        keys: all,
        set,
        apply: Box::new(apply),
    }
}

struct Kit<T: 'static, B: 'static> {
    name: &'static str,
    dump: fn(&T) -> V,
    gen: fn(&mut Gen) -> T,
    steps: fn(&T) -> Vec<Step<B>>,
    new: fn() -> B,
    build: fn(B, ValidateLevel) -> Result<T, SvdError>,
    from: fn(T) -> B,
    modify: fn(&mut T, B, ValidateLevel) -> Result<(), SvdError>,
    /// keys without which nothing can be built, with the names an error may use
    required: &'static [(&'static str, &'static [&'static str])],
    /// values of an object none of whose setters were called
    defaults: &'static [(&'static str, &'static str)],
    /// keys whose empty text means absent
    texts: &'static [(&'static str, fn(B) -> B)],
    /// groups cleared when a modification sets derivedFrom
    cleared: &'static [&'static str],
    /// keys left open in such a modification
    open: &'static [&'static str],
}

macro_rules! steps {
    ($t:ty, $b:ty, $dump:path; $($setter:ident $(: $keys:expr)? => |$d:ident| $v:expr;)*) => {
        |donor: &$t| {
            let f = flat(&$dump(donor));
            let mut v: Vec<Step<$b>> = vec![];
            $({
                let $d = donor;
                let val = $v;
                #[allow(unused_mut, unused_assignments)]
                let mut keys: &[&str] = &[];
                $(keys = &$keys;)?
                v.push(step(&f, stringify!($setter), keys, move |b: $b| b.$setter(val)));
            })*
            v
        }
    };
}

macro_rules! texts {
    ($($key:literal => $setter:ident),*) => {
        &[$(($key, |b| b.$setter(Some(String::new())))),*]
    };
}

fn device() -> Kit<Device, DeviceBuilder> {
    Kit {
        name: "Device",
        dump: dump::device,
        gen: |g| {
            let mut d = g.device();
            if g.r.pct(30) {
                d.cpu = None
            }
            d
        },
        steps: steps! {Device, DeviceBuilder, dump::device;
            vendor: ["vendor"] => |d| d.vendor.clone();
            vendor_id: ["vendorID"] => |d| d.vendor_id.clone();
            name: ["name"] => |d| d.name.clone();
            series: ["series"] => |d| d.series.clone();
            version: ["version"] => |d| d.version.clone();
            description: ["description"] => |d| d.description.clone();
            license_text: ["licenseText"] => |d| d.license_text.clone();
            cpu: ["cpu"] => |d| d.cpu.clone();
            header_system_filename: ["headerSystemFilename"] => |d| d.header_system_filename.clone();
            header_definitions_prefix: ["headerDefinitionsPrefix"] => |d| d.header_definitions_prefix.clone();
            address_unit_bits: ["addressUnitBits"] => |d| d.address_unit_bits;
            width: ["width"] => |d| d.width;
            default_register_properties: ["properties"] => |d| d.default_register_properties;
            peripherals: ["peripherals"] => |d| d.peripherals.clone();
            xmlns_xs: ["xmlnsXs"] => |d| d.xmlns_xs.clone();
            no_namespace_schema_location: ["noNamespaceSchemaLocation"] => |d| d.no_namespace_schema_location.clone();
            schema_version: ["schemaVersion"] => |d| d.schema_version.clone();
        },
        new: Device::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[("name", &["name"]), ("peripherals", &["peripherals"])],
        defaults: &[
            ("version", "1.0"),
            ("description", ""),
            ("addressUnitBits", "8"),
            ("width", "32"),
            ("schemaVersion", "1.1"),
            ("noNamespaceSchemaLocation", "CMSIS-SVD_Schema_1_1.xsd"),
            ("xmlnsXs", "http://www.w3.org/2001/XMLSchema-instance"),
        ],
        texts: texts!["vendor" => vendor, "vendorID" => vendor_id, "series" => series, "licenseText" => license_text,
            "headerSystemFilename" => header_system_filename, "headerDefinitionsPrefix" => header_definitions_prefix],
        cleared: &[],
        open: &[],
    }
}

fn cpu() -> Kit<Cpu, CpuBuilder> {
    Kit {
        name: "Cpu",
        dump: dump::cpu,
        gen: |g| g.cpu(),
        steps: steps! {Cpu, CpuBuilder, dump::cpu;
            name: ["name"] => |d| d.name.clone();
            revision: ["revision"] => |d| d.revision.clone();
            endian: ["endian"] => |d| d.endian;
            mpu_present: ["mpuPresent"] => |d| d.mpu_present;
            fpu_present: ["fpuPresent"] => |d| d.fpu_present;
            fpu_double_precision: ["fpuDP"] => |d| d.fpu_double_precision;
            dsp_present: ["dspPresent"] => |d| d.dsp_present;
            icache_present: ["icachePresent"] => |d| d.icache_present;
            dcache_present: ["dcachePresent"] => |d| d.dcache_present;
            itcm_present: ["itcmPresent"] => |d| d.itcm_present;
            dtcm_present: ["dtcmPresent"] => |d| d.dtcm_present;
            vtor_present: ["vtorPresent"] => |d| d.vtor_present;
            nvic_priority_bits: ["nvicPrioBits"] => |d| d.nvic_priority_bits;
            has_vendor_systick: ["vendorSystickConfig"] => |d| d.has_vendor_systick;
            device_num_interrupts: ["deviceNumInterrupts"] => |d| d.device_num_interrupts;
            sau_num_regions: ["sauNumRegions"] => |d| d.sau_num_regions;
        },
        new: Cpu::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[
            ("name", &["name"]),
            ("revision", &["revision"]),
            ("endian", &["endian"]),
            ("mpuPresent", &["mpupresent"]),
            ("fpuPresent", &["fpupresent"]),
            ("nvicPrioBits", &["nvicpriobits", "nvicprioritybits"]),
            ("vendorSystickConfig", &["vendorsystickconfig", "hasvendorsystick"]),
        ],
        defaults: &[],
        texts: &[],
        cleared: &[],
        open: &[],
    }
}

fn peripheral() -> Kit<PeripheralInfo, PeripheralInfoBuilder> {
    Kit {
        name: "PeripheralInfo",
        dump: dump::peripheral_info,
        gen: |g| {
            let mut p = g.peripheral_info(Kind::Single);
            if p.registers.as_ref().is_some_and(|v| v.is_empty()) {
                p.registers = None;
            }
            if g.r.pct(40) {
                p.derived_from = Some(g.derived(false));
            }
            p
        },
        steps: steps! {PeripheralInfo, PeripheralInfoBuilder, dump::peripheral_info;
            name: ["name"] => |d| d.name.clone();
            display_name: ["displayName"] => |d| d.display_name.clone();
            version: ["version"] => |d| d.version.clone();
            description: ["description"] => |d| d.description.clone();
            alternate_peripheral: ["alternatePeripheral"] => |d| d.alternate_peripheral.clone();
            group_name: ["groupName"] => |d| d.group_name.clone();
            prepend_to_name: ["prependToName"] => |d| d.prepend_to_name.clone();
            append_to_name: ["appendToName"] => |d| d.append_to_name.clone();
            header_struct_name: ["headerStructName"] => |d| d.header_struct_name.clone();
            base_address: ["baseAddress"] => |d| d.base_address;
            default_register_properties: ["properties"] => |d| d.default_register_properties;
            address_block: ["addressBlock"] => |d| d.address_block.clone();
            interrupt: ["interrupt"] => |d| Some(d.interrupt.clone());
            registers: ["registers"] => |d| d.registers.clone();
            derived_from: ["derivedFrom"] => |d| d.derived_from.clone();
        },
        new: PeripheralInfo::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[("name", &["name"]), ("baseAddress", &["baseaddress"])],
        defaults: &[("interrupt", "[]")],
        texts: texts!["displayName" => display_name, "version" => version, "description" => description,
            "alternatePeripheral" => alternate_peripheral, "groupName" => group_name,
            "prependToName" => prepend_to_name, "appendToName" => append_to_name,
            "headerStructName" => header_struct_name],
        cleared: &["registers", "addressBlock", "properties."],
        open: &[],
    }
}

fn cluster() -> Kit<ClusterInfo, ClusterInfoBuilder> {
    Kit {
        name: "ClusterInfo",
        dump: dump::cluster_info,
        gen: |g| {
            let mut x = g.cluster_info(Kind::Single, 0);
            if g.r.pct(40) {
                x.derived_from = Some(g.derived(true));
            }
            x
        },
        steps: steps! {ClusterInfo, ClusterInfoBuilder, dump::cluster_info;
            name: ["name"] => |d| d.name.clone();
            description: ["description"] => |d| d.description.clone();
            alternate_cluster: ["alternateCluster"] => |d| d.alternate_cluster.clone();
            header_struct_name: ["headerStructName"] => |d| d.header_struct_name.clone();
            address_offset: ["addressOffset"] => |d| d.address_offset;
            default_register_properties: ["properties"] => |d| d.default_register_properties;
            children: ["children"] => |d| d.children.clone();
            derived_from: ["derivedFrom"] => |d| d.derived_from.clone();
        },
        new: ClusterInfo::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[
            ("name", &["name"]),
            ("addressOffset", &["addressoffset"]),
            ("children", &["children", "registers"]),
        ],
        defaults: &[],
        texts: texts!["description" => description, "alternateCluster" => alternate_cluster,
            "headerStructName" => header_struct_name],
        cleared: &["children", "properties."],
        open: &[],
    }
}

fn register() -> Kit<RegisterInfo, RegisterInfoBuilder> {
    Kit {
        name: "RegisterInfo",
        dump: dump::register_info,
        gen: |g| {
            let mut x = g.register_info(Kind::Single);
            if g.r.pct(40) {
                x.derived_from = Some(g.derived(true));
            }
            x
        },
        steps: steps! {RegisterInfo, RegisterInfoBuilder, dump::register_info;
            name: ["name"] => |d| d.name.clone();
            display_name: ["displayName"] => |d| d.display_name.clone();
            description: ["description"] => |d| d.description.clone();
            alternate_group: ["alternateGroup"] => |d| d.alternate_group.clone();
            alternate_register: ["alternateRegister"] => |d| d.alternate_register.clone();
            address_offset: ["addressOffset"] => |d| d.address_offset;
            properties: ["properties"] => |d| d.properties;
            size: ["properties.size"] => |d| d.properties.size;
            access: ["properties.access"] => |d| d.properties.access;
            reset_value: ["properties.resetValue"] => |d| d.properties.reset_value;
            reset_mask: ["properties.resetMask"] => |d| d.properties.reset_mask;
            datatype: ["dataType"] => |d| d.datatype;
            modified_write_values: ["modifiedWriteValues"] => |d| d.modified_write_values;
            write_constraint: ["writeConstraint"] => |d| d.write_constraint;
            read_action: ["readAction"] => |d| d.read_action;
            fields: ["fields"] => |d| d.fields.clone();
            derived_from: ["derivedFrom"] => |d| d.derived_from.clone();
        },
        new: RegisterInfo::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[("name", &["name"]), ("addressOffset", &["addressoffset"])],
        defaults: &[],
        texts: texts!["displayName" => display_name, "description" => description,
            "alternateGroup" => alternate_group, "alternateRegister" => alternate_register],
        cleared: &["fields", "properties.", "dataType", "modifiedWriteValues", "writeConstraint"],
        open: &["readAction"],
    }
}

fn field() -> Kit<FieldInfo, FieldInfoBuilder> {
    Kit {
        name: "FieldInfo",
        dump: dump::field_info,
        gen: |g| {
            let mut x = g.field_info(Kind::Single);
            if g.r.pct(40) {
                x.derived_from = Some(g.derived(true));
            }
            x
        },
        steps: steps! {FieldInfo, FieldInfoBuilder, dump::field_info;
            name: ["name"] => |d| d.name.clone();
            description: ["description"] => |d| d.description.clone();
            bit_range: ["bitRange"] => |d| d.bit_range;
            bit_offset: ["bitRange.offset"] => |d| d.bit_range.offset;
            bit_width: ["bitRange.width"] => |d| d.bit_range.width;
            access: ["access"] => |d| d.access;
            modified_write_values: ["modifiedWriteValues"] => |d| d.modified_write_values;
            write_constraint: ["writeConstraint"] => |d| d.write_constraint;
            read_action: ["readAction"] => |d| d.read_action;
            enumerated_values: ["enumeratedValues"] => |d| d.enumerated_values.clone();
            derived_from: ["derivedFrom"] => |d| d.derived_from.clone();
        },
        new: FieldInfo::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[
            ("name", &["name"]),
            ("bitRange.offset", &["bitrange", "bitoffset", "offset"]),
            ("bitRange.width", &["bitrange", "bitwidth", "width"]),
        ],
        defaults: &[("enumeratedValues", "[]")],
        texts: texts!["description" => description],
        cleared: &["modifiedWriteValues", "writeConstraint", "enumeratedValues"],
        open: &["readAction"],
    }
}

fn evs() -> Kit<EnumeratedValues, EnumeratedValuesBuilder> {
    Kit {
        name: "EnumeratedValues",
        dump: dump::evs,
        gen: |g| {
            let mut x = g.evs(u64::MAX);
            if g.r.pct(40) {
                x.derived_from = Some(g.derived(true));
            }
            x
        },
        steps: steps! {EnumeratedValues, EnumeratedValuesBuilder, dump::evs;
            name: ["name"] => |d| d.name.clone();
            usage: ["usage"] => |d| d.usage;
            derived_from: ["derivedFrom"] => |d| d.derived_from.clone();
            values: ["values"] => |d| d.values.clone();
        },
        new: EnumeratedValues::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[],
        defaults: &[("values", "[]")],
        texts: texts!["name" => name],
        cleared: &["values", "name", "usage"],
        open: &[],
    }
}

fn ev() -> Kit<EnumeratedValue, EnumeratedValueBuilder> {
    Kit {
        name: "EnumeratedValue",
        dump: dump::ev,
        gen: |g| g.ev(u64::MAX),
        steps: steps! {EnumeratedValue, EnumeratedValueBuilder, dump::ev;
            name: ["name"] => |d| d.name.clone();
            description: ["description"] => |d| d.description.clone();
            value: ["value"] => |d| d.value;
            is_default: ["isDefault"] => |d| d.is_default;
        },
        new: EnumeratedValue::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[("name", &["name"])],
        defaults: &[],
        texts: texts!["description" => description],
        cleared: &[],
        open: &[],
    }
}

fn dim() -> Kit<DimElement, DimElementBuilder> {
    Kit {
        name: "DimElement",
        dump: dump::dim,
        gen: |g| g.dim(),
        steps: steps! {DimElement, DimElementBuilder, dump::dim;
            dim: ["dim"] => |d| d.dim;
            dim_increment: ["dimIncrement"] => |d| d.dim_increment;
            dim_index: ["dimIndex"] => |d| d.dim_index.clone();
            dim_name: ["dimName"] => |d| d.dim_name.clone();
            dim_array_index: ["dimArrayIndex"] => |d| d.dim_array_index.clone();
        },
        new: DimElement::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[("dim", &["dim"]), ("dimIncrement", &["dimincrement"])],
        defaults: &[],
        texts: texts!["dimName" => dim_name],
        cleared: &[],
        open: &[],
    }
}

fn interrupt(c: &mut Ctx) -> R {
    exercise(c, &Kit {
        name: "Interrupt",
        dump: dump::interrupt,
        gen: |g| g.interrupt(),
        steps: steps! {Interrupt, svd_rs::interrupt::InterruptBuilder, dump::interrupt;
            name: ["name"] => |d| d.name.clone();
            description: ["description"] => |d| d.description.clone();
            value: ["value"] => |d| d.value;
        },
        new: Interrupt::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[("name", &["name"]), ("value", &["value"])],
        defaults: &[],
        texts: texts!["description" => description],
        cleared: &[],
        open: &[],
    })
}

fn address_block(c: &mut Ctx) -> R {
    exercise(c, &Kit {
        name: "AddressBlock",
        dump: dump::address_block,
        gen: |g| g.address_block(),
        steps: steps! {AddressBlock, svd_rs::addressblock::AddressBlockBuilder, dump::address_block;
            offset: ["offset"] => |d| d.offset;
            size: ["size"] => |d| d.size;
            usage: ["usage"] => |d| d.usage;
            protection: ["protection"] => |d| d.protection;
        },
        new: AddressBlock::builder,
        build: |b, l| b.build(l),
        from: |x| x.into(),
        modify: |x, b, l| x.modify_from(b, l),
        required: &[("offset", &["offset"]), ("size", &["size"]), ("usage", &["usage"])],
        defaults: &[],
        texts: &[],
        cleared: &[],
        open: &[],
    })
}

fn properties() -> Kit<RegisterProperties, RegisterProperties> {
    Kit {
        name: "RegisterProperties",
        dump: dump::props,
        gen: |g| g.props(),
        steps: steps! {RegisterProperties, RegisterProperties, dump::props;
            size: ["size"] => |d| d.size;
            access: ["access"] => |d| d.access;
            protection: ["protection"] => |d| d.protection;
            reset_value: ["resetValue"] => |d| d.reset_value;
            reset_mask: ["resetMask"] => |d| d.reset_mask;
        },
        new: RegisterProperties::new,
        build: |b, l| b.build(l),
        from: |x| x,
        modify: |x, b, l| x.modify_from(b, l),
        required: &[],
        defaults: &[],
        texts: &[],
        cleared: &[],
        open: &[],
    }
}

/// What the setters called on a builder amount to.
#[derive(Clone, Default)]
struct Model {
    set: Flat,
    trace: Vec<String>,
}

fn play<T, B>(c: &mut Ctx, k: &Kit<T, B>, mut b: B, m: &mut Model, donors: &[T], n: usize, skip: &[&str], empty: bool) -> B {
    for _ in 0..n {
        if empty && !k.texts.is_empty() && c.rng.pct(12) {
            let (key, f) = c.rng.pick(k.texts);
            m.set.insert(key.to_string(), V::S(String::new()));
            m.trace.push(format!("{key} := \"\""));
            b = f(b);
            c.ev("empty texts set", 1);
            continue;
        }
        let d = c.rng.pick(donors);
        let mut steps: Vec<Step<B>> = (k.steps)(d).into_iter().filter(|s| !s.keys.iter().any(|x| skip.contains(&x.as_str()))).collect();
        if steps.is_empty() {
            return b;
        }
        let s = steps.swap_remove(c.rng.below(steps.len()));
        b = call(c, b, m, s);
    }
    b
}

fn call<B>(c: &mut Ctx, b: B, m: &mut Model, s: Step<B>) -> B {
    // a type of range is known only with the whole range
    for x in &s.keys {
        m.set.remove(x);
    }
    m.trace.push(s.setter.to_string());
    m.set.extend(s.set);
    c.ev("setters called", 1);
    (s.apply)(b)
}

fn shuffle<X>(r: &mut Rng, v: &mut [X]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}

fn value(key: &str, s: &str) -> V {
    if s == "[]" && key != "description" {
        V::L(vec![])
    } else {
        V::S(s.to_string())
    }
}

fn compare(what: &str, name: &str, want: &Flat, got: &Flat, trace: &[String]) -> R {
    for k in want.keys().chain(got.keys()) {
        if want.get(k) != got.get(k) {
            return fail(
                &format!("{what} {name}"),
                format!(
                    "{what} {name}: {k} is {}, wanted {}",
                    got.get(k).map(|v| v.render()).unwrap_or("absent".into()),
                    want.get(k).map(|v| v.render()).unwrap_or("absent".into())
                ),
                trace.join(", "),
            );
        }
    }
    Ok(())
}

fn level(r: &mut Rng) -> ValidateLevel {
    *r.pick(&[Disabled, Weak, Strict])
}

fn exercise<T: Clone, B: Clone>(c: &mut Ctx, k: &Kit<T, B>) -> R {
    let lvl = c.rng.below(3) as u8;
    let mut donors: Vec<T> = vec![];
    for _ in 0..3 {
        let mut o = Opt::random(&mut c.rng, lvl);
        o.budget = o.budget.min(8);
        o.derive = true;
        let mut g = Gen::new(&mut c.rng, o);
        donors.push((k.gen)(&mut g));
    }
    c.eval();
    c.ev(k.name, 1);

    // an object made a builder and built again
    let d = &donors[0];
    let want = flat(&(k.dump)(d));
    let l = match lvl {
        0 => Disabled,
        1 => *c.rng.pick(&[Disabled, Weak]),
        _ => level(&mut c.rng),
    };
    match sut(k.name, || (k.build)((k.from)(d.clone()), l))? {
        Ok(x) => compare("rebuilding", k.name, &want, &flat(&(k.dump)(&x)), &[])?,
        Err(e) => {
            return fail(
                &format!("rebuilding {}", k.name),
                format!("rebuilding a {} fails at level {l:?}: {e}", k.name),
                (k.dump)(d).render(),
            )
        }
    }

    // all setters of one object, in random order: buildable wherever the object is valid
    let mut steps = (k.steps)(d);
    shuffle(&mut c.rng, &mut steps);
    let mut m = Model::default();
    let mut b = (k.new)();
    for s in steps {
        b = call(c, b, &mut m, s);
    }
    if k.name == "FieldInfo" && !m.set.contains_key("bitRange.range_type") {
        m.set.insert("bitRange.range_type".into(), V::S("OffsetWidth".into()));
    }
    match sut(k.name, || (k.build)(b, l))? {
        Ok(x) => compare("building", k.name, &want, &flat(&(k.dump)(&x)), &m.trace)?,
        Err(e) => {
            return fail(
                &format!("building {}", k.name),
                format!("building a {} from all its values fails at level {l:?}: {e}", k.name),
                (k.dump)(d).render(),
            )
        }
    }

    // calls at random, with values of several objects
    for _ in 0..3 {
        let mut skip: Vec<&str> = vec![];
        if c.rng.pct(35) && !k.required.is_empty() {
            for _ in 0..c.rng.range(1, 2) {
                skip.push(c.rng.pick(k.required).0);
            }
        }
        if k.name == "Device" && c.rng.pct(40) {
            skip.push(*c.rng.pick(&["version", "description", "addressUnitBits", "width", "schemaVersion"]));
        }
        let mut m = Model::default();
        let mut b = (k.new)();
        if c.rng.pct(25) && skip.is_empty() {
            b = (k.from)(donors[1].clone());
            m.set = flat(&(k.dump)(&donors[1]));
            m.trace.push("from an object".into());
        }
        let n = c.rng.range(2, 40);
        b = play(c, k, b, &mut m, &donors, n, &skip, false);
        if c.rng.pct(50) {
            // complete it
            let (mut steps, seen) = ((k.steps)(&donors[2]), m.set.clone());
            shuffle(&mut c.rng, &mut steps);
            for s in steps {
                let whole = matches!(s.setter, "bit_range" | "properties" | "default_register_properties");
                if whole || s.keys.iter().any(|x| skip.contains(&x.as_str()) || seen.contains_key(x)) {
                    continue;
                }
                b = call(c, b, &mut m, s);
            }
        }
        if k.name == "FieldInfo"
            && m.set.contains_key("bitRange.offset")
            && m.set.contains_key("bitRange.width")
            && !m.set.contains_key("bitRange.range_type")
        {
            m.set.insert("bitRange.range_type".into(), V::S("OffsetWidth".into()));
        }
        let l = if k.name == "Device" { *c.rng.pick(&[Disabled, Strict]) } else { Disabled };
        let mut missing: Vec<&str> =
            k.required.iter().filter(|x| !m.set.contains_key(x.0)).flat_map(|x| x.1.iter().copied()).collect();
        if l == Strict {
            for (key, _) in &k.defaults[..4] {
                if !m.set.contains_key(*key) {
                    missing.push(*key);
                }
            }
        }
        let r = sut(k.name, || (k.build)(b.clone(), l))?;
        if !missing.is_empty() {
            c.ev("missing values", 1);
            match r {
                Ok(x) => {
                    return fail(
                        &format!("missing in {}", k.name),
                        format!("a {} without {} was built: {}", k.name, missing.join(", "), (k.dump)(&x).render()),
                        m.trace.join(", "),
                    )
                }
                Err(e) => {
                    let t = e.to_string().to_lowercase().replace(['_', '-', ' '], "");
                    if !missing.iter().any(|x| t.contains(&x.to_lowercase())) {
                        // at the strict level something else may be wrong as well
                        if l != Strict {
                            return fail(
                                &format!("missing in {}", k.name),
                                format!("the error `{e}` of a {} names none of {}", k.name, missing.join(", ")),
                                m.trace.join(", "),
                            );
                        }
                    } else {
                        c.ev("missing values named", 1);
                    }
                }
            }
            continue;
        }
        for (key, v) in k.defaults {
            m.set.entry(key.to_string()).or_insert_with(|| value(key, v));
        }
        match r {
            Ok(x) => {
                c.ev("built", 1);
                compare("building", k.name, &m.set, &flat(&(k.dump)(&x)), &m.trace)?
            }
            Err(_) if l == Strict => {}
            Err(e) => {
                return fail(
                    &format!("building {}", k.name),
                    format!("building a {} fails without validation: {e}", k.name),
                    m.trace.join(", "),
                )
            }
        }
        // a builder is a value: building the copy again gives the same
        if let (Ok(x), Ok(y)) = (sut(k.name, || (k.build)(b.clone(), l))?, sut(k.name, || (k.build)(b, l))?) {
            compare("building again", k.name, &flat(&(k.dump)(&x)), &flat(&(k.dump)(&y)), &m.trace)?;
        }
    }

    // a history of modifications
    let mut x = donors[0].clone();
    let mut state = flat(&(k.dump)(&x));
    let mut trace = vec![];
    for _ in 0..c.rng.range(1, 6) {
        let mut m = Model::default();
        let mut b = (k.new)();
        if c.rng.pct(15) {
            b = (k.from)(donors[1].clone());
            m.set = flat(&(k.dump)(&donors[1]));
            m.trace.push("from an object".into());
        }
        let derives = !k.cleared.is_empty() && c.rng.pct(30);
        let skip: &[&str] = if derives { &[] } else { &["derivedFrom"] };
        let n = c.rng.count(12);
        b = play(c, k, b, &mut m, &donors, n, skip, true);
        let derived = m.set.contains_key("derivedFrom");
        trace.push(format!("modify [{}]", m.trace.join(", ")));
        let before = state.clone();
        for (key, v) in &m.set {
            if *v == V::S(String::new()) && k.texts.iter().any(|t| t.0 == key) {
                state.remove(key);
            } else {
                state.insert(key.clone(), v.clone());
            }
        }
        if derived {
            c.ev("modified to be derived", 1);
            for g in k.cleared {
                state.retain(|key, _| !key.starts_with(g));
            }
            for (key, v) in k.defaults {
                if k.cleared.contains(key) {
                    state.insert(key.to_string(), value(key, v));
                }
            }
            if k.name == "ClusterInfo" {
                state.insert("children".into(), V::L(vec![]));
            }
        }
        let (old, again) = (x.clone(), b.clone());
        if let Err(e) = sut(k.name, || (k.modify)(&mut x, b, Disabled))? {
            return fail(
                &format!("modifying {}", k.name),
                format!("modifying a {} fails without validation: {e}", k.name),
                trace.join("; "),
            );
        }
        let got = flat(&(k.dump)(&x));
        let mut open: Vec<&str> = vec![];
        if derived {
            open.extend(k.open.iter().filter(|o| m.set.contains_key(**o)));
        }
        // both parts set apart: the notation is open
        if m.set.contains_key("bitRange.offset") && m.set.contains_key("bitRange.width") && !m.set.contains_key("bitRange.range_type") {
            open.push("bitRange.range_type");
        }
        for o in open {
            // nothing but the old value, the new one or none
            let g = got.get(o);
            if g.is_some() && g != before.get(o) && g != m.set.get(o) && o != "bitRange.range_type" {
                return fail(
                    &format!("modifying {}", k.name),
                    format!("modifying a {}: {o} is {}", k.name, g.map(|v| v.render()).unwrap_or_default()),
                    trace.join("; "),
                );
            }
            match g {
                Some(v) => state.insert(o.to_string(), v.clone()),
                None => state.remove(o),
            };
        }
        compare("modifying", k.name, &state, &got, &trace)?;
        c.ev("modifications", 1);
        // what is judged is the outcome, at any level
        let l = *c.rng.pick(&[Weak, Strict]);
        let ok = sut(k.name, || (k.build)((k.from)(x.clone()), l))?.is_ok();
        let mut y = old;
        let r = sut(k.name, || (k.modify)(&mut y, again, l))?;
        match r {
            Ok(()) => compare("modifying with validation", k.name, &got, &flat(&(k.dump)(&y)), &trace)?,
            Err(e) if ok => {
                return fail(
                    &format!("modifying {} with validation", k.name),
                    format!("modifying a {} fails at level {l:?} though the outcome is valid: {e}", k.name),
                    trace.join("; "),
                )
            }
            Err(_) => c.ev("modifications refused", 1),
        }
        if ok {
            c.ev("modifications with valid outcome", 1);
        }
        c.ev("values compared", got.len());
    }
    c.seen(hash_str(k.name) ^ hash_str(&format!("{state:?}")));
    c.sample(|| format!("{}: {}", k.name, trace.join("; ")));
    Ok(())
}

/// single, array and maybe_array
fn arrays(c: &mut Ctx) -> R {
    let o = Opt::random(&mut c.rng, 0);
    let mut g = Gen::new(&mut c.rng, o);
    g.left = 4;
    let d = g.dim();
    let (p, k, r, f) = (
        g.peripheral_info(Kind::Array),
        g.cluster_info(Kind::Array, 0),
        g.register_info(Kind::Array),
        g.field_info(Kind::Array),
    );
    let dd = dump::dim(&d);
    macro_rules! kind {
        ($x:expr, $dump:path, $name:expr) => {{
            let i = $dump(&$x);
            for (v, want) in [
                (sut($name, || $x.clone().single())?, false),
                (sut($name, || $x.clone().array(d.clone()))?, true),
                (sut($name, || $x.clone().maybe_array(None))?, false),
                (sut($name, || $x.clone().maybe_array(Some(d.clone())))?, true),
            ] {
                let (info, dim) = dump::split(&v);
                if $dump(info) != i || dim.map(dump::dim) != want.then(|| dd.clone()) {
                    return fail(
                        &format!("array of {}", $name),
                        format!("single, array or maybe_array of a {} does not hold what it was given", $name),
                        i.render(),
                    );
                }
                c.ev("singles and arrays made", 1);
            }
        }};
    }
    kind!(p, dump::peripheral_info, "peripheral");
    kind!(k, dump::cluster_info, "cluster");
    kind!(r, dump::register_info, "register");
    kind!(f, dump::field_info, "field");
    Ok(())
}

pub fn c15(c: &mut Ctx) -> R {
    match c.idx % 13 {
        0 => exercise(c, &device()),
        1 => exercise(c, &cpu()),
        2 => exercise(c, &peripheral()),
        3 => exercise(c, &cluster()),
        4 => exercise(c, &register()),
        5 => exercise(c, &field()),
        6 => exercise(c, &evs()),
        7 => exercise(c, &ev()),
        8 => exercise(c, &dim()),
        9 => interrupt(c),
        10 => address_block(c),
        11 => exercise(c, &properties()),
        _ => arrays(c),
    }?;
    let _ = gen::tpl_dim;
    Ok(())
}
