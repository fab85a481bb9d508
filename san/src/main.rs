//! C22 under race detectors: threads sharing devices and texts, without any
//! use of the library before they start. `svdsan <rounds> <threads> <seed>`
//! compares all results with those of one thread afterwards.
use std::sync::{Barrier, Mutex};
use svd_parser::{expand, expand_properties, Config};
use svd_rs::{Device, ValidateLevel};

/// May be sent to and shared with other threads.
fn shareable<T: Send + Sync + 'static>() {}
fn all_shareable() {
    use svd_rs::*;
    shareable::<Device>();
    shareable::<Peripheral>();
    shareable::<PeripheralInfo>();
    shareable::<Cluster>();
    shareable::<ClusterInfo>();
    shareable::<Register>();
    shareable::<RegisterInfo>();
    shareable::<RegisterCluster>();
    shareable::<Field>();
    shareable::<FieldInfo>();
    shareable::<EnumeratedValues>();
    shareable::<EnumeratedValue>();
    shareable::<DimElement>();
    shareable::<DimArrayIndex>();
    shareable::<Cpu>();
    shareable::<Interrupt>();
    shareable::<AddressBlock>();
    shareable::<RegisterProperties>();
    shareable::<WriteConstraint>();
    shareable::<BitRange>();
    shareable::<SvdError>();
    shareable::<DeviceBuilder>();
    shareable::<PeripheralInfoBuilder>();
    shareable::<ClusterInfoBuilder>();
    shareable::<RegisterInfoBuilder>();
    shareable::<FieldInfoBuilder>();
    shareable::<EnumeratedValuesBuilder>();
    shareable::<EnumeratedValueBuilder>();
    shareable::<DimElementBuilder>();
    shareable::<CpuBuilder>();
    shareable::<svd_parser::Config>();
    shareable::<svd_parser::SVDError>();
    shareable::<svd_parser::SVDErrorAt>();
    shareable::<svd_parser::expand::Index>();
    shareable::<svd_parser::expand::FieldPath>();
    shareable::<svd_encoder::Config>();
    shareable::<svd_encoder::EncodeError>();
}

const GOOD: &str = r#"<device schemaVersion="1.1"><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><size>32</size><peripherals>
<peripheral><name>P[%s]</name><dim>2</dim><dimIncrement>0x100</dimIncrement><baseAddress>0x40000000</baseAddress><interrupt><name>I</name><value>3</value></interrupt><registers>
<register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>A,B</dimIndex><name>R%s</name><addressOffset>0</addressOffset><resetValue>#1x</resetValue><fields>
<field><name>F</name><bitRange>[3:1]</bitRange><enumeratedValues><name>E</name><enumeratedValue><name>a</name><value>1</value></enumeratedValue></enumeratedValues></field>
<field derivedFrom="F"><name>G</name><lsb>4</lsb><msb>6</msb></field></fields></register>
<cluster><name>C</name><addressOffset>0x10</addressOffset><register><name>X</name><addressOffset>4</addressOffset><fields><field><name>H</name><bitOffset>0</bitOffset><bitWidth>3</bitWidth><enumeratedValues derivedFrom="E"/></field></fields></register></cluster></registers></peripheral>
<peripheral derivedFrom="P[%s]"><name>Q</name><baseAddress>0x50000000</baseAddress></peripheral></peripherals></device>"#;
const NAMES: &str = r#"<device schemaVersion="1.1"><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals>
<peripheral><name>my-per</name><baseAddress>0</baseAddress><registers><register><name>9r</name><addressOffset>0</addressOffset></register></registers></peripheral></peripherals></device>"#;
const CYCLE: &str = r#"<device schemaVersion="1.1"><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals>
<peripheral><name>P</name><baseAddress>0</baseAddress><registers><register derivedFrom="B"><name>A</name><addressOffset>0</addressOffset></register><register derivedFrom="A"><name>B</name><addressOffset>4</addressOffset></register></registers></peripheral></peripherals></device>"#;
const BROKEN: &str = r#"<device><name>D</name><peripherals><peripheral><name>P</name><baseAddress>0xG</baseAddress></peripheral></peripherals></device>"#;
const DOCS: [&str; 4] = [GOOD, NAMES, CYCLE, BROKEN];
const LEVELS: [ValidateLevel; 3] = [ValidateLevel::Disabled, ValidateLevel::Weak, ValidateLevel::Strict];
const OPS: usize = 11;

fn text<T, E: std::fmt::Display>(r: Result<T, E>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(v) => f(&v),
        Err(e) => format!("error: {e:#}"),
    }
}

struct Shared {
    config: Config,
    expanding: Config,
    strict: Config,
    encoder: svd_encoder::Config,
    devices: [Device; 2],
}

fn op(s: &Shared, n: usize) -> String {
    let doc = DOCS[n / OPS % 4];
    let d = &s.devices[n / OPS % 2];
    let show = |d: &Device| format!("{d:?}");
    match n % OPS {
        0 => text(svd_parser::parse_with_config(doc, &s.config), show),
        1 => text(svd_parser::parse_with_config(doc, &s.expanding), show),
        2 => text(svd_parser::parse_with_config(doc, &s.strict), show),
        3 => text(svd_encoder::encode(d), |t| t.clone()),
        4 => text(svd_encoder::encode_with_config(d, &s.encoder), |t| t.clone()),
        5 => text(expand(d), |x| show(x)),
        6 => {
            let mut d = d.clone();
            expand_properties(&mut d);
            show(&d)
        }
        7 => LEVELS.map(|l| text(d.validate_all(l).map(|_| 0), |_| "valid".into())).join(";"),
        8 => text(serde_json::to_string(d), |t| t.clone()),
        9 => text(serde_json::to_value(d).and_then(serde_json::from_value::<Device>), show),
        _ => d
            .peripherals
            .iter()
            .flat_map(|p| p.all_registers().map(|r| format!("{} {:?}", r.name, r.get_field("F").map(|f| f.bit_range.lsb()))))
            .collect::<Vec<_>>()
            .join(";"),
    }
}

fn main() {
    all_shareable();
    let mut a = std::env::args().skip(1).map(|x| x.parse::<usize>().expect("number"));
    let rounds = a.next().unwrap_or(20);
    let threads = a.next().unwrap_or(8);
    let mut seed = a.next().unwrap_or(1) as u64;
    // devices made without a parser or validation: nothing is initialised yet
    let blank = |name: &str| {
        Device::builder().name(name.into()).peripherals(vec![]).build(ValidateLevel::Disabled).expect("device")
    };
    let mut encoder = svd_encoder::Config::default();
    encoder.update("field_sorting", "DerivedLast");
    encoder.update("register_name", "Constant");
    let mut s = Shared {
        config: Config::default(),
        expanding: Config::default().expand(true).expand_properties(true),
        strict: Config::default().validate_level(ValidateLevel::Strict),
        encoder,
        devices: [blank("a"), blank("b")],
    };
    let mut ops = 0;
    for round in 0..rounds {
        let mut orders = vec![];
        for _ in 0..threads {
            let mut v: Vec<usize> = (0..OPS * 4).collect();
            for i in (1..v.len()).rev() {
                seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.swap(i, (seed >> 33) as usize % (i + 1));
            }
            if cfg!(miri) {
                v.truncate(6);
            }
            orders.push(v);
        }
        let out = Mutex::new(vec![]);
        let barrier = Barrier::new(threads);
        std::thread::scope(|t| {
            for o in &orders {
                let (s, out, barrier) = (&s, &out, &barrier);
                t.spawn(move || {
                    barrier.wait();
                    let r: Vec<(usize, String)> = o.iter().map(|n| (*n, op(s, *n))).collect();
                    out.lock().unwrap().extend(r);
                });
            }
        });
        for (n, got) in out.into_inner().unwrap() {
            ops += 1;
            let want = op(&s, n);
            if want != got {
                println!("DIFFERS operation {n} among threads: {got}\nalone: {want}");
                std::process::exit(3);
            }
        }
        if round == 0 {
            for i in 0..2 {
                s.devices[i] = svd_parser::parse(DOCS[i]).expect("device");
            }
        }
    }
    println!("{ops} operations among {threads} threads in {rounds} rounds");
}
