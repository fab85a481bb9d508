use crate::sup::Spec;
pub mod build;
pub mod derive;
pub mod encode;
pub mod expand;
pub mod misc;
pub mod parse;
pub mod parts;
pub mod pure;
pub mod ser;
pub mod validate;

use crate::dump::*;
use crate::rng::Rng;
use svd_rs::*;


/// Makes arrays small enough for expansion.
pub fn tame(d: &mut Device, max: u32, r: &mut Rng) {
    fn dim(d: Option<&mut DimElement>, max: u32, r: &mut Rng) {
        if let Some(d) = d {
            if d.dim > max {
                d.dim = r.range(0, max as usize) as u32;
                if let Some(l) = &mut d.dim_index {
                    l.truncate(d.dim as usize);
                    if l.is_empty() {
                        d.dim_index = None;
                    }
                }
            }
        }
    }
    fn rcs(v: &mut [RegisterCluster], max: u32, r: &mut Rng) {
        for x in v {
            match x {
                RegisterCluster::Register(g) => {
                    let (g, d) = split_mut(g);
                    dim(d, max, r);
                    for f in g.fields.iter_mut().flatten() {
                        dim(split_mut(f).1, max, r);
                    }
                }
                RegisterCluster::Cluster(c) => {
                    let (c, d) = split_mut(c);
                    dim(d, max, r);
                    rcs(&mut c.children, max, r);
                }
            }
        }
    }
    for p in &mut d.peripherals {
        let (p, pd) = split_mut(p);
        dim(pd, max, r);
        if let Some(v) = &mut p.registers {
            rcs(v, max, r);
        }
    }
}

pub static SPECS: &[Spec] = &[
    Spec {
        id: "C01",
        quick: 60000,
        thorough: 1800000,
        run: parse::c01,
        need: &[
            ("documents", 20000),
            ("documents with defaulted parts", 6045),
            ("elements written", 6930842),
            ("values compared", 8779671),
        ],
        rule: "seeded random devices over every element kind, written as documents of random layout (permuted children, junk elements, comments, CDATA, references, notation styles), parsed at every level",
        assumptions: &["optional texts consisting of white space only and texts split by comments are left out"],
        isolated: false,
    },
    Spec {
        id: "C02",
        quick: 40000,
        thorough: 800000,
        run: parse::c02,
        need: &[
            ("# binary", 4169),
            ("0X hexadecimal", 2690),
            ("0b binary", 7388),
            ("0x hexadecimal", 10625),
            ("bad bit ranges refused", 8830),
            ("bad dimIndex refused", 3162),
            ("bad literals refused", 33427),
            ("bit ranges in three notations", 40000),
            ("decimal", 14117),
            ("good dimIndex", 10101),
            ("good literals", 45700),
        ],
        rule: "a literal, bit range or dimIndex text of random form placed at a random position of its kind in a random document; half of them outside the grammar or out of range",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C03",
        quick: 80000,
        thorough: 3200000,
        run: parse::c03,
        need: &[
            ("errors", 27245),
            ("errors with expansion", 41235),
            ("parsed", 6731),
            ("parsed and expanded", 4788),
        ],
        rule: "random, mutated, truncated and extreme documents and plain garbage under random parser options, one call each without and with expansion",
        assumptions: &["element nesting up to 200 levels, up to about 10^6 array items; roxmltree's own limits are not the subject"],
        isolated: false,
    },
    Spec {
        id: "C04",
        quick: 50000,
        thorough: 1000000,
        run: parse::c04,
        need: &[
            ("documents without defect", 865),
            ("no place for the defect", 850),
            ("refused in documents of more than 300 elements", 7931),
            ("refused: array without dim", 721),
            ("refused: bad bit range", 968),
            ("refused: empty name", 1083),
            ("refused: foreign element", 2068),
            ("refused: index count", 723),
            ("refused: keyword", 2118),
            ("refused: literal", 2078),
            ("refused: missing element", 2047),
            ("refused: no bit range", 1024),
            ("refused: placeholder", 1033),
            ("refused: write constraint", 1947),
        ],
        rule: "one structural defect of a random kind planted at a random element of a random document, parsed at all three levels",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C05",
        quick: 60000,
        thorough: 1500000,
        run: parse::c05,
        need: &[
            ("located: array without dim", 624),
            ("located: bad bit range", 875),
            ("located: empty fields", 813),
            ("located: empty name", 963),
            ("located: foreign element", 1860),
            ("located: index count", 664),
            ("located: keyword", 1900),
            ("located: literal", 1882),
            ("located: missing element", 1833),
            ("located: name", 847),
            ("located: no bit range", 893),
            ("located: no value", 626),
            ("located: placeholder", 933),
            ("located: reset value", 827),
            ("located: value range", 156),
            ("located: write constraint", 1824),
            ("located: zero width", 690),
            ("no place for the defect", 1781),
            ("parents named", 45925),
        ],
        rule: "one defect of a random kind at a random element of a random document of random layout; position and names compared with the reported ones",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C06",
        quick: 45000,
        thorough: 2000000,
        run: validate::c06,
        need: &[
            ("build accepts at disabled level", 57488),
            ("build accepts at strict level", 45760),
            ("build accepts at weak level", 54848),
            ("build rejects at strict level", 11133),
            ("build rejects at weak level", 1856),
            ("building accepts at disabled level", 30000),
            ("building accepts at strict level", 5269),
            ("building accepts at weak level", 19304),
            ("building rejects at strict level", 24730),
            ("building rejects at weak level", 10696),
            ("devices", 30000),
            ("modify_from accepts at disabled level", 62936),
            ("modify_from accepts at strict level", 51524),
            ("modify_from accepts at weak level", 60088),
            ("modify_from rejects at strict level", 10516),
            ("modify_from rejects at weak level", 1906),
            ("parsing accepts at disabled level", 30000),
            ("parsing accepts at strict level", 5269),
            ("parsing accepts at weak level", 19304),
            ("parsing by default accepts at weak level", 19304),
            ("parsing by default rejects at weak level", 10696),
            ("parsing rejects at strict level", 24730),
            ("parsing rejects at weak level", 10696),
            ("recursive validation accepts at disabled level", 30000),
            ("recursive validation accepts at strict level", 5907),
            ("recursive validation accepts at weak level", 19316),
            ("recursive validation rejects at strict level", 24092),
            ("recursive validation rejects at weak level", 10684),
            ("rejected: alternate group", 2354),
            ("rejected: alternate register", 2316),
            ("rejected: cluster name", 3060),
            ("rejected: cluster path", 1142),
            ("rejected: device header", 6282),
            ("rejected: empty cluster", 3150),
            ("rejected: empty fields", 2691),
            ("rejected: empty registers", 4106),
            ("rejected: enumeration name", 1584),
            ("rejected: enumeration path", 1203),
            ("rejected: field name", 6298),
            ("rejected: field path", 1706),
            ("rejected: no peripherals", 7829),
            ("rejected: no value", 6912),
            ("rejected: no values", 8746),
            ("rejected: peripheral name", 7660),
            ("rejected: peripheral reference", 1422),
            ("rejected: register name", 6360),
            ("rejected: register path", 1980),
            ("rejected: reset mask too wide", 20014),
            ("rejected: reset value outside its mask", 13220),
            ("rejected: reset value too wide", 28149),
            ("rejected: usages", 6768),
            ("rejected: value and default", 2781),
            ("rejected: value name", 2708),
            ("rejected: value too wide", 6970),
            ("rejected: write range reversed", 2457),
            ("rejected: write range too wide", 9779),
            ("rejected: zero width", 5652),
            ("validate accepts at disabled level", 77299),
            ("validate accepts at strict level", 65600),
            ("validate accepts at weak level", 74346),
            ("validate rejects at strict level", 10652),
            ("validate rejects at weak level", 1748),
            ("validate_all accepts at disabled level", 35460),
            ("validate_all accepts at strict level", 18942),
            ("validate_all accepts at weak level", 29944),
            ("validate_all rejects at strict level", 16106),
            ("validate_all rejects at weak level", 5062),
        ],
        rule: "random devices valid at one of the levels with up to three violations or near misses of a rule planted; verdicts of recursive validation, building, parsing and single objects at all levels compared with an independent reading of the rules",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C07",
        quick: 60000,
        thorough: 1800000,
        run: encode::c07,
        need: &[
            ("round trips", 20000),
            ("values compared", 8754418),
        ],
        rule: "seeded random devices over every element kind; encoded, parsed and encoded again",
        assumptions: &["index lists match dim, no entry contains ',' or '-'; no empty optional lists"],
        isolated: false,
    },
    Spec {
        id: "C08",
        quick: 60000,
        thorough: 1800000,
        run: encode::c08,
        need: &[
            ("documents", 20000),
            ("documents with escapes", 14542),
            ("elements compared", 6742866),
        ],
        rule: "seeded random devices over every element kind; output compared with an independent element tree in schema order",
        assumptions: &["index lists match dim; no empty optional lists"],
        isolated: false,
    },
    Spec {
        id: "C09",
        quick: 40000,
        thorough: 800000,
        run: encode::c09,
        need: &[
            ("documents", 13333),
            ("elements compared", 4533208),
            ("option address_block_offset", 4487),
            ("option address_block_size", 4513),
            ("option cluster_address_offset", 4500),
            ("option cluster_name", 4170),
            ("option dim_array_index_header_enum_name", 4198),
            ("option dim_dim", 4510),
            ("option dim_increment", 4519),
            ("option enumerated_value_name", 4179),
            ("option enumerated_value_value", 4519),
            ("option enumerated_values_name", 4178),
            ("option field_name", 4211),
            ("option interrupt_name", 4191),
            ("option peripheral_base_address", 4533),
            ("option peripheral_name", 4162),
            ("option register_address_offset", 4549),
            ("option register_name", 4206),
            ("option register_reset_mask", 4522),
            ("option register_reset_value", 4503),
            ("option register_size", 4531),
            ("read back", 5329),
        ],
        rule: "seeded random devices x random encoder configurations set directly and by text; output compared with an independent element tree",
        assumptions: &["ASCII identifiers"],
        isolated: false,
    },
    Spec {
        id: "C10",
        quick: 60000,
        thorough: 1500000,
        run: encode::c10,
        need: &[
            ("elements compared", 7820629),
            ("field lists under sorting", 8751),
            ("register lists under sorting", 32816),
            ("sorted peripheral lists", 5712),
        ],
        rule: "seeded random devices of random offsets x sorting options; output compared with the independently sorted element tree",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C11",
        quick: 80000,
        thorough: 2400000,
        run: expand::c11,
        need: &[
            ("addresses too big reported", 697),
            ("devices expanded", 25969),
            ("expanded twice", 25969),
            ("expanded while parsing", 6653),
            ("items made from arrays", 199981),
            ("registers taken out of clusters", 73399),
        ],
        rule: "random devices of nested arrays and clusters within the address space or beyond; compared with a reference expander",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C12",
        quick: 100000,
        thorough: 6000000,
        run: expand::c12,
        need: &[
            ("chains of two and more", 16148),
            ("derivations in error: Cycle", 31),
            ("derivations in error: Missing", 1284),
            ("derivations resolved", 76348),
            ("devices with derivations", 24129),
            ("expanded while parsing", 2559),
            ("items made from arrays", 89306),
            ("nothing to derive", 7888),
            ("registers taken out of clusters", 45616),
        ],
        rule: "random devices with references of all forms and chains of them at all levels; compared with a reference deriver and expander",
        assumptions: &["references that name elements written in the document"],
        isolated: false,
    },
    Spec {
        id: "C13",
        quick: 120000,
        thorough: 12000000,
        run: expand::c13,
        need: &[
            ("any references: cycle", 5623),
            ("any references: harmless", 830),
            ("chains of two and more", 480),
            ("cluster inside its source: cycle", 885),
            ("cluster inside its source: harmless", 160),
            ("cycle: cycle", 7562),
            ("cycles reported", 20721),
            ("derivations resolved", 2121),
            ("expanded while parsing", 2892),
            ("items made from arrays", 3529),
            ("missing references reported", 7007),
            ("reference to itself: cycle", 6650),
            ("registers taken out of clusters", 2063),
        ],
        rule: "random devices with planted cycles, dangling and self-containing references, and wholly random reference graphs; verdict compared with a reference resolver",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C14",
        quick: 100000,
        thorough: 5000000,
        run: expand::c14,
        need: &[
            ("both expansions while parsing", 8263),
            ("devices", 33333),
            ("expanded while parsing", 13321),
            ("registers filled", 162774),
        ],
        rule: "random devices with subsets of properties at all levels; compared with a reference inheritance",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C15",
        quick: 60000,
        thorough: 6000000,
        run: build::c15,
        need: &[
            ("AddressBlock", 3076),
            ("ClusterInfo", 3077),
            ("Cpu", 3077),
            ("Device", 3077),
            ("DimElement", 3076),
            ("EnumeratedValue", 3076),
            ("EnumeratedValues", 3076),
            ("FieldInfo", 3076),
            ("Interrupt", 3076),
            ("PeripheralInfo", 3077),
            ("RegisterInfo", 3077),
            ("RegisterProperties", 3076),
            ("built", 69561),
            ("empty texts set", 20950),
            ("missing values", 41005),
            ("missing values named", 40961),
            ("modifications", 129068),
            ("modified to be derived", 5131),
            ("setters called", 3089908),
            ("singles and arrays made", 49226),
            ("values compared", 873165),
        ],
        rule: "random sequences of setters with values of several random objects, and histories of modifications, over the twelve buildable types; compared with a last-call-wins model",
        assumptions: &["no empty texts or optional lists in building; a read action set by the modification that makes the element derived is left open"],
        isolated: false,
    },
    Spec {
        id: "C16",
        quick: 25000,
        thorough: 1000000,
        run: ser::c16,
        need: &[
            ("JSON round trips", 16666),
            ("JSON values compared", 4538779),
            ("YAML round trips", 16666),
            ("arrays with index list", 24591),
            ("arrays without index list", 34307),
            ("parts on their own", 168210),
        ],
        rule: "seeded random devices over every element kind; written as JSON and YAML, compared with an own writer of the tree, read back and written again; parts of devices on their own",
        assumptions: &["index entries without ',' and '-'; YAML without texts serde_yaml itself does not carry"],
        isolated: false,
    },
    Spec {
        id: "C17",
        quick: 60000,
        thorough: 2500000,
        run: ser::c17,
        need: &[
            ("equivalent JSON documents", 10096),
            ("equivalent YAML documents", 10096),
            ("explicit nulls", 156042),
            ("mutated JSON read", 152),
            ("mutated JSON refused", 9794),
            ("mutated YAML read", 600),
            ("mutated YAML refused", 9346),
            ("mutated trees read", 538),
            ("mutated trees refused", 9408),
            ("refused JSON: bit range", 745),
            ("refused JSON: missing key", 2298),
            ("refused JSON: wrong Bool", 918),
            ("refused JSON: wrong Constraint", 736),
            ("refused JSON: wrong Index", 540),
            ("refused JSON: wrong List", 1259),
            ("refused JSON: wrong Obj", 851),
            ("refused JSON: wrong Rcs", 684),
            ("refused JSON: wrong Str", 1259),
            ("refused JSON: wrong U32", 1294),
            ("refused JSON: wrong U64", 1274),
            ("refused JSON: wrong Word", 1136),
            ("refused YAML: bit range", 388),
            ("refused YAML: missing key", 1193),
            ("refused YAML: wrong Bool", 494),
            ("refused YAML: wrong Constraint", 394),
            ("refused YAML: wrong Index", 286),
            ("refused YAML: wrong List", 670),
            ("refused YAML: wrong Obj", 500),
            ("refused YAML: wrong Rcs", 372),
            ("refused YAML: wrong Str", 666),
            ("refused YAML: wrong U32", 720),
            ("refused YAML: wrong U64", 674),
            ("refused YAML: wrong Word", 598),
            ("unknown keys", 102160),
        ],
        rule: "random devices written as JSON and YAML with shuffled and unknown keys, nulls and all spellings; with one defect of a random kind at a random key; mutated trees and texts",
        assumptions: &["wrong types: none that YAML takes for text, no lists in place of objects"],
        isolated: false,
    },
    Spec {
        id: "C18",
        quick: 80000,
        thorough: 2400000,
        run: misc::c18,
        need: &[
            ("blocks", 114044),
            ("changes through all_registers_mut", 15672),
            ("changes through clusters_mut", 7860),
            ("changes through fields_mut", 7851),
            ("changes through get_mut_cluster", 7843),
            ("changes through get_mut_interrupt", 7801),
            ("changes through get_mut_peripheral", 7858),
            ("changes through get_mut_register", 7798),
            ("changes through reg_iter_mut", 7838),
            ("changes through registers_mut", 7812),
            ("clusters iterated", 50426),
            ("lookups", 8292669),
            ("lookups with a result", 264326),
            ("registers iterated", 179582),
            ("registers of all depths iterated", 254828),
        ],
        rule: "random element trees with deep, empty, long and duplicate-named lists; visits compared with an own walk over the public fields",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C19",
        quick: 400000,
        thorough: 40000000,
        run: misc::c19,
        need: &[
            ("array masks", 400247),
            ("masks", 799614),
            ("ranges", 8000000),
            ("register masks", 133333),
            ("texts read", 396755),
            ("texts refused", 936578),
        ],
        rule: "random and boundary bit ranges, field arrays and registers within 64 bits, well-formed and malformed range texts",
        assumptions: &["masks only for ranges of width 1..=64 within 64 bits"],
        isolated: false,
    },
    Spec {
        id: "C20",
        quick: 100000,
        thorough: 6000000,
        run: misc::c20,
        need: &[
            ("keywords in documents, both ways", 433333),
            ("other texts refused", 3059663),
            ("vocabularies checked", 266666),
            ("words accepted", 1566666),
        ],
        rule: "all words of eight vocabularies, near misses and random texts; every vocabulary in documents both ways",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C21",
        quick: 60000,
        thorough: 1500000,
        run: parse::c21,
        need: &[
            ("defects elsewhere", 4280),
            ("defects in ignored parts", 4782),
            ("documents", 10935),
            ("values dropped", 1106076),
            ("with expansion", 3300),
        ],
        rule: "random documents, without defect or with one inside or outside the ignored parts, parsed with and without the option under random other options",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C22",
        quick: 3000,
        thorough: 120000,
        run: pure::c22,
        need: &[
            ("array helpers", 2821),
            ("build and modify", 2814),
            ("encode", 2820),
            ("expand", 2872),
            ("expand_properties", 2848),
            ("fresh processes", 100),
            ("index", 2859),
            ("look up", 2886),
            ("operations among threads", 80373),
            ("operations giving errors", 3310),
            ("operations in fresh processes", 1227),
            ("operations on equal inputs", 6013),
            ("parse", 2839),
            ("read JSON", 2852),
            ("read YAML", 2947),
            ("repeated operations", 49673),
            ("texts", 2862),
            ("validate", 2864),
            ("write JSON", 2853),
            ("write YAML", 2858),
            ("types shown to be Send and Sync", 37),
            ("operations under threads", 18538),
        ],
        rule: "twenty random operations on three random devices, their documents, broken documents and a variant with equal names; repeated in random histories, on equal inputs, among threads and in fresh processes; sharing checked by the compiler, races by ThreadSanitizer (and Miri)",
        assumptions: &["races are looked for in a fixed mix of operations over four documents"],
        isolated: false,
    },
    Spec {
        id: "C23",
        quick: 150000,
        thorough: 7500000,
        run: misc::c23,
        need: &[
            ("indexed clusters", 135047),
            ("indexed enumerations", 467079),
            ("indexed fields", 1588637),
            ("indexed peripherals", 135130),
            ("indexed registers", 563619),
            ("paths", 425442),
        ],
        rule: "random paths; random devices with unique names, their index compared with an own enumeration of paths",
        assumptions: &[],
        isolated: false,
    },
    Spec {
        id: "C24",
        quick: 20000,
        thorough: 600000,
        run: misc::c24,
        need: &[
            ("dimensions derived", 426666),
            ("index lists that are not", 3002),
            ("index lists that are ranges", 3664),
            ("index texts", 6666),
            ("items", 1505322),
            ("offset lists", 26666),
            ("texts that are no range", 6666),
        ],
        rule: "random dims with index lists, dimArrayIndex, placeholders in all positions; all helpers of the four array kinds, index texts",
        assumptions: &["index list length equals dim"],
        isolated: false,
    },
    Spec {
        id: "C25",
        quick: 60000,
        thorough: 4000000,
        run: derive::c25,
        need: &[
            ("Cluster derived", 42957),
            ("EnumeratedValues derived", 44640),
            ("Field derived", 58138),
            ("Peripheral derived", 64168),
            ("Register derived", 60965),
            ("RegisterProperties derived", 64192),
            ("derive_cluster: cycle refused", 892),
            ("derive_cluster: followed", 1753),
            ("derive_cluster: missing refused", 343),
            ("derive_enumerated_values: cycle refused", 1475),
            ("derive_enumerated_values: followed", 8608),
            ("derive_enumerated_values: missing refused", 1257),
            ("derive_field: cycle refused", 1747),
            ("derive_field: followed", 12448),
            ("derive_field: missing refused", 1602),
            ("derive_peripheral: cycle refused", 3193),
            ("derive_peripheral: followed", 4454),
            ("derive_peripheral: missing refused", 1057),
            ("derive_register: cycle refused", 2127),
            ("derive_register: followed", 9823),
            ("derive_register: missing refused", 1182),
            ("dimensions left", 17086),
            ("dimensions taken over", 5613),
            ("own dimensions kept", 13162),
        ],
        rule: "pairs of random elements of every kind, singles and arrays, with random parts left out; references of all forms followed from their element through the index; compared with an own fold over the chain",
        assumptions: &["names unique among siblings"],
        isolated: false,
    },
    Spec {
        id: "C26",
        quick: 15000,
        thorough: 1200000,
        run: parts::c26,
        need: &[
            ("devices as trees", 3860),
            ("elements of other names refused", 20399),
            ("encoded alone: addressBlock", 7110),
            ("encoded alone: cluster", 7168),
            ("encoded alone: cpu", 1772),
            ("encoded alone: dimArrayIndex", 2706),
            ("encoded alone: enumeratedValue", 44079),
            ("encoded alone: enumeratedValues", 23343),
            ("encoded alone: field", 37879),
            ("encoded alone: interrupt", 4896),
            ("encoded alone: peripheral", 7519),
            ("encoded alone: register", 19735),
            ("encoded alone: writeConstraint", 26484),
            ("parsed alone: addressBlock", 11720),
            ("parsed alone: cluster", 12937),
            ("parsed alone: cpu", 1993),
            ("parsed alone: dimArrayIndex", 5186),
            ("parsed alone: enumeratedValue", 86190),
            ("parsed alone: enumeratedValues", 44097),
            ("parsed alone: field", 78556),
            ("parsed alone: interrupt", 8040),
            ("parsed alone: peripheral", 10704),
            ("parsed alone: register", 36727),
            ("parsed alone: writeConstraint", 61520),
            ("parts of documents in error: bad", 3750),
            ("parts of documents in error: good", 153587),
            ("properties encoded alone", 34423),
            ("round trips of parts", 99222),
        ],
        rule: "every element of random documents, without defect or with one, parsed on its own and compared with the parse of the whole; every part of random devices encoded on its own under random configurations, compared with an independent element tree and read back",
        assumptions: &["index lists match dim; no empty optional lists"],
        isolated: false,
    },
];
