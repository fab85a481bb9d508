//! Own XML element trees, a writer with random layout that knows the position
//! of each marked element, and the rendering of devices as SVD documents.
use crate::dump::*;
use crate::rng::Rng;
use svd_rs::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Kid {
    E(El),
    T(String),
    /// comment or processing instruction, written as is
    Raw(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Kid>,
    pub mark: u32,
    /// an element the format does not know
    pub junk: bool,
}

impl El {
    pub fn new(tag: &str) -> El {
        El {
            tag: tag.into(),
            attrs: vec![],
            kids: vec![],
            mark: 0,
            junk: false,
        }
    }
    pub fn leaf(tag: &str, text: &str) -> El {
        let mut e = El::new(tag);
        if !text.is_empty() {
            e.kids.push(Kid::T(text.into()));
        }
        e
    }
    pub fn push(&mut self, e: El) {
        self.kids.push(Kid::E(e));
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Kid::E(e) => Some(e),
            _ => None,
        })
    }
    pub fn els_mut(&mut self) -> impl Iterator<Item = &mut El> {
        self.kids.iter_mut().filter_map(|k| match k {
            Kid::E(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, tag: &str) -> Option<&El> {
        self.els().find(|e| e.tag == tag)
    }
    pub fn child_mut(&mut self, tag: &str) -> Option<&mut El> {
        self.els_mut().find(|e| e.tag == tag)
    }
    pub fn remove(&mut self, tag: &str) {
        self.kids.retain(|k| !matches!(k, Kid::E(e) if e.tag == tag));
    }
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .filter_map(|k| match k {
                Kid::T(t) => Some(t.as_str()),
                _ => None,
            })
            .collect()
    }
    pub fn set_text(&mut self, t: &str) {
        self.kids = if t.is_empty() { vec![] } else { vec![Kid::T(t.into())] };
    }
    pub fn is_leaf(&self) -> bool {
        self.els().next().is_none()
    }
    /// Visits every element with the path of child positions leading to it.
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&[usize], &[&'a El], &'a El)) {
        fn go<'a>(
            e: &'a El,
            path: &mut Vec<usize>,
            up: &mut Vec<&'a El>,
            f: &mut dyn FnMut(&[usize], &[&'a El], &'a El),
        ) {
            f(path, up, e);
            up.push(e);
            for (i, k) in e.kids.iter().enumerate() {
                if let Kid::E(c) = k {
                    path.push(i);
                    go(c, path, up, f);
                    path.pop();
                }
            }
            up.pop();
        }
        go(self, &mut vec![], &mut vec![], f)
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut El {
        let mut e = self;
        for &i in path {
            e = match &mut e.kids[i] {
                Kid::E(e) => e,
                _ => unreachable!("path leads to a text"),
            };
        }
        e
    }
    pub fn at(&self, path: &[usize]) -> &El {
        let mut e = self;
        for &i in path {
            e = match &e.kids[i] {
                Kid::E(e) => e,
                _ => unreachable!("path leads to a text"),
            };
        }
        e
    }
    /// Paths of all known elements, with their tag and the tag of their parent.
    pub fn paths(&self) -> Vec<(Vec<usize>, String, String)> {
        let mut v = vec![];
        self.walk(&mut |p, up, e| {
            if e.junk || up.iter().any(|u| u.junk) {
                return;
            }
            v.push((
                p.to_vec(),
                e.tag.clone(),
                up.last().map(|u| u.tag.clone()).unwrap_or_default(),
            ))
        });
        v
    }
    pub fn count(&self) -> usize {
        1 + self.els().map(El::count).sum::<usize>()
    }
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub vary: bool,
    pub bom: bool,
    pub decl: bool,
    /// inside of elements: 0 none, 1 newline+indent, 2 random whitespace
    pub ws: u8,
    pub comments: bool,
    pub crlf: bool,
    pub cdata: bool,
    pub charref: bool,
    pub pad: bool,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout {
            vary: false,
            bom: false,
            decl: true,
            ws: 1,
            comments: false,
            crlf: false,
            cdata: false,
            charref: false,
            pad: false,
        }
    }
    pub fn random(r: &mut Rng) -> Layout {
        Layout {
            vary: true,
            bom: r.pct(20),
            decl: r.pct(60),
            ws: r.below(3) as u8,
            comments: r.pct(40),
            crlf: r.pct(15),
            cdata: r.pct(30),
            charref: r.pct(30),
            pad: r.pct(40),
        }
    }
}

pub struct Doc {
    pub text: String,
    /// mark -> (line, column)
    pub pos: Vec<(u32, usize, usize)>,
}

impl Doc {
    pub fn pos_of(&self, mark: u32) -> (usize, usize) {
        let p = self.pos.iter().find(|p| p.0 == mark).expect("marked element written");
        (p.1, p.2)
    }
}

struct W<'r> {
    o: String,
    l: Layout,
    r: &'r mut Rng,
    pos: Vec<(u32, usize)>,
}

impl W<'_> {
    fn nl(&mut self) {
        self.o.push_str(if self.l.crlf { "\r\n" } else { "\n" });
    }
    fn misc(&mut self) {
        match self.r.below(4) {
            0 => self.o.push_str("<!-- <name>decoy</name> & -> -->"),
            1 => self.o.push_str("<?pi some <register> text?>"),
            2 => self.o.push_str("<!---->"),
            _ => self.o.push_str("<!-- line\n   break é -->"),
        }
    }
    fn gap(&mut self, depth: usize) {
        match self.l.ws {
            0 => {}
            1 => {
                self.nl();
                for _ in 0..depth {
                    self.o.push_str("  ");
                }
            }
            _ => {
                for _ in 0..self.r.below(4) {
                    match self.r.below(4) {
                        0 => self.nl(),
                        1 => self.o.push('\t'),
                        _ => self.o.push(' '),
                    }
                }
            }
        }
        if self.l.comments && self.r.pct(8) {
            self.misc();
            if self.r.bool() {
                self.o.push('\n');
            }
        }
    }
    fn escape(&mut self, s: &str, attr: Option<char>) {
        for c in s.chars() {
            let force = self.l.charref && self.r.pct(8);
            match c {
                _ if force && c != '\n' => {
                    if self.r.bool() {
                        self.o.push_str(&format!("&#{};", c as u32))
                    } else {
                        self.o.push_str(&format!("&#x{:x};", c as u32))
                    }
                }
                '<' => self.o.push_str("&lt;"),
                '&' => self.o.push_str("&amp;"),
                '>' => self.o.push_str("&gt;"),
                '"' if attr == Some('"') || attr.is_none() && self.l.vary && self.r.bool() => {
                    self.o.push_str("&quot;")
                }
                '\'' if attr == Some('\'') || attr.is_none() && self.l.vary && self.r.bool() => {
                    self.o.push_str("&apos;")
                }
                // read as a line feed when written as it is
                '\r' => self.o.push_str(*self.r.pick(&["&#13;", "&#xD;", "&#xd;"])),
                '\n' | '\t' if attr.is_some() => {
                    self.o.push_str(&format!("&#{};", c as u32))
                }
                _ => self.o.push(c),
            }
        }
    }
    fn text(&mut self, s: &str) {
        if self.l.cdata && self.r.pct(25) {
            // some part as CDATA
            let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            let a = self.r.below(idx.len());
            let b = self.r.range(a, idx.len() - 1);
            let (a, b) = if self.r.bool() { (0, s.len()) } else { (idx[a], idx[b]) };
            if a < b && !s[a..b].contains("]]>") && !s[a..b].contains('\r') {
                let mid = &s[a..b];
                self.escape(&s[..a], None);
                self.o.push_str("<![CDATA[");
                self.o.push_str(mid);
                self.o.push_str("]]>");
                self.escape(&s[b..], None);
                return;
            }
        }
        self.escape(s, None)
    }
    fn pad(&mut self) {
        if self.l.pad && self.r.pct(40) {
            for _ in 0..self.r.range(1, 3) {
                let c = *self.r.pick(&[" ", "\t", "\n", "  "]);
                self.o.push_str(c);
            }
        }
    }
    fn el(&mut self, e: &El, depth: usize) {
        if e.mark != 0 {
            self.pos.push((e.mark, self.o.len()));
        }
        self.o.push('<');
        self.o.push_str(&e.tag);
        for (k, v) in &e.attrs {
            if self.l.vary && self.r.pct(10) {
                self.o.push_str("\n  ");
            } else {
                self.o.push(' ');
            }
            let q = if self.l.vary && self.r.bool() { '\'' } else { '"' };
            self.o.push_str(k);
            self.o.push('=');
            self.o.push(q);
            self.escape(v, Some(q));
            self.o.push(q);
        }
        if e.kids.is_empty() {
            if self.l.vary && self.r.bool() {
                self.o.push_str(&format!("></{}>", e.tag));
            } else {
                self.o.push_str("/>");
            }
            return;
        }
        self.o.push('>');
        if e.is_leaf() {
            self.pad();
            for k in &e.kids {
                match k {
                    Kid::T(t) => self.text(t),
                    Kid::Raw(t) => self.o.push_str(t),
                    Kid::E(_) => unreachable!(),
                }
            }
            self.pad();
        } else {
            for k in &e.kids {
                self.gap(depth + 1);
                match k {
                    Kid::E(c) => self.el(c, depth + 1),
                    Kid::T(t) => self.text(t),
                    Kid::Raw(t) => self.o.push_str(t),
                }
            }
            self.gap(depth);
        }
        self.o.push_str(&format!("</{}>", e.tag));
    }
}

/// Nothing, or only white space, however written.
pub fn blank(r: &mut Rng) -> Vec<Kid> {
    match r.below(8) {
        0..=2 => vec![],
        3 => vec![Kid::T(r.pick(&[" ", "   ", "\n", "\t", " \n  "]).to_string())],
        4 => vec![Kid::Raw(r.pick(&["&#32;", "&#9;", "&#10;&#32;", "&#x20;"]).to_string())],
        5 => vec![Kid::Raw("<![CDATA[]]>".into())],
        6 => vec![Kid::Raw(r.pick(&["<![CDATA[ ]]>", " <![CDATA[]]>\n"]).to_string())],
        _ => vec![Kid::Raw(r.pick(&["<!-- none -->", "<?none?>"]).to_string())],
    }
}

pub fn write(root: &El, l: &Layout, r: &mut Rng) -> Doc {
    let mut w = W {
        o: String::new(),
        l: l.clone(),
        r,
        pos: vec![],
    };
    if w.l.decl {
        w.o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>");
        w.nl();
    }
    if w.l.comments && w.r.bool() {
        w.misc();
    }
    w.el(root, 0);
    if w.l.vary && w.r.bool() {
        w.nl();
        if w.l.comments {
            w.misc();
        }
    }
    let pos = w
        .pos
        .iter()
        .map(|&(m, at)| {
            let before = &w.o[..at];
            let line = before.matches('\n').count() + 1;
            let col = match before.rfind('\n') {
                Some(i) => before[i + 1..].chars().count() + 1,
                None => before.chars().count() + 1,
            };
            (m, line, col)
        })
        .collect();
    let text = if w.l.bom { format!("\u{feff}{}", w.o) } else { w.o };
    Doc { text, pos }
}

/// How values are written in the document.
pub struct Sty<'r> {
    pub r: &'r mut Rng,
    pub vary: bool,
}

impl Sty<'_> {
    pub fn num(&mut self, v: u64) -> String {
        if !self.vary {
            return v.to_string();
        }
        match self.r.below(11) {
            0 | 1 | 2 => v.to_string(),
            3 => format!("00{v}"),
            4 => format!("0x{v:x}"),
            5 => format!("0X{v:X}"),
            6 => format!("0x{v:08X}"),
            7 => format!("0x{v:016x}"),
            8 => self.bin(format!("#{v:b}")),
            9 => self.bin(format!("0b{v:b}")),
            _ => self.bin(format!("0b000{v:b}")),
        }
    }
    fn bin(&mut self, s: String) -> String {
        if self.r.bool() {
            return s;
        }
        // don't care bits read as zero
        let head = if s.starts_with('#') { 1 } else { 2 };
        let (h, t) = s.split_at(head);
        let t: String = t
            .chars()
            .map(|c| if c == '0' && self.r.bool() { *self.r.pick(&['x', 'X']) } else { c })
            .collect();
        format!("{h}{t}")
    }
    pub fn boolean(&mut self, v: bool) -> String {
        if self.vary && self.r.bool() {
            (if v { "1" } else { "0" }).into()
        } else {
            (if v { "true" } else { "false" }).into()
        }
    }
    fn n(&mut self, e: &mut El, tag: &str, v: u64) {
        let t = self.num(v);
        e.push(El::leaf(tag, &t));
    }
    fn b(&mut self, e: &mut El, tag: &str, v: bool) {
        let t = self.boolean(v);
        e.push(El::leaf(tag, &t));
    }
    /// Content that is no text.
    pub fn blank(&mut self) -> Vec<Kid> {
        blank(self.r)
    }
    fn ot(&mut self, e: &mut El, tag: &str, v: &Option<String>) {
        match v {
            Some(v) => e.push(El::leaf(tag, v)),
            // an empty optional text counts as absent
            None if self.vary && self.r.pct(4) => {
                let mut x = El::new(tag);
                x.kids = self.blank();
                e.push(x);
            }
            None => {}
        }
    }
    fn props(&mut self, e: &mut El, p: &RegisterProperties) {
        if let Some(v) = p.size {
            self.n(e, "size", v as u64);
        }
        if let Some(v) = p.access {
            e.push(El::leaf("access", access(v)));
        }
        if let Some(v) = p.protection {
            e.push(El::leaf("protection", protection(v)));
        }
        if let Some(v) = p.reset_value {
            self.n(e, "resetValue", v);
        }
        if let Some(v) = p.reset_mask {
            self.n(e, "resetMask", v);
        }
    }
    pub fn ev(&mut self, v: &EnumeratedValue) -> El {
        let mut e = El::new("enumeratedValue");
        e.push(El::leaf("name", &v.name));
        self.ot(&mut e, "description", &v.description);
        if let Some(x) = v.value {
            self.n(&mut e, "value", x);
        }
        if let Some(x) = v.is_default {
            self.b(&mut e, "isDefault", x);
        }
        e
    }
    pub fn evs(&mut self, v: &EnumeratedValues) -> El {
        let mut e = El::new("enumeratedValues");
        if let Some(d) = &v.derived_from {
            e.attrs.push(("derivedFrom".into(), d.clone()));
        }
        self.ot(&mut e, "name", &v.name);
        if let Some(u) = v.usage {
            e.push(El::leaf("usage", usage(u)));
        }
        if self.vary && self.r.pct(10) {
            e.push(El::leaf("headerEnumName", "IgnoredName"));
        }
        for x in &v.values {
            let x = self.ev(x);
            e.push(x);
        }
        e
    }
    pub fn index_text(&mut self, l: &[String]) -> String {
        let mut list = l.join(",");
        if self.vary && self.r.pct(30) {
            // blanks around the commas do not count
            list = l[0].clone();
            for i in &l[1..] {
                list.push_str(*self.r.pick(&[",", ", ", " ,", ",  ", ", "]));
                list.push_str(i);
            }
        }
        if !self.vary || self.r.bool() {
            return list;
        }
        let nums: Option<Vec<u32>> = l
            .iter()
            .map(|s| s.parse::<u32>().ok().filter(|v| v.to_string() == *s))
            .collect();
        if let Some(n) = nums {
            if n.windows(2).all(|w| w[0].checked_add(1) == Some(w[1])) {
                return format!("{}-{}", n[0], n[n.len() - 1]);
            }
        }
        let b: Option<Vec<u8>> = l
            .iter()
            .map(|s| if s.len() == 1 { Some(s.as_bytes()[0]) } else { None })
            .collect();
        if let Some(b) = b {
            if (b.iter().all(u8::is_ascii_lowercase) || b.iter().all(u8::is_ascii_uppercase))
                && b.windows(2).all(|w| w[0] + 1 == w[1])
            {
                return format!("{}-{}", b[0] as char, b[b.len() - 1] as char);
            }
        }
        list
    }
    pub fn dim(&mut self, e: &mut El, d: &DimElement) {
        self.n(e, "dim", d.dim as u64);
        self.n(e, "dimIncrement", d.dim_increment as u64);
        if let Some(l) = &d.dim_index {
            let t = self.index_text(l);
            e.push(El::leaf("dimIndex", &t));
        }
        self.ot(e, "dimName", &d.dim_name);
        if let Some(x) = &d.dim_array_index {
            let mut a = El::new("dimArrayIndex");
            self.ot(&mut a, "headerEnumName", &x.header_enum_name);
            for v in &x.values {
                let v = self.ev(v);
                a.push(v);
            }
            e.push(a);
        }
    }
    fn wc(&mut self, e: &mut El, w: &WriteConstraint) {
        let mut c = El::new("writeConstraint");
        match w {
            WriteConstraint::WriteAsRead(v) => self.b(&mut c, "writeAsRead", *v),
            WriteConstraint::UseEnumeratedValues(v) => self.b(&mut c, "useEnumeratedValues", *v),
            WriteConstraint::Range(r) => {
                let mut x = El::new("range");
                self.n(&mut x, "minimum", r.min);
                self.n(&mut x, "maximum", r.max);
                c.push(x);
            }
        }
        e.push(c);
    }
    pub fn field(&mut self, f: &Field) -> El {
        let (f, d) = split(f);
        let mut e = El::new("field");
        if let Some(d) = &f.derived_from {
            e.attrs.push(("derivedFrom".into(), d.clone()));
        }
        if let Some(d) = d {
            self.dim(&mut e, d);
        }
        e.push(El::leaf("name", &f.name));
        self.ot(&mut e, "description", &f.description);
        let b = f.bit_range;
        match b.range_type {
            BitRangeType::BitRange => e.push(El::leaf(
                "bitRange",
                &format!("[{}:{}]", b.offset as u64 + b.width as u64 - 1, b.offset),
            )),
            BitRangeType::OffsetWidth => {
                self.n(&mut e, "bitOffset", b.offset as u64);
                self.n(&mut e, "bitWidth", b.width as u64);
            }
            BitRangeType::MsbLsb => {
                self.n(&mut e, "lsb", b.offset as u64);
                self.n(&mut e, "msb", b.offset as u64 + b.width as u64 - 1);
            }
        }
        if let Some(v) = f.access {
            e.push(El::leaf("access", access(v)));
        }
        if let Some(v) = f.modified_write_values {
            e.push(El::leaf("modifiedWriteValues", mwv(v)));
        }
        if let Some(v) = &f.write_constraint {
            self.wc(&mut e, v);
        }
        if let Some(v) = f.read_action {
            e.push(El::leaf("readAction", readaction(v)));
        }
        for v in &f.enumerated_values {
            let v = self.evs(v);
            e.push(v);
        }
        e
    }
    pub fn register(&mut self, r: &Register) -> El {
        let (r, d) = split(r);
        let mut e = El::new("register");
        if let Some(d) = &r.derived_from {
            e.attrs.push(("derivedFrom".into(), d.clone()));
        }
        if let Some(d) = d {
            self.dim(&mut e, d);
        }
        e.push(El::leaf("name", &r.name));
        self.ot(&mut e, "displayName", &r.display_name);
        self.ot(&mut e, "description", &r.description);
        self.ot(&mut e, "alternateGroup", &r.alternate_group);
        self.ot(&mut e, "alternateRegister", &r.alternate_register);
        self.n(&mut e, "addressOffset", r.address_offset as u64);
        self.props(&mut e, &r.properties);
        if let Some(v) = r.datatype {
            e.push(El::leaf("dataType", datatype(v)));
        }
        if let Some(v) = r.modified_write_values {
            e.push(El::leaf("modifiedWriteValues", mwv(v)));
        }
        if let Some(v) = &r.write_constraint {
            self.wc(&mut e, v);
        }
        if let Some(v) = r.read_action {
            e.push(El::leaf("readAction", readaction(v)));
        }
        if let Some(v) = &r.fields {
            let mut fs = El::new("fields");
            for f in v {
                let f = self.field(f);
                fs.push(f);
            }
            e.push(fs);
        }
        e
    }
    pub fn cluster(&mut self, c: &Cluster) -> El {
        let (c, d) = split(c);
        let mut e = El::new("cluster");
        if let Some(d) = &c.derived_from {
            e.attrs.push(("derivedFrom".into(), d.clone()));
        }
        if let Some(d) = d {
            self.dim(&mut e, d);
        }
        e.push(El::leaf("name", &c.name));
        self.ot(&mut e, "description", &c.description);
        self.ot(&mut e, "alternateCluster", &c.alternate_cluster);
        self.ot(&mut e, "headerStructName", &c.header_struct_name);
        self.n(&mut e, "addressOffset", c.address_offset as u64);
        self.props(&mut e, &c.default_register_properties);
        for x in &c.children {
            let x = self.rc(x);
            e.push(x);
        }
        e
    }
    pub fn rc(&mut self, x: &RegisterCluster) -> El {
        match x {
            RegisterCluster::Register(r) => self.register(r),
            RegisterCluster::Cluster(c) => self.cluster(c),
        }
    }
    pub fn peripheral(&mut self, p: &Peripheral) -> El {
        let (p, d) = split(p);
        let mut e = El::new("peripheral");
        if let Some(d) = &p.derived_from {
            e.attrs.push(("derivedFrom".into(), d.clone()));
        }
        if let Some(d) = d {
            self.dim(&mut e, d);
        }
        e.push(El::leaf("name", &p.name));
        self.ot(&mut e, "displayName", &p.display_name);
        self.ot(&mut e, "version", &p.version);
        self.ot(&mut e, "description", &p.description);
        self.ot(&mut e, "alternatePeripheral", &p.alternate_peripheral);
        self.ot(&mut e, "groupName", &p.group_name);
        self.ot(&mut e, "prependToName", &p.prepend_to_name);
        self.ot(&mut e, "appendToName", &p.append_to_name);
        self.ot(&mut e, "headerStructName", &p.header_struct_name);
        self.n(&mut e, "baseAddress", p.base_address);
        self.props(&mut e, &p.default_register_properties);
        for a in p.address_block.iter().flatten() {
            let mut x = El::new("addressBlock");
            self.n(&mut x, "offset", a.offset as u64);
            self.n(&mut x, "size", a.size as u64);
            x.push(El::leaf("usage", abusage(a.usage)));
            if let Some(v) = a.protection {
                x.push(El::leaf("protection", protection(v)));
            }
            e.push(x);
        }
        for i in &p.interrupt {
            let mut x = El::new("interrupt");
            x.push(El::leaf("name", &i.name));
            self.ot(&mut x, "description", &i.description);
            self.n(&mut x, "value", i.value as u64);
            e.push(x);
        }
        if let Some(v) = &p.registers {
            let mut rs = El::new("registers");
            for x in v {
                let x = self.rc(x);
                rs.push(x);
            }
            e.push(rs);
        }
        e
    }
    pub fn device(&mut self, d: &Device) -> El {
        let mut e = El::new("device");
        e.attrs.push(("schemaVersion".into(), d.schema_version.clone()));
        e.attrs.push(("xmlns:xs".into(), d.xmlns_xs.clone()));
        e.attrs
            .push(("xs:noNamespaceSchemaLocation".into(), d.no_namespace_schema_location.clone()));
        self.ot(&mut e, "vendor", &d.vendor);
        self.ot(&mut e, "vendorID", &d.vendor_id);
        e.push(El::leaf("name", &d.name));
        self.ot(&mut e, "series", &d.series);
        e.push(El::leaf("version", &d.version));
        e.push(El::leaf("description", &d.description));
        self.ot(&mut e, "licenseText", &d.license_text);
        if let Some(c) = &d.cpu {
            let mut x = El::new("cpu");
            x.push(El::leaf("name", &c.name));
            x.push(El::leaf("revision", &c.revision));
            x.push(El::leaf("endian", endian(c.endian)));
            self.b(&mut x, "mpuPresent", c.mpu_present);
            self.b(&mut x, "fpuPresent", c.fpu_present);
            for (t, v) in [
                ("fpuDP", c.fpu_double_precision),
                ("dspPresent", c.dsp_present),
                ("icachePresent", c.icache_present),
                ("dcachePresent", c.dcache_present),
                ("itcmPresent", c.itcm_present),
                ("dtcmPresent", c.dtcm_present),
                ("vtorPresent", c.vtor_present),
            ] {
                if let Some(v) = v {
                    self.b(&mut x, t, v);
                }
            }
            self.n(&mut x, "nvicPrioBits", c.nvic_priority_bits as u64);
            self.b(&mut x, "vendorSystickConfig", c.has_vendor_systick);
            if let Some(v) = c.device_num_interrupts {
                self.n(&mut x, "deviceNumInterrupts", v as u64);
            }
            if let Some(v) = c.sau_num_regions {
                self.n(&mut x, "sauNumRegions", v as u64);
            }
            e.push(x);
        }
        self.ot(&mut e, "headerSystemFilename", &d.header_system_filename);
        self.ot(&mut e, "headerDefinitionsPrefix", &d.header_definitions_prefix);
        self.n(&mut e, "addressUnitBits", d.address_unit_bits as u64);
        self.n(&mut e, "width", d.width as u64);
        self.props(&mut e, &d.default_register_properties);
        let mut ps = El::new("peripherals");
        for p in &d.peripherals {
            let p = self.peripheral(p);
            ps.push(p);
        }
        e.push(ps);
        e
    }
}

/// Elements that ignore unknown children.
pub const OPEN: &[&str] = &[
    "device",
    "cpu",
    "peripheral",
    "cluster",
    "register",
    "field",
    "interrupt",
    "addressBlock",
    "enumeratedValue",
    "range",
];

fn group(tag: &str) -> &str {
    match tag {
        "cluster" => "register",
        t => t,
    }
}

/// Reorders siblings of different kinds, keeping the order inside each kind.
pub fn permute(e: &mut El, r: &mut Rng) {
    for c in e.els_mut() {
        permute(c, r);
    }
    if e.is_leaf() || !r.pct(70) {
        return;
    }
    let mut groups: Vec<(String, std::collections::VecDeque<Kid>)> = vec![];
    for k in std::mem::take(&mut e.kids) {
        let g = match &k {
            Kid::E(x) => group(&x.tag).to_string(),
            _ => "#".into(),
        };
        match groups.iter_mut().find(|x| x.0 == g) {
            Some(x) => x.1.push_back(k),
            None => groups.push((g, [k].into())),
        }
    }
    while !groups.is_empty() {
        let i = r.below(groups.len());
        e.kids.push(groups[i].1.pop_front().unwrap());
        if groups[i].1.is_empty() {
            groups.remove(i);
        }
    }
}

/// A well-formed element that an SVD document could hold.
fn decoy(r: &mut Rng) -> El {
    let put = |tag: &str, kids: &[(&str, &str)]| {
        let mut e = El::new(tag);
        for (t, v) in kids {
            e.push(El::leaf(t, v));
        }
        e
    };
    let into = |tag: &str, k: El| {
        let mut e = El::new(tag);
        e.push(k);
        e
    };
    match r.below(22) {
        0 | 1 => put(
            "cpu",
            &[
                ("name", "CM7"),
                ("revision", "r9p9"),
                ("endian", "big"),
                ("mpuPresent", "true"),
                ("fpuPresent", "true"),
                ("nvicPrioBits", "7"),
                ("vendorSystickConfig", "true"),
                ("deviceNumInterrupts", "77"),
            ],
        ),
        2 => into("peripherals", put("peripheral", &[("name", "DecoyPer"), ("baseAddress", "0x99")])),
        3 => into("registers", put("register", &[("name", "DecoyReg"), ("addressOffset", "0x98")])),
        4 => into("fields", put("field", &[("name", "DecoyField"), ("bitRange", "[1:0]")])),
        5 => put("addressBlock", &[("offset", "0x97"), ("size", "0x96"), ("usage", "buffer")]),
        6 => put("interrupt", &[("name", "DecoyInt"), ("description", "decoy"), ("value", "95")]),
        7 => into("writeConstraint", El::leaf("writeAsRead", "true")),
        8 => into("writeConstraint", put("range", &[("minimum", "1"), ("maximum", "2")])),
        9 => into("enumeratedValues", put("enumeratedValue", &[("name", "DecoyVal"), ("value", "0")])),
        10 => put("enumeratedValue", &[("name", "DecoyVal"), ("value", "1")]),
        11 => put("dimArrayIndex", &[("headerEnumName", "DecoyDim")]),
        12 => put("cluster", &[("name", "DecoyCluster"), ("addressOffset", "0x94")]),
        13 => put("field", &[("name", "DecoyField"), ("lsb", "3"), ("msb", "5")]),
        _ => {
            let (t, v) = *r.pick(&[
                ("access", "writeOnce"),
                ("size", "13"),
                ("resetValue", "0x93"),
                ("resetMask", "0x92"),
                ("protection", "p"),
                ("dim", "3"),
                ("dimIncrement", "5"),
                ("dimIndex", "X,Y,Z"),
                ("readAction", "modifyExternal"),
                ("modifiedWriteValues", "zeroToToggle"),
                ("usage", "write"),
                ("description", "decoy"),
                ("displayName", "decoy"),
                ("isDefault", "true"),
                ("value", "0x91"),
                ("bitOffset", "6"),
                ("groupName", "decoy"),
                ("alternateRegister", "decoy"),
                ("dataType", "uint64_t"),
                ("headerEnumName", "decoy"),
            ]);
            El::leaf(t, v)
        }
    }
}

fn junk(r: &mut Rng, parent: &str) -> El {
    const TAGS: &[&str] = &[
        "vendorExtensions",
        "sauRegionsConfig",
        "Name",
        "unknown",
        "fieldz",
        "names",
        "dimension",
        "x-y.z_1",
        "addressOffsets",
        "Access",
    ];
    let mut e = El::new(*r.pick(TAGS));
    e.junk = true;
    if r.pct(30) {
        e.attrs.push(("derivedFrom".into(), "decoy".into()));
    }
    match r.below(6) {
        0 => {}
        4 | 5 => {
            // what the format knows, where it does not look
            for _ in 0..r.range(1, 4) {
                let k = decoy(r);
                e.push(k);
            }
        }
        1 => e.set_text("decoy"),
        2 => {
            for t in ["name", "value", "description", "size", "access", "dimIncrement", "bitRange"] {
                if r.bool() {
                    e.push(El::leaf(t, "decoy"));
                }
            }
        }
        _ => {
            let mut x = El::new(if parent == "device" { "peripheral" } else { "register" });
            x.push(El::leaf("name", "decoy"));
            x.push(El::leaf("addressOffset", "0x99"));
            let mut f = El::new("fields");
            f.push(x);
            e.push(f);
        }
    }
    e
}

/// Adds unknown elements and attributes wherever the format ignores them.
pub fn add_junk(e: &mut El, r: &mut Rng, pct: usize) -> usize {
    let mut n = 0;
    for c in e.els_mut() {
        n += add_junk(c, r, pct);
    }
    if OPEN.contains(&e.tag.as_str()) && r.pct(pct) {
        let at = r.below(e.kids.len() + 1);
        let j = junk(r, &e.tag);
        e.kids.insert(at, Kid::E(j));
        n += 1;
    }
    if r.pct(pct / 4) {
        e.attrs.push(("extra".into(), "x&y".into()));
        n += 1;
    }
    n
}

/// A document for the device in random style.
pub fn render(d: &Device, r: &mut Rng) -> (El, Doc) {
    let vary = r.pct(85);
    let mut e = Sty { r, vary }.device(d);
    if vary {
        if r.pct(60) {
            permute(&mut e, r);
        }
        if r.pct(40) {
            add_junk(&mut e, r, 12);
        }
    }
    let l = if vary { Layout::random(r) } else { Layout::plain() };
    let doc = write(&e, &l, r);
    (e, doc)
}

/// A plain document for the device.
pub fn plain(d: &Device, r: &mut Rng) -> Doc {
    let e = Sty { r, vary: false }.device(d);
    write(&e, &Layout::plain(), r)
}

pub fn from_rox(n: roxmltree::Node) -> El {
    let mut e = El::new(n.tag_name().name());
    for a in n.attributes() {
        let name = match a.namespace() {
            Some(_) => format!("xs:{}", a.name()),
            None => a.name().to_string(),
        };
        e.attrs.push((name, a.value().to_string()));
    }
    for c in n.children() {
        if c.is_element() {
            e.push(from_rox(c));
        } else if c.is_text() {
            e.kids.push(Kid::T(c.text().unwrap_or("").to_string()));
        }
    }
    e
}
