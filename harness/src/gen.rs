//! Names, typed values and triples.
use crate::util::Rng;
use bytes::Bytes;
use tdb_succinct::*;
use terminus_store::layer::{ObjectType, ValueTriple};

pub type VT = ValueTriple;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flavor {
    Plain,
    Adversarial,
    Bulk,
}

pub fn gen_string(rng: &mut Rng, flavor: Flavor, i: usize) -> String {
    match flavor {
        Flavor::Plain => format!("n{i}"),
        Flavor::Bulk => format!("http://example.org/thing/{:x}/{}", i % 7, i),
        Flavor::Adversarial => match rng.below(14) {
            0 => "a".repeat(rng.range(1, 9)),
            1 => format!("{}{}", "p".repeat(rng.range(0, 300)), i),
            2 => format!("é{}", i),
            3 => format!("日本語{}", rng.below(5)),
            4 => format!("\u{10FFFF}{}", i),
            5 => format!("line\nbreak{}", rng.below(4)),
            6 => format!("tab\t\0nul{}", rng.below(4)),
            7 => " ".repeat(rng.range(1, 4)),
            8 => format!("{}", i),
            9 => format!("x{}", "y".repeat(rng.range(0, 130))),
            10 => format!("{}z", "long/".repeat(rng.range(20, 900))),
            11 => ["A", "B", "AB", "BA", "ABA", "b", "ab"][rng.below(7)].to_string(),
            12 => format!("\u{7f}\u{80}{}", rng.below(6)),
            _ => format!("http://e/{}#{}", rng.below(4), i),
        },
    }
}

fn text(rng: &mut Rng, i: usize, flavor: Flavor) -> String {
    if flavor == Flavor::Adversarial && rng.chance(1, 12) {
        String::new()
    } else {
        gen_string(rng, flavor, i)
    }
}

pub fn gen_value(rng: &mut Rng, flavor: Flavor, i: usize) -> TypedDictEntry {
    let pool = match flavor {
        Flavor::Plain => 6,
        _ => 40,
    };
    match rng.below(pool) {
        0 | 1 => String::make_entry(&text(rng, i, flavor)),
        2 => u32::make_entry(&(rng.next() as u32 >> rng.below(32))),
        3 => i32::make_entry(&((rng.next() as i32) >> rng.below(31))),
        4 => bool::make_entry(&rng.chance(1, 2)),
        5 => f64::make_entry(&((rng.below(2000) as f64 - 1000.0) / 7.0)),
        6 => u64::make_entry(&(rng.next() >> rng.below(64))),
        7 => i64::make_entry(&((rng.next() as i64) >> rng.below(63))),
        8 => f32::make_entry(&((rng.below(2000) as f32 - 1000.0) / 3.0)),
        9 => u8::make_entry(&(rng.next() as u8)),
        10 => i8::make_entry(&(rng.next() as i8)),
        11 => u16::make_entry(&(rng.next() as u16)),
        12 => i16::make_entry(&(rng.next() as i16)),
        13 => {
            let s = format!("{}{}.{}", if rng.chance(1, 2) { "-" } else { "" }, rng.below(100000), 1 + rng.below(9999));
            Decimal::make_entry(&Decimal::new(s).unwrap())
        }
        14 => {
            let mut v = rug::Integer::from(rng.next());
            for _ in 0..rng.below(4) {
                v *= rug::Integer::from(rng.next());
            }
            if rng.chance(1, 2) {
                v = -v;
            }
            rug::Integer::make_entry(&v)
        }
        15 => LangString::make_entry(&format!("{}@en", text(rng, i, flavor))),
        16 => AnyURI::make_entry(&text(rng, i, flavor)),
        17 => Token::make_entry(&text(rng, i, flavor)),
        18 => HexBinary::make_entry(&HexBinary((0..rng.below(20)).map(|_| rng.next() as u8).collect())),
        19 => Base64Binary::make_entry(&Base64Binary((0..rng.below(200)).map(|_| rng.next() as u8).collect())),
        20 => Date::make_entry(&Date { year: rng.below(4000) as i64 - 1000, month: 1 + rng.below(12) as u8, day: 1 + rng.below(28) as u8, offset: 0 }),
        21 => GYear::make_entry(&GYear { year: rng.below(4000) as i64, offset: 0 }),
        22 => {
            let d = chrono::NaiveDate::from_ymd_opt(1970 + rng.below(80) as i32, 1 + rng.below(12) as u32, 1 + rng.below(28) as u32).unwrap();
            let dt = d.and_hms_opt(rng.below(24) as u32, rng.below(60) as u32, rng.below(60) as u32).unwrap();
            chrono::NaiveDateTime::make_entry(&dt)
        }
        23 => AnySimpleType::make_entry(&text(rng, i, flavor)),
        24 => NCName::make_entry(&text(rng, i, flavor)),
        25 => ID::make_entry(&text(rng, i, flavor)),
        26 | 27 => {
            // raw bytes of a variable-width type
            let n = rng.below(40);
            let b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
            let dts = [Datatype::HexBinary, Datatype::Base64Binary, Datatype::Duration, Datatype::BigInt, Datatype::AnySimpleType];
            TypedDictEntry::new(dts[rng.below(dts.len())], Bytes::from(b).into())
        }
        28 => u32::make_entry(&((i % 50) as u32)),
        _ => String::make_entry(&text(rng, i, flavor)),
    }
}

/// The vocabulary of one history.
#[derive(Clone)]
pub struct Pool {
    pub nodes: Vec<String>,
    pub preds: Vec<String>,
    pub values: Vec<TypedDictEntry>,
    pub flavor: Flavor,
}

impl Pool {
    pub fn new(rng: &mut Rng, flavor: Flavor, nn: usize, np: usize, nv: usize) -> Pool {
        let mut nodes: Vec<String> = (0..nn).map(|i| gen_string(rng, flavor, i)).collect();
        let mut preds: Vec<String> = (0..np).map(|i| gen_string(rng, flavor, i)).collect();
        let mut values: Vec<TypedDictEntry> = (0..nv).map(|i| gen_value(rng, flavor, i)).collect();
        if flavor == Flavor::Adversarial {
            // the same text as node, predicate and value
            let s = rng.pick(&nodes).clone();
            values.push(String::make_entry(&s));
            preds.push(s);
            if rng.chance(1, 6) {
                nodes.push(String::new());
            }
            if rng.chance(1, 6) {
                preds.push(String::new());
            }
        }
        nodes.sort();
        nodes.dedup();
        preds.sort();
        preds.dedup();
        values.sort();
        values.dedup();
        rng.shuffle(&mut nodes);
        rng.shuffle(&mut preds);
        rng.shuffle(&mut values);
        Pool { nodes, preds, values, flavor }
    }
    pub fn random(rng: &mut Rng) -> Pool {
        match rng.below(10) {
            0..=2 => {
                let (a, b, c) = (rng.range(1, 6), rng.range(1, 3), rng.range(1, 4));
                Pool::new(rng, Flavor::Plain, a, b, c)
            }
            3..=7 => {
                let (a, b, c) = (rng.range(2, 14), rng.range(1, 6), rng.range(1, 12));
                Pool::new(rng, Flavor::Adversarial, a, b, c)
            }
            8 => {
                let (a, b, c) = (rng.range(20, 60), rng.range(5, 20), rng.range(20, 60));
                Pool::new(rng, Flavor::Adversarial, a, b, c)
            }
            _ => {
                let (a, b, c) = (rng.range(30, 200), rng.range(2, 40), rng.range(10, 200));
                Pool::new(rng, Flavor::Bulk, a, b, c)
            }
        }
    }
    pub fn triple(&self, rng: &mut Rng) -> VT {
        let subject = self.skew(rng, self.nodes.len(), &self.nodes);
        let predicate = rng.pick(&self.preds).clone();
        let object = if rng.chance(1, 2) || self.values.is_empty() {
            ObjectType::Node(rng.pick(&self.nodes).clone())
        } else {
            ObjectType::Value(rng.pick(&self.values).clone())
        };
        ValueTriple { subject, predicate, object }
    }
    fn skew(&self, rng: &mut Rng, n: usize, v: &[String]) -> String {
        let i = if rng.chance(1, 2) { rng.below(n) } else { rng.below(1 + n / 3) };
        v[i.min(n - 1)].clone()
    }
    pub fn unknown_string(&self, rng: &mut Rng) -> String {
        loop {
            let s = match rng.below(5) {
                0 => format!("{}\u{1}", rng.pick(&self.nodes)),
                1 => {
                    let mut s = rng.pick(&self.nodes).clone();
                    s.pop();
                    s
                }
                2 => format!("{}0", rng.pick(&self.preds)),
                3 => format!("!{}", rng.below(100)),
                _ => format!("zzzz{}", rng.below(100)),
            };
            if !self.nodes.contains(&s) && !self.preds.contains(&s) {
                return s;
            }
        }
    }
    pub fn unknown_value(&self, rng: &mut Rng) -> TypedDictEntry {
        loop {
            let i = rng.below(1000) + 100000;
            let f = if rng.chance(1, 2) { Flavor::Adversarial } else { Flavor::Plain };
            let v = gen_value(rng, f, i);
            if !self.values.contains(&v) {
                return v;
            }
        }
    }
}

/// A short printable form of a triple.
pub fn show(t: &VT) -> String {
    fn cut(s: &str) -> String {
        let s: String = s.chars().take(24).collect();
        format!("{s:?}")
    }
    let o = match &t.object {
        ObjectType::Node(n) => cut(n),
        ObjectType::Value(v) => format!("{:?}:{}", v.datatype(), hex::encode(&v.to_bytes()[..v.to_bytes().len().min(16)])),
    };
    format!("({} {} {})", cut(&t.subject), cut(&t.predicate), o)
}
