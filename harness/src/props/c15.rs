//! Representations of values.

use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use poppy_filters::{v2, BloomFilter, Error, PoppyHash};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};

fn inner(f: &mut BloomFilter) -> Option<&mut v2::BloomFilter> {
    match f {
        BloomFilter::V2(b) => Some(b),
        _ => None,
    }
}

// ---------------------------------------------------------------- byte strings

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
    spec: Spec,
    /// values with the representation they are inserted as
    values: Vec<(Key, u8)>,
    absent: Vec<Key>,
}

fn check_bytes(c: &Bytes, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let (Ok(mut a), Ok(mut b)) = (c.spec.create(), c.spec.create()) else { return Ok(()) };
    let mut inserted = 0;
    for (k, via) in &c.values {
        let v = k.bytes();
        let ra = insert_via(&mut a, &v, *via).map_err(|e| e.to_string());
        let rb = b.insert_bytes(&v[..]).map_err(|e| e.to_string());
        if ra != rb {
            return Err(format!("inserting {} as representation {via} gives {ra:?}, as slice {rb:?}", short(&v)));
        }
        inserted += ra.is_ok() as u64;
        if ra.is_ok() {
            for r in 0..VIAS {
                if !contains_via(&a, &v, r) {
                    return Err(format!("{} inserted as representation {via} is not found as representation {r}", short(&v)));
                }
            }
        }
    }
    if dump(&a) != dump(&b) {
        return Err("the filter depends on how the values were passed".into());
    }
    // bulk insertion is one more way
    if let Ok(mut f) = c.spec.create() {
        let all: Vec<Vec<u8>> = c.values.iter().map(|(k, _)| k.bytes()).collect();
        if inserted as usize == all.len() && f.fill(all).is_ok() && dump(&f) != dump(&b) {
            return Err("bulk insertion makes another filter".into());
        }
    }
    for k in &c.absent {
        let v = k.bytes();
        let want = contains_via(&a, &v, 0);
        for r in 1..VIAS {
            if contains_via(&a, &v, r) != want {
                return Err(format!("contains({}) is {want} as slice and {} as representation {r}", short(&v), !want));
            }
        }
    }
    ctx.nontrivial = inserted > 0;
    ctx.count("values", inserted);
    Ok(())
}

// ---------------------------------------------------------------- typed values

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Wrap<T>(pub T);
impl<T: Hash> PoppyHash for Wrap<T> {}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Record {
    pub id: u64,
    pub name: String,
    pub tags: Vec<u16>,
    pub parent: Option<Box<Record>>,
}
impl PoppyHash for Record {}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Dot,
    Line(i32, i32),
    Named { name: String, size: u128 },
}
impl PoppyHash for Shape {}

/// equal regardless of case
#[derive(Clone, Debug)]
pub struct NoCase(pub String);
impl Hash for NoCase {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_lowercase().hash(h)
    }
}
impl PoppyHash for NoCase {}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typed {
    spec: Spec,
    /// kind of value and its content
    items: Vec<(u8, u64, String)>,
}

/// inserts x, then looks for `same`, a different object that hashes equally
fn typed<A: PoppyHash + std::fmt::Debug, B: PoppyHash>(f: &mut v2::BloomFilter, x: &A, same: &B) -> Result<bool, String> {
    // what the prepared interface says has to agree
    let prep = v2::BloomFilter::build_index_iter(x);
    let before = f.contains(x);
    if f.contains(same) != before || f.contains_iter(prep).map_err(|e| e.to_string())? != before {
        return Err(format!("before insertion, contains of {x:?} depends on the interface"));
    }
    let mut twin = f.clone();
    let rp = twin.insert_iter(prep).map_err(|e| e.to_string());
    let r = f.insert(x).map_err(|e| e.to_string());
    if r != rp {
        return Err(format!("inserting {x:?} gives {r:?}, prepared {rp:?}"));
    }
    let bytes = |f: &v2::BloomFilter| dump(&BloomFilter::V2(f.clone()));
    if bytes(f) != bytes(&twin) {
        return Err(format!("inserting {x:?} prepared makes another filter"));
    }
    if r.is_err() {
        return Ok(false);
    }
    if !f.contains(x) {
        return Err(format!("{x:?} is not found after insertion"));
    }
    if !f.contains(same) {
        return Err(format!("a value equal to {x:?} is not found after its insertion"));
    }
    for it in [prep, v2::BloomFilter::build_index_iter(same)] {
        if !f.contains_iter(it).map_err(|e| e.to_string())? {
            return Err(format!("{x:?} is not found through a prepared index after insertion"));
        }
    }
    match f.insert(same) {
        Ok(false) => Ok(true),
        r => Err(format!("inserting a value equal to {x:?} again gives {:?}", r.map_err(|e| e.to_string()))),
    }
}

fn check_typed(c: &Typed, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let Ok(mut f) = c.spec.create() else { return Ok(()) };
    let Some(f) = inner(&mut f) else { return Ok(()) };
    let mut n = 0;
    for (kind, x, s) in &c.items {
        let x = *x;
        let wide = (x as u128) << 64 | mix(x) as u128;
        let rec = |x: u64| Record {
            id: x,
            name: s.clone(),
            tags: s.bytes().map(|b| b as u16).collect(),
            parent: (x % 3 == 0).then(|| Box::new(Record { id: x / 3, name: String::new(), tags: vec![], parent: None })),
        };
        let ok = match kind % 22 {
            0 => typed(f, &(x as u8), &Wrap(x as u8))?,
            1 => typed(f, &(x as u16), &Wrap(x as u16))?,
            2 => typed(f, &(x as u32), &Wrap(x as u32))?,
            3 => typed(f, &x, &Wrap(x))?,
            4 => typed(f, &wide, &Wrap(wide))?,
            5 => typed(f, &(x as usize), &Wrap(x as usize))?,
            6 => typed(f, &(x as i8), &Wrap(x as i8))?,
            7 => typed(f, &(x as i16), &Wrap(x as i16))?,
            8 => typed(f, &(x as i32), &Wrap(x as i32))?,
            9 => typed(f, &(x as i64), &Wrap(x as i64))?,
            10 => typed(f, &(wide as i128), &Wrap(wide as i128))?,
            11 => typed(f, &(x as isize), &Wrap(x as isize))?,
            12 => typed(f, &Some(x), &Wrap(Some(x)))?,
            13 => typed(f, &Some(s.clone()), &Some(&s[..]))?,
            14 => typed(f, &None::<u32>, &None::<u32>)?,
            15 => typed(f, &Some(s.as_bytes().to_vec()), &Some(s.as_bytes()))?,
            16 => typed(f, &rec(x), &rec(x))?,
            17 => typed(f, &Shape::Line(x as i32, (x >> 32) as i32), &Shape::Line(x as i32, (x >> 32) as i32))?,
            18 => typed(f, &Shape::Named { name: s.clone(), size: wide }, &Shape::Named { name: s.clone(), size: wide })?,
            19 => typed(f, &NoCase(s.to_uppercase().to_lowercase()), &NoCase(s.to_uppercase().to_lowercase().to_lowercase()))?,
            20 => typed(f, &Shape::Dot, &Shape::Dot)?,
            _ => typed(f, &Wrap((x, s.clone(), [1u8, 2, 3])), &Wrap((x, s.clone(), [1u8, 2, 3])))?,
        };
        n += ok as u64;
        ctx.label(format!("kind {}", kind % 22));
    }
    ctx.nontrivial = n > 0;
    Ok(())
}

// ---------------------------------------------------------------- prepared indexes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prepared {
    specs: Vec<Spec>,
    values: Vec<Key>,
    /// which prepared value goes to which filter, how often next() is called before, in this order
    uses: Vec<(u8, u8, u8)>,
}

fn check_prepared(c: &Prepared, ctx: &mut Ctx) -> Verdict {
    let mut a: Vec<v2::BloomFilter> = vec![];
    for s in &c.specs {
        let Ok(BloomFilter::V2(f)) = s.create() else { return Ok(()) };
        a.push(f);
    }
    let mut b = a.clone();
    let values: Vec<Vec<u8>> = c.values.iter().map(|k| k.bytes()).collect();
    let prep: Vec<_> = values.iter().map(|v| v2::BloomFilter::build_index_iter(&v.as_slice())).collect();
    let mut n = 0;
    for (i, j, skip) in &c.uses {
        let (i, j) = (*i as usize % a.len(), *j as usize % values.len());
        let mut it = prep[j];
        // consuming a prepared index: either it gives nothing, or it is no longer good
        let mut consumed = false;
        for _ in 0..*skip {
            consumed |= it.next().is_some();
        }
        if consumed {
            ctx.label("consumed index");
            for r in [a[i].clone().insert_iter(it), a[i].contains_iter(it)] {
                if !matches!(r, Err(Error::UninitIter)) {
                    return Err(format!("a partly consumed index gives {:?}", r.map_err(|e| e.to_string())));
                }
            }
            continue;
        }
        let (ca, cb) = (a[i].contains_iter(it).map_err(|e| e.to_string()), b[i].contains(&values[j].as_slice()));
        if ca != Ok(cb) {
            return Err(format!("filter {i}: contains({}) is {cb}, through the prepared index {ca:?}", short(&values[j])));
        }
        let ra = a[i].insert_iter(it).map_err(|e| e.to_string());
        let rb = b[i].insert_bytes(&values[j]).map_err(|e| e.to_string());
        if ra != rb {
            return Err(format!("filter {i}: inserting {} gives {rb:?}, through the prepared index {ra:?}", short(&values[j])));
        }
        if ra.is_ok() {
            n += 1;
            if a[i].contains_iter(it).map_err(|e| e.to_string()) != Ok(true) {
                return Err(format!("filter {i}: {} is not found through its prepared index after insertion", short(&values[j])));
            }
        }
    }
    for i in 0..a.len() {
        if dump(&BloomFilter::V2(a[i].clone())) != dump(&BloomFilter::V2(b[i].clone())) {
            return Err(format!("filter {i} differs when values are passed as prepared indexes"));
        }
        // an index that was never prepared
        let before = dump(&BloomFilter::V2(a[i].clone()));
        let r = a[i].insert_iter(Default::default());
        if !matches!(r, Err(Error::UninitIter)) {
            return Err(format!("inserting an unprepared index gives {:?}", r.map_err(|e| e.to_string())));
        }
        let r = a[i].contains_iter(Default::default());
        if !matches!(r, Err(Error::UninitIter)) {
            return Err(format!("looking up an unprepared index gives {:?}", r.map_err(|e| e.to_string())));
        }
        if dump(&BloomFilter::V2(a[i].clone())) != before {
            return Err("an unprepared index changed the filter".into());
        }
    }
    ctx.nontrivial = n > 0 && a.len() > 1;
    ctx.count("prepared insertions", n);
    Ok(())
}

fn v2_spec() -> BoxedStrategy<Spec> {
    prop_oneof![3 => spec_with(v2_opt(), 40_000.0), 1 => small_spec().prop_map(|mut s| { s.version = 2; s })].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "v2 filters of random geometry: the same values inserted in one filter through generated representations and in another as slices must give equal results and bytes and be found through all eight representations; typed values (integers, options, user types) must be found again through equal values of other types and prepared indexes; prepared indexes are used repeatedly over up to four filters of different geometry. Non-trivial: at least one insertion succeeded (prepared: and there are two filters)",
        suites: || {
            vec![
                suite(
                    "bytes",
                    20_000,
                    400_000,
                    |_| {
                        (v2_spec(), prop::collection::vec((key(), 0..VIAS), 1..16), prop::collection::vec(key(), 0..6))
                            .prop_map(|(spec, values, absent)| Bytes { spec, values, absent })
                            .boxed()
                    },
                    check_bytes,
                ),
                suite(
                    "typed",
                    20_000,
                    400_000,
                    |_| {
                        let x = prop_oneof![any::<u64>(), 0u64..20, Just(u64::MAX)];
                        (v2_spec(), prop::collection::vec((any::<u8>(), x, ".{0,12}"), 1..16)).prop_map(|(spec, items)| Typed { spec, items }).boxed()
                    },
                    check_typed,
                ),
                suite(
                    "prepared",
                    20_000,
                    400_000,
                    |_| {
                        (
                            prop::collection::vec(v2_spec(), 1..=4),
                            prop::collection::vec(key(), 1..8),
                            prop::collection::vec((any::<u8>(), any::<u8>(), prop_oneof![3 => Just(0u8), 1 => 1u8..4]), 1..20),
                        )
                            .prop_map(|(specs, values, uses)| Prepared { specs, values, uses })
                            .boxed()
                    },
                    check_prepared,
                ),
            ]
        },
        processes: false,
    }
}
