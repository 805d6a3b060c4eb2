//! C19: malformed serialized data is rejected.
use super::c18::{floats, fp_cam, fp_op, fp_ortho, fp_persp, fp_pose, fp_pp, json, permuted, pres_name, same};
use super::Plan;
use crate::common::*;
use crate::engine::*;
use crate::scalar::Sc;
use crate::tok::{from_tok, to_tok, Keys, Pres, Tok, KEYS, PLAIN};
use cam_geom::*;
use serde::{de::DeserializeOwned, Serialize};
use std::sync::OnceLock;

/// A value for a field: serialized form, which good value it is (if it is well-formed).
#[derive(Clone)]
struct Item {
    tok: Tok,
    good: Option<usize>,
    /// also malformed when structs are presented as sequences
    seq: bool,
}
fn wrong(t: &Tok) -> Vec<Item> {
    let b = |tok| Item { tok, good: None, seq: true };
    let mut o = vec![b(Tok::Str("x".into())), b(Tok::Unit), b(Tok::Bool(true))];
    match t {
        Tok::Seq(v) => {
            o.push(b(Tok::Seq(v[..v.len() - 1].to_vec())));
            o.push(b(Tok::Seq(vec![])));
            for i in 0..v.len() {
                let mut w = v.clone();
                w[i] = Tok::Str("1.0".into());
                o.push(b(Tok::Seq(w)));
            }
        }
        Tok::Struct(f) => {
            for i in 0..f.len() {
                let mut w = f.clone();
                w.remove(i);
                o.push(b(Tok::Struct(w)));
                for at in [i + 1, f.len()] {
                    let mut w = f.clone();
                    w.insert(at, f[i].clone());
                    o.push(Item { tok: Tok::Struct(w), good: None, seq: false });
                }
                for x in wrong(&f[i].1) {
                    let mut w = f.clone();
                    w[i].1 = x.tok;
                    o.push(Item { tok: Tok::Struct(w), good: None, seq: x.seq });
                }
            }
        }
        _ => {}
    }
    o
}
#[derive(Clone)]
struct Letters {
    names: Vec<String>,
    /// (field, item); field == names.len() is an unknown field
    items: Vec<(usize, Item)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Pose,
    Persp,
    Ortho,
    PParams,
    OParams,
    PCam,
    OCam,
}
const KINDS: [Kind; 7] = [Kind::Pose, Kind::Persp, Kind::Ortho, Kind::PParams, Kind::OParams, Kind::PCam, Kind::OCam];
const Q: [[f64; 4]; 2] = [[0.5, 0.5, -0.5, 0.5], [0.0, 0.6, 0.0, 0.8]];
const C: [[f64; 3]; 2] = [[1.25, -2.5, 3.75], [-10.0, 0.1, 0.0]];
const K: [[f64; 5]; 2] = [[100.0, 120.5, 0.25, 320.0, 240.0], [-50.0, 60.0, -1.5, 0.1, 511.75]];
fn pose<S: Sc>(q: usize, c: usize) -> ExtrinsicParameters<S> {
    ext(&Q[q], &C[c]).0
}
fn pp<S: Sc>(w: &[usize]) -> PerspectiveParams<S> {
    let k: [S; 5] = std::array::from_fn(|i| S::f(K[w[i]][i]));
    PerspectiveParams { fx: k[0], fy: k[1], skew: k[2], cx: k[3], cy: k[4] }
}
fn op<S: Sc>(w: &[usize]) -> OrthographicParams<S> {
    let k: [S; 4] = std::array::from_fn(|i| S::f(K[w[i]][i]));
    OrthographicParams { sx: k[0], sy: k[1], cx: k[2], cy: k[3] }
}
/// The serialized form of the value whose fields are all the w-th good ones.
fn form<S: Sc>(k: Kind, w: usize) -> Tok {
    let p: IntrinsicParametersPerspective<S> = pp::<S>(&[w; 5]).into();
    let o: IntrinsicParametersOrthographic<S> = op::<S>(&[w; 4]).into();
    let e = pose::<S>(w, w);
    match k {
        Kind::Pose => to_tok(&e),
        Kind::Persp => to_tok(&p),
        Kind::Ortho => to_tok(&o),
        Kind::PParams => to_tok(p.params()),
        Kind::OParams => to_tok(&op::<S>(&[w; 4])),
        Kind::PCam => to_tok(&Camera::new(p, e)),
        Kind::OCam => to_tok(&Camera::new(o, e)),
    }
    .unwrap()
}
/// Which defining parameter group a field carries: found from the two serialized forms, not from names.
fn letters<S: Sc>(k: Kind, reduced: bool) -> Letters {
    let (Tok::Struct(a), Tok::Struct(b)) = (form::<S>(k, 0), form::<S>(k, 1)) else { panic!("{k:?} is not serialized as a struct") };
    let mut items = vec![];
    for i in 0..a.len() {
        items.push((i, Item { tok: a[i].1.clone(), good: Some(0), seq: true }));
        if !reduced {
            items.push((i, Item { tok: b[i].1.clone(), good: Some(1), seq: true }));
        }
        let w = wrong(&a[i].1);
        let n = if reduced { 1 } else { w.len() };
        items.extend(w.into_iter().take(n).map(|x| (i, x)));
    }
    items.push((a.len(), Item { tok: Tok::F64(1.0), good: None, seq: false }));
    if !reduced {
        items.push((a.len(), Item { tok: Tok::Struct(vec![]), good: None, seq: false }));
    }
    Letters { names: a.into_iter().map(|f| f.0).collect(), items }
}
/// The value with the given choice of good value for every field, in the order of the serialized form, from constructors.
/// Fields are recognised by their content.
enum Val<S: Sc> {
    Pose(ExtrinsicParameters<S>),
    Persp(IntrinsicParametersPerspective<S>),
    Ortho(IntrinsicParametersOrthographic<S>),
    PParams(PerspectiveParams<S>),
    OParams(OrthographicParams<S>),
    PCam(Camera<S, IntrinsicParametersPerspective<S>>),
    OCam(Camera<S, IntrinsicParametersOrthographic<S>>),
}
fn pos_of<S: Sc>(l: &Letters, x: f64) -> usize {
    // the field whose first good value contains the number x
    let x = S::f(x).g();
    for (f, i) in &l.items {
        let mut v = vec![];
        floats(&i.tok, &mut v);
        if i.good == Some(0) && v.contains(&x) {
            return *f;
        }
    }
    panic!("a defining parameter is not in the serialized form")
}
fn expected<S: Sc>(k: Kind, l: &Letters, choice: &[usize]) -> Val<S> {
    let at = |x: f64| choice[pos_of::<S>(l, x)];
    let par = |n: usize| -> Vec<usize> { (0..n).map(|i| at(K[0][i])).collect() };
    let po = || pose::<S>(at(Q[0][2]), at(C[0][0]));
    match k {
        Kind::Pose => Val::Pose(po()),
        Kind::Persp => Val::Persp(pp::<S>(&par(5)).into()),
        Kind::Ortho => Val::Ortho(op::<S>(&par(4)).into()),
        Kind::PParams => Val::PParams(pp::<S>(&par(5))),
        Kind::OParams => Val::OParams(op::<S>(&par(4))),
        Kind::PCam => Val::PCam(Camera::new(pp::<S>(&par(5)).into(), po())),
        Kind::OCam => Val::OCam(Camera::new(op::<S>(&par(4)).into(), po())),
    }
}
/// Deserialize with `f` the type `k`; the value must be `want`.
trait Source {
    fn get<T: DeserializeOwned>(&self) -> Result<T, String>;
}
struct TokSrc<'a>(&'a Tok, Pres, u64);
impl Source for TokSrc<'_> {
    fn get<T: DeserializeOwned>(&self) -> Result<T, String> {
        from_tok(self.0, self.1, self.2).0.map_err(|e| e.to_string())
    }
}
struct JsonSrc<'a>(&'a [u8]);
impl Source for JsonSrc<'_> {
    fn get<T: DeserializeOwned>(&self) -> Result<T, String> {
        serde_json::from_slice(self.0).map_err(|e| e.to_string())
    }
}
#[derive(PartialEq)]
enum Got {
    Err,
    Same,
    Different,
}
fn judge<S: Sc>(k: Kind, src: &impl Source, want: Option<&Val<S>>, msg: &mut String) -> Got {
    macro_rules! j {
        ($v:ident, $fp:expr) => {
            match src.get() {
                Err(e) => {
                    *msg = e;
                    Got::Err
                }
                Ok(x) => match want {
                    Some(Val::$v(w)) if x == *w && same(&$fp(&x), &$fp(w)) => Got::Same,
                    _ => {
                        *msg = format!("{:?}", to_tok(&x).map(|_| ()).err());
                        Got::Different
                    }
                },
            }
        };
    }
    match k {
        Kind::Pose => j!(Pose, fp_pose),
        Kind::Persp => j!(Persp, fp_persp),
        Kind::Ortho => j!(Ortho, fp_ortho),
        Kind::PParams => j!(PParams, fp_pp),
        Kind::OParams => j!(OParams, fp_op),
        Kind::PCam => j!(PCam, |c| fp_cam(c, fp_persp)),
        Kind::OCam => j!(OCam, |c| fp_cam(c, fp_ortho)),
    }
}
type Cache = [OnceLock<Letters>; 2];
fn cached<'a, S: Sc>(c: &'a Cache, k: Kind, reduced: bool) -> &'a Letters {
    c[S::IS32 as usize].get_or_init(|| letters::<S>(k, reduced))
}
/// All words of fields, as a map.
struct Words {
    k: Kind,
    reduced: bool,
    min: usize,
    cache: Cache,
    pres: Vec<(Option<Pres>, &'static str)>,
}
fn map_pres(all: bool) -> Vec<(Option<Pres>, &'static str)> {
    let mut v = vec![(Some(PLAIN), "map keyed by strings"), (Some(Pres { keys: Keys::Index, human: false, hint: 0, ..PLAIN }), "map keyed by indices")];
    if all {
        v.push((Some(Pres { keys: Keys::Bytes, hint: 2, ..PLAIN }), "map keyed by bytes"));
        v.push((Some(Pres { keys: Keys::Owned, human: false, widen: true, ..PLAIN }), "map keyed by owned strings"));
    }
    v.push((None, "JSON"));
    v
}
impl Body for Words {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let l = cached::<S>(&self.cache, self.k, self.reduced);
        let n = l.items.len();
        let mut i = d[0];
        let mut len = self.min;
        while i >= n.pow(len as u32) {
            i -= n.pow(len as u32);
            len += 1;
        }
        let mut seen = vec![vec![]; l.names.len()];
        let mut unknown = false;
        let mut malformed = false;
        let mut f = vec![];
        for _ in 0..len {
            let (fi, it) = &l.items[i % n];
            i /= n;
            if *fi == l.names.len() {
                unknown = true;
                f.push(("zz_unknown".to_string(), it.tok.clone()));
            } else {
                malformed |= it.good.is_none();
                seen[*fi].push(it.good);
                f.push((l.names[*fi].clone(), it.tok.clone()));
            }
        }
        let valid = !malformed && seen.iter().all(|s| s.len() == 1);
        let choice: Vec<usize> = seen.iter().map(|s| s.first().copied().flatten().unwrap_or(0)).collect();
        let want = if valid { Some(expected::<S>(self.k, l, &choice)) } else { None };
        let tok = Tok::Struct(f);
        t.state_u("word of fields", &[self.k as u64, self.reduced as u64, d[0] as u64, d[1] as u64]);
        t.call("deserialize");
        let mut msg = String::new();
        let mut text = String::new();
        let (p, name) = &self.pres[d[1]];
        let got = match p {
            Some(p) => judge(self.k, &TokSrc(&tok, *p, u64::MAX), want.as_ref(), &mut msg),
            None => {
                json(&tok, &mut text);
                judge(self.k, &JsonSrc(text.as_bytes()), want.as_ref(), &mut msg)
            }
        };
        t.compared += 1;
        match (valid, unknown, got) {
            (true, false, Got::Err) => bad(format!("{:?} as {name}: valid data rejected ({msg}): {tok:?}", self.k)),
            (true, _, Got::Different) => bad(format!("{:?} as {name}: not the value the fields define: {tok:?}", self.k)),
            (false, _, Got::Same | Got::Different) => bad(format!("{:?} as {name}: malformed data accepted: {tok:?}", self.k)),
            _ => Ok(()),
        }
    }
}
/// All sequences: a good, bad or missing item at every position.
struct Seqs {
    k: Kind,
    cache: Cache,
    per: Vec<usize>,
}
fn per_field(l: &Letters) -> Vec<Vec<Item>> {
    (0..l.names.len()).map(|f| l.items.iter().filter(|i| i.0 == f && i.1.seq).map(|i| i.1.clone()).collect()).collect()
}
impl Body for Seqs {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let l = cached::<S>(&self.cache, self.k, false);
        let items = per_field(l);
        let mut i = d[0];
        let mut choice = vec![];
        let mut f = vec![];
        let mut valid = true;
        for (k, it) in items.iter().enumerate() {
            // digit 0: the sequence ends here
            let c = i % (self.per[k] + 1);
            i /= self.per[k] + 1;
            if c == 0 {
                valid = false;
                if i != 0 {
                    return skip();
                }
                break;
            }
            let it = &it[c - 1];
            valid &= it.good.is_some();
            choice.push(it.good.unwrap_or(0));
            f.push((l.names[k].clone(), it.tok.clone()));
        }
        let want = if valid { Some(expected::<S>(self.k, l, &choice)) } else { None };
        let tok = Tok::Struct(f);
        t.state_u("sequence", &[self.k as u64, d[0] as u64, d[1] as u64]);
        t.call("deserialize");
        let p = Pres { map: false, human: d[1] & 1 == 0, hint: (d[1] / 2 % 3) as u8, widen: d[1] >= 6, keys: Keys::Str };
        let mut msg = String::new();
        t.compared += 1;
        match (valid, judge(self.k, &TokSrc(&tok, p, u64::MAX), want.as_ref(), &mut msg)) {
            (true, Got::Same) | (false, Got::Err) => Ok(()),
            (true, Got::Err) => bad(format!("{:?} as a sequence: valid data rejected ({msg}): {tok:?}", self.k)),
            (true, _) => bad(format!("{:?} as a sequence: not the value the items define: {tok:?}", self.k)),
            (false, _) => bad(format!("{:?} as a sequence: malformed data accepted: {tok:?}", self.k)),
        }
    }
}
/// The format fails at every event of every presentation.
struct Faults;
impl Body for Faults {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let k = KINDS[d[0]];
        let p = Pres { map: d[1] % 6 != 5, keys: KEYS[(d[1] % 6).min(4)], human: (d[1] / 6) % 2 == 0, hint: ((d[1] / 12) % 3) as u8, widen: d[1] >= 36 };
        if !p.map && d[2] > 0 {
            return skip();
        }
        let mut n = d[2];
        let tok = permuted(&form::<S>(k, 0), &mut n);
        if n != 0 {
            return skip();
        }
        let mut msg = String::new();
        let mut at = 0;
        loop {
            t.call("deserialize");
            t.compared += 1;
            t.state_u("failing event", &[d[0] as u64, d[1] as u64, d[2] as u64, at]);
            let (ok, ev) = count::<S>(k, &tok, p, at, &mut msg);
            if ev <= at {
                // the format was never asked for this event: the stream was read completely
                return if ok { Ok(()) } else { bad(format!("{k:?}: valid data rejected: {msg}")) };
            }
            if ok {
                return bad(format!("{k:?}: the format failed at event {at} ({}), yet a value was returned", pres_name(d[1] % 60)));
            }
            at += 1;
        }
    }
}
fn count<S: Sc>(k: Kind, tok: &Tok, p: Pres, at: u64, msg: &mut String) -> (bool, u64) {
    macro_rules! c {
        ($t:ty) => {{
            let (r, n) = from_tok::<$t>(tok, p, at);
            if let Err(e) = &r {
                *msg = e.to_string()
            }
            (r.is_ok(), n)
        }};
    }
    match k {
        Kind::Pose => c!(ExtrinsicParameters<S>),
        Kind::Persp => c!(IntrinsicParametersPerspective<S>),
        Kind::Ortho => c!(IntrinsicParametersOrthographic<S>),
        Kind::PParams => c!(PerspectiveParams<S>),
        Kind::OParams => c!(OrthographicParams<S>),
        Kind::PCam => c!(Camera<S, IntrinsicParametersPerspective<S>>),
        Kind::OCam => c!(Camera<S, IntrinsicParametersOrthographic<S>>),
    }
}
/// JSON text cut at every byte, and with every byte replaced.
struct Text;
const REPL: &[u8] = b"x\"{}[],:0-. \n\\e9nt\xff";
impl Body for Text {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let k = KINDS[d[0]];
        let mut text = String::new();
        let mut n = d[1];
        let tok = permuted(&form::<S>(k, d[2]), &mut n);
        if n != 0 {
            return skip();
        }
        json(&tok, &mut text);
        let b = text.as_bytes();
        let mut msg = String::new();
        for cut in 0..b.len() {
            t.call("serde_json::from_slice");
            t.compared += 1;
            t.state_u("cut", &[d[0] as u64, d[1] as u64, cut as u64]);
            if judge::<S>(k, &JsonSrc(&b[..cut]), None, &mut msg) != Got::Err {
                return bad(format!("{k:?}: truncated JSON accepted: {}", &text[..cut]));
            }
        }
        // whatever happens, no panic
        let mut v = b.to_vec();
        for at in 0..b.len() {
            for r in REPL {
                v[at] = *r;
                t.call("serde_json::from_slice");
                judge::<S>(k, &JsonSrc(&v), None, &mut msg);
            }
            v[at] = b[at];
        }
        Ok(())
    }
}
/// Something that is not a struct at all.
struct NotAStruct;
impl Body for NotAStruct {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let k = KINDS[d[0]];
        let v = [Tok::Unit, Tok::Bool(false), Tok::U(3), Tok::I(-3), Tok::F64(1.5), Tok::F32(1.5), Tok::Str("rquat".into()), Tok::Str("".into()), Tok::Seq(vec![]), Tok::Struct(vec![])];
        let p = Pres { map: d[2] == 0, ..PLAIN };
        t.call("deserialize");
        t.compared += 1;
        t.state_u("not a struct", &[d[0] as u64, d[1] as u64, d[2] as u64]);
        let mut msg = String::new();
        match judge::<S>(k, &TokSrc(&v[d[1]], p, u64::MAX), None, &mut msg) {
            Got::Err => Ok(()),
            _ => bad(format!("{k:?}: {:?} accepted", v[d[1]])),
        }
    }
}
fn n_words(n: usize, min: usize, max: usize) -> usize {
    (min..=max).map(|l| n.pow(l as u32)).sum()
}
pub fn plan(thorough: bool) -> Plan {
    let mut s = vec![];
    let full = if thorough { [5, 4, 4, 5, 5, 3, 3] } else { [3, 3, 3, 3, 3, 2, 2] };
    let red = if thorough { [7, 7, 7, 6, 6, 7, 7] } else { [6, 6, 6, 5, 5, 6, 6] };
    let names = [
        ["pose: words of fields", "pose: longer words", "pose: sequences"],
        ["perspective intrinsics: words of fields", "perspective intrinsics: longer words", "perspective intrinsics: sequences"],
        ["orthographic intrinsics: words of fields", "orthographic intrinsics: longer words", "orthographic intrinsics: sequences"],
        ["perspective parameters: words of fields", "perspective parameters: longer words", "perspective parameters: sequences"],
        ["orthographic parameters: words of fields", "orthographic parameters: longer words", "orthographic parameters: sequences"],
        ["perspective camera: words of fields", "perspective camera: longer words", "perspective camera: sequences"],
        ["orthographic camera: words of fields", "orthographic camera: longer words", "orthographic camera: sequences"],
    ];
    for (i, k) in KINDS.into_iter().enumerate() {
        let cache = || -> Cache { [OnceLock::new(), OnceLock::new()] };
        for (reduced, max, name) in [(false, full[i], names[i][0]), (true, red[i], names[i][1])] {
            let n = letters::<f64>(k, reduced).items.len();
            let pres = map_pres(thorough || !reduced);
            let np = pres.len();
            s.push(Section::new(name, Words { k, reduced, min: 0, cache: cache(), pres }).disc("word", n_words(n, 0, max)).disc("presentation", np).no_closure());
        }
        let per: Vec<usize> = per_field(&letters::<f64>(k, false)).iter().map(|v| v.len()).collect();
        let total = per.iter().map(|n| n + 1).product();
        s.push(Section::new(names[i][2], Seqs { k, cache: cache(), per }).disc("item or end at every position", total).disc("human readable, size hint, float width", if thorough { 12 } else { 6 }).no_closure());
    }
    s.push(Section::new("format errors", Faults).disc("type", KINDS.len()).disc("presentation", 72).disc("field orders", if thorough { 480 } else { 12 }).no_closure());
    s.push(Section::new("damaged JSON", Text).disc("type", KINDS.len()).disc("field orders", if thorough { 480 } else { 6 }).disc("value", 2).no_closure());
    s.push(Section::new("not a struct", NotAStruct).disc("type", KINDS.len()).disc("value", 10).disc("map or sequence", 2).no_closure());
    Plan {
        sections: s,
        rule: "a state is a stream of fields (a word over good values, malformed values and unknown fields) in one presentation, or a valid stream and the event at which the format fails",
        assumptions: vec![
            "Unknown fields may be ignored or rejected; both are accepted when the rest is well-formed.",
            "Sequences longer than the struct are left to the format and not explored.",
            "A well-formed value is one of the right type; quaternions that are not of unit length are not explored.",
        ],
    }
}
#[allow(unused)]
fn _unused<T: Serialize>(_: T) {}
