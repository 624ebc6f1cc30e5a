//! T13: certificates.
use super::t_peer::{before_close, classify, judged};
use crate::ensure;
use crate::fw::{Obs, Prop, Res, Run};
use crate::gens::*;
use crate::refs::p256::{be, N};
use crate::tls::der::*;
use crate::tls::model::{agree, Ctx};
use crate::tls::muta::*;
use crate::tls::plan::*;
use crate::tls::server::*;
use crate::tls::sess::*;
use crate::tls::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub const T13: Prop = Prop {
    id: "T13",
    rule: "a case is non-trivial if a certificate differs from the default one, or the chain has several certificates",
    assumptions: &["the judge in tls/model.rs reads X.509 and DER as the statement says: mandatory fields of the right types and nothing else; encodings that are BER but not DER are left open, except indefinite lengths, which are refused"],
    run: t13,
};

/// A change of the tree of a certificate. Nodes are numbered in order of appearance.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Tag(u8, u8),
    Remove(u8),
    Dup(u8),
    /// Exchanged with a sibling.
    Swap(u8, u8),
    /// A new node before the n-th.
    Insert(u8, u8, Hx),
    /// A new last element in a constructed node.
    Last(u8, u8, Hx),
    Content(u8, Hx),
    Append(u8, Hx),
    Trunc(u8, u8),
    Empty(u8),
    Len(u8, Len),
    /// The content bytes of the signature's integers.
    R(Hx),
    S(Hx),
    Version(Hx),
    Oid(bool, Hx),
    Unused(u8),
}

fn change(d: &mut Der, m: &Mut) {
    let n = d.count();
    let top = |i: u8| i as usize % n;
    let low = |i: u8| 1 + i as usize % (n - 1).max(1);
    match m {
        Mut::Tag(i, t) => d.nth(top(*i)).tag = *t,
        Mut::Remove(i) if n > 1 => {
            let (l, i) = d.holder(low(*i));
            l.remove(i);
        }
        Mut::Dup(i) if n > 1 => {
            let (l, i) = d.holder(low(*i));
            let x = l[i].clone();
            l.insert(i, x);
        }
        Mut::Swap(i, j) if n > 1 => {
            let (l, i) = d.holder(low(*i));
            let j = *j as usize % l.len();
            l.swap(i, j);
        }
        Mut::Insert(i, t, b) if n > 1 => {
            let (l, i) = d.holder(low(*i));
            l.insert(i, prim(*t, b));
        }
        Mut::Last(i, t, b) => {
            // the next constructed node
            for k in 0..n {
                let x = d.nth((*i as usize + k) % n);
                if !matches!(x.body, Body::Prim(_)) {
                    x.kids().push(prim(*t, b));
                    return;
                }
            }
        }
        Mut::Content(i, b) => d.nth(top(*i)).body = Body::Prim(b.0.clone()),
        Mut::Append(i, b) => {
            let x = d.nth(top(*i));
            let mut c = content(x);
            c.extend_from_slice(b);
            x.body = Body::Prim(c);
        }
        Mut::Trunc(i, k) => {
            let x = d.nth(top(*i));
            let mut c = content(x);
            let l = c.len().saturating_sub(1 + *k as usize);
            c.truncate(l);
            x.body = Body::Prim(c);
        }
        Mut::Empty(i) => d.nth(top(*i)).body = Body::Prim(vec![]),
        Mut::Len(i, l) => d.nth(top(*i)).len = *l,
        Mut::R(b) | Mut::S(b) => {
            // certificate -> signature -> pair of integers, if that is still there
            let k = matches!(m, Mut::S(_)) as usize;
            if let Some(x) = find(d, &[2, 0, k]) {
                x.body = Body::Prim(b.0.clone());
            }
        }
        Mut::Version(b) => {
            if let Some(x) = find(d, &[0, 0, 0]) {
                x.body = Body::Prim(b.0.clone());
            }
        }
        Mut::Oid(outer, b) => {
            if let Some(x) = find(d, if *outer { &[1, 0] } else { &[0, 2, 0] }) {
                x.body = Body::Prim(b.0.clone());
            }
        }
        Mut::Unused(x) => {
            if let Some(Der { body: Body::Wrap(p, _), .. }) = find(d, &[2]) {
                *p = vec![*x];
            }
        }
        _ => {}
    }
}
fn content(d: &Der) -> Vec<u8> {
    match &d.body {
        Body::Prim(b) => b.clone(),
        Body::Cons(l) => l.iter().flat_map(|x| x.encode()).collect(),
        Body::Wrap(p, l) => {
            let mut v = p.clone();
            v.extend(l.iter().flat_map(|x| x.encode()));
            v
        }
    }
}
fn find<'a>(mut d: &'a mut Der, path: &[usize]) -> Option<&'a mut Der> {
    for &i in path {
        d = match &mut d.body {
            Body::Prim(_) => return None,
            Body::Cons(l) | Body::Wrap(_, l) => l.get_mut(i)?,
        };
    }
    Some(d)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    plan: Plan,
    /// Which certificate of the chain is changed.
    which: u8,
    muts: Vec<Mut>,
    /// Changes of its encoding.
    edits: Vec<Edit>,
    /// Replaces it by these bytes.
    raw: Option<Hx>,
}

fn build(c: &Case, f: &Flight, _: &Ctx) -> (Vec<u8>, Vec<u8>, Keys) {
    let p = &c.plan;
    let sh = f.sh.encode().b;
    let k = f.keys(&sh);
    let mut certs = f.certs.clone();
    let i = c.which as usize % certs.len();
    let mut d = cert(&p.srv.certs[i]);
    for m in &c.muts {
        change(&mut d, m);
    }
    let mut e = Enc { b: d.encode(), lens: vec![] };
    if !c.edits.is_empty() {
        der_lens(&e.b.clone(), 0, &mut e.lens);
        c.edits.iter().for_each(|x| apply(&mut e, x));
    }
    if let Some(r) = &c.raw {
        e.b = r.0.clone();
    }
    certs[i] = e.b;
    let go = |certs: &[Vec<u8>]| {
        let mut u = p.frame.hello_units(&sh);
        u.extend(p.frame.prot_units(&[encrypted_extensions(&f.ee).b, certificate(certs).b]));
        stream(&seal(&u, &k.server))
    };
    let basic = [cert(&CertSpec::default()).encode()];
    (go(&certs), go(&basic), k.clone())
}

fn check13(c: &Case, obs: &mut Obs) -> Res {
    let d = c.clone();
    let (t, v, changed) = judged(&c.plan, move |f, ctx| build(&d, f, ctx))?;
    if !changed {
        obs.trivial();
    }
    for m in &c.muts {
        let s = format!("{m:?}");
        obs.label(s.split(['(', ' ']).next().unwrap());
    }
    if c.muts.is_empty() && c.edits.is_empty() && c.raw.is_none() {
        obs.label("well-formed");
    }
    if v.pass && v.fail {
        obs.label("left open");
    }
    classify(&t, &v, obs);
    let t = before_close(&t);
    agree(&t, &v)?;
    // a message beyond what a client has to hold is not refused for its certificate
    if v.why.contains("oversized message") {
        obs.label("oversized");
    } else if let End::Failed { err: TLS, alert } = t.end() {
        ensure!([42, 43, 44, 45, 46, 48, 50].contains(&alert), "alert-code", "a certificate refused with alert {alert}: {}", v.why);
    }
    Ok(())
}

fn ints() -> Vec<Vec<u8>> {
    let n = be(&N).to_vec();
    let add = |d: i64| {
        let mut l = N;
        l[0] = l[0].wrapping_add(d as u64);
        be(&l).to_vec()
    };
    let z = |v: &[u8]| [&[0u8][..], v].concat();
    let mut v = vec![
        vec![],
        vec![0],
        vec![1],
        vec![0x7f],
        vec![0x80],
        vec![0xff],
        vec![0, 0],
        vec![0, 1],
        vec![0, 0x80],
        vec![0xff; 32],
        z(&[0xff; 32]),
        n.clone(),
        z(&n),
        z(&add(-1)),
        add(-1),
        z(&add(1)),
        z(&add(-2)),
        z(&z(&n)),
        z(&z(&add(-1))),
        vec![0x7f; 32],
        vec![0x7f; 33],
        [&[1u8][..], &[0; 32]].concat(),
        [&[0u8, 1][..], &[0; 32]].concat(),
        [&[1u8][..], &add(-1)].concat(),
        vec![0; 32],
        vec![0; 33],
        vec![0; 200],
    ];
    // the order with one limb, or one byte, changed
    for i in 0..32 {
        for d in [1u8, 0xff] {
            let mut x = n.clone();
            x[i] = x[i].wrapping_add(d);
            v.push(z(&x));
        }
    }
    for l in 1..70usize {
        let mut x = fill(l, 500 + l as u64);
        x[0] &= 0x7f;
        v.push(x.clone());
        x[0] |= 0x80;
        v.push(x.clone());
        v.push(z(&x));
    }
    v
}

fn single(muts: Vec<Mut>, i: u8) -> Case {
    Case { plan: Plan { pool: Some(i), ..pool_plan(i) }, which: 0, muts, edits: vec![], raw: None }
}

fn t13(run: &mut Run) {
    let chain = |n: usize| {
        (pooled(), vec(cert_spec(), 1..n)).prop_map(|(mut p, mut certs)| {
            let mut long = false;
            for c in &mut certs {
                if c.sizes[2] > 60_000 && (long || p.frame.sizes.iter().any(|s| *s < 64)) {
                    c.sizes[2] -= 60_000;
                }
                long |= c.sizes[2] > 60_000;
            }
            p.srv.certs = certs;
            p
        })
    };
    run.gen("well-formed", 5_000, 500_000, chain(10).prop_map(|plan| Case { plan, which: 0, muts: vec![], edits: vec![], raw: None }), check13);
    let few = || vec(prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(0x80u8), 1 => Just(2u8), 1 => Just(0x30u8)], 0..8).prop_map(Hx);
    let tag = || prop_oneof![3 => select(vec![2u8, 3, 4, 5, 6, 0x0c, 0x17, 0x18, 0x30, 0x31, 0x80, 0x81, 0x82, 0x83, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4]), 1 => any::<u8>()];
    let len = prop_oneof![
        2 => (1..5u8).prop_map(Len::Long),
        1 => (5..130u8).prop_map(Len::Long),
        1 => any::<bool>().prop_map(Len::Indef),
        3 => prop_oneof![-3..4i16, -300..300i16].prop_map(Len::Off),
        1 => any::<u8>().prop_map(Len::Raw),
    ];
    let i = || any::<u8>();
    let int = || prop_oneof![2 => select(ints()).prop_map(Hx), 2 => few(), 2 => vec(any::<u8>(), 30..36).prop_map(Hx)];
    let m = prop_oneof![
        4 => (i(), tag()).prop_map(|(a, b)| Mut::Tag(a, b)),
        4 => i().prop_map(Mut::Remove),
        3 => i().prop_map(Mut::Dup),
        3 => (i(), i()).prop_map(|(a, b)| Mut::Swap(a, b)),
        3 => (i(), tag(), few()).prop_map(|(a, b, c)| Mut::Insert(a, b, c)),
        3 => (i(), tag(), few()).prop_map(|(a, b, c)| Mut::Last(a, b, c)),
        3 => (i(), few()).prop_map(|(a, b)| Mut::Content(a, b)),
        3 => (i(), few()).prop_map(|(a, b)| Mut::Append(a, b)),
        2 => (i(), prop_oneof![0..4u8, i()]).prop_map(|(a, b)| Mut::Trunc(a, b)),
        1 => i().prop_map(Mut::Empty),
        5 => (i(), len).prop_map(|(a, b)| Mut::Len(a, b)),
        4 => int().prop_map(Mut::R),
        4 => int().prop_map(Mut::S),
        2 => prop_oneof![few(), select(vec![vec![0u8], vec![1], vec![2], vec![3], vec![0, 2], vec![2, 0], vec![0x82], vec![0, 0, 0, 2], vec![1, 2], vec![0xff, 2]]).prop_map(Hx)].prop_map(Mut::Version),
        2 => (any::<bool>(), prop_oneof![few(), select(vec![vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3], vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3], vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2, 0], vec![0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0b], vec![0x2b, 0x65, 0x70]]).prop_map(Hx)]).prop_map(|(a, b)| Mut::Oid(a, b)),
        1 => i().prop_map(Mut::Unused),
    ];
    let muts = prop_oneof![5 => vec(m.clone(), 1..=1), 2 => vec(m.clone(), 2..=2), 1 => vec(m, 3..6)];
    run.gen("structure", 30_000, 5_000_000, (chain(4), i(), muts).prop_map(|(plan, which, muts)| Case { plan, which, muts, edits: vec![], raw: None }), check13);
    run.gen("bytes", 12_000, 2_000_000, (chain(3), i(), edits()).prop_map(|(plan, which, edits)| Case { plan, which, muts: vec![], edits, raw: None }), check13);
    let raw = prop_oneof![2 => vec(any::<u8>(), 0..30), 1 => vec(select(vec![0x30u8, 0, 1, 2, 3, 0x80, 0x81, 0xff, 0xa0]), 0..40)].prop_map(Hx);
    run.gen("random", 2_000, 300_000, (chain(3), i(), raw).prop_map(|(plan, which, raw)| Case { plan, which, muts: vec![], edits: vec![], raw: Some(raw) }), check13);

    // Every node with every tag, every node removed, doubled, exchanged, with every simple length.
    let mut items = vec![];
    let nodes = cert(&CertSpec::default()).count() as u8;
    let step = if run.thorough { 1 } else { 3 };
    for n in 0..nodes {
        for t in (0..=255u8).filter(|t| t % step == n % step || [2, 3, 5, 6, 0x17, 0x18, 0x30, 0xa0, 0xa3].contains(t)) {
            items.push(single(vec![Mut::Tag(n, t)], n));
        }
        for m in [Mut::Remove(n), Mut::Dup(n), Mut::Empty(n), Mut::Len(n, Len::Indef(false)), Mut::Len(n, Len::Indef(true))] {
            items.push(single(vec![m], n));
        }
        for k in 0..9 {
            items.push(single(vec![Mut::Swap(n, k)], n));
            items.push(single(vec![Mut::Trunc(n, k)], n));
            items.push(single(vec![Mut::Len(n, Len::Long(k))], n));
            items.push(single(vec![Mut::Len(n, Len::Off(k as i16 - 4))], n));
            items.push(single(vec![Mut::Len(n, Len::Raw(0x80 + k))], n));
            items.push(single(vec![Mut::Append(n, Hx(vec![0; k as usize]))], n));
        }
        for t in [0u8, 2, 3, 5, 0x30, 0x81, 0x82, 0xa3] {
            items.push(single(vec![Mut::Insert(n, t, Hx(vec![1]))], n));
            items.push(single(vec![Mut::Last(n, t, Hx(vec![]))], n));
        }
    }
    // Other shapes of certificates: the same for the tags and the presence of fields.
    for (k, gen_time) in [[true, true], [true, false], [false, true]].into_iter().enumerate() {
        let base = CertSpec { gen_time, extensions: k != 1, uids: [k != 2, k != 1], params: k == 0, ..CertSpec::default() };
        let of = |m: Mut, x: u8| {
            let mut c = single(vec![m], x);
            c.plan.srv.certs = vec![base.clone()];
            c
        };
        for n in 0..cert(&base).count() as u8 {
            let near = |t: &u8| [0x16, 0x17, 0x18, 0x19, 0x1a, 2, 3, 5, 6, 0x30, 0x81, 0x82, 0xa0, 0xa3].contains(t);
            for t in (0..=255u8).filter(|t| near(t) || (k == 0 || run.thorough) && t % step == n % step) {
                items.push(of(Mut::Tag(n, t), n));
            }
            items.extend([Mut::Remove(n), Mut::Dup(n), Mut::Empty(n)].map(|m| of(m, n)));
            items.extend((0..9).map(|j| of(Mut::Swap(n, j), n)));
            for t in [0u8, 2, 3, 5, 0x17, 0x18, 0x30, 0x81, 0x82, 0xa3] {
                items.push(of(Mut::Insert(n, t, Hx(vec![1])), n));
                items.push(of(Mut::Last(n, t, Hx(vec![])), n));
            }
        }
    }
    for (k, x) in ints().into_iter().enumerate() {
        items.push(single(vec![Mut::R(Hx(x.clone()))], k as u8));
        items.push(single(vec![Mut::S(Hx(x))], k as u8));
    }
    for x in 0..=255u8 {
        items.push(single(vec![Mut::Version(Hx(vec![x]))], x));
        items.push(single(vec![Mut::Unused(x)], x));
        for at in 0..8usize {
            let mut o = ECDSA_SHA256.to_vec();
            o[at] = x;
            if x % 4 == at as u8 % 4 {
                items.push(single(vec![Mut::Oid(true, Hx(o))], x));
            }
        }
    }
    run.all("grid", items, check13);
    // the bad one anywhere in a chain
    let mut items = vec![];
    for len in 1..12usize {
        for at in 0..len {
            for m in [Mut::R(Hx(vec![0])), Mut::Version(Hx(vec![1])), Mut::Oid(true, Hx(vec![1, 2, 3])), Mut::Remove(1), Mut::Append(0, Hx(vec![0])), Mut::Tag(0, 0x31)] {
                let mut c = single(vec![m], len as u8);
                c.plan.srv.certs = vec![CertSpec::default(); len];
                c.which = at as u8;
                items.push(c);
            }
        }
    }
    run.all("chains", items, check13);
}
