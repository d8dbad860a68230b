//! C08, C09, C10, C23, C24: checks over pairs of reached states.
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;

use mc::core::*;
use mc::explore::*;
use mc::fam::*;
use mc::util::*;
use mc::view::*;
use mc::Prop;
use rust_graph::algorithm::{graph_minus, graph_union};
use rust_graph::generic::graph::equal;
use rust_graph::generic::{GeneralGraph, GraphLabelTrait, GraphTrait, IdType, MapTrait, MutGraphLabelTrait, MutMapTrait};
use rust_graph::map::{SetMap, VecMap};

pub struct St<C: Cfg> {
    g: Map<C>,
    m: Model,
    text: String,
}

fn text_of(m: &Model) -> String {
    let l = |l: &Lb| l.map_or("-".into(), |k| k.to_string());
    format!(
        "{} nodes {} edges {} dict {:?}/{:?} max {:?}",
        if m.directed { "di" } else { "un" },
        m.nodes.iter().map(|(i, x)| format!("{}:{}", i, l(x))).collect::<Vec<_>>().join(" "),
        m.edges.iter().map(|((s, t), x)| format!("{}-{}:{}", s, t, l(x))).collect::<Vec<_>>().join(" "),
        m.nmap,
        m.emap,
        m.max
    )
}

/// Reached states; with `one_per`, one state per text.
fn states<C: Cfg>(ps: &[Profile], one_per: bool) -> Vec<St<C>> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in ps {
        let mut kept = vec![];
        explore_states::<C>(p, &mut kept);
        bound(p.describe::<C>());
        run().transitions.fetch_add((kept.len() * p.ops().len()) as u64, Relaxed);
        for k in kept {
            let text = text_of(&k.m);
            if seen.insert(text.clone()) || !one_per {
                out.push(St { g: k.g, m: k.m, text });
            }
        }
    }
    run().states.fetch_add(out.len() as u64, Relaxed);
    run().validated.fetch_add(out.len() as u64, Relaxed);
    out
}

fn texts<C: Cfg>(v: &[St<C>]) -> Vec<String> {
    v.iter().map(|s| s.text.clone()).collect()
}

fn same(a: &Model, b: &Model) -> bool {
    a.content() == b.content()
}

fn small<C: Cfg>() -> Vec<Profile> {
    let mut v = vec![
        Profile::new("2 ids 1 label", &[0, 1], &a1(), &a1()).flags(F_CORE | F_INT),
        Profile::new("3 ids bare", &[0, 1, 2], &a0(), &a0()),
    ];
    for b in bases::<C>() {
        v.push(Profile::new(&b.name, &b.touch[..1], &a1(), &a1()).depth(1).inits(vec![Init::Script(b.ops)]));
    }
    v
}

fn labelled<C: Cfg>() -> Vec<Profile> {
    vec![Profile::new("2 ids 2 labels", &[0, 1], &a2(), &a2()).flags(if C::DIR { F_ADDN | F_ADDE | F_REMN } else { F_CORE })]
}

// ---------------------------------------------------------------- C08

fn eq_typed<C: Cfg>(what: &str, ps: &[Profile]) {
    let v = states::<C>(ps, false);
    let ids: Vec<String> = texts(&v);
    let key: Vec<usize> = classes(&v);
    pair_loop(&format!("{} {} typed equality", C::NAME, what), &ids, &ids, |i, j| {
        let (a, b) = (&v[i].g, &v[j].g);
        let want = key[i] == key[j];
        want!((a == b) == want, "typed graphs compare equal: {}, same nodes, edges and labels: {}", a == b, want);
        want!((a != b) != want, "typed graphs compare unequal: {}, same nodes, edges and labels: {}", a != b, want);
        Ok(())
    });
}

fn classes<C: Cfg>(v: &[St<C>]) -> Vec<usize> {
    let mut k: BTreeMap<_, usize> = BTreeMap::new();
    let mut out = vec![];
    for s in v {
        let n = k.len();
        out.push(*k.entry((s.m.nodes.clone(), s.m.edges.clone())).or_insert(n));
    }
    out
}

// Shared by reference between the threads, all of which only read.
unsafe impl<C: Cfg> Sync for Form<C> {}

struct Form<C: Cfg> {
    b: BoxG<C>,
    class: usize,
    directed: bool,
}

/// Boxed graphs of both kinds in all representations, and typed static graphs.
fn eq_boxed<D: Cfg, U: Cfg<Id = D::Id, N = D::N, E = D::E, L = D::L>>(what: &str, pd: &[Profile], pu: &[Profile]) {
    let (vd, vu) = (states::<D>(pd, true), states::<U>(pu, true));
    let mut forms: Vec<Form<D>> = vec![];
    let mut names = vec![];
    let mut stats_d: Vec<(Stat<D>, usize)> = vec![];
    let mut stats_u: Vec<(Stat<U>, usize)> = vec![];
    let (mut nd, mut nu) = (vec![], vec![]);
    let dir = scratch_root().join("eq");
    let _ = std::fs::create_dir_all(&dir);
    macro_rules! add {
        ($v:expr, $c:ident, $stats:ident, $nn:ident) => {{
            let cl = classes(&$v);
            for (k, s) in $v.iter().enumerate() {
                forms.push(Form { b: $c::boxg(s.g.clone()), class: cl[k], directed: $c::DIR });
                names.push(format!("mutable {}", s.text));
                if s.m.dense() {
                    let f = freeze::<$c>(&s.g);
                    let p = dir.join(format!("{}{}", $c::NAME, k));
                    let p = p.to_str().unwrap();
                    if f.dump_mmap(p).is_ok() {
                        forms.push(Form { b: Box::new(Mm::<D>::new(p)), class: cl[k], directed: $c::DIR });
                        names.push(format!("mmap {}", s.text));
                    }
                    forms.push(Form { b: $c::boxs(f.clone()), class: cl[k], directed: $c::DIR });
                    names.push(format!("static {}", s.text));
                    $stats.push((f, cl[k]));
                    $nn.push(s.text.clone());
                }
            }
        }};
    }
    add!(vd, D, stats_d, nd);
    add!(vu, U, stats_u, nu);
    let name = format!("{}/{} {}", D::NAME, U::NAME, what);
    pair_loop(&format!("{} boxed equality", name), &names, &names, |i, j| {
        let (a, b) = (&forms[i], &forms[j]);
        let want = a.directed == b.directed && a.class == b.class;
        want!(a.b.ne(&b.b) != want, "boxed graphs compare unequal: {}, expected {}", a.b.ne(&b.b), !want);
        want!(a.b.eq(&b.b) == want, "boxed graphs compare equal: {}, expected {}", a.b.eq(&b.b), want);
        let e = equal(a.b.as_ref(), b.b.as_ref());
        want!(e == want, "equal() of general graphs is {}, expected {}", e, want);
        Ok(())
    });
    pair_loop(&format!("{} static equality", name), &nd, &nd, |i, j| {
        let (a, b) = (&stats_d[i], &stats_d[j]);
        want!((a.0 == b.0) == (a.1 == b.1), "static graphs compare equal: {}, expected {}", a.0 == b.0, a.1 == b.1);
        Ok(())
    });
    pair_loop(&format!("{} static equality (undirected)", name), &nu, &nu, |i, j| {
        let (a, b) = (&stats_u[i], &stats_u[j]);
        want!((a.0 == b.0) == (a.1 == b.1), "static graphs compare equal: {}, expected {}", a.0 == b.0, a.1 == b.1);
        Ok(())
    });
    drop(forms);
    let _ = std::fs::remove_dir_all(&dir);
}

/// equal() between graphs whose label ids have different widths.
fn eq_widths<A: Cfg, B: Cfg<Id = A::Id, N = A::N, E = A::E>>(what: &str, ps: &[Profile]) {
    let (va, vb) = (states::<A>(ps, true), states::<B>(ps, true));
    pair_loop(&format!("{}/{} {} equality across label id widths", A::NAME, B::NAME, what), &texts(&va), &texts(&vb), |i, j| {
        let want = same(&va[i].m, &vb[j].m);
        let e = equal(A::gg(&va[i].g), B::gg(&vb[j].g));
        let f = equal(B::gg(&vb[j].g), A::gg(&va[i].g));
        want!(e == want && f == want, "equal() is {} / {} swapped, expected {}", e, f, want);
        Ok(())
    });
}

fn c08() {
    eq_typed::<U32Un>("small", &small::<U32Un>());
    eq_typed::<U32Di>("small", &small::<U32Di>());
    eq_typed::<U32Un>("labelled", &labelled::<U32Un>());
    if thorough() {
        eq_typed::<U32Di>("labelled", &labelled::<U32Di>());
        eq_typed::<StrUn>("labelled", &labelled::<StrUn>());
    }
    eq_typed::<U8Di>("byte", &[Profile::new("byte", &[0, 255], &a1(), &a1())]);
    eq_typed::<StrUn>("small", &small::<StrUn>());
    eq_typed::<StrDi>("small", &small::<StrDi>());
    eq_typed::<MixUn>("small", &small::<MixUn>());
    eq_typed::<MixDi>("small", &small::<MixDi>());
    eq_boxed::<U32Di, U32Un>("small", &small::<U32Di>(), &small::<U32Un>());
    eq_boxed::<StrDi, StrUn>("small", &small::<StrDi>()[..1], &small::<StrUn>()[..1]);
    if thorough() {
        eq_boxed::<U32Di, U32Un>("labelled", &[Profile::new("2 ids", &[0, 1], &a1(), &a2()).no_loops()], &labelled::<U32Un>());
    }
    eq_widths::<U32Un, L8Un>("small", &small::<U32Un>()[..2]);
    eq_widths::<U32Di, L8Di>("small", &small::<U32Di>()[..2]);
}

// ---------------------------------------------------------------- C09

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}

/// (typed, static, boxed) hash of the first graph with some content.
#[derive(Clone)]
struct First {
    who: String,
    typed: u64,
    stat: Option<u64>,
    boxed: u64,
}

/// `modes`: iteration orders of the node map; the hashes must agree across them too.
fn hashes<D: Cfg>(what: &str, ps: &[Profile], modes: &[usize], reps: bool) {
    let table: std::sync::Mutex<BTreeMap<(BTreeMap<usize, Lb>, BTreeMap<(usize, usize), Lb>), First>> = Default::default();
    let mut total = 0;
    for &md in modes {
        let ps: Vec<Profile> = ps.iter().map(|p| p.clone().modes(vec![(md, 0)])).collect();
        let v = states::<D>(&ps, false);
        total += v.len();
        let one = |i: usize| {
            let s = &v[i];
            let k = (s.m.nodes.clone(), s.m.edges.clone());
            let f = table.lock().unwrap().get(&k).cloned();
            let now = guard(|| -> Result<First, String> {
                let fr = if s.m.dense() && reps { Some(freeze::<D>(&s.g)) } else { None };
                Ok(First { who: s.text.clone(), typed: h(&s.g), stat: fr.map(|f| h(&f)), boxed: h(&D::boxg(s.g.clone())) })
            });
            case(
                || format!("{} {} order {} hash of [{}] against [{}]", D::NAME, what, md, s.text, f.as_ref().map_or("itself", |f| &f.who)),
                || {
                    let n = now.clone().map_err(|p| panic_text(&p))??;
                    let bx = D::boxg(s.g.clone());
                    want!(h(&s.g.clone()) == n.typed, "a clone hashes differently");
                    want!(h(&bx.clone()) == n.boxed, "a boxed clone hashes differently");
                    if n.stat.is_some() {
                        let fr = freeze::<D>(&s.g);
                        want!(h(&fr.clone()) == h(&fr), "a static clone hashes differently");
                        let mm: BoxG<D> = Box::new(open_mmap::<D>(&fr, "hash")?);
                        let bs = D::boxs(fr);
                        want!(h(&bs) == n.boxed, "boxed static graph and equal boxed mutable graph hash differently");
                        want!(h(&mm) == n.boxed, "boxed mmap graph and equal boxed mutable graph hash differently");
                    }
                    if let Some(f) = &f {
                        want!(f.typed == n.typed, "equal mutable graphs hash differently");
                        want!(f.boxed == n.boxed, "equal boxed graphs hash differently");
                        if let (Some(a), Some(b)) = (f.stat, n.stat) {
                            want!(a == b, "equal static graphs hash differently");
                        }
                    }
                    Ok(())
                },
            );
            if let Ok(Ok(n)) = now {
                table.lock().unwrap().entry(k).or_insert(n);
            }
        };
        // the first member of each class, in order; then the others in parallel
        let mut seen = std::collections::HashSet::new();
        let cl = classes(&v);
        let (mut firsts, mut rest) = (vec![], vec![]);
        for i in 0..v.len() {
            if seen.insert(cl[i]) {
                firsts.push(i);
            } else {
                rest.push(i);
            }
        }
        par_for(firsts.len(), 8, |k| one(firsts[k]));
        par_for(rest.len(), 8, |k| one(rest[k]));
        drop(v);
        set_mode((0, 0));
    }
    part(&format!("{} {}", D::NAME, what), format!("{} states, {} contents, {} iteration orders", total, table.lock().unwrap().len(), modes.len()));
}

/// Maps reached by different operation sequences.
fn map_hashes() {
    const K: u32 = 3;
    let depth = if thorough() { 8 } else { 6 };
    let mut sets: Vec<(SetMap<u32>, Vec<u32>, String)> = vec![(SetMap::new(), vec![], "new".into()), (SetMap::with_capacity(9), vec![], "cap".into())];
    let mut vecs: Vec<(VecMap<u32>, Vec<u32>, String)> = vec![(VecMap::new(), vec![], "new".into()), (VecMap::with_capacity(9), vec![], "cap".into())];
    let mut lo = 0;
    let mut counts: BTreeMap<Vec<u32>, usize> = BTreeMap::new();
    for _ in 0..depth {
        let hi = sets.len();
        for i in lo..hi {
            for op in 0..K + 2 {
                let (mut s, mut l, t) = sets[i].clone();
                let (mut v, _, _) = vecs[i].clone();
                if op < K {
                    s.add_item(op);
                    v.add_item(op);
                    if !l.contains(&op) {
                        l.push(op);
                    }
                } else if op == K {
                    s.pop_item();
                    v.pop_item();
                    l.pop();
                } else {
                    s.clear();
                    v.clear();
                    l.clear();
                }
                let n = counts.entry(l.clone()).or_default();
                *n += 1;
                if *n <= 60 {
                    let t = format!("{};{}", t, op);
                    sets.push((s, l.clone(), t.clone()));
                    vecs.push((v, l, t));
                }
            }
        }
        lo = hi;
    }
    let mut by: BTreeMap<Vec<u32>, Vec<usize>> = BTreeMap::new();
    for (i, s) in sets.iter().enumerate() {
        by.entry(s.1.clone()).or_default().push(i);
    }
    for (l, is) in &by {
        case(
            || format!("maps listing {:?}", l),
            || {
                let (a, b) = (h(&sets[is[0]].0), h(&vecs[is[0]].0));
                for &i in is {
                    want!(sets[i].0 == sets[is[0]].0, "set maps [{}] and [{}] list {:?} but compare unequal", sets[i].2, sets[is[0]].2, l);
                    want!(h(&sets[i].0) == a, "equal set maps [{}] and [{}] hash differently", sets[i].2, sets[is[0]].2);
                    want!(h(&vecs[i].0) == b, "equal vec maps [{}] and [{}] hash differently", vecs[i].2, vecs[is[0]].2);
                }
                for built in [SetMap::from_vec(l.clone()), l.iter().copied().collect(), SetMap::from(&VecMap::from_iter2(l))] {
                    want!(built == sets[is[0]].0 && h(&built) == a, "a set map built from {:?} hashes differently", l);
                }
                Ok(())
            },
        );
    }
    let n = sets.len();
    run().states.fetch_add(n as u64, Relaxed);
    part("item maps", format!("{} maps from operation sequences of length up to {}, {} lists", n, depth, by.len()));
    // equality (hence the hash) is decided for all pairs of distinct lists
    let reps: Vec<usize> = by.values().map(|v| v[0]).collect();
    let names: Vec<String> = reps.iter().map(|&i| format!("{:?}", sets[i].1)).collect();
    pair_loop("set map equality and hash", &names, &names, |i, j| {
        let (a, b) = (&sets[reps[i]].0, &sets[reps[j]].0);
        want!(!(a == b) || h(a) == h(b), "equal set maps hash differently");
        let (a, b) = (&vecs[reps[i]].0, &vecs[reps[j]].0);
        want!(!(a == b) || h(a) == h(b), "equal vec maps hash differently");
        Ok(())
    });
}

trait FromIter2 {
    fn from_iter2(l: &[u32]) -> VecMap<u32>;
}
impl FromIter2 for VecMap<u32> {
    fn from_iter2(l: &[u32]) -> VecMap<u32> {
        l.iter().copied().collect()
    }
}

fn c09() {
    map_hashes();
    hashes::<U32Un>("small", &small::<U32Un>(), &[0], true);
    hashes::<U32Di>("small", &small::<U32Di>(), &[0], true);
    hashes::<U32Un>("labelled", &labelled::<U32Un>(), &[0], true);
    hashes::<U32Di>("labelled", &labelled::<U32Di>(), &[0], thorough());
    // the node map's iteration order must not matter
    let orders: Vec<usize> = if thorough() { (0..=24).collect() } else { vec![0, 1, 8, 17, 24] };
    let lab = Profile::new("orders", &[0, 1, 2], &s1(), &a0()).flags(F_BUILD);
    let bare = Profile::new("orders bare", &[0, 1, 2, 3], &a0(), &a0()).flags(F_BUILD);
    hashes::<U32Un>("orders", &[lab.clone(), bare], &orders, false);
    hashes::<U32Di>("orders", &[lab], &orders, false);
    hashes::<StrUn>("small", &small::<StrUn>(), &[0], true);
    hashes::<StrDi>("small", &small::<StrDi>(), &[0], true);
    hashes::<U8Di>("byte", &[Profile::new("byte", &[0, 255], &a1(), &a1())], &[0], true);
    hashes::<MixUn>("small", &small::<MixUn>()[..1], &[0], true);
    hashes::<MixDi>("small", &small::<MixDi>()[..1], &[0], true);
}

// ---------------------------------------------------------------- C10

pub struct Clones;

impl Clones {
    /// Every kind of change to a graph that holds node `u` (if any) next to a new node `w`.
    fn changes<C: Cfg>(m: &Model) -> Vec<Op> {
        let top = C::Id::max_value().id().min(u32::MAX as usize);
        let w = (0..=top).find(|i| !m.nodes.contains_key(i)).unwrap_or(0) as u32;
        let mut v = vec![Op::AddNode(w, Some(2)), Op::AddEdge(w, w, Some(2)), Op::InternN(Some(3)), Op::InternE(Some(3))];
        if let Some(&u) = m.nodes.keys().next() {
            let u = u as u32;
            v.extend([Op::AddEdge(u, w, Some(0)), Op::AddEdge(w, u, None), Op::UpdNode(u, Some(2)), Op::UpdNode(u, None), Op::RemNode(u)]);
        }
        if let Some(&(s, t)) = m.edges.keys().next_back() {
            let (s, t) = (s as u32, t as u32);
            v.extend([Op::RemEdge(s, t), Op::UpdEdge(s, t, Some(2)), Op::AddEdge(t, s, None), Op::RemNode(t)]);
        }
        for o in &mut v {
            match o {
                Op::AddNode(_, l) | Op::UpdNode(_, l) | Op::AddEdge(_, _, l) | Op::UpdEdge(_, _, l) | Op::InternN(l) | Op::InternE(l) => *l = clamp::<C>(*l),
                _ => {}
            }
        }
        v
    }
}

impl StateCheck for Clones {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        let asp = LOOK | COUNT | ENUM | DICT | MAXID | LABELIDS;
        let c = g.clone();
        view::<C>(C::gg(&c), m, asp, "mutable (clone)", &ids)?;
        want!(c == *g && *g == c, "a clone differs from its original");
        let key0 = key::<C>(g, m);
        for op in Self::changes::<C>(m) {
            // change the clone, then the original
            let (mut a, mut b) = (g.clone(), g.clone());
            let b2 = b.clone();
            let mut ma = m.clone();
            apply::<C>(&mut a, &mut ma, op)?;
            want!(key::<C>(g, m) == key0, "changing a clone by {} shows in the original", op.text());
            apply::<C>(&mut b, &mut m.clone(), op)?;
            want!(key::<C>(&b2, m) == key0, "changing the original by {} shows in the clone", op.text());
            view::<C>(C::gg(&b2), m, asp & !ENUM, &format!("mutable (clone, after the original saw {})", op.text()), &ids)?;
        }
        // boxed
        let mut m2 = m.clone();
        m2.max = m.nodes.keys().max().copied();
        let basp = LOOK | COUNT | ENUM;
        let original = C::boxg(g.clone());
        let boxed = original.clone();
        want!(boxed.eq(&original) && original.eq(&boxed), "a boxed clone differs from its original");
        view::<C>(boxed.as_ref(), &m2, basp, "mutable (boxed clone)", &ids)?;
        for op in Self::changes::<C>(m).into_iter().take(if m.nodes.len() > 9 { 4 } else { 20 }) {
            let mut a = original.clone();
            let mut b = C::boxg(g.clone());
            let b2 = b.clone();
            boxed_apply::<C>(&mut a, op);
            boxed_apply::<C>(&mut b, op);
            view::<C>(original.as_ref(), m, LOOK | COUNT, &format!("mutable (boxed, its clone saw {})", op.text()), &ids)?;
            view::<C>(b2.as_ref(), &m2, LOOK | COUNT, &format!("mutable (boxed clone, original saw {})", op.text()), &ids)?;
            let _ = (a, b);
        }
        if m.dense() {
            let s = freeze::<C>(g);
            let mut t = s.clone();
            want!(s == t, "a static clone differs from its original");
            view::<C>(C::sg(&t), m, ALL, "static (clone)", &ids)?;
            t.remove_labels();
            view::<C>(C::sg(&s), m, ALL, "static (its clone was stripped)", &ids)?;
            let bs = C::boxs(s.clone());
            let c = bs.clone();
            want!(c.eq(&bs), "a clone of a boxed static graph differs from its original");
            view::<C>(c.as_ref(), &m2, basp, "boxed clone of a static graph, mutable", &ids)?;
            let bx: BoxG<C> = Box::new(open_mmap::<C>(&s, "clone")?);
            let c = bx.clone();
            want!(c.eq(&bx), "a clone of a boxed mmap graph differs from its original");
            view::<C>(c.as_ref(), &m2, basp, "boxed clone of an mmap graph, mutable", &ids)?;
        }
        Ok(())
    }
}

fn boxed_apply<C: Cfg>(g: &mut BoxG<C>, op: Op) {
    let id = |i: u32| C::Id::new(i as usize);
    if let Some(g) = g.as_mut_graph() {
        match op {
            Op::AddNode(i, l) | Op::UpdNode(i, l) => {
                g.add_node(id(i), l.map(C::N::mk));
            }
            Op::AddEdge(s, t, l) | Op::UpdEdge(s, t, l) => {
                g.add_edge(id(s), id(t), l.map(C::E::mk));
            }
            Op::RemNode(i) => {
                g.remove_node(id(i));
            }
            Op::RemEdge(s, t) => {
                g.remove_edge(id(s), id(t));
            }
            _ => {}
        }
    }
}

fn c10() {
    Sweep { cost: Cost::Medium, scale: false, extra: F_INT, ..Default::default() }.run(&Clones);
    let _ = |g: &mut Map<U32Di>| g.update_node_label(0, None);
}

// ---------------------------------------------------------------- C23, C24

fn combine(a: &Model, b: &Model, minus: bool) -> Model {
    let mut r = Model::new(a.directed);
    if minus {
        for (&i, &l) in &a.nodes {
            if !b.nodes.contains_key(&i) {
                r.nodes.insert(i, l);
            }
        }
        for (&e, &l) in &a.edges {
            if r.nodes.contains_key(&e.0) && r.nodes.contains_key(&e.1) && !b.edges.contains_key(&e) {
                r.edges.insert(e, l);
            }
        }
    } else {
        r.nodes = a.nodes.clone();
        r.nodes.extend(b.nodes.iter().map(|(&k, &v)| (k, v)));
        r.edges = a.edges.clone();
        r.edges.extend(b.edges.iter().map(|(&k, &v)| (k, v)));
    }
    r
}

type Short<'a, C> = dyn GeneralGraph<<C as Cfg>::Id, <C as Cfg>::N, <C as Cfg>::E, <C as Cfg>::L> + 'a;

/// The operators on references; the result owns its data, so its lifetime may be forgotten.
fn by_ref<'a, C: Cfg>(a: &'a Short<'a, C>, b: &'a Short<'a, C>, minus: bool) -> BoxG<C> {
    let r: Box<Short<'a, C>> = if minus { a - b } else { a + b };
    unsafe { std::mem::transmute(r) }
}

fn algebra<C: Cfg>(what: &str, pa: &[Profile], pb: &[Profile], minus: bool, one: bool) {
    let (va, vb) = (states::<C>(pa, one), states::<C>(pb, one));
    let sign = if minus { "-" } else { "+" };
    pair_loop(&format!("{} {} a{}b", C::NAME, what, sign), &texts(&va), &texts(&vb), |i, j| {
        let (a, b) = (&va[i], &vb[j]);
        let m = combine(&a.m, &b.m, minus);
        let ids: Vec<usize> = a.m.nodes.keys().chain(b.m.nodes.keys()).copied().chain([0, 3]).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let check = |g: &Gen<C>, how: &str| view::<C>(g, &m, LOOK | COUNT, how, &ids);
        let (ga, gb) = (C::gg(&a.g), C::gg(&b.g));
        let r = if minus { graph_minus(ga, gb) } else { graph_union(ga, gb) };
        check(r.as_ref(), if minus { "graph_minus result" } else { "graph_union result" })?;
        if i % 3 == 0 || thorough() {
            view::<C>(r.as_ref(), &m, ENUM, "result", &ids)?;
        }
        let r = by_ref::<C>(ga, gb, minus);
        check(r.as_ref(), "operator on references, result")?;
        let (xa, xb) = (C::boxg(a.g.clone()), C::boxg(b.g.clone()));
        let r = if minus { xa - xb } else { xa + xb };
        check(r.as_ref(), "operator on boxed general graphs, result")?;
        let r = if minus { C::sub_typed(a.g.clone(), b.g.clone()) } else { C::add_typed(a.g.clone(), b.g.clone()) };
        check(C::gg(&r), "operator on typed graphs, result")?;
        let r = if minus { C::sub_boxed(a.g.clone(), b.g.clone()) } else { C::add_boxed(a.g.clone(), b.g.clone()) };
        check(C::gg(&r), "operator on boxed typed graphs, result")?;
        Ok(())
    });
    // by reference: nothing of the operands changed
    let all = |v: &[St<C>]| {
        par_for(v.len(), 8, |i| {
            let s = &v[i];
            case(
                || format!("{} {} operand [{}]", C::NAME, what, s.text),
                || view::<C>(C::gg(&s.g), &s.m, LOOK | COUNT | DICT | MAXID, "mutable (operand afterwards)", &probe_ids::<C>(&s.m, &[])),
            );
        })
    };
    all(&va);
    all(&vb);
}

/// Operands in every representation.
fn algebra_reps<C: Cfg>(minus: bool) {
    let ps = [
        Profile::new("2 ids 1 label", &[0, 1], &a1(), &s1()),
        Profile::new("3 ids", &[0, 1, 2], &a0(), &a0()).no_loops(),
    ];
    let vs: Vec<St<C>> = states::<C>(&ps, true).into_iter().step_by(if thorough() { 1 } else { 3 }).collect();
    let mut reps: Vec<(Rep<C>, Model)> = vec![];
    let mut names = vec![];
    let dir = scratch_root().join("alg");
    let _ = std::fs::create_dir_all(&dir);
    for (k, s) in vs.iter().enumerate() {
        names.push(format!("mutable {}", s.text));
        reps.push((Rep::M(s.g.clone()), s.m.clone()));
        if s.m.dense() {
            let f = freeze::<C>(&s.g);
            let p = dir.join(format!("{}", k));
            let p = p.to_str().unwrap();
            if f.dump_mmap(p).is_ok() {
                names.push(format!("mmap {}", s.text));
                reps.push((Rep::X(Mm::<C>::new(p)), s.m.clone()));
            }
            names.push(format!("static {}", s.text));
            reps.push((Rep::S(f), s.m.clone()));
        }
    }
    pair_loop(&format!("{} representations {}", C::NAME, if minus { "a-b" } else { "a+b" }), &names, &names, |i, j| {
        let (a, b) = (&reps[i], &reps[j]);
        let m = combine(&a.1, &b.1, minus);
        let (ga, gb) = (a.0.gg(), b.0.gg());
        let r = if minus { graph_minus(ga, gb) } else { graph_union(ga, gb) };
        view::<C>(r.as_ref(), &m, LOOK | COUNT, "result", &[0, 1, 2, 3])?;
        let r = by_ref::<C>(ga, gb, minus);
        view::<C>(r.as_ref(), &m, LOOK | COUNT, "operator result", &[0, 1, 2, 3])
    });
    drop(reps);
    let _ = std::fs::remove_dir_all(&dir);
}

fn set_algebra(minus: bool) {
    let shapes = |v: Vec<Profile>| -> Vec<Profile> { v.into_iter().skip(2).collect() };
    for k in 0..2 {
        // two-id alphabets with labels on everything; three ids with edge labels or bare
        macro_rules! go {
            ($c:ident, $th:expr) => {{
                let two = Profile::new("2 ids", &[0, 1], &a1(), &a1());
                let three = Profile::new("3 ids", &[0, 1, 2], &a0(), &a0());
                if k == 0 {
                    algebra::<$c>("2 ids", &[two.clone()], &[two.clone()], minus, false);
                    algebra::<$c>("3 ids", &[three.clone()], &[three], minus, false);
                } else {
                    let s = shapes(small::<$c>());
                    algebra::<$c>("shapes", &s, &s, minus, true);
                    if $th {
                        let l = Profile::new("2 ids 2 labels", &[0, 1], &a2(), &a2()).no_loops();
                        algebra::<$c>("2 labels", &[l.clone()], &[l], minus, true);
                    }
                }
            }};
        }
        go!(U32Un, true);
        go!(U32Di, thorough());
        if thorough() || k == 0 {
            go!(StrUn, false);
            go!(MixDi, false);
        }
        if thorough() {
            go!(StrDi, false);
            go!(MixUn, false);
        }
        let byte = Profile::new("byte", &[0, 255], &a1(), &s1());
        if k == 0 {
            algebra::<U8Un>("byte", &[byte.clone()], &[byte.clone()], minus, true);
            algebra::<U8Di>("byte", &[byte.clone()], &[byte], minus, true);
        }
    }
    // different dictionaries on the two sides
    let p = |i: Vec<Letter>, n: &str| Profile::new(n, &[0, 1], &a2(), &a2()).flags(F_ADDE | F_ADDN).no_loops().depth(2).inits(vec![Init::Labels(i.clone(), i)]);
    algebra::<U32Un>("dictionaries", &[p(vec![0, 1], "01")], &[p(vec![1, 0], "10"), p(vec![2, 1, 0], "210")], minus, true);
    algebra::<U32Di>("dictionaries", &[p(vec![0, 1], "01")], &[p(vec![1, 0], "10"), p(vec![2, 1, 0], "210")], minus, true);
    algebra_reps::<U32Un>(minus);
    algebra_reps::<U32Di>(minus);
}

fn c23() {
    set_algebra(false);
}
fn c24() {
    set_algebra(true);
}

fn main() {
    const R: &str = "the states reachable from the empty graph over the listed alphabets (plus shapes and their neighbours) are collected by exhaustive exploration, then all ordered pairs are decided against the models";
    let p = |id, rule, run| Prop { id, level: "model_checking", rule, assumptions: &[], run };
    mc::main(move || {
        vec![
            p("C08", R, c08 as fn()),
            p("C09", "all states reachable over the listed alphabets are grouped by content; all members of a group must hash alike in each form; item maps by all operation sequences up to the stated length", c09),
            p("C10", "in every reachable state each kind of clone is compared with the model, then each kind of change is applied to either side and the other side compared again", c10),
            p("C23", R, c23),
            p("C24", R, c24),
        ]
    })
}

#[allow(unused)]
fn _uses(g: &Map<U32Di>) {
    let _ = (g.get_node_label_map().len(), g.has_node(0), g.as_graph().node_count());
}
