//! C26 (generators), C27 (LDBC), C29 (id widths), C33 (item maps).
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::sync::atomic::Ordering::Relaxed;

use mc::core::*;
use mc::explore::*;
use mc::fam::*;
use mc::util::*;
use mc::view::*;
use mc::Prop;
use rust_graph::generic::{GraphTrait, IdType, MapTrait, MutMapTrait};
use rust_graph::graph_gen::{
    complete_graph, complete_graph_unlabeled, empty_graph, empty_graph_unlabeled, random_gnm_graph, random_gnm_graph_unlabeled,
    random_gnp_graph, random_gnp_graph_unlabeled,
};
use rust_graph::io::ldbc::{read_ldbc_from_path, Scheme};
use rust_graph::io::serde::{Deserialize, Serialize};
use rust_graph::map::{SetMap, VecMap};

#[path = "algo.rs"]
mod algo;
#[path = "conv.rs"]
mod conv;
#[path = "io.rs"]
mod io;
#[path = "pair.rs"]
mod pair;

fn nontrivial() {
    run().nontrivial.fetch_add(1, Relaxed);
}

// ---------------------------------------------------------------- C26

/// Run `f` under every sequence of random outcomes; false if there are more than `cap` of them.
fn outcomes<T>(cap: usize, f: &dyn Fn() -> T, judge: &mut dyn FnMut(Result<T, String>, &[usize]) -> Res) -> Result<bool, String> {
    let mut script: Vec<usize> = vec![];
    let mut count = 0;
    let start = std::time::Instant::now();
    loop {
        rand::mc::install(script.clone(), 100_000);
        let r = guard(f);
        let ctl = rand::mc::remove().expect("controller");
        if ctl.diverged {
            fail_machinery("the code under test draws random numbers that depend on something else");
        }
        run().transitions.fetch_add(1, Relaxed);
        run().validated.fetch_add(1, Relaxed);
        judge(r, &ctl.taken).map_err(|e| format!("random outcomes {:?}: {}", ctl.taken, e))?;
        count += 1;
        let (mut taken, arity) = (ctl.taken, ctl.arity);
        loop {
            match taken.pop() {
                None => return Ok(true),
                Some(k) if k + 1 < arity[taken.len()] => {
                    taken.push(k + 1);
                    break;
                }
                Some(_) => {}
            }
        }
        if count >= cap || (count % 256 == 0 && (stopped() || start.elapsed().as_secs() >= 25)) {
            return Ok(false);
        }
        script = taken;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Gen4 {
    Empty,
    Complete,
    Gnp(f32),
    Gnm(usize),
}

/// The model of a graph with dense ids, taken from the graph itself (labels must be known letters).
fn model_of<C: Cfg>(g: &Map<C>, n: usize, nmap: &[Letter], emap: &[Letter]) -> Result<Model, String> {
    let gg = C::gg(g);
    let mut m = Model::new(C::DIR);
    m.nmap = nmap.to_vec();
    m.emap = emap.to_vec();
    let ids: BTreeSet<usize> = gg.node_indices().map(|x| x.id()).collect();
    want!(ids == (0..n).collect::<BTreeSet<_>>(), "the nodes are {:?}, expected 0..{}", ids, n);
    for v in 0..n {
        let l = match gg.get_node_label(C::Id::new(v)) {
            None => None,
            Some(x) => match nmap.iter().find(|&&k| &C::N::mk(k) == x) {
                Some(&k) => Some(k),
                None => return Err(format!("node {} has label {:?}, which was not given", v, x)),
            },
        };
        m.nodes.insert(v, l);
    }
    for (s, t) in gg.edge_indices() {
        let l = match gg.get_edge_label(s, t) {
            None => None,
            Some(x) => match emap.iter().find(|&&k| &C::E::mk(k) == x) {
                Some(&k) => Some(k),
                None => return Err(format!("edge {:?} has label {:?}, which was not given", (s, t), x)),
            },
        };
        let k = m.key(s.id(), t.id());
        want!(m.edges.insert(k, l).is_none(), "edge {:?} is listed twice", k);
    }
    m.max = if n == 0 { None } else { Some(n - 1) };
    Ok(m)
}

fn dedup(v: &[Letter]) -> Vec<Letter> {
    let mut r = vec![];
    for &x in v {
        if !r.contains(&x) {
            r.push(x);
        }
    }
    r
}

fn pairs(n: usize, dir: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for s in 0..n {
        for t in 0..n {
            if s < t || (dir && s != t) {
                v.push((s, t));
            }
        }
    }
    v
}

fn generate<C: Cfg>(kind: Gen4, n: usize, nl: &[Letter], el: &[Letter], bare: bool) -> rust_graph::graph_impl::TypedGraphMap<C::Id, C::N, C::E, C::Ty> {
    let (a, b): (Vec<C::N>, Vec<C::E>) = (nl.iter().map(|&k| C::N::mk(k)).collect(), el.iter().map(|&k| C::E::mk(k)).collect());
    if bare {
        match kind {
            Gen4::Empty => empty_graph_unlabeled(n),
            Gen4::Complete => complete_graph_unlabeled(n),
            Gen4::Gnp(p) => random_gnp_graph_unlabeled(n, p),
            Gen4::Gnm(m) => random_gnm_graph_unlabeled(n, m),
        }
    } else {
        match kind {
            Gen4::Empty => empty_graph(n, a, b),
            Gen4::Complete => complete_graph(n, a, b),
            Gen4::Gnp(p) => random_gnp_graph(n, p, a, b),
            Gen4::Gnm(m) => random_gnm_graph(n, m, a, b),
        }
    }
}

/// All random outcomes of one call.
fn gen_case<C>(kind: Gen4, n: usize, nl: &[Letter], el: &[Letter], bare: bool, cap: usize) -> Res
where
    C: Cfg,
    rust_graph::graph_impl::TypedGraphMap<C::Id, C::N, C::E, C::Ty>: Into<Map<C>>,
{
    let all = pairs(n, C::DIR);
    let top = all.len();
    let (dn, de) = (dedup(nl), dedup(el));
    let mut edge_sets: HashSet<Vec<(usize, usize)>> = HashSet::new();
    let mut node_labels: BTreeSet<(usize, Lb)> = BTreeSet::new();
    let mut edge_labels: BTreeSet<((usize, usize), Lb)> = BTreeSet::new();
    let ids: Vec<usize> = (0..n + 2).collect();
    let refuse = match kind {
        Gen4::Gnp(p) => !(p >= 0.0 && p <= 1.0),
        Gen4::Gnm(m) => m > top,
        _ => false,
    };
    let mut first = true;
    let complete = outcomes(
        cap,
        &|| generate::<C>(kind, n, nl, el, bare),
        &mut |r, _| {
            let g: Map<C> = match r {
                Ok(g) => {
                    want!(!refuse, "a graph is returned, expected a refusal");
                    g.into()
                }
                Err(p) => {
                    want!(refuse, "{}", panic_text(&p));
                    return Ok(());
                }
            };
            let m = model_of::<C>(&g, n, &dn, &de)?;
            want!(m.edges.keys().all(|e| e.0 != e.1), "there is a self-loop: {:?}", m.edges);
            match kind {
                Gen4::Empty => want!(m.edges.is_empty(), "there are edges: {:?}", m.edges),
                Gen4::Complete => want!(m.edges.len() == top, "{} edges, expected all {}", m.edges.len(), top),
                Gen4::Gnp(p) => {
                    want!(p > 0.0 || m.edges.is_empty(), "p is 0 but there are edges {:?}", m.edges);
                    want!(p < 1.0 || m.edges.len() == top, "p is 1 but there are only {} of {} edges", m.edges.len(), top);
                }
                Gen4::Gnm(k) => want!(m.edges.len() == k, "{} edges, expected {}", m.edges.len(), k),
            }
            want!(dn.is_empty() || m.nodes.values().all(|l| l.is_some()), "a node has no label: {:?}", m.nodes);
            want!(de.is_empty() || m.edges.values().all(|l| l.is_some()), "an edge has no label: {:?}", m.edges);
            // every query agrees with the listed content
            let asp = if first || n <= 4 { ALL } else { COUNT | ENUM };
            first = false;
            view::<C>(C::gg(&g), &m, asp, "mutable", &ids)?;
            if edge_sets.insert(m.edges.keys().copied().collect()) {
                run().states.fetch_add(1, Relaxed);
            }
            node_labels.extend(m.nodes.iter().map(|(&v, &l)| (v, l)));
            edge_labels.extend(m.edges.iter().map(|(&v, &l)| (v, l)));
            Ok(())
        },
    )?;
    if !complete {
        part("outcomes not exhausted", format!("{} {:?} n={} labels {:?} {:?}", C::NAME, kind, n, nl, el));
        return Ok(());
    }
    nontrivial();
    if refuse {
        return Ok(());
    }
    let want_sets: u64 = match kind {
        Gen4::Gnp(p) if p > 0.0 && p < 1.0 => 1 << top,
        Gen4::Gnm(m) => (0..m).fold(1u64, |a, i| a * (top - i) as u64 / (i + 1) as u64),
        _ => 1,
    };
    want!(edge_sets.len() as u64 == want_sets, "only {} different edge sets are possible, expected {}", edge_sets.len(), want_sets);
    for v in 0..n {
        for &l in &dn {
            want!(node_labels.contains(&(v, Some(l))), "node {} never gets label {:?} of {:?}", v, C::N::mk(l), nl);
        }
    }
    let some_edges = match kind {
        Gen4::Empty => false,
        Gen4::Complete => true,
        Gen4::Gnp(p) => p > 0.0,
        Gen4::Gnm(m) => m > 0,
    };
    if some_edges {
        for e in &all {
            for &l in &de {
                want!(edge_labels.contains(&(*e, Some(l))), "edge {:?} never gets label {:?} of {:?}", e, C::E::mk(l), el);
            }
        }
    }
    Ok(())
}

fn c26_cfg<C>(max_n: usize, full: bool)
where
    C: Cfg,
    rust_graph::graph_impl::TypedGraphMap<C::Id, C::N, C::E, C::Ty>: Into<Map<C>>,
{
    let th = thorough();
    let lists: Vec<Vec<Letter>> = vec![vec![], vec![0], vec![1, 0], vec![0, 1, 0], vec![2, 0, 1]];
    let mut list: Vec<(Gen4, usize, Vec<Letter>, Vec<Letter>, bool)> = vec![];
    let ps = [
        0.0f32,
        -0.0,
        f32::MIN_POSITIVE,
        1.0e-9,
        0.25,
        0.5,
        0.75,
        1.0 - f32::EPSILON / 2.0,
        1.0,
        1.0 + f32::EPSILON,
        -f32::MIN_POSITIVE,
        -0.5,
        2.0,
        f32::INFINITY,
        f32::NEG_INFINITY,
    ];
    for n in 0..=max_n {
        let top = pairs(n, C::DIR).len();
        for bare in [true, false] {
            for nl in &lists {
                for el in &lists {
                    if bare && (!nl.is_empty() || !el.is_empty()) {
                        continue;
                    }
                    // the number of outcomes: node labels x edges x edge labels
                    let a = (nl.len().max(1) as f64).powi(n as i32);
                    let b = el.len().max(1) as f64;
                    let most = if th { 2e6 } else { 5e4 };
                    let mut add = |k: Gen4, cost: f64| {
                        if cost * a <= most && (full || cost * a <= 3000.0) {
                            list.push((k, n, nl.clone(), el.clone(), bare));
                        }
                    };
                    add(Gen4::Empty, 1.0);
                    add(Gen4::Complete, b.powi(top as i32));
                    for p in ps {
                        let inside = p > 0.0 && p < 1.0;
                        // three draws stand for the interval; at least one of them is an edge
                        let c = if inside { (2.0 + b).powi(top as i32) } else if p == 1.0 { (3.0 * b).powi(top as i32) } else { 3f64.powi(top as i32) };
                        let c = if !(p >= 0.0 && p <= 1.0) { 1.0 } else { c };
                        add(Gen4::Gnp(p), c);
                    }
                    for m in 0..=top + 2 {
                        if m > top {
                            add(Gen4::Gnm(m), 1.0);
                        } else {
                            let c: f64 = (m..top).map(|i| (i + 1) as f64).product();
                            add(Gen4::Gnm(m), c * b.powi(m as i32));
                        }
                    }
                    add(Gen4::Gnm(usize::MAX / 16), 1.0);
                }
            }
        }
    }
    bound(format!("{}: {} calls (n <= {}, every label list over 3 labels up to the cost limit), all random outcomes of each", C::NAME, list.len(), max_n));
    par_for(list.len(), 1, |i| {
        let (k, n, nl, el, bare) = &list[i];
        case(
            || format!("{} {:?} n={} node labels {:?} edge labels {:?} unlabelled call {}", C::NAME, k, n, nl, el, bare),
            || gen_case::<C>(*k, *n, nl, el, *bare, if thorough() { 20_000_000 } else { 2_000_000 }),
        );
    });
}

/// Sizes at the end of the id range, for the parts without many outcomes.
fn c26_wide<C>(top: usize)
where
    C: Cfg,
    rust_graph::graph_impl::TypedGraphMap<C::Id, C::N, C::E, C::Ty>: Into<Map<C>>,
{
    for n in [30usize, 100, top] {
        let edges = pairs(n, C::DIR).len();
        for k in [Gen4::Empty, Gen4::Complete, Gen4::Gnm(edges), Gen4::Gnm(edges + 1), Gen4::Gnm(0)] {
            if k == Gen4::Gnm(0) && edges > 5000 {
                continue;
            }
            case(
                || format!("{} {:?} n={}", C::NAME, k, n),
                || {
                    nontrivial();
                    rand::mc::install(vec![], 10_000_000);
                    let r = guard(|| generate::<C>(k, n, &[0], &[1], false));
                    rand::mc::remove();
                    let g: Map<C> = match (r, k) {
                        (Err(_), Gen4::Gnm(m)) if m > edges => return Ok(()),
                        (Err(p), _) => return Err(panic_text(&p)),
                        (Ok(_), Gen4::Gnm(m)) if m > edges => return Err("a graph is returned, expected a refusal".into()),
                        (Ok(g), _) => g.into(),
                    };
                    let m = model_of::<C>(&g, n, &[0], &[1])?;
                    let count = match k {
                        Gen4::Complete => edges,
                        Gen4::Gnm(m) => m,
                        _ => 0,
                    };
                    want!(m.edges.len() == count && g.edge_count() == count, "{} edges listed, edge_count() {}, expected {}", m.edges.len(), g.edge_count(), count);
                    want!(g.node_count() == n, "node_count() is {}, expected {}", g.node_count(), n);
                    want!(m.edges.keys().all(|e| e.0 != e.1), "there is a self-loop");
                    want!(m.nodes.values().all(|l| *l == Some(0)) && m.edges.values().all(|l| *l == Some(1)), "labels are missing");
                    Ok(())
                },
            );
        }
    }
}

fn c26() {
    let th = thorough();
    set_hang_secs(if th { 400 } else { 60 });
    c26_cfg::<U32Un>(if th { 5 } else { 4 }, true);
    c26_cfg::<U32Di>(if th { 4 } else { 4 }, true);
    c26_cfg::<StrUn>(3, th);
    c26_cfg::<StrDi>(3, th);
    c26_cfg::<U8Di>(3, false);
    c26_cfg::<U8Un>(if th { 4 } else { 3 }, th);
    c26_wide::<U8Un>(256);
    c26_wide::<U8Di>(256);
    c26_wide::<U16Un>(300);
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, PartialEq)]
struct LFile {
    name: String,
    header: String,
    rows: Vec<Vec<String>>,
}

impl LFile {
    fn new(name: &str, header: &str, rows: Vec<Vec<String>>) -> Self {
        LFile { name: name.into(), header: header.into(), rows }
    }
    fn text(&self) -> String {
        format!("{} [{}]", self.name, self.rows.iter().map(|r| r.join("|")).collect::<Vec<_>>().join("; "))
    }
    fn write(&self, d: &Path) {
        let mut s = self.header.clone();
        s.push('\n');
        for r in &self.rows {
            s += &r.join("|");
            s.push('\n');
        }
        std::fs::write(d.join(&self.name), s).expect("scratch");
    }
}

const RELATIONS: [&str; 23] = [
    "comment_hasCreator_person", "comment_hasTag_tag", "comment_isLocatedIn_place", "comment_replyOf_comment", "comment_replyOf_post",
    "forum_containerOf_post", "forum_hasMember_person", "forum_hasModerator_person", "forum_hasTag_tag", "organisation_isLocatedIn_place",
    "person_hasInterest_tag", "person_isLocatedIn_place", "person_knows_person", "person_likes_comment", "person_likes_post",
    "person_studyAt_organisation", "person_workAt_organisation", "place_isPartOf_place", "post_hasCreator_person", "post_hasTag_tag",
    "post_isLocatedIn_place", "tag_hasType_tagclass", "tagclass_isSubclassOf_tagclass",
];

fn split_rel(r: &str) -> (&str, &str, &str) {
    let mut p = r.split('_');
    (p.next().unwrap(), p.next().unwrap(), p.next().unwrap())
}

fn rel_file(rel: &str, suffix: &str, rows: &[(u32, u32)]) -> LFile {
    let (a, e, b) = split_rel(rel);
    // some relations carry a third column
    let more = matches!(e, "knows" | "likes" | "hasMember" | "studyAt" | "workAt");
    LFile::new(
        &format!("{}_{}.csv", rel, suffix),
        &format!("{}.id|{}.id{}", a, b, if more { "|when" } else { "" }),
        rows.iter()
            .map(|(s, t)| {
                let mut r = vec![s.to_string(), t.to_string()];
                if more {
                    r.push(format!("20{}", s + t));
                }
                r
            })
            .collect(),
    )
}

fn org_file(suffix: &str, rows: &[(u32, &str)]) -> LFile {
    LFile::new(
        &format!("organisation_{}.csv", suffix),
        "id|type|name|url",
        rows.iter().map(|(i, l)| vec![i.to_string(), l.to_string(), format!("name{}", i), "http://x/y_1".into()]).collect(),
    )
}

fn place_file(suffix: &str, rows: &[(u32, &str)]) -> LFile {
    LFile::new(
        &format!("place_{}.csv", suffix),
        "id|name|url|type",
        rows.iter().map(|(i, l)| vec![i.to_string(), format!("name{}", i), "http://x/y_1".into(), l.to_string()]).collect(),
    )
}

/// Files no rule speaks about.
fn unknown_files() -> Vec<LFile> {
    let row = |a: &str, b: &str| vec![vec![a.to_string(), b.to_string(), "77".to_string(), "other".to_string()]];
    let h = "a|b|c|d";
    let mut v = vec![];
    for n in [
        "person_0_0.csv", "comment_0_0.csv", "tag_0_0.csv", "person_email_emailaddress_0_0.csv", "person_speaks_language_0_0.csv",
        "places_0_0.csv", "place_extra_0_0.csv", "organisation.txt", "README", "updateStream_0_0_person.csv", "person_knows_0_0.csv",
        "person_dislikes_person_0_0.csv", ".place_0_0.csv.crc", ".organisation_0_0.csv.crc", ".person_knows_person_0_0.csv.crc",
        "place_0_0.csv.crc", "person_knows_person_0_0.csv.bak", "old_person_knows_person_0_0.csv", "old_place_0_0.csv",
        "organisation_0_0.csv~", "person_knows_person_0_0.tsv", "person_knows_person_a_0.csv", "place_a_0.csv", "comment_replyOf_0_0.csv",
        "hashtag_hasType_tagclass_0_0.csv",
    ] {
        v.push(LFile::new(n, h, row("8", "9")));
    }
    v
}

/// What the files mean.
#[derive(Default, Clone)]
struct Meaning {
    label: BTreeMap<(String, String), String>,
    edges: BTreeMap<((String, String), (String, String)), BTreeSet<String>>,
}

fn meaning(files: &[LFile], dir: bool) -> Meaning {
    let mut m = Meaning::default();
    for f in files {
        for (kind, col) in [("organisation", 1usize), ("place", 3usize)] {
            if known(&f.name, kind) {
                for r in &f.rows {
                    m.label.insert((kind.into(), r[0].clone()), r[col].clone());
                }
            }
        }
    }
    for f in files {
        for rel in RELATIONS {
            if known(&f.name, rel) {
                let (a, e, b) = split_rel(rel);
                for r in &f.rows {
                    let (x, y) = ((a.to_string(), r[0].clone()), (b.to_string(), r[1].clone()));
                    for z in [&x, &y] {
                        m.label.entry(z.clone()).or_insert(z.0.clone());
                    }
                    let k = if dir || x <= y { (x, y) } else { (y, x) };
                    m.edges.entry(k).or_default().insert(e.into());
                }
            }
        }
    }
    m
}

/// stem_<digits>_<digits>.csv
fn known(name: &str, stem: &str) -> bool {
    name.strip_prefix(stem)
        .and_then(|r| r.strip_prefix('_'))
        .and_then(|r| r.strip_suffix(".csv"))
        .map_or(false, |r| !r.is_empty() && r.split('_').all(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit())))
}

/// A graph as plain data.
#[derive(Clone, PartialEq, Debug, Hash, Eq)]
struct Shape {
    labels: Vec<String>,
    edges: BTreeMap<(usize, usize), BTreeSet<String>>,
}

/// Is there a renumbering of `a` that gives `b`, with each edge's labels of `b` among those of `a`?
fn matches(a: &Shape, b: &Shape, dir: bool) -> bool {
    if a.labels.len() != b.labels.len() || a.edges.len() != b.edges.len() {
        return false;
    }
    let n = a.labels.len();
    let k = |s: usize, t: usize| if dir || s <= t { (s, t) } else { (t, s) };
    fn go(i: usize, n: usize, f: &mut Vec<usize>, used: &mut Vec<bool>, ok: &dyn Fn(usize, &[usize]) -> bool) -> bool {
        if i == n {
            return true;
        }
        for c in 0..n {
            if !used[c] {
                f.push(c);
                used[c] = true;
                if ok(i, f) && go(i + 1, n, f, used, ok) {
                    return true;
                }
                used[c] = false;
                f.pop();
            }
        }
        false
    }
    let ok = |i: usize, f: &[usize]| {
        if a.labels[i] != b.labels[f[i]] {
            return false;
        }
        for j in 0..=i {
            for (s, t) in [(i, j), (j, i)] {
                match (a.edges.get(&k(s, t)), b.edges.get(&k(f[s], f[t]))) {
                    (None, None) => {}
                    (Some(x), Some(y)) if y.is_subset(x) => {}
                    _ => return false,
                }
            }
        }
        true
    };
    go(0, n, &mut vec![], &mut vec![false; n], &ok)
}

fn load<C: Cfg<N = String, E = String>>(d: &Path, again: bool) -> Result<Shape, String>
where
    rust_graph::graph_impl::TypedGraphMap<C::Id, String, String, C::Ty>: Into<Map<C>>,
{
    // reading a second directory with one scheme must be like reading with a new one
    thread_local!(static SCHEME: Scheme = Scheme::init());
    let g: Map<C> = match guard(|| {
        if again {
            SCHEME.with(|s| s.from_path::<C::Id, C::Ty, _>(d).map_err(|e| e.to_string()))
        } else {
            Ok(read_ldbc_from_path::<C::Id, C::Ty, _>(d))
        }
    }) {
        Ok(Ok(g)) => g.into(),
        Ok(Err(e)) => return Err(format!("loading fails: {}", e)),
        Err(p) => return Err(panic_text(&p)),
    };
    let gg = C::gg(&g);
    let ids: BTreeSet<usize> = gg.node_indices().map(|x| x.id()).collect();
    let n = ids.len();
    want!(ids == (0..n).collect::<BTreeSet<_>>(), "node ids {:?} are not dense", ids);
    want!(gg.node_count() == n, "node_count() is {}, {} nodes listed", gg.node_count(), n);
    want!(gg.max_seen_id().map(|x| x.id() + 1).unwrap_or(0) == n, "max_seen_id() is {:?} with {} nodes", gg.max_seen_id(), n);
    let mut s = Shape { labels: vec![], edges: BTreeMap::new() };
    for v in 0..n {
        match gg.get_node_label(C::Id::new(v)) {
            Some(l) => s.labels.push(l.clone()),
            None => return Err(format!("node {} has no label", v)),
        }
    }
    for (a, b) in gg.edge_indices() {
        let l = match gg.get_edge_label(a, b) {
            Some(l) => l.clone(),
            None => return Err(format!("edge {:?} has no label", (a, b))),
        };
        let (a, b) = (a.id(), b.id());
        let k = if C::DIR || a <= b { (a, b) } else { (b, a) };
        want!(s.edges.insert(k, [l].into_iter().collect()).is_none(), "edge {:?} is listed twice", k);
    }
    want!(gg.edge_count() == s.edges.len(), "edge_count() is {}, {} edges listed", gg.edge_count(), s.edges.len());
    Ok(s)
}

fn expected(m: &Meaning) -> Shape {
    let idx: BTreeMap<&(String, String), usize> = m.label.keys().enumerate().map(|(i, k)| (k, i)).collect();
    let mut s = Shape { labels: m.label.values().cloned().collect(), edges: BTreeMap::new() };
    for ((a, b), l) in &m.edges {
        let (x, y) = (idx[a], idx[b]);
        s.edges.insert((x, y), l.clone());
    }
    s
}

fn ldbc_case<C: Cfg<N = String, E = String>>(files: &[LFile], orders: &[Vec<usize>], subdir: bool) -> Res
where
    rust_graph::graph_impl::TypedGraphMap<C::Id, String, String, C::Ty>: Into<Map<C>>,
{
    let exp = expected(&meaning(files, C::DIR));
    let mut one: Option<Shape> = None;
    for (k, o) in orders.iter().enumerate() {
        let d = scratch_dir().join("ldbc");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        for &i in o {
            files[i].write(&d);
        }
        if subdir {
            std::fs::create_dir(d.join("place_9_0.csv")).expect("scratch");
            let e = d.join("person_knows_person_9_0.csv");
            std::fs::create_dir(&e).expect("scratch");
            rel_file("person_knows_person", "0_0", &[(5, 6)]).write(&e);
        }
        let what = || format!("{} files written in the order {:?}", if C::DIR { "directed," } else { "undirected," }, o);
        let s = load::<C>(&d, C::DIR == (k % 3 == 0) || k > 2).map_err(|e| format!("{}: {}", what(), e))?;
        run().transitions.fetch_add(1, Relaxed);
        run().validated.fetch_add(1, Relaxed);
        want!(matches(&exp, &s, C::DIR), "{}: the graph has nodes {:?} and edges {:?}, expected {:?} and {:?}", what(), s.labels, s.edges, exp.labels, exp.edges);
        match &one {
            None => one = Some(s),
            Some(f) => want!(matches(f, &s, C::DIR), "{}: the graph has edges {:?}, with the files in another order {:?}", what(), s.edges, f.edges),
        }
    }
    Ok(())
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 3 {
        fn go(p: Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
            if p.len() == n {
                out.push(p);
                return;
            }
            for i in 0..n {
                if !p.contains(&i) {
                    let mut q = p.clone();
                    q.push(i);
                    go(q, n, out);
                }
            }
        }
        let mut v = vec![];
        go(vec![], n, &mut v);
        v
    } else {
        let mut v: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
        v.extend((1..n).map(|k| (0..n).map(|i| (i + k) % n).collect()));
        v
    }
}

fn ldbc_list(name: &str, list: Vec<(Vec<LFile>, bool)>) {
    bound(format!("{}: {} directories, directed and undirected, in several creation orders", name, list.len()));
    par_for(list.len(), 8, |i| {
        let (fs, sub) = &list[i];
        let ok = case(
            || format!("LDBC {}: {}{}", name, fs.iter().map(|f| f.text()).collect::<Vec<_>>().join(", "), if *sub { " and subdirectories" } else { "" }),
            || {
                nontrivial();
                run().states.fetch_add(1, Relaxed);
                let o = orders(fs.len());
                ldbc_case::<StrDi>(fs, &o, *sub)?;
                ldbc_case::<StrUn>(fs, &o, *sub)
            },
        );
        if !ok {
            run().stop.store(true, Relaxed);
        }
    });
}

fn row_sets(max: usize) -> Vec<Vec<(u32, u32)>> {
    let all = [(0, 0), (0, 1), (1, 0), (1, 1)];
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<(u32, u32)>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for p in all {
                let mut t: Vec<(u32, u32)> = s.clone();
                t.push(p);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Keys are texts: they stay apart however large and however alike, in entity rows and in relation rows.
fn ldbc_keys() -> Vec<(Vec<LFile>, bool)> {
    let keys = ["5", "55", "4294967301", "281474976710661", "18446744073709551621", "340282366920938463463374607431768211461", "50", "0"];
    let rel = |rel: &str, rows: Vec<(&str, &str)>| {
        let mut f = rel_file(rel, "0_0", &vec![(0, 0); rows.len()]);
        for (r, (a, b)) in f.rows.iter_mut().zip(rows) {
            r[0] = a.to_string();
            r[1] = b.to_string();
        }
        f
    };
    let mut v = vec![];
    for r in RELATIONS {
        for (i, a) in keys.iter().enumerate() {
            let b = keys[(i + 1) % keys.len()];
            let c = keys[(i + 3) % keys.len()];
            v.push((vec![rel(r, vec![(a, b), (b, c), (a, a)])], false));
        }
    }
    for (i, a) in keys.iter().enumerate() {
        for b in &keys[i + 1..] {
            let mut p = place_file("0_0", &[(0, "city"), (1, "country")]);
            p.rows[0][0] = a.to_string();
            p.rows[1][0] = b.to_string();
            let mut o = org_file("0_0", &[(0, "company"), (1, "university")]);
            o.rows[0][0] = b.to_string();
            o.rows[1][0] = a.to_string();
            v.push((vec![p, o, rel("organisation_isLocatedIn_place", vec![(a, b)])], false));
        }
    }
    v
}

/// Many entities in many files, told apart by their labels, and their relations exactly.
fn ldbc_large<C: Cfg<N = String, E = String>>(n: usize, files: usize, eol: &str) -> Res
where
    rust_graph::graph_impl::TypedGraphMap<C::Id, String, String, C::Ty>: Into<Map<C>>,
{
    let d = scratch_dir().join("ldbc");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    let write = |name: String, header: &str, rows: Vec<String>| {
        let mut t = header.to_string() + eol;
        for r in rows {
            t += &r;
            t += eol;
        }
        std::fs::write(d.join(name), t).expect("scratch");
    };
    let key = |i: usize| i * 1_000_003 + 7;
    let far = |i: usize| (i * 7 + 1) % n;
    for f in 0..files {
        let mine = || (f..n).step_by(files);
        write(format!("place_{}_0.csv", f), "id|name|url|type", mine().map(|i| format!("{}|n|u|p{}", key(i), i)).collect());
        write(format!("organisation_0_{}.csv", f), "id|type|name|url", mine().map(|i| format!("{}|o{}|n|u", key(i), i)).collect());
        write(format!("place_isPartOf_place_{}_0.csv", f), "place.id|place.id", mine().map(|i| format!("{}|{}", key(i), key(far(i)))).collect());
        write(
            format!("organisation_isLocatedIn_place_{}_0.csv", f),
            "organisation.id|place.id",
            mine().map(|i| format!("{}|{}", key(i), key(n - 1 - i))).collect(),
        );
        // nodes known from relations only: one person for each place, and one tag each for all
        write(format!("person_isLocatedIn_place_{}_0.csv", f), "person.id|place.id", mine().map(|i| format!("{}|{}", key(i), key(i))).collect());
        write(format!("person_hasInterest_tag_{}_0.csv", f), "person.id|tag.id", mine().map(|i| format!("{}|{}", key(i), key(0))).collect());
    }
    let g: Map<C> = guard(|| read_ldbc_from_path::<C::Id, C::Ty, _>(&d)).map_err(|p| panic_text(&p))?.into();
    let g = C::gg(&g);
    want!(g.node_count() == 3 * n + 1, "{} nodes, expected {}", g.node_count(), 3 * n + 1);
    want!(g.max_seen_id().map(|x| x.id()) == Some(3 * n), "largest id {:?}, expected {}", g.max_seen_id(), 3 * n);
    let mut by: BTreeMap<String, Vec<C::Id>> = BTreeMap::new();
    for v in g.node_indices() {
        match g.get_node_label(v) {
            Some(l) => by.entry(l.clone()).or_default().push(v),
            None => return Err(format!("node {:?} has no label", v)),
        }
    }
    let one = |l: String| -> Result<C::Id, String> {
        match by.get(&l).map(|x| &x[..]) {
            Some([x]) => Ok(*x),
            x => Err(format!("nodes labelled {}: {:?}", l, x.map(|x| x.len()))),
        }
    };
    want!(by.get("person").map(|x| x.len()) == Some(n), "persons: {:?}, expected {}", by.get("person").map(|x| x.len()), n);
    let tag = one("tag".into())?;
    let mut edges: BTreeMap<(C::Id, C::Id), &str> = BTreeMap::new();
    let k = |a: C::Id, b: C::Id| if C::DIR || a <= b { (a, b) } else { (b, a) };
    let mut persons = BTreeMap::new();
    for &x in &by["person"] {
        // a person is known by where it lives
        let place = g.neighbors_iter(x).find(|y| *y != tag);
        match place.and_then(|y| g.get_node_label(y)).cloned() {
            Some(l) => want!(persons.insert(l, x).is_none(), "two persons live in one place"),
            None => return Err(format!("person {:?} lives nowhere", x)),
        }
    }
    for i in 0..n {
        let p = one(format!("p{}", i))?;
        edges.insert(k(p, one(format!("p{}", far(i)))?), "isPartOf");
        edges.insert(k(one(format!("o{}", i))?, one(format!("p{}", n - 1 - i))?), "isLocatedIn");
        match persons.get(&format!("p{}", i)) {
            Some(&x) => {
                edges.insert(k(x, p), "isLocatedIn");
                edges.insert(k(x, tag), "hasInterest");
            }
            None => return Err(format!("nobody lives in place {}", i)),
        }
    }
    want!(g.edge_count() == edges.len(), "{} edges, expected {}", g.edge_count(), edges.len());
    for (&(a, b), &l) in &edges {
        want!(g.get_edge_label(a, b).map(|x| &x[..]) == Some(l), "edge ({:?},{:?}) carries {:?}, expected {}", a, b, g.get_edge_label(a, b), l);
    }
    Ok(())
}

fn c27() {
    let th = thorough();
    ldbc_list("keys", ldbc_keys());
    let sizes: &[(usize, usize, &str)] = &[(1, 1, "\n"), (2, 1, "\r\n"), (90, 1, "\n"), (90, 90, "\n"), (300, 7, "\r\n"), (300, 1, "\n"), (3000, 3, "\n"), (25_000, 40, "\n")];
    par_for(sizes.len() * 2, 1, |i| {
        let (n, files, eol) = sizes[i / 2];
        let ok = case(
            || format!("LDBC with {} places, organisations and persons in {} files each, line end {:?}, directed {}", n, files, eol, i % 2 == 0),
            || {
                nontrivial();
                if i % 2 == 0 {
                    ldbc_large::<StrDi>(n, files, eol)
                } else {
                    ldbc_large::<StrUn>(n, files, eol)
                }
            },
        );
        if !ok {
            run().stop.store(true, Relaxed);
        }
    });
    let plain = || vec![org_file("0_0", &[(0, "company"), (2, "university")]), place_file("0_0", &[(1, "city"), (0, "country")])];
    // one relation: every row sequence, alone and with node files, split at every point
    let mut v = vec![(vec![], false), (vec![], true), (plain(), true)];
    for rel in RELATIONS {
        for rows in row_sets(if th { 4 } else { 3 }) {
            v.push((vec![rel_file(rel, "0_0", &rows)], false));
            let mut f = plain();
            f.push(rel_file(rel, "0", &rows));
            v.push((f, false));
            for cut in 0..=rows.len() {
                if rows.len() >= 2 {
                    v.push((vec![rel_file(rel, "0_0", &rows[..cut]), rel_file(rel, "1_0", &rows[cut..])], false));
                }
            }
        }
    }
    ldbc_list("one relation", v);
    // pairs of relations with one row each (thorough: two rows in the first)
    let mut v = vec![];
    for a in 0..RELATIONS.len() {
        for b in a + 1..RELATIONS.len() {
            for ra in row_sets(if th { 2 } else { 1 }) {
                for rb in row_sets(1) {
                    if !ra.is_empty() && !rb.is_empty() {
                        v.push((vec![rel_file(RELATIONS[a], "0_0", &ra), rel_file(RELATIONS[b], "12_345", &rb)], false));
                    }
                }
            }
        }
    }
    ldbc_list("two relations", v);
    // node files: every row sequence of both kinds, repeated rows, split files, then relations naming them
    let labs = ["x", "company", "place"];
    let mut v = vec![];
    let mut seqs: Vec<Vec<(u32, &str)>> = vec![vec![]];
    for len in 1..=3usize {
        for code in 0..3usize.pow(len as u32) {
            // each key keeps one label; rows may repeat
            for pick in 0..9usize {
                let of = |k: usize| labs[[pick % 3, pick / 3, (pick + 1) % 3][k]];
                let s: Vec<(u32, &str)> = (0..len).map(|i| code / 3usize.pow(i as u32) % 3).map(|k| (k as u32, of(k))).collect();
                if !seqs.contains(&s) {
                    seqs.push(s);
                }
            }
        }
    }
    for s in &seqs {
        for cut in 0..=s.len() {
            v.push((vec![place_file("0_0", &s[..cut]), place_file("1_0", &s[cut..]), rel_file("place_isPartOf_place", "0_0", &[(0, 1), (2, 0)])], false));
            v.push((vec![org_file("0_0", &s[..cut]), org_file("1_0", &s[cut..]), rel_file("organisation_isLocatedIn_place", "0_0", &[(0, 1), (1, 1)])], false));
        }
        v.push((vec![place_file("0_0", s), org_file("0_0", s), rel_file("person_workAt_organisation", "0_0", &[(0, 0), (0, 1)])], false));
        v.push((vec![place_file("0_0", s), org_file("0_0", s)], false));
    }
    ldbc_list("node files", v);
    // unrelated files next to real ones
    let mut v = vec![];
    for u in unknown_files() {
        v.push((vec![u.clone()], false));
        for rel in RELATIONS {
            v.push((vec![u.clone(), rel_file(rel, "0_0", &[(0, 1)])], false));
        }
        let mut f = plain();
        f.push(u);
        v.push((f, true));
    }
    let mut f = unknown_files();
    f.extend(plain());
    v.push((f, true));
    ldbc_list("unknown files", v);
    // everything at once: one row of each relation, keys distinguishing all entities
    let mut v = vec![];
    for off in 0..6u32 {
        let f: Vec<LFile> = RELATIONS.iter().enumerate().map(|(i, r)| rel_file(r, "0_0", &[((i as u32 * off) % 2, (i as u32 + off) % 2)])).collect();
        v.push((f.clone(), false));
        let mut g = plain();
        g.extend(f);
        v.push((g, true));
    }
    ldbc_list("all relations", v);
    if th {
        let mut v = vec![];
        for a in 0..RELATIONS.len() {
            for b in a + 1..RELATIONS.len() {
                for c in b + 1..RELATIONS.len() {
                    for k in 0..8u32 {
                        let r = |i: u32| [(k >> i & 1, (k >> i & 1) ^ 1)];
                        v.push((vec![rel_file(RELATIONS[a], "0", &r(0)), rel_file(RELATIONS[b], "0", &r(1)), rel_file(RELATIONS[c], "0", &r(2))], false));
                    }
                }
            }
        }
        ldbc_list("three relations", v);
    }
}

// ---------------------------------------------------------------- C29

fn id_type<I: IdType>(name: &str, values: Vec<usize>, max: usize) {
    case(
        || format!("{} values", name),
        || {
            want!(I::max_usize() == max && I::max_value().id() == max, "max_usize() is {}, max_value() is {:?}, expected {}", I::max_usize(), I::max_value(), max);
            for (k, &x) in values.iter().enumerate() {
                nontrivial();
                let i = I::new(x);
                want!(i.id() == x, "new({}) has the index {}", x, i.id());
                want!(i <= I::max_value(), "{:?} is above the maximum", i);
                if x < max {
                    want!(i.increment().id() == x + 1, "the successor of {} is {:?}", x, i.increment());
                    want!(i < I::max_value(), "{:?} is not below the maximum", i);
                }
                if k > 0 {
                    let y = values[k - 1];
                    let j = I::new(y);
                    want!(j.cmp(&i) == y.cmp(&x) && i.cmp(&j) == x.cmp(&y), "{:?} and {:?} are ordered unlike {} and {}", j, i, y, x);
                }
            }
            let every = if values.len() < 3000 { 1 } else { values.len() / 700 };
            let few: Vec<usize> = values.iter().copied().step_by(every).collect();
            for &a in &few {
                for &b in &few {
                    let (i, j) = (I::new(a), I::new(b));
                    want!(i.cmp(&j) == a.cmp(&b) && (i == j) == (a == b), "{:?} and {:?} are ordered unlike {} and {}", i, j, a, b);
                }
            }
            Ok(())
        },
    );
}

fn around(bits: u32) -> Vec<usize> {
    let mut v: BTreeSet<usize> = (0..70_000).collect();
    for b in 0..bits {
        for d in 0..4usize {
            let x = 1u64 << b;
            let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            for y in [x.wrapping_add(d as u64), x.wrapping_sub(d as u64), m - d as u64] {
                if y <= m {
                    v.insert(y as usize);
                }
            }
        }
    }
    v.into_iter().collect()
}

/// Every state check of the other properties, on graphs at the end of the id range.
struct Wide;
impl StateCheck for Wide {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        nontrivial();
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        let gg = C::gg(g);
        want!(gg.max_possible_id() == C::Id::max_value(), "max_possible_id() is {:?}", gg.max_possible_id());
        want!(gg.max_possible_label_id() == C::L::max_value(), "max_possible_label_id() is {:?}", gg.max_possible_label_id());
        let t = std::time::Instant::now();
        let trace = m.nodes.len() > 250 && std::env::var_os("MC_TRACE").is_some();
        let named = |w: &str, r: Res| {
            if trace {
                eprintln!("until {} {:?}", w, t.elapsed());
            }
            r.map_err(|e| format!("{}: {}", w, e))
        };
        view::<C>(gg, m, ALL, "mutable", &ids)?;
        named("frozen", conv::Freeze.check::<C>(g, m))?;
        named("mapped", conv::Mmapped.check::<C>(g, m))?;
        named("stripped", conv::Strip.check::<C>(g, m))?;
        named("export", io::RoundTrip.check::<C>(g, m))?;
        named("CSV", io::Csv.check::<C>(g, m))?;
        named("breadth first", algo::Bfs.check::<C>(g, m))?;
        named("depth first", algo::Dfs.check::<C>(g, m))?;
        named("components", algo::Comp.check::<C>(g, m))?;
        named("subgraphs", algo::Subgraphs.check::<C>(g, m))?;
        named("reorder", algo::Reord.check::<C>(g, m))?;
        if m.nodes.len() < if thorough() { C::Id::max_usize() / 2 } else { 100 } {
            named("clone", pair::Clones.check::<C>(g, m))?;
            // the finding listed for handles is judged by its own check
            match algo::Handles.check::<C>(g, m) {
                Err(e) if e.starts_with("KNOWN[") => {}
                r => named("handles", r)?,
            }
        }
        named("algebra", unite::<C>(g, m))
    }
}

fn unite<C: Cfg>(g: &Map<C>, m: &Model) -> Res {
    let ids = probe_ids::<C>(m, &[0, 1, 2]);
    let sum = C::add_typed(g.clone(), g.clone());
    want!(sum == *g, "the union of the graph with itself is a different graph");
    same_graph::<C>(C::gg(&sum), m, "union with itself, a mutable")?;
    let none = C::sub_typed(g.clone(), g.clone());
    let _ = ids;
    want!(none.edge_count() == 0, "the difference of the graph with itself has {} edges", none.edge_count());
    let all = C::sub_typed(g.clone(), Map::<C>::new());
    want!(all == *g, "the difference of the graph and an empty one is a different graph");
    Ok(())
}

fn dense_inits<C: Cfg>(n: usize, labels: usize) -> Vec<(String, Vec<Op>)> {
    let cut = |mut v: Vec<Op>| -> Vec<Op> {
        if labels == 0 {
            for o in v.iter_mut() {
                match o {
                    Op::AddNode(_, l) | Op::AddEdge(_, _, l) => *l = None,
                    _ => {}
                }
            }
        }
        v
    };
    let mut iso: Vec<Op> = (0..n).map(|i| Op::AddNode(i as u32, Some((i % labels.max(1)) as Letter))).collect();
    iso.push(Op::AddEdge(n as u32 - 1, n as u32 - 1, Some(0)));
    let mut rain = vec![];
    for i in 0..n {
        rain.push(Op::AddNode(i as u32, Some((i % labels.max(1)) as Letter)));
    }
    for i in (0..n).rev() {
        rain.push(Op::AddEdge(i as u32, ((i + 1) % n) as u32, Some(((i * 3 + 1) % labels.max(1)) as Letter)));
        if i % 5 == 0 {
            rain.push(Op::AddEdge(((i * 7) % n) as u32, i as u32, None));
        }
    }
    vec![
        (format!("{} isolated, {} labels", n, labels), cut(iso)),
        (format!("ring of {}, {} labels", n, labels), cut(rain)),
        (format!("star of {} around the last", n), cut(star(n, n - 1))),
        (format!("path of {}", n), cut(path(n))),
    ]
}

fn c29_cfg<C: Cfg>(sizes: &[usize], labels: &[usize], ids: &[u32]) {
    let chk = |g: &Map<C>, m: &Model| Wide.check::<C>(g, m);
    let chk: &(dyn Fn(&Map<C>, &Model) -> Res + Sync) = &chk;
    let top = C::Id::max_usize().min(u32::MAX as usize) as u32;
    explore::<C>(&Profile::new("last two ids", &[top - 1, top], &a1(), &a1()).flags(F_CORE | F_RELOAD), false, chk, None);
    explore::<C>(&Profile::new("ends of the range", &[0, top], &a1(), &s1()), false, chk, None);
    explore::<C>(&Profile::new("first and last ids", ids, &a0(), &a0()).flags(F_ADDE | F_REMN).depth(if thorough() { 4 } else { 3 }), false, chk, None);
    let mut list: Vec<(String, Vec<Op>)> = vec![];
    for &n in sizes {
        for &l in labels {
            for (name, ops) in dense_inits::<C>(n, l) {
                if l == labels[0] || name.contains("labels") {
                    list.push((name, ops));
                }
            }
        }
        // changes of a full graph
        let last = n as u32 - 1;
        for (name, ops) in dense_inits::<C>(n, 3).into_iter().take(2) {
            let p = Profile::new("", &[0, last], &a1(), &a1()).flags(if thorough() { F_CORE } else { F_REMN | F_REME | F_UPDN });
            for op in p.ops() {
                let mut o = ops.clone();
                o.push(op);
                list.push((format!("{}, then {}", name, op.text()), o));
            }
        }
    }
    bound(format!("{}: {} graphs over the whole id range", C::NAME, list.len()));
    par_for(list.len(), 1, |i| {
        let (name, ops) = &list[i];
        case(
            || format!("{} {}", C::NAME, name),
            || {
                let t = std::time::Instant::now();
                run().states.fetch_add(1, Relaxed);
                run().transitions.fetch_add(ops.len() as u64, Relaxed);
                let (g, m, r) = Init::Script(ops.clone()).build::<C>();
                r?;
                let r = Wide.check::<C>(&g, &m);
                if std::env::var_os("MC_TRACE").is_some() {
                    eprintln!("{} {} {:?}", C::NAME, name, t.elapsed());
                }
                r
            },
        );
    });
}

/// All nodes of a 16-bit id type, compared in linear time.
fn c29_full16<C: Cfg>(n: usize, what: &str, edges: &dyn Fn(usize) -> Vec<usize>) {
    let mut adj: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut inn: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut keys: BTreeSet<(usize, usize)> = BTreeSet::new();
    for s in 0..n {
        for t in edges(s) {
            adj[s].insert(t);
            if C::DIR {
                inn[t].insert(s);
            } else {
                adj[t].insert(s);
            }
            keys.insert(if C::DIR || s <= t { (s, t) } else { (t, s) });
        }
    }
    let id = |i: usize| C::Id::new(i);
    let judge = |g: &Gen<C>, who: &str| -> Res {
        want!(g.node_count() == n && g.edge_count() == keys.len(), "{}: {} nodes, {} edges, expected {} and {}", who, g.node_count(), g.edge_count(), n, keys.len());
        want!(g.max_seen_id().map(|x| x.id()) == Some(n - 1), "{}: max_seen_id() is {:?}", who, g.max_seen_id());
        let v: BTreeSet<usize> = g.node_indices().map(|x| x.id()).collect();
        want!(v.len() == n && g.node_indices().count() == n && g.nodes().count() == n, "{}: {} node ids listed, {} nodes", who, v.len(), g.nodes().count());
        let e: Vec<(usize, usize)> = g.edge_indices().map(|(a, b)| (a.id(), b.id())).collect();
        let es: BTreeSet<(usize, usize)> = e.iter().map(|&(s, t)| if C::DIR || s <= t { (s, t) } else { (t, s) }).collect();
        want!(e.len() == keys.len() && es == keys, "{}: {} edge ids listed ({} different), expected {}", who, e.len(), es.len(), keys.len());
        want!(g.edges().count() == keys.len(), "{}: {} edges listed, expected {}", who, g.edges().count(), keys.len());
        for i in 0..n {
            let want: Vec<usize> = adj[i].iter().copied().collect();
            let mut got: Vec<usize> = g.neighbors_iter(id(i)).map(|x| x.id()).collect();
            got.sort();
            want!(got == want && g.degree(id(i)) == want.len(), "{}: node {} has neighbors {:?}.. and degree {}, expected {}", who, i, &got[..got.len().min(5)], g.degree(id(i)), want.len());
            if let Some(d) = g.as_digraph() {
                let mut got: Vec<usize> = d.in_neighbors_iter(id(i)).map(|x| x.id()).collect();
                got.sort();
                want!(got.iter().eq(inn[i].iter()) && d.in_degree(id(i)) == inn[i].len(), "{}: node {} has {} in-neighbors, expected {}", who, i, got.len(), inn[i].len());
            }
            for &t in want.iter().take(3) {
                want!(g.has_edge(id(i), id(t)), "{}: edge ({}, {}) is missing", who, i, t);
            }
            let l = if i % 3 == 0 { None } else { Some(C::N::mk((i % 5) as Letter)) };
            want!(g.get_node_label(id(i)) == l.as_ref(), "{}: node {} has label {:?}, expected {:?}", who, i, g.get_node_label(id(i)), l);
        }
        Ok(())
    };
    case(
        || format!("{} all {} nodes, {}", C::NAME, n, what),
        || {
            nontrivial();
            use rust_graph::generic::MutGraphTrait;
            let mut g = Map::<C>::new();
            for i in (0..n).rev() {
                let l = if i % 3 == 0 { None } else { Some(C::N::mk((i % 5) as Letter)) };
                g.add_node(id(i), l);
            }
            for s in 0..n {
                for t in edges(s) {
                    g.add_edge(id(s), id(t), Some(C::E::mk((s % 4) as Letter)));
                }
            }
            judge(C::gg(&g), "mutable")?;
            let p = scratch_file("wide");
            g.export(&p).map_err(|e| e.to_string())?;
            let h = Map::<C>::import(&p).map_err(|e| e.to_string())?;
            want!(h == g, "the imported graph differs");
            judge(C::gg(&h), "imported mutable")?;
            let s = freeze::<C>(&g);
            judge(C::sg(&s), "static")?;
            s.export(&p).map_err(|e| e.to_string())?;
            let t = Stat::<C>::import(&p).map_err(|e| e.to_string())?;
            want!(t == s, "the imported static graph differs");
            let x = open_mmap::<C>(&s, "wide")?;
            judge(&x, "mmap")?;
            let r: Map<C> = {
                let d = scratch_dir();
                rust_graph::io::csv::CSVWriter::new(C::gg(&g), d.join("n"), d.join("e")).write().map_err(|e| e.to_string())?;
                let mut r = Map::<C>::new();
                rust_graph::io::csv::CSVReader::<C::Id, C::N, C::E>::new(Some(d.join("n")), d.join("e")).read(&mut r).map_err(|e| e.to_string())?;
                r
            };
            want!(r == g, "the graph read back from CSV differs");
            judge(C::gg(&r), "CSV mutable")?;
            let rep = Rep::M(g.clone());
            let mut seen: BTreeSet<usize> = BTreeSet::new();
            for v in C::bfs(&rep, None).take(n + 5) {
                want!(seen.insert(v.id()), "Bfs yields {:?} twice", v);
            }
            want!(seen.len() == n, "Bfs yields {} of {} nodes", seen.len(), n);
            let mut seen: BTreeSet<usize> = BTreeSet::new();
            for v in C::dfs(&rep, None).take(n + 5) {
                want!(seen.insert(v.id()), "Dfs yields {:?} twice", v);
            }
            want!(seen.len() == n, "Dfs yields {} of {} nodes", seen.len(), n);
            let mut o = g.clone().reorder_id(true, true, true);
            let q = o.take_graph().expect("graph");
            want!(q.node_count() == n && q.edge_count() == keys.len(), "reordered: {} nodes and {} edges", q.node_count(), q.edge_count());
            for i in 0..n {
                let k = o.find_new_node_id(id(i));
                want!(o.get_original_node_id(k) == id(i), "reordered: {} becomes {:?} and back {:?}", i, k, o.get_original_node_id(k));
                want!(q.degree(k) == adj[i].len(), "reordered: node {} has degree {}, expected {}", i, q.degree(k), adj[i].len());
            }
            // removing from the end
            let mut g = g;
            for i in (n - 3..n).rev() {
                g.remove_node(id(i));
                want!(!g.has_node(id(i)) && g.node_count() == i, "after removing {}: {} nodes", i, g.node_count());
            }
            Ok(())
        },
    );
}

fn c29() {
    let th = thorough();
    set_hang_secs(150);
    id_type::<u8>("u8", (0..256).collect(), 255);
    id_type::<u16>("u16", (0..65536).collect(), 65535);
    id_type::<u32>("u32", around(32), u32::MAX as usize);
    id_type::<usize>("usize", around(64), usize::MAX);
    id_type::<()>("()", vec![0], 0);
    let sizes: &[usize] = if th { &[128, 129, 254, 255, 256] } else { &[255, 256] };
    c29_cfg::<U8Di>(sizes, &[0, 3, 254, 255], &[0, 1, 254, 255]);
    c29_cfg::<U8Un>(sizes, &[0, 3, 254, 255], &[0, 1, 254, 255]);
    c29_cfg::<L8Di>(&[258], &[255], &[0, 1, u32::MAX - 1, u32::MAX]);
    c29_cfg::<L8Un>(&[258], &[255], &[0, 1, u32::MAX - 1, u32::MAX]);
    c29_cfg::<U16Di>(&[257], &[255], &[0, 256, 65534, 65535]);
    c29_cfg::<MixUn>(&[257], &[255], &[0, 256, 65534, 65535]);
    c29_cfg::<SizeUn>(&[], &[], &[0, 70_000, u32::MAX - 1, u32::MAX]);
    const N: usize = 65536;
    let ring = |i: usize| if i % 9 == 0 { vec![(i + 1) % N, i] } else { vec![(i + 1) % N] };
    let hub = |i: usize| if i == N - 1 { vec![] } else { vec![N - 1] };
    let from = |i: usize| if i == N - 1 { (0..N).collect() } else { vec![] };
    huge(true);
    par_for(6, 1, |k| match k {
        0 => c29_full16::<U16Di>(N, "ring with loops", &ring),
        1 => c29_full16::<U16Un>(N, "ring with loops", &ring),
        2 => c29_full16::<U16Un>(N, "star around the last", &hub),
        3 => c29_full16::<U16Di>(N, "star from the last", &from),
        4 => c29_full16::<U16Di>(N, "star around the last", &hub),
        _ => c29_full16::<MixUn>(N, "ring with loops", &ring),
    });
    huge(false);
}

// ---------------------------------------------------------------- C33

/// A label type whose values all hash alike.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Clash(Letter);
impl serde::Serialize for Clash {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Clash {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u32::deserialize(d).map(Clash)
    }
}
impl Hash for Clash {
    fn hash<H: Hasher>(&self, h: &mut H) {
        7u8.hash(h)
    }
}
impl Lab for Clash {
    fn mk(k: Letter) -> Self {
        Clash(k)
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn map_view<T: Lab, M: MapTrait<T> + Clone>(a: &M, m: &[Letter], letters: Letter, who: &str) -> Res {
    want!(a.len() == m.len() && a.is_empty() == m.is_empty(), "{}: len() is {}, is_empty() {}, expected {:?}", who, a.len(), a.is_empty(), m);
    let exp: Vec<T> = m.iter().map(|&k| T::mk(k)).collect();
    let got: Vec<T> = a.items().cloned().collect();
    want!(got == exp, "{}: items() lists {:?}, expected {:?}", who, got, exp);
    let got = a.clone().items_vec();
    want!(got == exp, "{}: items_vec() is {:?}, expected {:?}", who, got, exp);
    for k in 0..letters {
        let l = T::mk(k);
        let pos = m.iter().position(|&x| x == k);
        want!(a.find_index(&l) == pos, "{}: find_index({:?}) is {:?}, expected {:?}", who, l, a.find_index(&l), pos);
        want!(a.contains(&l) == pos.is_some(), "{}: contains({:?}) is {}", who, l, a.contains(&l));
    }
    for i in 0..m.len() + 3 {
        want!(a.get_item(i) == exp.get(i), "{}: get_item({}) is {:?}, expected {:?}", who, i, a.get_item(i), exp.get(i));
    }
    want!(a.get_item(usize::MAX).is_none(), "{}: get_item(MAX) is {:?}", who, a.get_item(usize::MAX));
    Ok(())
}

#[derive(Clone)]
struct Maps<T: Lab> {
    s: SetMap<T>,
    v: VecMap<T>,
    m: Vec<Letter>,
}

#[derive(Clone, Copy, Debug)]
enum MapOp {
    Add(Letter),
    Pop,
    Clear,
    Swap,
    Round,
    Copy,
    Collect,
}

impl<T: Lab> Maps<T> {
    fn new() -> Self {
        Maps { s: SetMap::new(), v: VecMap::new(), m: vec![] }
    }
    fn apply(&mut self, op: MapOp) -> Res {
        match op {
            MapOp::Add(k) => {
                let i = match self.m.iter().position(|&x| x == k) {
                    Some(i) => i,
                    None => {
                        self.m.push(k);
                        self.m.len() - 1
                    }
                };
                let (a, b) = (self.s.add_item(T::mk(k)), self.v.add_item(T::mk(k)));
                want!(a == i && b == i, "add_item({:?}) returns {} on the set map and {} on the vector map, expected {}", T::mk(k), a, b, i);
            }
            MapOp::Pop => {
                let e = self.m.pop().map(T::mk);
                let (a, b) = (self.s.pop_item(), self.v.pop_item());
                want!(a == e && b == e, "pop_item() returns {:?} on the set map and {:?} on the vector map, expected {:?}", a, b, e);
            }
            MapOp::Clear => {
                self.m.clear();
                self.s.clear();
                self.v.clear();
            }
            MapOp::Swap => {
                // each becomes the other, by value
                let (s, v) = (std::mem::take(&mut self.s), std::mem::take(&mut self.v));
                self.v = s.into();
                self.s = v.into();
            }
            MapOp::Round => {
                // by reference
                let (s, v): (SetMap<T>, VecMap<T>) = ((&self.v).into(), (&self.s).into());
                self.v.shrink_to_fit();
                want!(s == self.s && v == self.v, "converting gives {:?} and {:?}, expected {:?} and {:?}", s, v, self.s, self.v);
                self.s = s;
                self.v = v;
            }
            MapOp::Copy => {
                let c = self.clone();
                want!(c.s == self.s && c.v == self.v, "a clone differs");
                *self = c;
            }
            MapOp::Collect => {
                let l: Vec<T> = self.m.iter().map(|&k| T::mk(k)).collect();
                let mut twice = l.clone();
                twice.extend(l.iter().rev().cloned());
                let a: SetMap<T> = twice.iter().cloned().collect();
                let b: VecMap<T> = twice.iter().cloned().collect();
                want!(a == self.s && b == self.v, "collecting {:?} gives {:?} and {:?}", twice, a, b);
                for (w, x) in [("from_vec", SetMap::from_vec(twice.clone())), ("From<Vec>", twice.clone().into()), ("From<&Vec>", (&twice).into()), ("From<&Vec>", (&l).into())] {
                    want!(x == self.s, "{} gives {:?}, expected {:?}", w, x, self.s);
                }
                for (w, x) in [("with_data", VecMap::with_data(l.clone())), ("From<Vec>", l.clone().into()), ("From<&Vec>", (&l).into())] {
                    want!(x == self.v, "{} gives {:?}, expected {:?}", w, x, self.v);
                }
                // a ready vector may hold duplicates; a set map made of it does not
                let (x, y): (SetMap<T>, SetMap<T>) = (VecMap::with_data(twice.clone()).into(), (&VecMap::with_data(twice.clone())).into());
                want!(x == self.s && y == self.s, "set maps made of a vector map of {:?} are {:?} (by value) and {:?} (by reference)", twice, x, y);
                let mut early = l.clone();
                early.splice(0..0, l.first().cloned());
                let (x, y): (SetMap<T>, SetMap<T>) = (VecMap::with_data(early.clone()).into(), (&VecMap::with_data(early.clone())).into());
                want!(x == self.s && y == self.s, "set maps made of a vector map of {:?} are {:?} (by value) and {:?} (by reference)", early, x, y);
                let c = indexmap::IndexSet::from_iter(twice.iter().cloned());
                want!(SetMap::with_data(c) == self.s, "with_data differs");
                self.s = a;
                self.v = b;
            }
        }
        Ok(())
    }
    fn view(&self, letters: Letter) -> Res {
        map_view::<T, _>(&self.s, &self.m, letters, "set map")?;
        map_view::<T, _>(&self.v, &self.m, letters, "vector map")
    }
}

fn map_ops(letters: Letter) -> Vec<MapOp> {
    let mut v: Vec<MapOp> = (0..letters).map(MapOp::Add).collect();
    v.extend([MapOp::Pop, MapOp::Clear, MapOp::Swap, MapOp::Round, MapOp::Copy, MapOp::Collect]);
    v
}

fn c33_fix<T: Lab>(name: &str, letters: Letter, compare: bool) {
    // all reachable lists, to the fixpoint
    let ops = map_ops(letters);
    let mut all: Vec<Maps<T>> = vec![Maps::new()];
    let mut seen: HashSet<Vec<Letter>> = [vec![]].into_iter().collect();
    let mut at = 0;
    let mut tr = 0u64;
    while at < all.len() {
        let cur = all[at].clone();
        at += 1;
        for &op in &ops {
            let mut nx = cur.clone();
            let ok = case(
                || format!("{} maps holding {:?}, then {:?}", name, cur.m, op),
                || {
                    nx.apply(op)?;
                    nx.view(letters)
                },
            );
            tr += 1;
            if !ok {
                return;
            }
            if seen.insert(nx.m.clone()) {
                all.push(nx);
            }
        }
    }
    run().states.fetch_add(all.len() as u64, Relaxed);
    run().transitions.fetch_add(tr, Relaxed);
    run().validated.fetch_add(tr, Relaxed);
    part(&format!("{} maps of {} letters", name, letters), format!("{} states, {} transitions, fixpoint", all.len(), tr));
    // a second, independently built copy of each, in another history: with every letter added and removed again
    if !compare {
        return;
    }
    let other: Vec<Maps<T>> = all
        .iter()
        .map(|a| {
            let mut x = Maps::<T>::new();
            for k in (0..letters).rev() {
                let _ = x.apply(MapOp::Add(k));
            }
            for _ in 0..letters {
                let _ = x.apply(MapOp::Pop);
            }
            for &k in &a.m {
                let _ = x.apply(MapOp::Add(k));
            }
            x
        })
        .collect();
    struct S<T: Lab>(Vec<Maps<T>>);
    unsafe impl<T: Lab> Sync for S<T> {}
    let (a, b) = (S(all), S(other));
    let (a, b) = (&a, &b);
    par_for(a.0.len(), 4, |i| {
        let x = &a.0[i];
        case(
            || format!("{} maps {:?} against all others", name, x.m),
            || {
                for y in &b.0 {
                    let same = x.m == y.m;
                    want!((x.s == y.s) == same && (y.s == x.s) == same && (x.s != y.s) != same, "set maps {:?} and {:?} compare as {}", x.m, y.m, x.s == y.s);
                    want!((x.v == y.v) == same && (y.v == x.v) == same && (x.v != y.v) != same, "vector maps {:?} and {:?} compare as {}", x.m, y.m, x.v == y.v);
                    if same {
                        want!(hash_of(&x.s) == hash_of(&y.s) && hash_of(&x.v) == hash_of(&y.v), "equal maps {:?} hash differently", x.m);
                    }
                }
                Ok(())
            },
        );
    });
}

/// All operation sequences of a length, without merging equal states (hidden state shows).
fn c33_seqs<T: Lab>(name: &str, letters: Letter, depth: usize) {
    let ops: Vec<MapOp> = map_ops(letters).into_iter().filter(|o| !matches!(o, MapOp::Copy | MapOp::Collect)).collect();
    fn go<T: Lab>(ops: &[MapOp], cur: &Maps<T>, hist: &mut Vec<MapOp>, left: usize, letters: Letter, n: &mut u64) -> Res {
        for &op in ops {
            let mut nx = cur.clone();
            hist.push(op);
            nx.apply(op).and_then(|_| nx.view(letters)).map_err(|e| format!("after {:?}: {}", hist, e))?;
            *n += 1;
            if left > 1 {
                go(ops, &nx, hist, left - 1, letters, n)?;
            }
            hist.pop();
        }
        Ok(())
    }
    let k = ops.len();
    bound(format!("{} maps: all sequences of {} of {} operations", name, depth, k));
    par_for(k * k, 1, |i| {
        let mut n = 0;
        case(
            || format!("{} maps: sequences from {:?} {:?}", name, ops[i / k], ops[i % k]),
            || {
                let mut cur = Maps::<T>::new();
                cur.apply(ops[i / k])?;
                cur.apply(ops[i % k])?;
                go(&ops, &cur, &mut vec![ops[i / k], ops[i % k]], depth - 2, letters, &mut n)
            },
        );
        run().transitions.fetch_add(n, Relaxed);
    });
}

/// Many items: growth, removal of all, reuse.
fn c33_long<T: Lab>(name: &str) {
    for n in (1..=250usize).step_by(if thorough() { 1 } else { 7 }) {
        case(
            || format!("{} maps of {} items", name, n),
            || {
                nontrivial();
                let mut x = Maps::<T>::new();
                for i in 0..n {
                    x.apply(MapOp::Add((i * 37 % 251) as Letter))?;
                }
                x.view(255)?;
                for op in [MapOp::Swap, MapOp::Round, MapOp::Collect] {
                    x.apply(op)?;
                    x.view(255)?;
                }
                for i in 0..n / 2 {
                    x.apply(MapOp::Pop)?;
                    if i % 16 == 0 {
                        x.view(255)?;
                    }
                }
                x.view(255)?;
                for i in 0..n {
                    x.apply(MapOp::Add((i * 11 % 251) as Letter))?;
                }
                x.view(255)?;
                let mut y = Maps::<T> { s: SetMap::with_capacity(n / 3), v: VecMap::with_capacity(n / 3), m: vec![] };
                for &k in &x.m {
                    y.apply(MapOp::Add(k))?;
                }
                want!(x.s == y.s && x.v == y.v && hash_of(&x.s) == hash_of(&y.s) && hash_of(&x.v) == hash_of(&y.v), "the same items in maps of another capacity are not equal");
                Ok(())
            },
        );
    }
}

fn c33() {
    let th = thorough();
    c33_fix::<u32>("number", if th { 7 } else { 6 }, true);
    c33_fix::<String>("string", if th { 6 } else { 5 }, true);
    c33_fix::<Clash>("clashing", if th { 6 } else { 5 }, true);
    c33_seqs::<u32>("number", 3, if th { 8 } else { 7 });
    c33_seqs::<String>("string", 3, if th { 7 } else { 6 });
    c33_seqs::<Clash>("clashing", 4, if th { 7 } else { 6 });
    c33_long::<u32>("number");
    c33_long::<String>("string");
    c33_long::<Clash>("clashing");
    case(
        || "macros and defaults".to_string(),
        || {
            let a = rust_graph::setmap![5u32, 6, 5, 7];
            let b = rust_graph::vecmap![5u32, 6, 5, 7];
            want!(a.items().eq([5u32, 6, 7].iter()), "setmap! lists {:?}", a);
            want!(b.items().eq([5u32, 6, 7].iter()), "vecmap! lists {:?}", b);
            want!(SetMap::<u32>::default() == SetMap::new() && VecMap::<u32>::default() == VecMap::new(), "default maps are not empty ones");
            want!(SetMap::<u32>::with_capacity(9) == SetMap::new() && VecMap::<u32>::with_capacity(9) == VecMap::new(), "maps with a capacity are not empty ones");
            Ok(())
        },
    );
}

fn main() {
    mc::main(move || {
        vec![
            Prop {
                id: "C26",
                level: "model_checking",
                rule: "for every call in the bounds, every sequence of outcomes of the random draws is executed (integers exhaustively; a real-valued draw by its least, middle and greatest value)",
                assumptions: &[
                    "random numbers are drawn through the rand crate (its thread generator and range sampling are answered by the enumerator)",
                    "a real-valued draw matters only through comparisons that its least, middle and greatest value decide both ways",
                ],
                run: c26 as fn(),
            },
            Prop {
                id: "C27",
                level: "model_checking",
                rule: "every directory of the families is written in the listed creation orders, loaded as directed and undirected graph and compared up to renumbering with what its files say",
                assumptions: &[
                    "keys are numbers, as in LDBC data; rows of one entity agree on its label; rows have the columns of their file",
                    "two relations between one pair of entities share one edge with one of their labels, the same in every file order (graphs are simple)",
                    "directory order follows creation order on the scratch file system",
                ],
                run: c27,
            },
            Prop {
                id: "C29",
                level: "model_checking",
                rule: "all values of the narrow id types and the surroundings of every power of two of the wide ones; every state reachable over ids at the ends of the range and full-range graphs go through the state checks of the other properties",
                assumptions: &["behaviour at sizes between the listed ones is like that at the listed ones"],
                run: c29,
            },
            Prop {
                id: "C33",
                level: "model_checking",
                rule: "all reachable pairs of maps to the fixpoint, all operation sequences up to a length without merging, all pairs for equality",
                assumptions: &["maps treat items only through equality and hash", "the vector map's constructors from a ready vector get distinct items"],
                run: c33,
            },
        ]
    })
}
