//! C14-C18: files of all kinds.
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::Relaxed;

use mc::core::*;
use mc::explore::*;
use mc::fam::*;
use mc::util::*;
use mc::view::*;
use mc::Prop;
use rust_graph::generic::{IdType, MapTrait, MutMapTrait};
use rust_graph::graph_impl::EdgeVec;
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::io::csv::{CSVReader, CSVWriter};
use rust_graph::io::mmap::{dump, TypedMemoryMap};
use rust_graph::io::serde::{Deserialize, Deserializer, Serialize, Serializer};
use rust_graph::io::{read_from_csv, write_to_csv};
use rust_graph::map::{SetMap, VecMap};

fn nontrivial() {
    run().nontrivial.fetch_add(1, Relaxed);
}

// ---------------------------------------------------------------- C14

pub struct RoundTrip;

/// Import a value of the same type as the given one.
fn import_like<T: serde::de::DeserializeOwned>(_: &T, p: &Path) -> bincode::Result<T> {
    Deserializer::import(p)
}

/// Equal maps, answering alike, and continuing alike.
fn same_map<T: Lab>(a: &SetMap<T>, b: &SetMap<T>, what: &str) -> Res {
    want!(a == b && b == a, "{}: read {:?}, written {:?}", what, b, a);
    let (x, y): (Vec<&T>, Vec<&T>) = (a.items().collect(), b.items().collect());
    want!(x == y && a.len() == b.len(), "{}: lists {:?}, written {:?}", what, y, x);
    for i in 0..a.len() + 1 {
        want!(a.get_item(i) == b.get_item(i), "{}: item {} is {:?}, written {:?}", what, i, b.get_item(i), a.get_item(i));
        if let Some(l) = a.get_item(i) {
            want!(b.find_index(l) == Some(i) && b.contains(l), "{}: {:?} has index {:?}, written {}", what, l, b.find_index(l), i);
        }
    }
    let (mut c, mut d) = (a.clone(), b.clone());
    for k in [0u32, 5, 1, 0] {
        let (i, j) = (c.add_item(T::mk(k)), d.add_item(T::mk(k)));
        want!(i == j && c == d, "{}: adding {:?} afterwards gives index {} / {}", what, T::mk(k), j, i);
    }
    Ok(())
}

impl StateCheck for RoundTrip {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        nontrivial();
        let p = scratch_file("export");
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        let io = |e: bincode::Error| format!("{}", e);
        // the mutable graph
        g.export(&p).map_err(|e| format!("export failed: {}", e))?;
        let c: Map<C> = Map::<C>::import(&p).map_err(|e| format!("import failed: {}", e))?;
        want!(c == *g && *g == c, "the imported mutable graph differs from the exported one");
        view::<C>(C::gg(&c), m, ALL, "mutable", &ids).map_err(|e| format!("imported {}", e))?;
        let n = std::fs::metadata(&p).map(|x| x.len()).unwrap_or(0);
        // the static graph
        if m.dense() {
            let s = freeze::<C>(g);
            s.export(&p).map_err(|e| format!("export of the static graph failed: {}", e))?;
            let c: Stat<C> = Stat::<C>::import(&p).map_err(|e| format!("import of the static graph failed: {}", e))?;
            want!(c == s && s == c, "the imported static graph differs from the exported one");
            view::<C>(C::sg(&c), m, ALL, "static", &ids).map_err(|e| format!("imported {}", e))?;
        }
        if m.nodes.len() > 60 && n > 100_000 {
            return Ok(());
        }
        // label maps
        let (nm, em) = (C::gg(g).get_node_label_map(), C::gg(g).get_edge_label_map());
        nm.export(&p).map_err(io)?;
        same_map(nm, &SetMap::<C::N>::import(&p).map_err(io)?, "node label map")?;
        em.export(&p).map_err(io)?;
        same_map(em, &SetMap::<C::E>::import(&p).map_err(io)?, "edge label map")?;
        let v: VecMap<C::N> = nm.items().cloned().collect();
        v.export(&p).map_err(io)?;
        let w: VecMap<C::N> = VecMap::import(&p).map_err(io)?;
        want!(v == w && v.items().eq(w.items()), "vector map: read {:?}, written {:?}", w, v);
        // reorder results
        for b in [7u8, 1, 6] {
            let r = g.clone().reorder_id(b & 1 != 0, b & 2 != 0, b & 4 != 0);
            Serializer::export(&r, &p).map_err(io)?;
            let mut q = import_like(&r, &p).map_err(io)?;
            want!(q == r, "the imported reorder result differs from the exported one");
            for &v in m.nodes.keys() {
                let x = C::Id::new(v);
                want!(q.find_new_node_id(x) == r.find_new_node_id(x), "imported reorder result: {} becomes {:?}, exported {:?}", v, q.find_new_node_id(x), r.find_new_node_id(x));
                let y = r.find_new_node_id(x);
                want!(q.get_original_node_id(y) == x, "imported reorder result: {:?} was {:?}, exported {}", y, q.get_original_node_id(y), v);
            }
            let mut r = r;
            let (a, b) = (r.take_graph(), q.take_graph());
            want!(a.is_some() && a == b, "the graph of an imported reorder result differs");
            // without the graph
            Serializer::export(&q, &p).map_err(io)?;
            let mut t = import_like(&q, &p).map_err(io)?;
            want!(t == q && t.take_graph().is_none(), "a reorder result without graph is not the same after import");
        }
        Ok(())
    }
}

/// Two exports next to each other, imported after both were written.
fn export_names<C: Cfg>() {
    let (a, ma) = Init::Script(star(6, 2)).make::<C>();
    let (b, mb) = Init::Script(path(3)).make::<C>();
    path_pairs(&format!("{} export", C::NAME), &|p, q| {
        let s = |e: bincode::Error| e.to_string();
        a.export(p).map_err(s)?;
        b.export(q).map_err(s)?;
        same_graph::<C>(C::gg(&Map::<C>::import(p).map_err(s)?), &ma, "first imported")?;
        same_graph::<C>(C::gg(&Map::<C>::import(q).map_err(s)?), &mb, "second imported")?;
        let (x, y) = (freeze::<C>(&a), freeze::<C>(&b));
        y.export(p).map_err(s)?;
        x.export(q).map_err(s)?;
        want!(Stat::<C>::import(p).map_err(s)? == y, "the first static graph is imported differently");
        want!(Stat::<C>::import(q).map_err(s)? == x, "the second static graph is imported differently");
        let (n, e) = (C::gg(&a).get_node_label_map(), C::gg(&a).get_edge_label_map());
        n.export(p).map_err(s)?;
        e.export(q).map_err(s)?;
        same_map(n, &SetMap::<C::N>::import(p).map_err(s)?, "first label map")?;
        same_map(e, &SetMap::<C::E>::import(q).map_err(s)?, "second label map")
    });
}

/// CSV node and edge files under neighbouring names.
fn csv_names<C: Cfg>() {
    let (a, ma) = Init::Script(star(6, 2)).make::<C>();
    path_pairs(&format!("{} CSV", C::NAME), &|p, q| {
        let w = |e: std::io::Error| e.to_string();
        CSVWriter::new(C::gg(&a), p, q).write().map_err(w)?;
        for headers in [true, false] {
            let mut g = Map::<C>::new();
            CSVReader::<C::Id, C::N, C::E>::new(Some(p), q).headers(headers).read(&mut g).map_err(|e| e.to_string())?;
            same_graph::<C>(C::gg(&g), &ma, "read back, a mutable")?;
        }
        // the edges alone: bare nodes
        let mut g = Map::<C>::new();
        CSVReader::<C::Id, C::N, C::E>::new(None as Option<&Path>, q).read(&mut g).map_err(|e| e.to_string())?;
        let mut m = ma.clone();
        let on: std::collections::BTreeSet<usize> = m.edges.keys().flat_map(|&(s, t)| [s, t]).collect();
        m.nodes.retain(|v, _| on.contains(v));
        for l in m.nodes.values_mut() {
            *l = None;
        }
        same_graph::<C>(C::gg(&g), &m, "read from edges alone, a mutable")
    });
}

fn c14() {
    export_names::<U32Di>();
    export_names::<StrUn>();
    Sweep { cost: Cost::Medium, extra: F_RELOAD | F_MISC | F_INT | F_REORD, giants: true, ..Default::default() }.run(&RoundTrip);
}

// ---------------------------------------------------------------- graphs to write

struct Item<C: Cfg> {
    g: Map<C>,
    m: Model,
    text: String,
}
unsafe impl<C: Cfg> Sync for Item<C> {}

fn text(m: &Model) -> String {
    format!("{} nodes{:?} edges{:?} {:?} {:?} max{:?}", if m.directed { "di" } else { "un" }, m.nodes, m.edges, m.nmap, m.emap, m.max)
}

fn shorten(s: &str) -> String {
    if s.len() <= 400 {
        return s.to_string();
    }
    let mut h: u64 = 1469598103934665603;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    format!("{}... #{:x}", s.chars().take(200).collect::<String>(), h)
}

fn family<C: Cfg>(ps: Vec<Profile>) -> Vec<Item<C>> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    for p in ps {
        let mut kept = vec![];
        explore_states::<C>(&p, &mut kept);
        for k in kept {
            let t = text(&k.m);
            if seen.insert(t.clone()) {
                out.push(Item { g: k.g, m: k.m, text: format!("{} {}", C::NAME, shorten(&t)) });
            }
        }
    }
    bound(format!("{}: {} written graphs", C::NAME, out.len()));
    out
}

fn shapes<C: Cfg>(big: bool) -> Vec<Profile> {
    let one = |b: Base| Profile::new(&b.name, &[], &a0(), &a0()).depth(0).inits(vec![Init::Script(b.ops)]);
    let mut v: Vec<Profile> = bases::<C>().into_iter().map(one).collect();
    if big {
        v.extend(samples::<C>().into_iter().map(one));
    }
    v
}

// ---------------------------------------------------------------- C15

/// Every strict prefix of the file at `p` must be refused by `import`; the file is destroyed.
fn prefixes(name: &str, p: &Path, import: &dyn Fn(&Path) -> Result<(), String>) {
    let full = match std::fs::read(p) {
        Ok(x) => x,
        Err(e) => fail_machinery(&format!("reading {}: {}", p.display(), e)),
    };
    let f = std::fs::OpenOptions::new().write(true).open(p).expect("open for truncation");
    case(|| format!("{} complete", name), || import(p).map_err(|e| format!("the complete file is refused: {}", e)));
    for k in (0..full.len()).rev() {
        f.set_len(k as u64).expect("truncate");
        let ok = case(
            || format!("{} cut to {} of {} bytes", name, k, full.len()),
            || match import(p) {
                Err(_) => Ok(()),
                Ok(()) => Err(format!("a file cut to {} of {} bytes is imported without error", k, full.len())),
            },
        );
        nontrivial();
        if !ok || (k % 64 == 0 && stopped()) {
            return;
        }
    }
}

fn c15_family<C: Cfg>(ps: Vec<Profile>) {
    let items = family::<C>(ps);
    par_for(items.len(), 1, |i| {
        let it = &items[i];
        let p = scratch_file("cut");
        if it.g.export(&p).is_ok() {
            prefixes(&format!("mutable {}", it.text), &p, &|p| Map::<C>::import(p).map(|_| ()).map_err(|e| e.to_string()));
        }
        if it.m.dense() {
            if freeze::<C>(&it.g).export(&p).is_ok() {
                prefixes(&format!("static {}", it.text), &p, &|p| Stat::<C>::import(p).map(|_| ()).map_err(|e| e.to_string()));
            }
        }
    });
}

fn c15_maps<T: Lab>(name: &str) {
    for n in 0..if thorough() { 60 } else { 34 } {
        let p = scratch_file("cut");
        let v: Vec<T> = (0..n).map(T::mk).collect();
        if SetMap::from_vec(v.clone()).export(&p).is_ok() {
            prefixes(&format!("{} label map of {}", name, n), &p, &|p| SetMap::<T>::import(p).map(|_| ()).map_err(|e| e.to_string()));
        }
        if v.into_iter().collect::<VecMap<T>>().export(&p).is_ok() {
            prefixes(&format!("{} vector map of {}", name, n), &p, &|p| VecMap::<T>::import(p).map(|_| ()).map_err(|e| e.to_string()));
        }
    }
}

fn c15() {
    let th = thorough();
    let l = a1();
    fn missing<C: Cfg>() {
        let d = scratch_dir();
        for (what, p) in [("missing file", d.join("nothing-here")), ("missing directory", d.join("no/such/file")), ("a directory", d.clone())] {
            case(|| format!("{} mutable {}", C::NAME, what), || match Map::<C>::import(&p) {
                Ok(_) => Err(format!("importing {} gives a graph", what)),
                Err(_) => Ok(()),
            });
            case(|| format!("{} static {}", C::NAME, what), || match Stat::<C>::import(&p) {
                Ok(_) => Err(format!("importing {} gives a graph", what)),
                Err(_) => Ok(()),
            });
            case(|| format!("{} map {}", C::NAME, what), || match SetMap::<C::N>::import(&p) {
                Ok(_) => Err(format!("importing {} gives a label map", what)),
                Err(_) => Ok(()),
            });
        }
    }
    missing::<U32Un>();
    missing::<StrDi>();
    missing::<MixUn>();
    missing::<U8Di>();
    let small = |n: &str| Profile::new(n, &[0, 1], &l, &l);
    let with = |mut v: Vec<Profile>, p: Profile| {
        v.insert(0, p);
        v
    };
    c15_family::<U32Un>(with(shapes::<U32Un>(th), small("2")));
    c15_family::<U32Di>(with(shapes::<U32Di>(th), small("2")));
    c15_family::<U8Di>(with(shapes::<U8Di>(true), small("2")));
    c15_family::<U8Un>(with(shapes::<U8Un>(true), small("2")));
    c15_family::<StrDi>(with(shapes::<StrDi>(false), small("2")));
    c15_family::<StrUn>(with(shapes::<StrUn>(false), small("2")));
    c15_family::<MixDi>(with(shapes::<MixDi>(false), small("2")));
    c15_family::<MixUn>(with(shapes::<MixUn>(false), small("2")));
    if th {
        c15_family::<U32Un>(vec![Profile::new("3", &[0, 1, 2], &a0(), &s1())]);
        c15_family::<U32Di>(vec![Profile::new("3", &[0, 1, 2], &a0(), &s1()).flags(F_BUILD)]);
    }
    c15_maps::<u32>("u32");
    c15_maps::<String>("string");
}

// ---------------------------------------------------------------- C16

fn fresh(name: &str) -> PathBuf {
    let d = scratch_dir().join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn files(d: &Path) -> Vec<(PathBuf, u64)> {
    let mut v: Vec<(PathBuf, u64)> = std::fs::read_dir(d)
        .map(|r| r.flatten().map(|e| (e.path(), e.metadata().map(|m| m.len()).unwrap_or(0))).collect())
        .unwrap_or_default();
    v.sort();
    v
}

struct Writer<'a> {
    name: String,
    write: &'a dyn Fn(&Path) -> Result<(), String>,
    verify: &'a dyn Fn(&Path) -> Res,
}

/// Judge one run of the writer: a reported success must be a real one.
fn judge(w: &Writer, d: &Path, r: Result<Result<(), String>, String>, what: &str) -> Res {
    match r {
        Err(p) => Err(format!("{}: {}", what, panic_text(&p))),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => {
            let v = match guard(|| (w.verify)(d)) {
                Ok(v) => v,
                Err(p) => Err(format!("reading back: {}", panic_text(&p))),
            };
            v.map_err(|e| format!("{}: success is reported, but {}", what, e))
        }
    }
}

fn faults(w: &Writer, budgets: bool) {
    let d = fresh("w");
    // a run without faults
    wctl_on(None);
    let r = guard(|| (w.write)(&d));
    let (calls, _) = wctl_off();
    let made = files(&d);
    let total: u64 = made.iter().map(|x| x.1).sum();
    let ok = case(
        || format!("{} without fault", w.name),
        || {
            match &r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return Err(format!("fails without any fault: {}", e)),
                Err(p) => return Err(format!("without any fault {}", panic_text(p))),
            }
            (w.verify)(&d)
        },
    );
    if !ok {
        return;
    }
    let mut list: Vec<WFault> = vec![];
    for n in 0..calls {
        list.extend([WFault::From(n), WFault::Once(n), WFault::Short(n), WFault::Intr(n)]);
    }
    if budgets {
        // every byte of small outputs; of large ones, the surroundings of every buffer boundary
        let near = |b: usize| b % 8192 < 2 || b % 8192 == 8191 || b % 10000 < 2 || b % 10000 == 9999 || b < 64 || b + 64 > total as usize;
        list.extend((0..total as usize).filter(|&b| total < 3000 || near(b)).map(WFault::Budget));
    }
    for f in list {
        let ok = case(
            || format!("{} with {:?}", w.name, f),
            || {
                let d = fresh("w");
                wctl_on(Some(f));
                let r = guard(|| (w.write)(&d));
                let (_, fired) = wctl_off();
                if fired {
                    nontrivial();
                }
                judge(w, &d, r, &format!("{:?}", f))?;
                // the storage works again
                match guard(|| (w.write)(&d)) {
                    Ok(Ok(())) => (w.verify)(&d).map_err(|e| format!("written again after {:?}: {}", f, e)),
                    Ok(Err(e)) => Err(format!("writing again after {:?} fails: {}", f, e)),
                    Err(p) => Err(format!("writing again after {:?} {}", f, panic_text(&p))),
                }
            },
        );
        if !ok || stopped() {
            return;
        }
    }
    // a full device, or no file at all, behind each of the files
    for (p, _) in &made {
        for dir in [false, true] {
            let n = p.file_name().unwrap().to_owned();
            let ok = case(
                || format!("{} with {} as {:?}", w.name, if dir { "a directory" } else { "/dev/full" }, n),
                || {
                    let d = fresh("w");
                    let t = d.join(&n);
                    if dir {
                        std::fs::create_dir(&t).expect("scratch");
                    } else if std::os::unix::fs::symlink("/dev/full", &t).is_err() {
                        return Ok(());
                    }
                    nontrivial();
                    let r = guard(|| (w.write)(&d));
                    if !dir && std::fs::symlink_metadata(&t).map(|m| m.file_type().is_symlink()).unwrap_or(false) {
                        // nothing was kept: what a reader of a real file would find
                        std::fs::remove_file(&t).expect("scratch");
                        std::fs::write(&t, b"").expect("scratch");
                    }
                    judge(w, &d, r, &format!("{:?} is {}", n, if dir { "a directory" } else { "full" }))
                },
            );
            if !ok {
                return;
            }
        }
    }
    case(
        || format!("{} into a missing directory", w.name),
        || {
            let d = fresh("w").join("missing");
            let r = guard(|| (w.write)(&d));
            nontrivial();
            judge(w, &d, r, "the directory is missing")
        },
    );
}

fn read_csv<C: Cfg>(d: &Path) -> Result<Map<C>, String> {
    let mut g = Map::<C>::new();
    CSVReader::<C::Id, C::N, C::E>::new(Some(d.join("n.csv")), d.join("e.csv")).read(&mut g).map_err(|e| format!("reading fails: {}", e))?;
    Ok(g)
}

fn writers<C: Cfg>(it: &Item<C>, f: &mut dyn FnMut(&Writer)) {
    let (g, m) = (&it.g, &it.m);
    let ids = probe_ids::<C>(m, &[0, 1, 2]);
    let asp = if m.nodes.len() > 60 { COUNT | ENUM | DICT } else { ALL };
    let s = if m.dense() { Some(freeze::<C>(g)) } else { None };
    f(&Writer {
        name: format!("export mutable {}", it.text),
        write: &|d| g.export(d.join("x")).map_err(|e| e.to_string()),
        verify: &|d| {
            let c = Map::<C>::import(d.join("x")).map_err(|e| format!("import fails: {}", e))?;
            view::<C>(C::gg(&c), m, asp, "mutable", &ids)
        },
    });
    if let Some(s) = &s {
        f(&Writer {
            name: format!("export static {}", it.text),
            write: &|d| s.export(d.join("x")).map_err(|e| e.to_string()),
            verify: &|d| {
                let c = Stat::<C>::import(d.join("x")).map_err(|e| format!("import fails: {}", e))?;
                view::<C>(C::sg(&c), m, asp, "static", &ids)
            },
        });
        f(&Writer {
            name: format!("dump_mmap {}", it.text),
            write: &|d| s.dump_mmap(d.join("g").to_str().unwrap()).map_err(|e| e.to_string()),
            verify: &|d| {
                let c = Mm::<C>::new(d.join("g").to_str().unwrap());
                view::<C>(&c, m, asp, "mmap", &ids)
            },
        });
    }
    f(&Writer {
        name: format!("csv {}", it.text),
        write: &|d| CSVWriter::new(C::gg(g), d.join("n.csv"), d.join("e.csv")).write().map_err(|e| e.to_string()),
        verify: &|d| {
            let c = read_csv::<C>(d)?;
            if m.nodes.len() > 60 {
                want!(c == *g, "the graph read back is a different one");
                Ok(())
            } else {
                same_graph::<C>(C::gg(&c), m, "the graph read back, a mutable")
            }
        },
    });
}

fn c16_family<C: Cfg>(ps: Vec<Profile>) {
    let items = family::<C>(ps);
    par_for(items.len(), 1, |i| {
        let it = &items[i];
        let big = it.m.nodes.len() > 60;
        writers::<C>(it, &mut |w| {
            if !stopped() {
                faults(w, !big || thorough() || it.m.nodes.len() < 130)
            }
        });
    });
}

fn c16_parts() {
    // the pieces on their own
    let sizes: &[usize] = &[0, 1, 7, 1023, 1024, 1025, 2500, 5000, 20_000];
    par_for(sizes.len(), 1, |i| {
        let n = sizes[i];
        let v: Vec<u64> = (0..n as u64).map(|x| x * 7 + 1).collect();
        faults(
            &Writer {
                name: format!("mmap::dump of {} numbers", n),
                write: &|d| {
                    let f = std::fs::File::create(d.join("x")).map_err(|e| e.to_string())?;
                    unsafe { dump(&v, f) }.map_err(|e| e.to_string())
                },
                verify: &|d| {
                    let t = TypedMemoryMap::<u64>::new(d.join("x"));
                    want!(t[..] == v[..], "{} numbers are read back, {} were written (or they differ)", t[..].len(), v.len());
                    Ok(())
                },
            },
            true,
        );
        let labels = SetMap::from_vec((0..n.min(250)).map(|k| String::mk(k as Letter)).collect());
        faults(
            &Writer {
                name: format!("export of a label map of {}", labels.len()),
                write: &|d| labels.export(d.join("x")).map_err(|e| e.to_string()),
                verify: &|d| {
                    let l = SetMap::<String>::import(d.join("x")).map_err(|e| format!("import fails: {}", e))?;
                    want!(l == labels, "a different label map is read back");
                    Ok(())
                },
            },
            true,
        );
        let k = n.min(3000);
        let offsets: Vec<usize> = (0..=k).collect();
        let edges: Vec<u32> = (0..k as u32).map(|x| (x * 13 + 5) % (k.max(1) as u32)).collect();
        for labelled in [false, true] {
            let ev: EdgeVec<u32, u32> = if labelled {
                EdgeVec::with_labels(offsets.clone(), edges.clone(), edges.iter().map(|x| x % 5).collect())
            } else {
                EdgeVec::new(offsets.clone(), edges.clone())
            };
            faults(
                &Writer {
                    name: format!("edge vector of {} nodes, labels {}", k, labelled),
                    write: &|d| ev.dump_mmap(d.join("v").to_str().unwrap()).map_err(|e| e.to_string()),
                    verify: &|d| {
                        let x = rust_graph::graph_impl::static_graph::mmap::EdgeVecMmap::<u32, u32>::new(d.join("v").to_str().unwrap());
                        want!(
                            x.get_offsets() == ev.get_offsets() && x.get_edges() == ev.get_edges() && x.get_labels() == ev.get_labels(),
                            "a different edge vector is read back"
                        );
                        Ok(())
                    },
                },
                true,
            );
        }
    });
}

/// The same with a limit the kernel enforces (file size), one at a time as it holds for the whole process.
fn c16_kernel<C: Cfg>(ps: Vec<Profile>) {
    let items = family::<C>(ps);
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let limit = |n: u64| unsafe {
        let r = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r)
    };
    for it in &items {
        writers::<C>(it, &mut |w| {
            let d = fresh("w");
            let _ = guard(|| (w.write)(&d));
            let top = files(&d).iter().map(|x| x.1).max().unwrap_or(0);
            for n in 0..top {
                if stopped() {
                    return;
                }
                case(
                    || format!("{} with files limited to {} bytes", w.name, n),
                    || {
                        let d = fresh("w");
                        if limit(n) != 0 {
                            return Ok(());
                        }
                        let r = guard(|| (w.write)(&d));
                        limit(libc::RLIM_INFINITY);
                        nontrivial();
                        judge(w, &d, r, &format!("files limited to {} bytes", n))
                    },
                );
            }
        });
    }
}

fn c16() {
    let th = thorough();
    let pick = |n: &str| if th { Profile::new(n, &[0, 1], &a1(), &a1()) } else { Profile::new(n, &[0, 1], &a1(), &s1()).no_loops().flags(F_ADDN | F_ADDE) };
    let with = |mut v: Vec<Profile>| {
        v.insert(0, pick("2"));
        v
    };
    c16_family::<U32Un>(with(shapes::<U32Un>(true)));
    c16_family::<U32Di>(with(shapes::<U32Di>(true)));
    c16_family::<StrDi>(with(shapes::<StrDi>(th)));
    c16_family::<StrUn>(with(if th { shapes::<StrUn>(th) } else { vec![] }));
    c16_family::<MixUn>(with(if th { shapes::<MixUn>(th) } else { vec![] }));
    c16_family::<U8Di>(with(if th { shapes::<U8Di>(th) } else { vec![] }));
    c16_parts();
    let k = |n: &str| Profile::new(n, &[], &a0(), &a0()).depth(0).inits(vec![
        Init::Script(rainbow(3)),
        Init::Script(path(2)),
        Init::Script(star(5, 0)),
    ]);
    c16_kernel::<StrDi>(vec![k("kernel")]);
    c16_kernel::<U32Un>(vec![k("kernel")]);
}

// ---------------------------------------------------------------- C17

fn write_csv<C: Cfg>(g: &Gen<C>, sep: Option<&str>, d: &Path) -> Res {
    let (n, e) = (d.join("n.csv"), d.join("e.csv"));
    let w = match sep {
        None => CSVWriter::new(g, &n, &e),
        Some(s) => CSVWriter::with_separator(g, &n, &e, s),
    };
    w.write().map_err(|e| format!("CSV writing failed: {}", e))
}

fn load_csv<C: Cfg>(sep: Option<&str>, headers: bool, flexible: bool, d: &Path) -> Result<Map<C>, String> {
    let (n, e) = (d.join("n.csv"), d.join("e.csv"));
    let mut g = Map::<C>::new();
    let r = match sep {
        None => CSVReader::<C::Id, C::N, C::E>::new(Some(&n), &e),
        Some(s) => CSVReader::with_separator(Some(&n), &e, s),
    };
    r.headers(headers).flexible(flexible).read(&mut g).map_err(|e| format!("CSV reading failed: {}", e))?;
    Ok(g)
}

pub struct Csv;
impl StateCheck for Csv {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        // the unit label is written as an empty field, which means no label
        if std::mem::size_of::<C::N>() == 0 && m.nodes.values().chain(m.edges.values()).any(|l| l.is_some()) {
            return Ok(());
        }
        nontrivial();
        let d = scratch_dir();
        reps::<C>(g, m, &mut |g, who| {
            let seps: &[Option<&str>] =
                if who == "mutable" && m.nodes.len() < 30 { &[None, Some("space"), Some("tab"), Some(";")] } else { &[None] };
            for &sep in seps {
                write_csv::<C>(g, sep, &d)?;
                for headers in [true, false] {
                    let c = load_csv::<C>(sep, headers, !headers, &d)?;
                    let what = format!("{} graph over CSV (separator {:?}, headers {}), a mutable", who, sep, headers);
                    if m.nodes.len() < 30 {
                        same_graph::<C>(C::gg(&c), m, &what)?;
                    } else {
                        view::<C>(C::gg(&c), m, COUNT | ENUM, &what, &[])?;
                    }
                }
            }
            Ok(())
        })
    }
}

/// All label pairs x all separators on one small graph.
fn c17_matrix<C: Cfg>(letters: Letter) {
    let mut seps: Vec<String> = vec!["comma".into(), "space".into(), "tab".into()];
    for b in 0u8..128 {
        if b != b'"' && b != b'\r' && b != b'\n' {
            if thorough() || !b.is_ascii_alphanumeric() || b"0a1nNtT".contains(&b) {
                seps.push((b as char).to_string());
            }
        }
    }
    bound(format!("{}: {} separators x all pairs of {} labels", C::NAME, seps.len(), letters));
    let mut graphs: Vec<(Map<C>, Model, String)> = vec![];
    for a in 0..letters {
        for b in 0..letters {
            let i = Init::Script(vec![
                Op::AddNode(3, Some(a)),
                Op::AddNode(1, None),
                Op::AddNode(0, Some(b)),
                Op::AddNode(10, None),
                Op::AddEdge(3, 1, Some(b)),
                Op::AddEdge(1, 0, None),
                Op::AddEdge(0, 0, Some(a)),
            ]);
            let (g, m) = i.make::<C>();
            graphs.push((g, m, format!("{} labels {:?} {:?}", C::NAME, C::N::mk(a), C::N::mk(b))));
        }
    }
    struct S<C: Cfg>(Vec<(Map<C>, Model, String)>);
    unsafe impl<C: Cfg> Sync for S<C> {}
    let graphs = S::<C>(graphs);
    let graphs = &graphs;
    par_for(graphs.0.len() * seps.len(), 16, |k| {
        let (g, m, t) = &graphs.0[k / seps.len()];
        let sep = &seps[k % seps.len()];
        let ok = case(
            || format!("{} separator {:?}", t, sep),
            || {
                nontrivial();
                let d = scratch_dir();
                write_csv::<C>(C::gg(g), Some(sep), &d)?;
                for (h, f) in [(true, false), (false, false), (true, true)] {
                    let c = load_csv::<C>(Some(sep), h, f, &d)?;
                    same_graph::<C>(C::gg(&c), m, &format!("read back (headers {}, flexible {}), a mutable", h, f))?;
                }
                Ok(())
            },
        );
        if !ok {
            run().stop.store(true, Relaxed);
        }
    });
}

fn c17() {
    csv_names::<U32Di>();
    csv_names::<StrUn>();
    Sweep { cost: Cost::Heavy, giants: true, ..Default::default() }.run(&Csv);
    c17_matrix::<StrDi>(STRS.len() as Letter);
    c17_matrix::<StrUn>(if thorough() { STRS.len() as Letter } else { 5 });
    c17_matrix::<U32Un>(3);
    c17_matrix::<MixUn>(if thorough() { STRS.len() as Letter } else { 5 });
    c17_matrix::<MixDi>(if thorough() { STRS.len() as Letter } else { 5 });
    // the free functions
    let items = family::<U32Un>(shapes::<U32Un>(false));
    for it in &items {
        case(
            || format!("write_to_csv / read_from_csv {}", it.text),
            || {
                let d = scratch_dir();
                let (n, e) = (d.join("n.csv"), d.join("e.csv"));
                write_to_csv(U32Un::gg(&it.g), &n, &e).map_err(|e| e.to_string())?;
                for sep in [None, Some("comma"), Some(",")] {
                    for h in [true, false] {
                        for f in [true, false] {
                            let mut g = Map::<U32Un>::new();
                            read_from_csv(&mut g, Some(&n), &e, sep, h, f).map_err(|e| e.to_string())?;
                            same_graph::<U32Un>(U32Un::gg(&g), &it.m, "read back, a mutable")?;
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C18

/// One field as it stands in the file, and the text it means.
#[derive(Clone, Debug)]
struct Cell {
    raw: Vec<u8>,
    val: Option<String>, // None: not UTF-8
}
fn c(raw: &str) -> Cell {
    let val = if raw.len() > 1 && raw.starts_with('"') { raw[1..raw.len() - 1].replace("\"\"", "\"") } else { raw.to_string() };
    Cell { raw: raw.as_bytes().to_vec(), val: Some(val) }
}

type Row = Vec<Cell>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum LabelKind {
    Text,
    Number,
}

struct Layout {
    /// Column names in order; None: no header row.
    header: Option<Vec<&'static str>>,
    /// What each column means.
    cols: Vec<&'static str>,
}

/// What a reader must make of the rows: (required ids, label) of each row it applies.
fn applied(rows: &[&Row], lay: &Layout, ids: &[&'static str], label: &'static str, flexible: bool, kind: LabelKind, max: u64) -> Vec<(Vec<u64>, Option<String>)> {
    let mut out = vec![];
    let mut count: Option<usize> = lay.header.as_ref().map(|h| h.len());
    for r in rows {
        if r.len() == 1 && r[0].raw.is_empty() {
            continue; // a blank line
        }
        let first = *count.get_or_insert(r.len());
        if r.len() != first && !flexible {
            continue;
        }
        let field = |name: &str| lay.cols.iter().position(|x| *x == name).and_then(|i| r.get(i));
        let parsed: Option<Vec<u64>> = ids
            .iter()
            .map(|n| field(n).and_then(|c| c.val.as_ref()).and_then(|v| v.parse::<u64>().ok()).filter(|&v| v <= max))
            .collect();
        if r.iter().any(|c| c.val.is_none()) {
            continue; // not text at all (only used in id columns)
        }
        if let Some(v) = parsed {
            let l = field(label).and_then(|c| c.val.clone()).filter(|l| !l.is_empty());
            let l = match kind {
                LabelKind::Text => l,
                LabelKind::Number => l.filter(|l| l.parse::<u32>().is_ok()),
            };
            out.push((v, l));
        }
    }
    out
}

fn file_of(rows: &[&Row], lay: &Layout, sep: u8, eol: &str, last_eol: bool) -> Vec<u8> {
    let mut lines: Vec<Vec<u8>> = vec![];
    if let Some(h) = &lay.header {
        lines.push(h.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>().join(&sep));
    }
    for r in rows {
        lines.push(r.iter().map(|c| c.raw.clone()).collect::<Vec<_>>().join(&sep));
    }
    let mut out = lines.join(eol.as_bytes());
    if last_eol && !lines.is_empty() {
        out.extend(eol.as_bytes());
    }
    out
}

/// Permute the columns of rows given in canonical order.
fn arrange(r: &Row, order: &[usize]) -> Row {
    if r.len() == 1 && r[0].raw.is_empty() {
        return r.clone();
    }
    let mut v: Vec<(usize, Cell)> = vec![];
    for (i, c) in r.iter().enumerate() {
        v.push((order.iter().position(|&o| o == i).unwrap_or(i), c.clone()));
    }
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

fn label_of<T: Lab>(kind: LabelKind, l: &Option<String>) -> Option<T> {
    l.as_ref().map(|l| match kind {
        LabelKind::Text => serde_from::<T>(l),
        LabelKind::Number => serde_from::<T>(l),
    })
}

/// A label from its text (labels are strings or numbers).
fn serde_from<T: Lab>(l: &str) -> T {
    use std::any::Any;
    let s: Box<dyn Any> = Box::new(l.to_string());
    if let Ok(t) = s.downcast::<T>() {
        return *t;
    }
    let n: Box<dyn Any> = Box::new(l.parse::<u32>().expect("number"));
    *n.downcast::<T>().expect("u32 label")
}

struct Plain<N, E> {
    nodes: std::collections::BTreeMap<u64, Option<N>>,
    edges: std::collections::BTreeMap<(u64, u64), Option<E>>,
}

fn judge_read<C: Cfg>(g: &Map<C>, want: &Plain<C::N, C::E>, what: &str) -> Res {
    let x: &Gen<C> = C::gg(g);
    want!(
        x.node_count() == want.nodes.len() && x.edge_count() == want.edges.len(),
        "{}: {} nodes and {} edges, expected {:?} / {:?}", what, x.node_count(), x.edge_count(), want.nodes, want.edges
    );
    for (&v, l) in &want.nodes {
        let id = C::Id::new(v as usize);
        want!(x.has_node(id), "{}: node {} is missing, expected {:?}", what, v, want.nodes);
        want!(x.get_node_label(id) == l.as_ref(), "{}: node {} carries {:?}, expected {:?}", what, v, x.get_node_label(id), l);
    }
    for (&(s, t), l) in &want.edges {
        let (a, b) = (C::Id::new(s as usize), C::Id::new(t as usize));
        want!(x.has_edge(a, b), "{}: edge ({},{}) is missing, expected {:?}", what, s, t, want.edges);
        want!(x.get_edge_label(a, b) == l.as_ref(), "{}: edge ({},{}) carries {:?}, expected {:?}", what, s, t, x.get_edge_label(a, b), l);
    }
    Ok(())
}

#[derive(Clone)]
struct Source {
    lay_header: Option<Vec<&'static str>>,
    order: Vec<usize>,
    flexible: bool,
    sep: u8,
    eol: &'static str,
    last_eol: bool,
    base: bool,
}

impl Source {
    fn text(&self) -> String {
        format!(
            "header {:?}, columns {:?}, flexible {}, separator {:?}, line end {:?}, at the end {}, into a {} graph",
            self.lay_header, self.order, self.flexible, self.sep as char, self.eol, self.last_eol, if self.base { "filled" } else { "new" }
        )
    }
}

fn sep_name(b: u8) -> String {
    match b {
        b',' => "comma".into(),
        b' ' => "space".into(),
        b'\t' => "tab".into(),
        x => (x as char).to_string(),
    }
}

const NCOL: [&str; 2] = ["nodeId:ID", ":LABEL"];
const ECOL: [&str; 3] = [":START_ID", ":END_ID", ":TYPE"];

fn read_case<C: Cfg>(nodes: Option<&[&Row]>, edges: &[&Row], src: &Source, kn: LabelKind, ke: LabelKind) -> Res {
    let d = scratch_dir();
    let (np, ep) = (d.join("n.csv"), d.join("e.csv"));
    let max = C::Id::max_value().id() as u64;
    // columns of the file under test follow the source, the other file is in standard order
    let lay = |cols: &[&'static str], order: &[usize]| -> Layout {
        let named: Vec<&'static str> = order.iter().map(|&o| cols[o]).collect();
        let header = src.lay_header.as_ref().map(|h| if h.is_empty() { named.clone() } else { h.clone() });
        let cols = match &header {
            Some(h) => h.clone(),
            None => cols.to_vec(),
        };
        Layout { header, cols }
    };
    let (norder, eorder): (Vec<usize>, Vec<usize>) =
        if src.order.len() == 2 { (src.order.clone(), vec![0, 1, 2]) } else { (vec![0, 1], src.order.clone()) };
    let (nl, el) = (lay(&NCOL, &norder), lay(&ECOL, &eorder));
    let nr: Vec<Row> = nodes.unwrap_or(&[]).iter().map(|r| arrange(r, if nl.header.is_some() { &norder } else { &[0, 1] })).collect();
    let er: Vec<Row> = edges.iter().map(|r| arrange(r, if el.header.is_some() { &eorder } else { &[0, 1, 2] })).collect();
    let (nr, er): (Vec<&Row>, Vec<&Row>) = (nr.iter().collect(), er.iter().collect());
    let nb = file_of(&nr, &nl, src.sep, src.eol, src.last_eol);
    let eb = file_of(&er, &el, src.sep, src.eol, src.last_eol);
    std::fs::write(&np, &nb).expect("scratch");
    std::fs::write(&ep, &eb).expect("scratch");
    let an = applied(&nr, &nl, &["nodeId:ID"], ":LABEL", src.flexible, kn, max);
    let ae = applied(&er, &el, &[":START_ID", ":END_ID"], ":TYPE", src.flexible, ke, max);

    let mut want = Plain::<C::N, C::E> { nodes: Default::default(), edges: Default::default() };
    let mut g = Map::<C>::new();
    if src.base {
        use rust_graph::generic::MutGraphTrait;
        for (v, l) in [(1u64, Some(C::N::mk(0))), (50, None), (60, Some(C::N::mk(1)))] {
            g.add_node(C::Id::new(v as usize), l.clone());
            want.nodes.insert(v, l);
        }
        g.add_edge(C::Id::new(1), C::Id::new(50), Some(C::E::mk(1)));
        let k = if C::DIR { (1, 50) } else { (1, 50) };
        want.edges.insert(k, Some(C::E::mk(1)));
    }
    for (v, l) in &an {
        want.nodes.insert(v[0], label_of::<C::N>(kn, l));
    }
    for (v, l) in &ae {
        for x in v {
            want.nodes.entry(*x).or_insert(None);
        }
        let k = if C::DIR || v[0] <= v[1] { (v[0], v[1]) } else { (v[1], v[0]) };
        want.edges.insert(k, label_of::<C::E>(ke, l));
    }
    let show = || format!("{:?} / {:?}", String::from_utf8_lossy(&nb), String::from_utf8_lossy(&eb));
    let np2 = nodes.map(|_| &np);
    let r = if src.sep == b',' && src.last_eol { CSVReader::<C::Id, C::N, C::E>::new(np2, &ep) } else { CSVReader::with_separator(np2, &ep, &sep_name(src.sep)) };
    // a reader left alone expects a header row and rows of equal length
    let r = if src.lay_header.is_some() { r } else { r.headers(false) };
    let r = if src.flexible { r.flexible(true) } else { r };
    r.read(&mut g).map_err(|e| format!("reading {} fails: {}", show(), e))?;
    judge_read::<C>(&g, &want, &format!("reading {}", show()))?;
    let got: Vec<(u64, Option<C::N>)> =
        r.node_iter().map_err(|e| e.to_string())?.take(1_000_000).map(|(i, l)| (i.id() as u64, l)).collect();
    let exp: Vec<(u64, Option<C::N>)> = if nodes.is_some() { an.iter().map(|(v, l)| (v[0], label_of::<C::N>(kn, l))).collect() } else { vec![] };
    want!(got == exp, "node_iter() on {} yields {:?}, expected {:?}", show(), got, exp);
    let got: Vec<(u64, u64, Option<C::E>)> =
        r.edge_iter().map_err(|e| e.to_string())?.take(1_000_000).map(|(s, t, l)| (s.id() as u64, t.id() as u64, l)).collect();
    let exp: Vec<(u64, u64, Option<C::E>)> = ae.iter().map(|(v, l)| (v[0], v[1], label_of::<C::E>(ke, l))).collect();
    want!(got == exp, "edge_iter() on {} yields {:?}, expected {:?}", show(), got, exp);
    // a copy of the reader reads the same
    let mut h = Map::<C>::new();
    let plain = Plain::<C::N, C::E> {
        nodes: {
            let mut n: std::collections::BTreeMap<u64, Option<C::N>> = Default::default();
            if nodes.is_some() {
                for (v, l) in &an {
                    n.insert(v[0], label_of::<C::N>(kn, l));
                }
            }
            for (v, _) in &ae {
                for x in v {
                    n.entry(*x).or_insert(None);
                }
            }
            n
        },
        edges: {
            let mut e: std::collections::BTreeMap<(u64, u64), Option<C::E>> = Default::default();
            for (v, l) in &ae {
                let k = if C::DIR || v[0] <= v[1] { (v[0], v[1]) } else { (v[1], v[0]) };
                e.insert(k, label_of::<C::E>(ke, l));
            }
            e
        },
    };
    r.clone().read(&mut h).map_err(|e| format!("reading {} with a copied reader fails: {}", show(), e))?;
    judge_read::<C>(&h, &plain, &format!("reading {} with a copied reader", show()))
}

fn node_rows() -> Vec<Row> {
    let mut v: Vec<Row> = vec![
        vec![c("1"), c("5")],
        vec![c("2"), c("")],
        vec![c("1"), c("6")],
        vec![c("x"), c("7")],
        vec![c(""), c("8")],
        vec![c("3")],
        vec![c("4"), c("9"), c("1")],
        vec![c("-1"), c("9")],
        vec![c("")],
        vec![c("5"), c(" lab ")],
        vec![c("\"6\""), c("\"12\"")],
        vec![c("99999999999999999999999"), c("5")],
        vec![c("7"), c("\"a,b \"\"q\"\"\"")],
        vec![c("1.5"), c("5")],
        vec![c("256"), c("5")],
        vec![c("255"), c("5")],
        vec![c("#9"), c("5")],
        vec![c("9"), c("#5")],
        vec![c(" 10"), c("5")],
        vec![c("007"), c("+5")],
        vec![c("11"), c("'5'")],
    ];
    v.push(vec![Cell { raw: vec![b'8', 0xff], val: None }, c("5")]);
    v
}

fn edge_rows() -> Vec<Row> {
    let mut v: Vec<Row> = vec![
        vec![c("1"), c("2"), c("5")],
        vec![c("2"), c("1"), c("")],
        vec![c("1"), c("2"), c("6")],
        vec![c("3"), c("3"), c("7")],
        vec![c("x"), c("2"), c("8")],
        vec![c("1"), c("x"), c("8")],
        vec![c(""), c("2"), c("8")],
        vec![c("1"), c(""), c("8")],
        vec![c("4"), c("1")],
        vec![c("4")],
        vec![c("4"), c("2"), c("9"), c("1")],
        vec![c("")],
        vec![c("5"), c("1"), c(" lab ")],
        vec![c("\"6\""), c("\"1\""), c("\"12\"")],
        vec![c("256"), c("1"), c("5")],
        vec![c("1"), c("-2"), c("5")],
        vec![c("1"), c("\"7\n\""), c("5")],
        vec![c("2"), c("5"), c("\"a\nb\"")],
        vec![c("#1"), c("2"), c("5")],
        vec![c("1"), c("3"), c("#5")],
        vec![c("1"), c("3 "), c("5")],
        vec![c("003"), c("1"), c("'5\\\"")],
    ];
    v.push(vec![c("1"), Cell { raw: vec![0xc3, 0x28], val: None }, c("5")]);
    v
}

fn sequences<'a>(rows: &'a [Row], len: usize) -> Vec<Vec<&'a Row>> {
    let mut out: Vec<Vec<&Row>> = vec![vec![]];
    let mut last: Vec<Vec<&Row>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &last {
            for r in rows {
                let mut t = s.clone();
                t.push(r);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn c18_run<C: Cfg>(node_file: bool, len: usize, srcs: &[Source], kn: LabelKind, ke: LabelKind) {
    let rows = if node_file { node_rows() } else { edge_rows() };
    let seqs = sequences(&rows, len);
    bound(format!(
        "{} {} file: {} row sequences (up to {} of {} rows) x {} ways of reading",
        C::NAME, if node_file { "node" } else { "edge" }, seqs.len(), len, rows.len(), srcs.len()
    ));
    let fixed_n: Vec<Row> = vec![vec![c("2"), c("5")], vec![c("9"), c("")]];
    let fixed_e: Vec<Row> = vec![vec![c("1"), c("2"), c("5")], vec![c("2"), c("9"), c("")]];
    let fnr: Vec<&Row> = fixed_n.iter().collect();
    let fer: Vec<&Row> = fixed_e.iter().collect();
    par_for(seqs.len() * srcs.len(), 64, |k| {
        let s = &seqs[k / srcs.len()];
        let src = &srcs[k % srcs.len()];
        let show = || {
            s.iter()
                .map(|r| r.iter().map(|c| String::from_utf8_lossy(&c.raw).replace('\n', "\\n")).collect::<Vec<_>>().join("|"))
                .collect::<Vec<_>>()
                .join(" ; ")
        };
        let ok = case(
            || format!("{} {} rows [{}] {}", C::NAME, if node_file { "node" } else { "edge" }, show(), src.text()),
            || {
                nontrivial();
                if node_file {
                    read_case::<C>(Some(s), &fer, src, kn, ke)
                } else {
                    read_case::<C>(if s.len() % 2 == 0 { Some(&fnr) } else { None }, s, src, kn, ke)
                }
            },
        );
        if !ok {
            run().stop.store(true, Relaxed);
        }
    });
}

fn std_with(std: &Source, cols: usize, flexible: bool, header: bool) -> Source {
    Source { lay_header: if header { Some(vec![]) } else { None }, order: (0..cols).collect(), flexible, ..std.clone() }
}

/// Long files: every kind of row once, or many times, at the start, in the middle and at the end of thousands of
/// readable ones; and every kind of row often in a row.
fn c18_long<C: Cfg>(kn: LabelKind, ke: LabelKind, srcs: &[Source], n: usize) {
    let good_n: Vec<Row> = (0..n).map(|i| vec![c(&(i * 3).to_string()), c(&if i % 5 == 0 { String::new() } else { (i % 9).to_string() })]).collect();
    let good_e: Vec<Row> = (0..n)
        .map(|i| vec![c(&(i * 3 % n).to_string()), c(&(i * 7 % 1000).to_string()), c(&if i % 4 == 0 { String::new() } else { (i % 11).to_string() })])
        .collect();
    let (rn, re) = (node_rows(), edge_rows());
    let few_e: Vec<&Row> = good_e[..3].iter().collect();
    let reps = [1usize, 2, 9, 64, 300];
    let places = [0, 1, n / 2, n];
    let total = rn.len() + re.len();
    bound(format!("{}: files of {} rows with each of {} kinds of rows {:?} times at {:?}, {} ways of reading", C::NAME, n, total, reps, places, srcs.len()));
    par_for(total * reps.len() * places.len() * srcs.len(), 4, |k| {
        let src = &srcs[k % srcs.len()];
        let k = k / srcs.len();
        let at = places[k % places.len()];
        let k = k / places.len();
        let times = reps[k % reps.len()];
        let k = k / reps.len();
        let (good, odd): (&[Row], &Row) = if k < rn.len() { (&good_n, &rn[k]) } else { (&good_e, &re[k - rn.len()]) };
        let rows: Vec<&Row> = good[..at].iter().chain((0..times).map(|_| odd)).chain(good[at..].iter()).collect();
        let what = odd.iter().map(|c| String::from_utf8_lossy(&c.raw).replace('\n', "\\n")).collect::<Vec<_>>().join("|");
        let ok = case(
            || format!("{} {} readable rows with [{}] {} times from row {} on, {}", C::NAME, n, what, times, at, src.text()),
            || {
                nontrivial();
                let cut = |e: String| if e.len() > 1500 { format!("{} ...", e.chars().take(700).collect::<String>()) } else { e };
                if k < rn.len() {
                    read_case::<C>(Some(&rows), &few_e, src, kn, ke).map_err(cut)
                } else {
                    read_case::<C>(None, &rows, src, kn, ke).map_err(cut)
                }
            },
        );
        if !ok {
            run().stop.store(true, Relaxed);
        }
    });
}

fn c18() {
    use LabelKind::*;
    let th = thorough();
    let std = Source { lay_header: Some(vec![]), order: vec![], flexible: false, sep: b',', eol: "\n", last_eol: true, base: false };
    // ways of reading: header (in every column order) or none, flexible or not, separators, line ends
    let ways = |cols: usize, all: bool| -> Vec<Source> {
        let mut orders: Vec<Vec<usize>> = vec![(0..cols).collect(), (0..cols).rev().collect()];
        if cols == 3 {
            orders.push(vec![1, 0, 2]);
            orders.push(vec![2, 0, 1]);
        }
        let mut v = vec![];
        for flexible in [false, true] {
            v.push(Source { lay_header: None, order: (0..cols).collect(), flexible, ..std.clone() });
            v.push(Source { lay_header: None, order: (0..cols).collect(), flexible, sep: b';', eol: "\r\n", base: true, ..std.clone() });
            for (i, o) in orders.iter().enumerate() {
                v.push(Source { order: o.clone(), flexible, base: i == 1, ..std.clone() });
                if all {
                    v.push(Source { order: o.clone(), flexible, sep: b'\t', last_eol: false, ..std.clone() });
                    v.push(Source { order: o.clone(), flexible, sep: b'|', eol: "\r\n", last_eol: i % 2 == 0, base: true, ..std.clone() });
                }
            }
            // headers naming only the ids, or not the ids
            if cols == 2 {
                v.push(Source { lay_header: Some(vec!["nodeId:ID"]), order: vec![0, 1], flexible, ..std.clone() });
                v.push(Source { lay_header: Some(vec![":LABEL"]), order: vec![0, 1], flexible, ..std.clone() });
            } else {
                v.push(Source { lay_header: Some(vec![":START_ID", ":END_ID"]), order: vec![0, 1, 2], flexible, ..std.clone() });
                v.push(Source { lay_header: Some(vec![":START_ID"]), order: vec![0, 1, 2], flexible, ..std.clone() });
            }
        }
        v
    };
    c18_run::<U32Di>(true, 3, &ways(2, true), Number, Number);
    c18_run::<U32Un>(false, if th { 3 } else { 2 }, &ways(3, true), Number, Number);
    c18_run::<U32Di>(false, 3, &ways(3, th), Number, Number);
    c18_run::<StrUn>(true, if th { 3 } else { 2 }, &ways(2, true), Text, Text);
    c18_run::<StrDi>(false, if th { 3 } else { 2 }, &ways(3, true), Text, Text);
    c18_run::<U8Un>(true, if th { 3 } else { 2 }, &ways(2, true), Number, Number);
    c18_run::<U8Di>(false, if th { 3 } else { 2 }, &ways(3, true), Number, Number);
    c18_run::<MixUn>(true, 2, &ways(2, true), Text, Number);
    c18_run::<MixDi>(false, 2, &ways(3, true), Number, Text);
    if th {
        c18_run::<U32Di>(true, 4, &ways(2, false), Number, Number);
    }
    let some = |cols: usize| -> Vec<Source> {
        vec![
            std_with(&std, cols, false, true),
            std_with(&std, cols, true, true),
            std_with(&std, cols, false, false),
            std_with(&std, cols, true, false),
        ]
    };
    c18_long::<U32Di>(Number, Number, &some(3), if th { 20_000 } else { 3_000 });
    c18_long::<StrUn>(Text, Text, &some(3)[..if th { 4 } else { 1 }], if th { 20_000 } else { 3_000 });
    // files that are not there
    for (what, n, e) in [("edges", "n.csv", "gone.csv"), ("nodes", "gone.csv", "n.csv")] {
        case(
            || format!("{} file missing", what),
            || {
                let d = scratch_dir();
                std::fs::write(d.join("n.csv"), b"").expect("scratch");
                let mut g = Map::<U32Un>::new();
                let r = CSVReader::<u32, u32, u32>::new(Some(d.join(n)), d.join(e)).read(&mut g);
                want!(r.is_err(), "reading without the {} file reports success", what);
                Ok(())
            },
        );
    }
}

fn main() {
    mc::main(move || {
        vec![
            Prop {
                id: "C14",
                level: "model_checking",
                rule: "every graph state reachable by the listed operations (re-importing being one of them) is exported and imported in every form and compared with the model in full",
                assumptions: &["ids outside the listed alphabets behave like the listed ones"],
                run: c14 as fn(),
            },
            Prop {
                id: "C15",
                level: "fault_enumeration",
                rule: "every graph of the family is exported and every strict prefix of the file (every length from 0) is imported; a case counts as nontrivial when the file really was shortened",
                assumptions: &["a truncated file is a strict prefix of the complete one"],
                run: c15,
            },
            Prop {
                id: "C16",
                level: "fault_enumeration",
                rule: "for every writer and graph: every write call failing (once, or from then on), accepting one byte, or being interrupted; the storage filling up after every number of bytes; each target file being /dev/full or a directory; a missing directory; file size limits enforced by the kernel. A case counts as nontrivial when the fault fired",
                assumptions: &["storage refuses data through write(2) or when a file is opened; nothing is lost after write(2) succeeded"],
                run: c16,
            },
            Prop {
                id: "C17",
                level: "model_checking",
                rule: "every graph state reachable by the listed operations in every representation, and all label pairs x all separators, written as CSV, read back with each reader option and compared with the model in full",
                assumptions: &["separators that CSV itself uses (quote, line ends) are excluded", "labels that are empty strings are excluded"],
                run: c17,
            },
            Prop {
                id: "C18",
                level: "exploration",
                rule: "every sequence of rows (up to the stated length) from an alphabet of readable, short, long, blank, quoted and malformed rows x every way of reading; each is distinct and nontrivial by construction",
                assumptions: &["no unknown or repeated column names", "labels not readable as the label type mean no label"],
                run: c18,
            },
        ]
    })
}
