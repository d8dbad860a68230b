//! C01-C07, C28, C30: the explored graph, in every representation, against the model.
use mc::core::*;
use mc::explore::*;
use mc::fam::*;
use mc::util::*;
use mc::view::*;
use mc::Prop;
use rust_graph::generic::{EdgeTrait, IdType, NodeTrait};

/// The stated aspect of the mutable graph only.
struct Mutable(u32);
impl StateCheck for Mutable {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        view::<C>(C::gg(g), m, self.0, "mutable", &ids)
    }
}

/// The stated aspect of every representation.
struct All(u32);
impl StateCheck for All {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        reps::<C>(g, m, &mut |g, who| view::<C>(g, m, self.0, who, &ids))
    }
}

struct Enums;
impl StateCheck for Enums {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        reps::<C>(g, m, &mut |g, who| view::<C>(g, m, ENUM | LABELIDS, who, &ids))?;
        enum_mut::<C>(&mut g.clone(), m)
    }
}

struct Absent;
impl StateCheck for Absent {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let ids = probe_ids::<C>(m, &[0, 1, 2, 3, 7, 64, 255]);
        reps::<C>(g, m, &mut |g, who| {
            view::<C>(g, m, ABSENT, who, &ids)?;
            if C::Id::max_value().id() == 255 && m.nodes.len() < 5 {
                // narrow ids: ask about every single one
                for i in 0..256 {
                    let x = C::Id::new(i);
                    let here = m.nodes.contains_key(&i);
                    want!(g.has_node(x) == here, "{} graph: has_node({}) = {}", who, i, !here);
                    want!(g.get_node(x).is_some() == here, "{} graph: get_node({}) present: {}", who, i, !here);
                    want!(here || (g.get_node_label(x).is_none() && g.get_node(x).get_label_id().is_none()), "{} graph: absent node {} has a label", who, i);
                    for &j in &ids {
                        for (s, t) in [(i, j), (j, i)] {
                            let (a, b) = (C::Id::new(s), C::Id::new(t));
                            let here = m.has_edge(s, t);
                            want!(g.has_edge(a, b) == here, "{} graph: has_edge({},{}) = {}", who, s, t, !here);
                            want!(g.get_edge(a, b).is_some() == here, "{} graph: get_edge({},{}) present: {}", who, s, t, !here);
                            want!(
                                here || (g.get_edge_label(a, b).is_none() && g.get_edge(a, b).get_label_id().is_none()),
                                "{} graph: absent edge ({},{}) has a label", who, s, t
                            );
                        }
                    }
                }
            }
            Ok(())
        })
    }
}

fn c01() {
    Sweep { strict: true, extra: F_INT | F_MISC, giants: true, ..Default::default() }.run(&Mutable(LOOK | LABELIDS));
}
fn c02() {
    Sweep { extra: F_INT | F_MISC | F_RELOAD | F_REORD, giants: true, ..Default::default() }.run(&All(COUNT));
}
fn c03() {
    Sweep { directed: false, extra: F_RELOAD | F_REORD, giants: true, ..Default::default() }.run(&All(SYM));
}
fn c04() {
    Sweep { undirected: false, extra: F_RELOAD | F_REORD, giants: true, ..Default::default() }.run(&All(INOUT));
}
fn c05() {
    Sweep { giants: true, ..Default::default() }.run(&Enums);
}
fn c06() {
    Sweep { extra: F_INT | F_MISC, giants: true, ..Default::default() }.run(&All(DICT));
}
fn c07() {
    Sweep { extra: F_MISC, giants: true, ..Default::default() }.run(&All(MAXID));
}
fn c28() {
    Sweep { giants: true, ..Default::default() }.run(&All(STATS));
}
fn c30() {
    Sweep { giants: true, ..Default::default() }.run(&Absent);
}

const RULE: &str = "every state reachable from the listed start graphs by the listed operations (to the fixpoint, or to the stated depth) is visited once on the real graph with the model in lockstep; in each state the property's queries are compared with the model over all ids of the graph plus absent and extreme ones";

fn main() {
    let p = |id, run| Prop { id, level: "model_checking", rule: RULE, assumptions: ASSUME, run };
    const ASSUME: &[&str] = &[
        "ids outside the listed alphabets behave like the listed ones (the start shapes and scale graphs vary them)",
        "two graph objects with equal contents in every field behave alike up to hash iteration order",
    ];
    mc::main(move || {
        vec![
            p("C01", c01 as fn()),
            p("C02", c02),
            p("C03", c03),
            p("C04", c04),
            p("C05", c05),
            p("C06", c06),
            p("C07", c07),
            p("C28", c28),
            p("C30", c30),
        ]
    })
}
