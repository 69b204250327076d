use crate::task::Prop;
mod arith;
pub mod gadgets;
pub mod iop;
mod kzg;
pub mod tracker;
pub fn one(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    arith::props(&mut v);
    iop::props(&mut v);
    kzg::props(&mut v);
    tracker::props(&mut v);
    gadgets::props(&mut v);
    let gadgets = || {
        let mut w = vec![];
        gadgets::props(&mut w);
        w
    };
    gadgets::whole_props(gadgets, &mut v);
    v
}
