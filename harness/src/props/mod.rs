use crate::engine::Prop;
mod equal;
mod flat;
mod prim;
mod shapes;
mod types;
mod vast;
mod valid;
mod whole;
mod wktp;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(equal::props());
    v.extend(flat::props());
    v.extend(prim::props());
    v.extend(valid::props());
    v.extend(shapes::props());
    v.extend(types::props());
    v.extend(wktp::props());
    v.extend(whole::props());
    v.sort_by_key(|p| p.id);
    v
}
