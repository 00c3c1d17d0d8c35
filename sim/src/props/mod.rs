use crate::driver::Prop;
paladin::registry!();
mod amqp;
mod api;
mod directives;
mod more;
mod parts;
mod workers;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(directives::props());
    v.extend(workers::props());
    v.extend(parts::props());
    v.extend(amqp::props());
    v.extend(more::props());
    v.extend(api::props());
    v
}
