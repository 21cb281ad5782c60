use crate::Prop;
mod analyze;
mod coerce;
mod compare;
mod print;
mod spans;
mod syntax;
mod validate;
mod visible;
mod wellformed;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(syntax::props());
    v.extend(coerce::props());
    v.extend(print::props());
    v.extend(validate::props());
    v.extend(compare::props());
    v.extend(analyze::props());
    v.extend(wellformed::props());
    v.extend(spans::props());
    v.extend(visible::props());
    v
}
