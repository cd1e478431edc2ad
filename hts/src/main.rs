mod relate;
mod store;
mod terms;
use hcommon::{run, Ctx, Value};

fn main() {
    run(|check| -> Option<Box<dyn FnMut(&mut Ctx, u64, Option<&Value>)>> {
        match check {
            "C14" => Some(Box::new(store::c14)),
            "C15" => Some(Box::new(relate::c15)),
            "C15t" => { let mut c = relate::C15t::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            _ => None,
        }
    });
}
