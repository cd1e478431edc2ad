mod c08;
mod estree;
mod front;
mod hirck;
mod hygiene;
mod lit;
mod optim;
mod scope;
mod syn;
mod tserase;
use hcommon::{run, Ctx, Value};

fn main() {
    run(|check| -> Option<Box<dyn FnMut(&mut Ctx, u64, Option<&Value>)>> {
        match check {
            "C08" => { let mut c = c08::C08::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C04" => { let mut c = lit::C04::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C07" => { let mut c = scope::C07::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C10" => { let mut c = hygiene::C10::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C09" => { let mut c = tserase::C09::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C12" => Some(Box::new(optim::c12)),
            "C11" => { let mut c = optim::C11::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C13" => { let mut c = hirck::C13::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C01" => { let mut c = front::C01::new(); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C03" => Some(Box::new(front::c03)),
            "C06" => Some(Box::new(front::c06)),
            "C06h" => Some(Box::new(front::c06h)),
            "C02" => { let mut c = syn::SynCheck::new(syn::What::Accept); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C03t" => { let mut c = syn::SynCheck::new(syn::What::Spans); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "C05" => { let mut c = syn::SynCheck::new(syn::What::Tree); Some(Box::new(move |ctx, i, r| c.case(ctx, i, r))) }
            "gensyn" => Some(Box::new(|ctx, i, _| { let mut s = ctx.src(i); println!("{}\n----", syn::gen_text(&mut s, 0).src); })),
            "genscope" => Some(Box::new(|ctx, i, _| { let mut s = ctx.src(i); let m = i % 2 == 0; println!("{}\n----", hcommon::gen_scope::Scoper::program(&mut s, m)); })),
            "gen" => Some(Box::new(|ctx, i, _| { let mut s = ctx.src(i); println!("{}\n----", c08::gen_case(&mut s).src); })),
            // dbg: `hjs dbg --out FILE --tier {global|module}` prints the minified form of FILE
            "dbg" => Some(Box::new(|ctx, _, _| {
                let src = std::fs::read_to_string(&ctx.out).unwrap();
                for part in src.split("\n====\n") {
                    let mode = if ctx.tier == "module" { minify_js::TopLevelMode::Module } else { minify_js::TopLevelMode::Global };
                    let d = std::env::var("DIALECT").unwrap_or("js".into());
                    let d = match d.as_str() { "ts" => minify_js::Dialect::Ts, "ecma" => minify_js::Dialect::Ecma, _ => minify_js::Dialect::Js };
                    println!("{}\n  => {:?}", part.trim_end(), c08::minify_str(part, mode, Some(d)));
                }
            })),
            // ast: canonical tree of each snippet (DIALECT, MODULE=1)
            "ast" => Some(Box::new(|ctx, _, _| {
                let src = std::fs::read_to_string(&ctx.out).unwrap();
                for part in src.split("\n====\n") {
                    let d = match std::env::var("DIALECT").as_deref() { Ok("ts") => parse_js::Dialect::Ts, Ok("js") => parse_js::Dialect::Js, _ => parse_js::Dialect::Ecma };
                    let r = syn::parse(part, d, std::env::var("MODULE").is_ok());
                    println!("{}\n  => {}", part.trim_end(), match r { Ok(Ok(a)) => estree::program(&a).to_string(), other => format!("{other:?}") });
                }
            })),
            _ => None,
        }
    });
}
