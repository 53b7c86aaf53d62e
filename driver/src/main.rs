#![feature(rustc_private)]
#![allow(static_mut_refs)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
mod eqv;
mod eval;
mod interp;
mod intrin;
mod lin;
mod loops;
mod scan;
mod show;
mod term;
mod text;
mod value;
use interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let is_target = args.iter().any(|a| a == "verif_harness");
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run!(&args, || -> ControlFlow<(), ()> {
        let h = std::thread::current();
        let _ = h;
        analyse();
        ControlFlow::Continue(())
    });
    if r.is_err() {
        eprintln!("driver err {:?}", r);
        std::process::exit(3);
    }
}

fn analyse() {
    if std::env::var("SHOWPANIC").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    if let Ok(p) = std::env::var("DMI_SCAN") {
        scan::run(&p);
        return;
    }
    let filt = std::env::var("DMI_ENTRY").unwrap_or_default();
    let out = std::env::var("DMI_OUT").ok();
    let k = rustc_public::local_crate();
    let mut models: HashMap<String, FnDef> = HashMap::new();
    let mut entries: BTreeMap<String, FnDef> = BTreeMap::new();
    for f in k.fn_defs() {
        let n = f.name().to_string();
        if std::env::var("LIST").is_ok() {
            eprintln!("{n}");
        }
        if let Some(i) = n.find("models::") {
            models.insert(n[i + 8..].to_string(), f);
        }
        if let Some(i) = n.find("::en::").filter(|_| !matches!(CrateDefType::ty(&f).kind(), TyKind::RigidTy(RigidTy::FnDef(_, ref g)) if g.0.iter().any(|x| matches!(x, GenericArgKind::Type(_))))) {
            entries.insert(n[i + 6..].replace("::", "_"), f);
        }
    }
    let skip = std::env::var("DMI_SKIP").unwrap_or_default();
    for (n, f) in entries {
        if !filt.split(',').any(|p| n.starts_with(p)) || skip.split(',').any(|p| n == p) {
            continue;
        }
        if let Some(p) = &out {
            // so that the entry is known should the process end here
            let _ = std::fs::write(format!("{p}.at"), &n);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entry(&n, f, &models)));
        let line = match r {
            Ok(Some(l)) => l,
            Ok(None) => format!("{{\"entry\":\"{n}\",\"crashed\":\"no body\"}}"),
            Err(e) => {
                let w = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("{{\"entry\":\"{n}\",\"crashed\":\"{}\"}}", w.replace(['"', '\\', '\n'], " "))
            }
        };
        if line.contains("\"verdict\":\"refuted\"") {
            unsafe { term::FOUND = true }
        }
        match &out {
            Some(p) => {
                use std::io::Write;
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).expect("output file");
                writeln!(f, "{line}").expect("write");
            }
            None => println!("{line}"),
        }
    }
}

fn entry(n: &str, f: FnDef, models: &HashMap<String, FnDef>) -> Option<String> {
        term::start_clock();
        term::reset();
        value::reset_consts();
        lin::reset();
        let mut it = Interp::new();
        it.models = models.clone();
        let Ok(inst) = Instance::resolve(f, &GenericArgs(vec![])) else { return None };
        let Some(info) = it.body_of(inst) else { return None };
        let mut avs = vec![];
        let mut objs: Vec<Rc<value::Value>> = vec![];
        let mut tys = vec![];
        for (i, l) in info.body.arg_locals().iter().enumerate() {
            let nm = format!("a{i}");
            let v = match &*value::tyi(l.ty) {
                value::TyI::Ptr { to, fat: false } => {
                    let v = value::symbolic(*to, &nm);
                    objs.push(Rc::new(v));
                    tys.push(*to);
                    value::Value::Scalar(value::obj_ptr(objs.len() as u32 - 1, &[], term::NONE))
                }
                _ => value::symbolic(l.ty, &nm),
            };
            avs.push(v);
        }
        it.obj_tys = tys;
        let st = State { pc: term::TT, objs };
        let dty = info.body.locals()[0].ty;
        let t0 = std::time::Instant::now();
        let mut gave_up = None;
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.call_instance(st, inst, avs, dty))) {
            Ok(r) => r,
            Err(e) => {
                // what was established before giving up stands
                gave_up = Some(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
                if let Some(fs) = it.solid.take() {
                    it.findings = fs;
                }
                term::start_clock_for(15);
                None
            }
        };
        let mut seen: BTreeMap<(String, String, String, usize), (String, String)> = BTreeMap::new();
        let fs = it.findings.clone();
        for f in &fs {
            if !f.in_crate && f.kind != "check" && f.kind != "term" {
                continue;
            }
            let key = (f.kind.clone(), f.name.clone(), f.func.clone(), f.line);
            if seen.get(&key).map(|x| x.0 == "refuted").unwrap_or(false) {
                continue;
            }
            let c = term::m().and(f.cond, it.amb);
            let (v, w) = if gave_up.is_some() {
                match std::panic::catch_unwind(|| eval::witness(c)) {
                    Ok(eval::Verdict::Refuted(w)) => ("refuted", w),
                    _ => continue,
                }
            } else { match eval::witness(c) {
                eval::Verdict::Refuted(w) => ("refuted", w),
                eval::Verdict::Undecided(w) => ("undecided", format!("{w}; condition {}", show::node(c, 6))),
            } };
            if std::env::var("PATHDBG").is_ok() {
                if let Some(p) = lin::feas_path(c) {
                    eprintln!("PATH {} {}", f.kind, f.name);
                    let mut ts = std::collections::HashSet::new();
                    term::m().terms_in(c, &mut ts, &mut std::collections::HashSet::new());
                    let ls: std::collections::BTreeSet<u32> = ts.iter().filter_map(|t| match term::m().tm(*t) { term::Tm::LoopOut { l, .. } => Some(*l), _ => None }).collect();
                    for l in ls {
                        let d = term::m().loops[l as usize].clone();
                        eprintln!("  loop out{l} h={} cont={}", d.h, show::node(d.cont, 40));
                        for (i, c) in d.cells.iter().enumerate() {
                            eprintln!("    .{i} init={} next={}", show::node(c.0, 40), show::node(c.1, 40));
                        }
                    }
                    for (t, l, h) in p {
                        eprintln!("    {} in {l}..={h}", show::term(t));
                    }
                }
            }
            seen.insert(key, (v.into(), w));
        }
        let js = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let map = |m: Vec<(String, String)>| format!("{{{}}}", m.iter().map(|(a, b)| format!("{}:{}", js(a), b)).collect::<Vec<_>>().join(","));
        let list = |m: Vec<String>| format!("[{}]", m.iter().map(|a| js(a)).collect::<Vec<_>>().join(","));
        let file_of: HashMap<(String, String, String, usize), String> = fs.iter().map(|f| ((f.kind.clone(), f.name.clone(), f.func.clone(), f.line), f.file.clone())).collect();
        let find: Vec<String> = seen
            .iter()
            .map(|(k, v)| {
                format!(
                    "{{\"kind\":{},\"name\":{},\"func\":{},\"line\":{},\"file\":{},\"verdict\":{},\"detail\":{}}}",
                    js(&k.0), js(&k.1), js(&k.2), k.3, js(file_of.get(k).map(|s| s.as_str()).unwrap_or("")), js(&v.0), js(&v.1.chars().take(1500).collect::<String>())
                )
            })
            .collect();
        if let Some(w) = gave_up {
            return Some(format!("{{\"entry\":{},\"crashed\":{},\"functions\":{},\"findings\":[{}]}}", js(n), js(&w), list(it.crate_funcs.iter().cloned().collect()), find.join(",")));
        }
        let line = format!(
            "{{\"entry\":{},\"returned\":{},\"seconds\":{:.3},\"terms\":{},\"nodes\":{},\"blocks\":{},\"calls\":{},\"loops\":{},\"checks\":{},\"proven\":{},\"reached\":{},\"discharged\":{},\"unmodelled\":{},\"notes\":{},\"loop_report\":{},\"functions\":{},\"findings\":[{}]}}",
            js(n),
            r.is_some(),
            t0.elapsed().as_secs_f64(),
            term::m().terms.len(),
            term::m().nodes.len(),
            it.n_blocks,
            it.n_calls,
            it.n_loops,
            map(it.check_names.iter().map(|(a, b)| (a.clone(), b.to_string())).collect()),
            map(it.proven.iter().map(|(a, b)| (a.clone(), b.to_string())).collect()),
            map(it.reached.iter().map(|(a, b)| (a.clone(), b.to_string())).collect()),
            map(it.discharged.iter().map(|(a, b)| (a.clone(), b.to_string())).collect()),
            map(it.unmodelled.iter().map(|(a, b)| (a.clone(), b.to_string())).collect()),
            list(it.notes.clone()),
            map(it.loops_report.iter().map(|(a, b)| (a.clone(), js(b))).collect()),
            list(it.crate_funcs.iter().cloned().collect()),
            find.join(",")
        );
        Some(line)
}
