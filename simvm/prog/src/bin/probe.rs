use cairo_m_common::abi_codec::InputValue;
use cairo_m_compiler::db::CompilerDatabase;
use cairo_m_compiler_mir::pipeline::{OptimizationLevel, PipelineConfig};
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::Crate;
use prog::lang::*;
use prog::r#gen::*;
use prog::world::{input, output};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "-f" {
        return file(&a[2], &a[3..]);
    }
    let from: u64 = a[1].parse().unwrap();
    let to: u64 = a[2].parse().unwrap();
    let bits: u64 = a[3].parse().unwrap();
    let f = Feat { ret_arrays: bits & 1 != 0, alias: bits & 2 != 0, ptrs: bits & 4 != 0, arrays: bits & 8 != 0, failing: bits & 16 != 0, nested_arrays: bits & 32 != 0, modules: if bits & 64 != 0 { 4 } else { 1 } };
    let mut stats = std::collections::BTreeMap::<String, (u64, u64)>::new();
    std::panic::set_hook(Box::new(|_| {}));
    for k in from..to {
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || one(k, f)).unwrap();
        let s = h.join().unwrap_or_else(|p| format!("PANIC {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()));
        let key: String = s.split('\n').next().unwrap().chars().filter(|c| !c.is_ascii_digit()).take(150).collect();
        let e = stats.entry(key).or_insert((0, k));
        e.0 += 1;
        if to - from == 1 {
            println!("{s}");
        }
    }
    for (k, v) in stats {
        println!("{:6} (first {}) {k}", v.0, v.1);
    }
}
fn key(s: &str) -> String {
    s.split('\n').next().unwrap().chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}
fn one(k: u64, f: Feat) -> String {
    let mut r = drv::Rng::new(7, k);
    let p = random(&mut r, f, 4);
    let args: Vec<D> = p.funs[0].params.iter().map(|q| args(&mut r, &p, &q.1)).collect();
    let s = eval(&p, &args);
    if std::env::var("MIN").is_ok() {
        let want = key(&s);
        let mut p = p;
        'a: loop {
            for q in simpler(&p) {
                let a = args.clone();
                let q1 = q.clone();
                let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || eval(&q1, &a)).unwrap();
                if h.join().is_ok_and(|s| key(&s) == want) {
                    p = q;
                    continue 'a;
                }
            }
            break;
        }
        for (m, t) in &render(&p) {
            println!("--- {m}\n{t}");
        }
        println!("args {args:?}\n{}", eval(&p, &args));
    }
    s
}
fn eval(p: &Prog, args: &[D]) -> String {
    let p = p.clone();
    let texts = render(&p);
    if std::env::var("SHOW").is_ok() {
        for (m, t) in &texts {
            println!("--- {m}\n{t}");
        }
        println!("args {args:?}");
    }
    let want = Interp::new(&p, 100_000).call(0, args.iter().map(V::of).collect()).map(|v| v.deep());
    if let Err(Stop::GivesUp(e)) = &want {
        return format!("gives up {e}");
    }
    for level in [OptimizationLevel::None, OptimizationLevel::Standard] {
        let db = CompilerDatabase::new();
        let mods = texts.iter().map(|(m, t)| (m.clone(), SourceFile::new(&db, t.clone(), format!("{m}.cm")))).collect();
        let krate = Crate::new(&db, mods, "main".into(), "/p".into(), "p".into());
        let ds = cairo_m_compiler_semantic::db::project_validate_semantics(&db, krate);
        if let Some(d) = ds.into_iter().find(|d| d.severity == cairo_m_compiler_diagnostics::DiagnosticSeverity::Error) {
            return format!("REFUSED {d:?}");
        }
        if std::env::var("MIR").is_ok() {
            use cairo_m_compiler_mir::PrettyPrint;
            if let Ok(m) = cairo_m_compiler_mir::generate_mir_with_config(&db, krate, PipelineConfig { optimization_level: level, debug: false }) {
                println!("{level:?}\n{}", m.pretty_print(0));
                let mut g = cairo_m_compiler_codegen::generator::CodeGenerator::new();
                g.generate_module(&m).unwrap();
                println!("{}", g.debug_instructions());
            }
        }
        let program = match cairo_m_compiler_codegen::db::compile_project_with_config(&db, krate, PipelineConfig { optimization_level: level, debug: false }) {
            Ok(p) => p,
            Err(e) => return format!("COMPILE {level:?} {e:?}"),
        };
        let ins: Vec<InputValue> = p.funs[0].params.iter().zip(args).map(|(q, d)| input(&p, &q.1, d)).collect();
        let pr = program.clone();
        cairo_m_runner::sim::set_step_budget(2_000_000);
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cairo_m_runner::run_cairo_program(&pr, "entry", &ins, Default::default())));
        match (&want, got) {
            (Err(Stop::Fails(_)), Err(_)) | (Err(Stop::Fails(_)), Ok(Err(_))) => {}
            (_, Ok(Err(e))) if e.to_string().contains("step budget") => return format!("RUNS ON {level:?}"),
            (Err(e), Ok(Ok(_))) => return format!("NOFAIL {level:?} {e:?}"),
            (Ok(_), Err(_)) => return format!("RUNPANIC {level:?}"),
            (Ok(_), Ok(Err(e))) => return format!("RUNERR {level:?} {e}"),
            (Ok(w), Ok(Ok(o))) => {
                let g: Vec<D> = o.return_values.iter().map(output).collect();
                let g1 = if g.len() == 1 { g[0].clone() } else { D::Agg(g) };
                if g1 != *w {
                    return format!("WRONG {level:?}\n got {g1:?}\nwant {w:?}");
                }
            }
            _ => {}
        }
    }
    "ok".into()
}

fn file(f: &str, args: &[String]) {
    let t = std::fs::read_to_string(f).unwrap();
    for level in [OptimizationLevel::None, OptimizationLevel::Standard] {
        let db = CompilerDatabase::new();
        let mods: std::collections::HashMap<_, _> = t.split("//// ").enumerate().map(|(k, x)| {
            let (n, x) = if k == 0 { ("main", x) } else { x.split_once('\n').unwrap() };
            (n.to_string(), SourceFile::new(&db, x.to_string(), format!("{n}.cm")))
        }).collect();
        let krate = Crate::new(&db, mods, "main".into(), "/p".into(), "p".into());
        let ds = cairo_m_compiler_semantic::db::project_validate_semantics(&db, krate);
        for d in ds.into_iter() {
            println!("{}", d.message);
        }
        if std::env::var("MIR").is_ok() {
            use cairo_m_compiler_mir::PrettyPrint;
            let mut seen = std::collections::BTreeMap::<String, usize>::new();
            for _ in 0..std::env::var("N").ok().and_then(|n| n.parse().ok()).unwrap_or(1) {
                let db = CompilerDatabase::new();
                let mods: std::collections::HashMap<_, _> = [("main".to_string(), SourceFile::new(&db, t.clone(), "main.cm".to_string()))].into();
                let krate = Crate::new(&db, mods, "main".into(), "/p".into(), "p".into());
                if let Ok(m) = cairo_m_compiler_mir::generate_mir_with_config(&db, krate, PipelineConfig { optimization_level: level, debug: false }) {
                    let mut g = cairo_m_compiler_codegen::generator::CodeGenerator::new();
                    g.generate_module(&m).unwrap();
                    *seen.entry(format!("{level:?}\n{}\n{}", m.pretty_print(0), g.debug_instructions())).or_default() += 1;
                }
            }
            for (k, n) in seen {
                println!("{n} times\n{k}");
            }
        }
        match cairo_m_compiler_codegen::db::compile_project_with_config(&db, krate, PipelineConfig { optimization_level: level, debug: false }) {
            Ok(p) => {
                cairo_m_runner::sim::set_step_budget(2_000_000);
                let ins: Vec<InputValue> = args.iter().map(|a| if let Ok(n) = a.parse() { InputValue::Number(n) } else { InputValue::Bool(a == "true") }).collect();
                println!("{level:?} {:?}", cairo_m_runner::run_cairo_program(&p, "entry", &ins, Default::default()).map(|o| o.return_values));
            }
            Err(e) => println!("{level:?} {e:?}"),
        }
    }
}
