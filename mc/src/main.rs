mod curve;
mod field;
mod gen;
mod machine;
mod num;
#[cfg(feature = "ct")]
mod p_ct;
mod p_curve;
#[cfg(feature = "ct")]
mod p_st;
mod p_field;
mod refdump;
mod run;
#[cfg(feature = "toy")]
mod toy;
mod watch;

use std::io::Write;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    run::panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("replay") => replay(&args[2]),
        Some("refdump") => refdump::dump(),
        _ => {
            eprintln!("usage: mc check ID [--tier quick|thorough] [--evidence FILE] [--replay FILE] | mc replay FILE");
            std::process::exit(2);
        }
    }
}

/// All jobs of one property.
fn jobs_of<'a>(id: &str, fs: &'a Vec<Box<dyn field::Field>>, cs: &'a [std::sync::Arc<dyn curve::Cv>], deep: bool) -> Option<Vec<run::Job<'a>>> {
    #[allow(unused_mut)]
    let mut jobs = match id {
        "C01" => p_field::c01(fs, deep),
        "C02" => p_field::c02(fs, deep),
        "C03" => p_field::c03(fs, deep),
        "C04" => p_field::c04(fs, deep),
        "C05" => p_field::c05(fs, deep),
        "C06" => p_field::c06(fs, deep),
        "C07" => p_field::c07(fs, deep),
        "C08" => p_field::c08(fs, deep),
        "C09" => p_field::c09(fs, deep),
        "C10" => p_field::c10(fs, deep),
        "C11" => p_field::c11(fs, deep),
        "C12" => p_field::c12(fs, deep),
        "C13" => p_curve::c13(fs, cs, deep),
        "C14" => p_curve::c14(cs, deep),
        "C15" => p_curve::c15(cs, deep),
        "C16" => p_curve::c16(cs, deep),
        "C17" => p_curve::c17(cs, deep),
        "C22" => p_field::c22(fs, deep),
        "C18" => vec![],
        "C20" => p_curve::c20(cs, deep),
        "C19" => p_field::c19(fs, deep),
        "C25" => p_field::c25(fs, deep),
        #[cfg(feature = "ct")]
        "C21" => p_ct::c21(fs, cs, deep),
        #[cfg(feature = "ct")]
        "C23" => p_st::c23(fs, cs, deep),
        #[cfg(feature = "ct")]
        "C24" => p_ct::c24(fs, cs, deep),
        _ => return None,
    };
    jobs.extend(p_field::after_small(fs, id, deep));
    #[cfg(feature = "toy")]
    {
        let mut tj = match id {
            "C14" => toy::c14(deep),
            "C15" => toy::c15(deep),
            "C16" => toy::c16(deep),
            "C17" => toy::c17(deep),
            "C18" => toy::c18(deep),
            "C20" => toy::c20(deep),
            _ => vec![],
        };
        tj.append(&mut jobs);
        jobs = tj;
    }
    Some(jobs)
}

/// most checks are fast enough to explore the deep bounds on every change
fn is_deep(id: &str, more: bool) -> bool {
    more || !matches!(id, "C03" | "C16" | "C21" | "C23" | "C24")
}
fn needs_curves(id: &str) -> bool {
    matches!(id, "C13" | "C14" | "C15" | "C16" | "C17" | "C20" | "C21" | "C23" | "C24")
}

fn check(args: &[String]) {
    let t0 = std::time::Instant::now();
    let id = args[2].clone();
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let more = tier == "thorough";
    let deep = is_deep(&id, more);
    let rp = arg(args, "--replay").unwrap_or(format!("/tmp/replay-{}.txt", id));
    let _ = watch::INFO.set((id.clone(), tier.clone(), rp.clone()));
    run::MORE.store(more, std::sync::atomic::Ordering::Relaxed);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let fs = field::all();
    // even setting up the curves (zero, init, unpack) runs code under test
    let cs = match watch::over(|| run::guarded(|| if needs_curves(&id) { curve::all_curves() } else { vec![] })) {
        Ok(cs) => cs,
        Err(e) => {
            let p = rp;
            let text = format!("creating points of the five curves with zero and init panicked: {}", e);
            std::fs::write(&p, format!("property {}\n# {}\n", id, text)).expect("replay file");
            println!("{}\nVIOLATION property={} replay={}", text, id, p);
            std::process::exit(1);
        }
    };
    let mut jobs = match watch::over(|| jobs_of(&id, &fs, &cs, deep)) {
        Some(j) => j,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    // development aid: only the jobs whose name contains a string
    if let Some(o) = arg(args, "--only") {
        jobs.retain(|j| j.name.contains(&o));
    }
    let t = run::run_all(&jobs);
    let wall = t0.elapsed().as_secs_f64();
    let js = run::json_str;
    if let Some(p) = arg(args, "--evidence") {
        let mut o = String::new();
        o.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(&id), js(&tier), seed));
        o.push_str(" \"coverage\": {\n");
        o.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", t.states, t.transitions, t.traces));
        o.push_str(&format!("  \"states_is_lower_bound\": {},\n  \"out_of_domain_skipped\": {},\n  \"representations_left_out\": {},\n", t.states_capped, t.out_of_domain, t.skipped));
        o.push_str(&format!("  \"jobs\": {},\n", t.jobs));
        for (k, n) in &t.notes {
            o.push_str(&format!("  {}: {},\n", js(k), n));
        }
        let s: Vec<String> = t.samples.iter().map(|x| js(x)).collect();
        o.push_str(&format!("  \"samples\": [\n   {}\n  ]\n }},\n", s.join(",\n   ")));
        o.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, t.violation.is_some() as u8));
        let mut fh = std::fs::File::create(&p).expect("evidence file");
        fh.write_all(o.as_bytes()).unwrap();
    }
    println!(
        "{} {}: jobs {} states {}{} transitions {} traces {} skipped {} out-of-domain {} in {:.1}s",
        id,
        tier,
        t.jobs,
        t.states,
        if t.states_capped { "+" } else { "" },
        t.transitions,
        t.traces,
        t.skipped,
        t.out_of_domain,
        wall
    );
    if let Some(v) = t.violation {
        let p = rp;
        std::fs::write(&p, format!("property {}\n{}", id, v.replay)).expect("replay file");
        println!("{}", v.text);
        println!("VIOLATION property={} replay={}", id, p);
        std::process::exit(1);
    }
}

fn replay(path: &str) {
    let text = std::fs::read_to_string(path).expect("replay file");
    #[cfg(feature = "ct")]
    if text.contains("kind trace") || text.contains("kind history") {
        match if text.contains("kind trace") { p_ct::replay(&text) } else { p_st::replay(&text) } {
            Err(e) => {
                println!("REPRODUCED: {}", e);
                std::process::exit(1);
            }
            Ok(t) => println!("not reproduced: {}", t),
        }
        return;
    }
    if text.contains("kind hang") {
        return replay_hang(&text);
    }
    let mut steps = vec![];
    let mut psteps = vec![];
    let mut fname = String::new();
    let mut cname = String::new();
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("field ") {
            fname = n.trim().into();
        } else if let Some(n) = l.strip_prefix("curve ") {
            cname = n.trim().into();
        } else if let Some(s) = machine::parse_step(l) {
            steps.push(s);
        } else if let Some(s) = p_curve::parse_pstep(l) {
            psteps.push(s);
        }
    }
    let r = if !psteps.is_empty() {
        let cs = curve::all_curves();
        let c = cs.iter().find(|c| c.name() == cname).expect("curve");
        p_curve::run_points(c.as_ref(), &psteps).map(|_| ()).map_err(|(i, e)| format!("step {} `{:?}`: {}", i, psteps[i], e))
    } else if !steps.is_empty() {
        let fs = field::all();
        let f = fs.iter().find(|f| f.name() == fname).expect("field");
        if text.contains("kind total") { p_field::run_any(f.as_ref(), &steps) } else { machine::run(f.as_ref(), &steps).map(|_| ()) }.map_err(|(i, e)| format!("step {} `{:?}`: {}", i, steps[i], e))
    } else {
        println!("this replay has no steps to run; it documents the failing case:\n{}", text);
        return;
    };
    match r {
        Err(e) => {
            println!("REPRODUCED at {}", e);
            std::process::exit(1);
        }
        Ok(()) => println!("not reproduced"),
    }
}

/// Run the job of a call that did not return again, up to that call.
fn replay_hang(text: &str) {
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (id, tier, name) = (get("property "), get("tier "), get("job "));
    let n: u64 = get("call ").parse().expect("call");
    let more = tier == "thorough";
    run::MORE.store(more, std::sync::atomic::Ordering::Relaxed);
    let fs = field::all();
    let cs = if needs_curves(&id) { curve::all_curves() } else { vec![] };
    let jobs = jobs_of(&id, &fs, &cs, is_deep(&id, more)).expect("property");
    let job = match jobs.iter().find(|j| j.name == name) {
        Some(j) => j,
        None => {
            println!("there is no job {:?}; the file documents the failing case:\n{}", name, text);
            return;
        }
    };
    match watch::again(job, n) {
        Some((what, false)) => {
            println!("REPRODUCED: did not return: {}", what);
            std::process::exit(1);
        }
        Some((what, true)) => println!("not reproduced: {} returned", what),
        None => println!("not reproduced: the job has fewer calls"),
    }
    std::process::exit(0);
}
