mod backend;
mod clientapi;
mod clientside;
mod clienttrace;
mod dispatch;
mod exec;
mod framing;
mod generic;
mod graph;
mod io;
mod jsonrpc;
mod keep;
mod races;
mod serve;
mod asks;
mod bulk;
mod servers;
mod slots;
mod svc;
mod threads;

use graph::{Graph, Report};

#[global_allocator]
static ALLOCATOR: keep::Counting = keep::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let input = get("--in").unwrap_or_default();
    let _tier = get("--tier").unwrap_or("quick".into());
    let output = get("--out").expect("--out");

    // Panics of the code under test are data; keep them out of the output.
    if std::env::var_os("CONF_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }

    graph::watch::start(std::time::Duration::from_secs(40), output.clone());
    let mut report = Report::default();
    let name = std::path::Path::new(&input).file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
    let sim = name.contains("Sim");
    let reps = get("--reps").and_then(|s| s.parse().ok()).unwrap_or(1);
    let trace = get("--trace").unwrap_or_default();
    match args[1].as_str() {
        "clienttrace" => clienttrace::record(&trace, seed, reps, &mut report),
        "races" => races::record(&trace, &get("--prop").unwrap_or_default(), seed, reps, &mut report),
        "svc" => run::<svc::Svc>(&input, sim, seed, reps, 80, &mut report),
        "framing" => run::<framing::Framing>(&input, sim, seed, reps, 60, &mut report),
        "generic" => run::<generic::Generic>(&input, sim, seed, reps, 60, &mut report),
        "clientside" => run::<clientside::ClientSide>(&input, sim, seed, reps, 80, &mut report),
        "dispatch" => run::<dispatch::Dispatch>(&input, sim, seed, reps, 400, &mut report),
        "clientapi" => run::<clientapi::ClientApi>(&input, sim, seed, reps, 200, &mut report),
        "progress" => run::<clientapi::Progress>(&input, sim, seed, reps, 100, &mut report),
        "slots" => run::<slots::Slots>(&input, sim, seed, reps, 30, &mut report),
        "servers" => run::<servers::Servers>(&input, sim, seed, reps, 60, &mut report),
        "asks" => run::<asks::Asks>(&input, sim, seed, reps, 30, &mut report),
        "keep" => keep::run(&input, seed, reps, &mut report),
        "bulk" => run::<bulk::Bulk>(&input, sim, seed, reps, 30, &mut report),
        "jsonrpc" => run::<jsonrpc::JsonRpc>(&input, sim, seed, reps, 300, &mut report),
        "serve" => match name.as_bytes()["Serve".len()] {
            b'1' => run::<serve::Serve1>(&input, sim, seed, reps, 60, &mut report),
            b'2' => run::<serve::Serve2>(&input, sim, seed, reps, 60, &mut report),
            b'3' => run::<serve::Serve3>(&input, sim, seed, reps, 60, &mut report),
            _ => run::<serve::Serve4>(&input, sim, seed, reps, 60, &mut report),
        },
        other => panic!("unknown engine {other}"),
    }
    std::fs::write(output, report.to_json().to_string()).unwrap();
}

fn run<W: graph::World>(input: &str, sim: bool, seed: u64, reps: u64, max_len: usize, report: &mut Report) {
    if sim {
        let walks = graph::load_sim(input);
        assert!(!walks.is_empty(), "no behaviours in {input}");
        for i in 0..reps {
            graph::replay::<W>(&walks, seed * 1000 + i, report);
        }
    } else {
        let g = Graph::load(input);
        for i in 0..reps {
            graph::cover::<W>(&g, seed * 1000 + i, max_len, report);
        }
        report.passes = reps;
    }
}
