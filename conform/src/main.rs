mod scen;

fn main() {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    let depth: usize = std::env::args().nth(1).and_then(|a| a.parse().ok()).unwrap_or(4);
    std::panic::set_hook(Box::new(|_| {}));
    let lines = rt.block_on(async move {
        let mut out = vec![];
        for batch in scen::all(depth).chunks(400) {
            let js: Vec<_> = batch.iter().cloned().map(|s| tokio::spawn(async move { s.run().await })).collect();
            for (j, s) in js.into_iter().zip(batch) {
                out.push(format!("{} => {}", s.name(), j.await.unwrap_or_else(|e| format!("{e:?}"))));
            }
        }
        out
    });
    for l in lines {
        println!("{l}");
    }
}
