A = "host/src/input_reader/assert_input_reader.rs"
B = "host/src/beacon_client.rs"
G = "host/src/bin/gen_gindices.rs"
NODE = '''
use futures::executor::block_on;
use host::BeaconClient;
use reqwest::{set_handler, Reply};
use std::rc::Rc;
use std::cell::Cell;
const FINALITY: &str = r#"{"data":{"previous_justified":{"epoch":"1","root":"0x0000000000000000000000000000000000000000000000000000000000000001"},
 "current_justified":{"epoch":"3","root":"0x0000000000000000000000000000000000000000000000000000000000000003"},
 "finalized":{"epoch":"2","root":"0x0000000000000000000000000000000000000000000000000000000000000002"}}}"#;
fn node(status: u16, body: &str) -> Rc<Cell<usize>> {
    let n = Rc::new(Cell::new(0));
    let (k, body) = (n.clone(), body.to_string());
    set_handler(Some(Rc::new(move |_| {
        k.set(k.get() + 1);
        (0, Reply::Body(status, body.clone()))
    })));
    n
}
'''
BUGS = [
    {
        "id": "asserting-reader-overlooks-rest",
        "property": "C28",
        "needs": "a second reader that lists further validators after the first reader's last one",
        "breaks": "validators that only the second reader has, after the last common one, go unnoticed",
        "edits": [(A, """                (a, b) => panic!(
                    "One active validator""", """                // the second reader may still be ahead of the first one
                (None, Some(_)) => None,
                (a, b) => panic!(
                    "One active validator""")],
        "features": "host",
        "demo": '''
use host::AssertInputReader;
use verif_harness::spec::*;
use verif_harness::guard;
use z_core::{ConsensusState, Epoch, InputReader};
fn main() {
    let (a, z) = (World::new(1, 4, 32), World::new(1, 5, 32));
    fn reader(w: &World) -> Reader<'_, Four> { Reader { world: w, state: ConsensusState::default(), attestations: vec![] } }
    let count = |x: &World, y: &World| guard(|| AssertInputReader::new(&reader(x), &reader(y)).active_validators(Epoch::new(3)).unwrap().count()).ok();
    assert_eq!(count(&a, &a), Some(4));
    assert_eq!(count(&z, &a), None);
    assert_eq!(count(&a, &z), None, "a fifth validator goes unnoticed");
}
''',
    },
    {
        "id": "client-refusal-as-absence",
        "property": "C29",
        "needs": "a node that refuses a request for a header or block for another reason than that there is none, such as too many requests",
        "breaks": "any refusal of the node's is reported as an absent block or header, so the chain seems to have a gap",
        "edits": [(B, """        let path = format!("eth/v2/beacon/blocks/{block_id}");
        match self.get_json::<Response<BlockResponse>>(&path).await {
            Ok(resp) => Ok(Some(resp.data.message)),
            Err(Error::Http(err)) => match err.status() {
                Some(StatusCode::NOT_FOUND) => Ok(None),""", """        let path = format!("eth/v2/beacon/blocks/{block_id}");
        match self.get_json::<Response<BlockResponse>>(&path).await {
            Ok(resp) => Ok(Some(resp.data.message)),
            Err(Error::Http(err)) => match err.status() {
                // some nodes answer 400 for a slot without a block
                Some(status) if status.is_client_error() => Ok(None),""")],
        "features": "host",
        "demo": NODE + '''
fn main() {
    let client = BeaconClient::builder("http://node.test/".parse().unwrap()).build();
    node(404, "");
    assert!(block_on(client.get_block(7)).unwrap().is_none());
    for status in [400, 401, 429, 500, 503] {
        node(status, "");
        assert!(block_on(client.get_block(7)).is_err(), "status {status} taken for an absent block");
    }
}
''',
    },
    {
        "id": "client-limit-before-cache",
        "property": "C29",
        "needs": "a client with both a cache and a rate limit, and requests answered from the cache",
        "breaks": "the rate limit comes before the cache, so requests answered from the cache use it up",
        "edits": [(B, """        if let Some(cache_mw) = self.cache_mw {
            self.inner = self.inner.with(cache_mw);
        }
        if let Some(rate_limit_mw) = self.rate_limit_mw {
            self.inner = self.inner.with(rate_limit_mw);
        }
""", """        if let Some(rate_limit_mw) = self.rate_limit_mw {
            self.inner = self.inner.with(rate_limit_mw);
        }
        if let Some(cache_mw) = self.cache_mw {
            self.inner = self.inner.with(cache_mw);
        }
""")],
        "features": "host",
        "demo": NODE + '''
fn main() {
    let client = BeaconClient::builder("http://node.test/".parse().unwrap()).with_cache("/nowhere").with_rate_limit(2).build();
    let n = node(200, FINALITY);
    for _ in 0..10 {
        block_on(client.get_finality_checkpoints("5")).unwrap();
    }
    assert_eq!(n.get(), 1);
    assert_eq!(governor::virtual_now(), 0, "requests answered from the cache have waited");
}
''',
    },
    {
        "id": "generator-leaves-old-tail",
        "property": "C30",
        "needs": "an old file that is longer than the generated one",
        "breaks": "the end of a longer old file is left behind the generated code",
        "edits": [(G, "        .create(true)\n        .truncate(true)\n", "        .create(true)\n        .truncate(false)\n")],
        "features": "gen",
        "demo": '''
mod generator {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../shadow/host/src/bin/gen_gindices.rs"));
    pub fn run() { main() }
}
fn main() {
    let dir = std::env::temp_dir().join(format!("generator-{}", std::process::id()));
    std::fs::create_dir_all(dir.join("core/src")).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let file = dir.join("core/src/guest_gindices.rs");
    generator::run();
    let fresh = std::fs::read(&file).unwrap();
    std::fs::write(&file, vec![b'/'; fresh.len() + 100]).unwrap();
    generator::run();
    let again = std::fs::read(&file).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    if again != fresh { std::process::exit(1); }
}
''',
    },
]
