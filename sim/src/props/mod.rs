use crate::driver::*;
pub mod util;
pub mod files;
pub mod engine;
pub mod scan;
pub mod write;
pub mod lock;
pub mod img;
pub mod proc;
pub mod mix;
pub mod small;
pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub body: PropFn,
    pub rule: &'static str,
    pub quick_runs: u64,
}
pub const ALL: &[Prop] = &[
    Prop { id: "C01", title: "Folder-locked functions never act outside their folder", body: lock::c01, rule: "Non-trivial = at least one path that leaves the folder was passed to a locked function.", quick_runs: 100000 },
    Prop { id: "C02", title: "Effects on the outside world are opt-in per function set", body: mix::c02, rule: "Non-trivial = an effect was asked for without being granted, or an effect took place.", quick_runs: 60000 },
    Prop { id: "C03", title: "A file read returns the whole current content or an error", body: files::c03, rule: "Non-trivial = at least one read returned a non-empty content that was compared.", quick_runs: 20000 },
    Prop { id: "C04", title: "Directory listings and file tests are exact", body: files::c04, rule: "Non-trivial = a non-empty listing or scan, or a file test, was compared with the tree.", quick_runs: 60000 },
    Prop { id: "C05", title: "A scan reports a file's own complete front matter or none", body: scan::c05, rule: "Non-trivial = a non-empty front matter in a scan record was compared with what the file exports alone.", quick_runs: 60000 },
    Prop { id: "C06", title: "A write that reports success stored exactly its content", body: write::c06, rule: "Non-trivial = a write succeeded or failed part-way, or the process was killed, and the tree was compared.", quick_runs: 60000 },
    Prop { id: "C07", title: "Running a command returns all it printed on standard output", body: proc::c07, rule: "Non-trivial = a command that printed something ended, and what the call yielded was compared with it.", quick_runs: 60000 },
    Prop { id: "C08", title: "Piping text into a command delivers all of it and never hangs", body: proc::c08, rule: "Non-trivial = a command with standard input that printed something ended, and its input and output were compared.", quick_runs: 60000 },
    Prop { id: "C09", title: "No descriptor, process or thread outlives the call that made it", body: mix::c09, rule: "Non-trivial = a call that opened a file or directory or started a process was followed by a count of what is left.", quick_runs: 60000 },
    Prop { id: "C10", title: "Environment lookups give the current value, else the default", body: small::c10, rule: "Non-trivial = a variable was looked up after the environment had changed during the run.", quick_runs: 100000 },
    Prop { id: "C11", title: "Host functions run exactly once per evaluation, in document order", body: engine::c11, rule: "Non-trivial = at least three host calls were made and compared with the model's.", quick_runs: 100000 },
    Prop { id: "C12", title: "A failure aborts the render unless the language absorbs it there", body: engine::c12, rule: "Non-trivial = the render fails, or absorbs at least one failure.", quick_runs: 100000 },
    Prop { id: "C13", title: "Names bound inside a block are invisible outside it", body: engine::c13, rule: "Non-trivial = the text shows at least one name that is not visible where it is looked up.", quick_runs: 100000 },
    Prop { id: "C14", title: "A called template sees its own parameters, not its caller's names", body: engine::c14, rule: "Non-trivial = a text of more than ten bytes was compared.", quick_runs: 100000 },
    Prop { id: "C15", title: "Rendering the same template with the same data gives the same text", body: engine::c15, rule: "Non-trivial = a text of more than ten bytes was produced again under other hash keys, clock, environment, folder and streams, and compared.", quick_runs: 100000 },
    Prop { id: "C16", title: "Concurrent renders do not influence each other", body: engine::c16, rule: "Non-trivial = a successful render was compared with its run alone, with at least three switches between threads.", quick_runs: 100000 },
    Prop { id: "C17", title: "Random draws stay in range, reach every choice, and fail cleanly", body: small::c17, rule: "Non-trivial = at least 700 draws from one range or list were checked for range, coverage and independence.", quick_runs: 40000 },
    Prop { id: "C18", title: "Diagnostic output never breaks or changes a render", body: mix::c18, rule: "Non-trivial = at least one write to a standard stream failed.", quick_runs: 60000 },
    Prop { id: "C19", title: "Front matter collects each export that can be evaluated by itself", body: engine::c19, rule: "Non-trivial = a non-empty front matter was compared with the model's.", quick_runs: 100000 },
    Prop { id: "C20", title: "Image dimensions are the image's real ones or an error", body: img::c20, rule: "Non-trivial = dimensions were returned and compared with the file's.", quick_runs: 60000 },
    Prop { id: "C21", title: "A failure is not remembered once its cause is gone", body: mix::c21, rule: "Non-trivial = a call failed because of injected faults and was repeated without them.", quick_runs: 60000 },
    Prop { id: "C22", title: "Every call and render comes to an end", body: mix::c22, rule: "Non-trivial = a call ended after an injected failure or with other threads in between.", quick_runs: 60000 },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
