//! Running the program itself, with fault injection

use crate::core::*;
use crate::model::*;
use serde_json::{json, Value};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub class: char,
    pub size: u64,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct CliOut {
    /// exit code, or minus the signal
    pub code: i32,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub ops: Vec<Op>,
}

#[derive(Default)]
pub struct Opt<'a> {
    pub faults: &'a str,
    pub env: &'a [(&'a str, &'a str)],
    /// standard output goes to this file
    pub stdout_to: Option<&'a Path>,
    /// nobody reads standard output
    pub broken_pipe: bool,
    pub log: bool,
}

/// A pipe that nobody reads. It is made before any program is started, so that no program that
/// is about to start can hold the other end of it for a moment.
pub fn broken_pipe() -> &'static std::io::PipeWriter {
    static P: std::sync::OnceLock<std::io::PipeWriter> = std::sync::OnceLock::new();
    P.get_or_init(|| std::io::pipe().expect("pipe").1)
}

/// Run reqtrace in a directory, with logging off unless the environment says otherwise
pub fn cli(wk: &mut Wk<'_>, dir: &Path, args: &[&str], o: &Opt<'_>) -> CliOut {
    wk.runs += 1;
    let log = dir.with_extension("oplog");
    let _ = fs::remove_file(&log);
    let mut c = Command::new(&wk.ctx.exe);
    c.args(args)
        .current_dir(dir)
        .env_clear()
        .env("LD_PRELOAD", &wk.ctx.shim)
        .env("SHIM_ROOT", dir)
        .env("SHIM_FAULTS", o.faults)
        .env("REQTRACE_LOG", "off")
        // an environment as there usually is one
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("USER", "user")
        .env("LANG", "C.UTF-8")
        .env("TERM", "xterm-256color")
        .env("PWD", dir)
        .env("HOME", wk.dir.join("home"))
        .stdin(Stdio::null());
    if o.log {
        c.env("SHIM_LOG", &log);
    }
    for (k, v) in o.env {
        c.env(k, v);
    }
    if let Some(p) = o.stdout_to {
        c.stdout(fs::OpenOptions::new().write(true).open(p).expect("stdout"));
        c.stderr(Stdio::piped());
    } else if o.broken_pipe {
        c.stdout(broken_pipe().try_clone().expect("pipe"));
        c.stderr(Stdio::piped());
    } else {
        c.stdout(Stdio::piped()).stderr(Stdio::piped());
    }
    let child = c
        .spawn()
        .unwrap_or_else(|e| crate::exec::engine_error(&format!("cannot run the program: {e}")));
    let out = child
        .wait_with_output()
        .unwrap_or_else(|e| crate::exec::engine_error(&format!("wait: {e}")));
    let ops = if o.log {
        fs::read_to_string(&log)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(3, ' ');
                let class = p.next()?.chars().next()?;
                let size = p.next()?.parse().ok()?;
                let mut name = p.next()?;
                while let Some(n) = name.strip_prefix("./") {
                    name = n;
                }
                Some(Op {
                    class,
                    size,
                    name: name.to_owned(),
                })
            })
            .collect()
    } else {
        vec![]
    };
    let _ = fs::remove_file(&log);
    CliOut {
        code: out
            .status
            .code()
            .unwrap_or_else(|| -out.status.signal().unwrap_or(99)),
        stdout: out.stdout,
        stderr: String::from_utf8_lossy(&out.stderr).into_owned(),
        ops,
    }
}

/// index of each operation within its class, starting with 1
pub fn indexed(ops: &[Op]) -> Vec<(Op, usize)> {
    let mut n = std::collections::HashMap::new();
    ops.iter()
        .map(|o| {
            let c = n.entry(o.class).or_insert(0);
            *c += 1;
            (o.clone(), *c)
        })
        .collect()
}

fn toml_str(s: &str) -> String {
    // JSON strings are TOML strings, apart from DEL
    Value::String(s.to_owned()).to_string().replace('\u{7f}', "\\u007f")
}

fn toml_value(v: &Value) -> String {
    match v {
        Value::String(s) => toml_str(s),
        Value::Array(a) => format!("[{}]", a.iter().map(toml_value).collect::<Vec<_>>().join(", ")),
        Value::Object(o) => format!(
            "{{ {} }}",
            o.iter()
                .map(|(k, v)| format!("{} = {}", toml_str(k), toml_value(v)))
                .collect::<Vec<_>>()
                .join(", ")
        ),
        other => other.to_string(),
    }
}

/// a configuration as TOML
pub fn toml(config: &Value) -> String {
    let mut s = String::new();
    let o = config.as_object().unwrap();
    for (k, v) in o {
        if !(k == "jobs" || v.is_array() && v.as_array().unwrap().iter().any(Value::is_object)) {
            s.push_str(&format!("{k} = {}\n", toml_value(v)));
        }
    }
    for k in ["artefacts", "relations"] {
        for t in o.get(k).and_then(Value::as_array).into_iter().flatten() {
            s.push_str(&format!("[[{k}]]\n"));
            for (k, v) in t.as_object().unwrap() {
                s.push_str(&format!("{k} = {}\n", toml_value(v)));
            }
        }
    }
    for (k, j) in o.get("jobs").and_then(Value::as_object).into_iter().flatten() {
        s.push_str(&format!("[jobs.{}]\n", toml_str(k)));
        for (k, v) in j.as_object().unwrap() {
            s.push_str(&format!("{k} = {}\n", toml_value(v)));
        }
    }
    s
}

pub fn job(query: &str, format: &str, file: &str) -> Value {
    json!({"query": query, "format": format, "file": file})
}

/// a fresh directory of the given name, with these files in it
pub fn fresh(wk: &Wk<'_>, name: &str, files: &[(String, Vec<u8>)]) -> std::path::PathBuf {
    let dir = wk.dir.join(name);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    put(&dir, files);
    dir
}

pub fn put(dir: &Path, files: &[(String, Vec<u8>)]) {
    for (n, b) in files {
        let p = dir.join(n);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).unwrap();
        }
        fs::write(p, b).unwrap_or_else(|e| crate::exec::engine_error(&format!("{n}: {e}")));
    }
}

/// requirements of a JSON Parse report, by the file that they come from (relative to the base)
pub fn by_file(reqs: &[Req]) -> std::collections::BTreeMap<String, Vec<Req>> {
    let mut m = std::collections::BTreeMap::<String, Vec<Req>>::new();
    for r in reqs {
        m.entry(plain(&r.loc.file)).or_default().push(r.clone());
    }
    m
}

/// without `./`
pub fn plain(f: &str) -> String {
    let mut f = f;
    while let Some(x) = f.strip_prefix("./") {
        f = x;
    }
    f.to_owned()
}

pub fn verdict(r: Result<u64, String>) -> Verdict {
    match r {
        Ok(o) => Verdict::Held(o),
        Err(e) => Verdict::Bad(e),
    }
}
