//! Running the real code in this process

use crate::core::*;
use crate::model::*;
use reqtrace::controller::{Controller, JobSuccess};
use reqtrace::models::Config;
use serde_json::{json, Value};
use std::fs;
use std::path::Path;

/// query, format
pub const TJ: (&str, &str) = ("Trace", "Json");
pub const TM: (&str, &str) = ("Trace", "Markdown");
pub const TG: (&str, &str) = ("Trace", "GnuError");
pub const PJ: (&str, &str) = ("Parse", "Json");
pub const PM: (&str, &str) = ("Parse", "Markdown");
pub const PT: (&str, &str) = ("Parse", "Tags");

pub fn job_name(j: (&str, &str)) -> String {
    format!("{}{}", j.0, j.1)
}

pub fn jobs_json(jobs: &[(&str, &str)]) -> Value {
    let mut m = serde_json::Map::new();
    for j in jobs {
        m.insert(
            job_name(*j),
            json!({"query": j.0, "format": j.1, "file": format!("{}.out", job_name(*j))}),
        );
    }
    Value::Object(m)
}

#[derive(Debug, Clone)]
pub struct Out {
    /// 0: success, 1: errors detected, 2: error
    pub code: i32,
    pub msg: String,
    /// contents of the report files, in order of the jobs
    pub files: Vec<String>,
}

/// Run all jobs with a new controller. A panic is an Err.
pub fn run(dir: &Path, mut config: Value, jobs: &[(&str, &str)]) -> Result<Out, String> {
    config["jobs"] = jobs_json(jobs);
    let names: Vec<String> = jobs.iter().map(|j| job_name(*j)).collect();
    let config: Config =
        serde_json::from_value(config).unwrap_or_else(|e| engine_error(&format!("config: {e}")));
    let res = guarded(|| {
        let c = Controller::new(config, dir);
        match c.run_jobs_by_name(&names) {
            Ok(JobSuccess::Success) => (0, String::new()),
            Ok(JobSuccess::ErrorsDetected) => (1, String::new()),
            Err(e) => (2, e.to_string()),
        }
    })
    .map_err(|p| format!("the tool panicked: {p}"))?;
    let mut files = vec![];
    for n in &names {
        let p = dir.join(format!("{n}.out"));
        match fs::read(&p) {
            Ok(b) => files.push(
                String::from_utf8(b).map_err(|_| format!("report {n} is not valid UTF-8"))?,
            ),
            Err(e) => {
                if res.0 != 2 {
                    return Err(format!("report {n} was not written: {e}"));
                }
                files.push(String::new())
            }
        }
    }
    Ok(Out {
        code: res.0,
        msg: res.1,
        files,
    })
}

pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE ERROR: {msg}");
    std::process::exit(98)
}

pub fn world_config(w: &World) -> Value {
    let arts: Vec<Value> = w
        .arts
        .iter()
        .map(|a| {
            let mut v = json!({"id": a.id, "paths": [a.file()], "parser": "Json"});
            if let Some(b) = a.ignore {
                v["ignore_derived_requirements"] = json!(b);
            }
            if let Some(b) = a.rwt {
                v["reference_with_title"] = json!(b);
            }
            v
        })
        .collect();
    let rels: Vec<Value> = w
        .rels
        .iter()
        .map(|r| json!({"upper": r.upper, "lower": r.lower}))
        .collect();
    json!({"artefacts": arts, "relations": rels})
}

pub fn write_world(dir: &Path, w: &World) {
    for (i, a) in w.arts.iter().enumerate() {
        let text = match a.src {
            Src::Good => {
                let reqs = Value::Array(a.reqs.iter().map(Req::json).collect());
                // both forms of these files occur
                if (i + a.reqs.len()) % 2 == 0 {
                    reqs.to_string()
                } else {
                    json!({"version": 0, "requirements": reqs}).to_string()
                }
            }
            Src::Missing => continue,
            Src::Broken => "[{\"id\": 1".to_owned(),
        };
        fs::write(dir.join(a.file()), text).unwrap_or_else(|e| engine_error(&e.to_string()));
    }
}

pub fn run_world(wk: &mut Wk<'_>, w: &World, jobs: &[(&str, &str)]) -> Result<Out, String> {
    write_world(&wk.dir, w);
    wk.runs += 1;
    run(&wk.dir.clone(), world_config(w), jobs)
}
