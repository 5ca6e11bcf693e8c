//! Command line shared by the check binaries.

use crate::engine::*;
use std::path::PathBuf;

#[macro_export]
macro_rules! registry {
    ($($id:literal => $t:ty),+ $(,)?) => {
        fn dispatch(mode: &str, id: &str, ctx: &$crate::engine::Ctx, arg: &str) -> i32 {
            match id {
                $($id => match mode {
                    "parent" => $crate::engine::parent::<$t>(ctx),
                    "worker" => $crate::engine::worker::<$t>(ctx),
                    "one" => $crate::engine::one::<$t>(ctx, arg),
                    _ => 2,
                },)+
                _ => {
                    eprintln!("no check {id}");
                    2
                }
            }
        }
        fn main() {
            $crate::cli::main(&[$($id),+], dispatch)
        }
    };
}

/// Runs one mode ("parent", "worker" or "one") of the check `id`.
pub type Dispatch = fn(mode: &str, id: &str, ctx: &Ctx, arg: &str) -> i32;

pub fn main(ids: &[&str], dispatch: Dispatch) -> ! {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed_env = || std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.as_slice() {
        ["ids"] => {
            println!("{}", ids.join(" "));
            0
        }
        ["run", id, t] => {
            let dir = scratch();
            let ctx = Ctx { tier: tier(t), seed: seed_env(), scratch: dir.clone() };
            let c = dispatch("parent", id, &ctx, "");
            let _ = std::fs::remove_dir_all(&dir);
            c
        }
        ["worker", id, t, seed, dir] => {
            worker_limits();
            let ctx = Ctx { tier: tier(t), seed: seed.parse().unwrap(), scratch: PathBuf::from(dir) };
            dispatch("worker", id, &ctx, "")
        }
        ["one", id, t, seed, dir, arg] => {
            let ctx = Ctx { tier: tier(t), seed: seed.parse().unwrap(), scratch: PathBuf::from(dir) };
            dispatch("one", id, &ctx, arg)
        }
        ["replay", file] => {
            let text = std::fs::read_to_string(file).expect("cannot read the replay file");
            let j: serde_json::Value = serde_json::from_str(&text).expect("not a replay file");
            let id = j["property"].as_str().expect("no property in the replay file").to_string();
            let exe = std::env::current_exe().unwrap();
            let dir = scratch();
            let st = std::process::Command::new(exe)
                .args(["one", &id, "quick", "1"])
                .arg(&dir)
                .arg(format!("file:{file}"))
                .status()
                .unwrap();
            let _ = std::fs::remove_dir_all(&dir);
            if st.success() {
                println!("{id}: the replayed case holds");
                0
            } else {
                println!("{id}: {st}");
                println!("VIOLATION property={id} replay={file}");
                1
            }
        }
        _ => {
            eprintln!("usage: rcheck run ID quick|thorough | replay FILE | ids");
            2
        }
    };
    std::process::exit(code)
}

fn scratch() -> PathBuf {
    let p = verif_dir().join("target").join("scratch").join(format!("{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}
