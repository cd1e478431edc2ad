//! Client of the node oracle processes: one JSON request per line, one JSON answer per line.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

pub struct Node {
    script: String,
    args: Vec<String>,
    child: Option<(Child, ChildStdin, mpsc::Receiver<String>)>,
    pub restarts: u64,
}

impl Node {
    pub fn new(script: &str) -> Self {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        Node {
            script: format!("{dir}/oracle/{script}"),
            args: vec![
                "--experimental-vm-modules".into(),
                "--no-warnings".into(),
                "--stack-size=3000".into(),
                "--max-old-space-size=3000".into(),
            ],
            child: None,
            restarts: 0,
        }
    }
    fn start(&mut self) {
        let mut child = Command::new("node")
            .args(&self.args)
            .arg(&self.script)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("cannot start node");
        let stdin = child.stdin.take().unwrap();
        let stdout: ChildStdout = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for line in BufReader::with_capacity(1 << 20, stdout).lines() {
                match line {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((child, stdin, rx));
    }
    /// Sends a request and waits for its answer. None: the oracle died or took too long (inconclusive).
    pub fn ask(&mut self, req: &Value) -> Option<Value> {
        self.ask_timeout(req, 60)
    }
    pub fn ask_timeout(&mut self, req: &Value, secs: u64) -> Option<Value> {
        if self.child.is_none() {
            self.start();
        }
        let (_, stdin, rx) = self.child.as_mut().unwrap();
        let mut line = serde_json::to_string(req).unwrap();
        line.push('\n');
        let ok = stdin.write_all(line.as_bytes()).and_then(|_| stdin.flush()).is_ok();
        let ans = if ok { rx.recv_timeout(Duration::from_secs(secs)).ok() } else { None };
        match ans.and_then(|l| serde_json::from_str(&l).ok()) {
            Some(v) => Some(v),
            None => {
                if let Some((mut c, _, _)) = self.child.take() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                self.restarts += 1;
                None
            }
        }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
