//! Client for the language server.

use std::{
    collections::VecDeque,
    io::{BufRead, BufReader, Read, Write},
    os::linux::net::TcpStreamExt,
    net::{Ipv4Addr, Shutdown, TcpListener, TcpStream},
    process::{Child, ChildStdin, Command, ExitStatus, Stdio},
    sync::{
        Arc, Mutex,
        mpsc::{Receiver, RecvTimeoutError, channel},
    },
    time::{Duration, Instant},
};

use pbt::Fail;
use serde_json::{Value, json};

use crate::{Scratch, text::Enc};

/// What to do with the requests of the server.
#[derive(Default)]
pub struct Answers {
    /// Configuration the server gets on request.
    pub settings: Value,
    /// Leave the answers to somebody else.
    pub hold: bool,
    /// Requests of the server that were not answered so far.
    pub held: Vec<Value>,
    /// Don't read anything from the server for now.
    pub deaf: bool,
}

/// Way to the server.
enum To {
    Pipe(ChildStdin),
    /// With the state of the places to cut at, and whether to do that.
    Socket(TcpStream, usize, bool),
}

/// How to reach the server.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub enum Via {
    Pipe,
    Socket,
    /// With the messages in pieces.
    Pieces,
}

impl Via {
    pub fn any(s: &mut pbt::Src, c: &mut pbt::Case) -> Self {
        let v = *s.pick(&[Self::Pipe, Self::Pipe, Self::Socket, Self::Pieces]);
        c.label_if(v != Self::Pipe, "by socket");
        v
    }
}

impl To {
    fn send(&mut self, message: &[u8]) -> std::io::Result<()> {
        match self {
            Self::Pipe(p) => p.write_all(message).and_then(|()| p.flush()),
            Self::Socket(s, _, false) => s.write_all(message),
            Self::Socket(s, n, true) => {
                *n = n.wrapping_mul(31).wrapping_add(7);
                let (a, b) = message.split_at(*n % (message.len() + 1));
                s.write_all(a).and_then(|()| s.write_all(b))
            }
        }
    }
}

pub struct Server {
    child: Child,
    stdin: Arc<Mutex<Option<To>>>,
    rx: Receiver<Value>,
    next: i64,
    /// Identifier of the next request instead of a number that counts up.
    pub next_id: Option<Value>,
    pub answers: Arc<Mutex<Answers>>,
    /// Notifications that were received meanwhile.
    pub notes: VecDeque<Value>,
    pub capabilities: Value,
    /// Methods of the requests of the server that were received meanwhile.
    pub asked: Vec<String>,
    pub enc: Enc,
    /// How many cases it has served.
    pub used: usize,
    _home: Scratch,
}

/// Acknowledges everything at once, as the server sends small messages one after the other.
struct Quick(TcpStream);

impl Read for Quick {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.set_quickack(true)?;
        let n = self.0.read(buf)?;
        self.0.set_quickack(true)?;
        Ok(n)
    }
}

/// Wait for the server to connect.
fn accept(l: &TcpListener, child: &mut Child) -> TcpStream {
    l.set_nonblocking(true).expect("listener");
    let end = Instant::now() + Duration::from_secs(60);
    loop {
        match l.accept() {
            Ok((s, _)) => {
                s.set_nonblocking(false).expect("socket");
                s.set_nodelay(true).expect("socket");
                return s;
            }
            Err(_) if Instant::now() < end && matches!(child.try_wait(), Ok(None)) => std::thread::sleep(Duration::from_millis(2)),
            Err(e) => panic!("the server does not connect: {e}"),
        }
    }
}

fn write(stdin: &Mutex<Option<To>>, v: &Value) -> bool {
    let body = v.to_string();
    match &mut *stdin.lock().unwrap() {
        Some(s) => s.send(format!("Content-Length: {}\r\n\r\n{body}", body.len()).as_bytes()).is_ok(),
        None => false,
    }
}

fn read(r: &mut impl BufRead) -> Option<Value> {
    let mut len = 0;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let line = line.trim();
        if line.is_empty() {
            break;
        }
        if let Some(n) = line.to_ascii_lowercase().strip_prefix("content-length:") {
            len = n.trim().parse().ok()?;
        }
    }
    let mut body = vec![0; len];
    r.read_exact(&mut body).ok()?;
    serde_json::from_slice(&body).ok()
}

/// The answer to a request of the server.
pub fn answer_to(req: &Value, settings: &Value) -> Value {
    let result = if req["method"] == "workspace/configuration" { json!([settings]) } else { Value::Null };
    json!({"jsonrpc": "2.0", "id": req["id"], "result": result})
}

impl Server {
    /// Start it, without any message.
    pub fn spawn(enc: Enc, via: Via) -> Self {
        Self::spawn_with(enc, via, Stdio::null())
    }

    /// Start it for a client that does not read what the server logs, and has closed that end.
    pub fn spawn_unheard(enc: Enc, via: Via) -> Self {
        let (reader, writer) = std::io::pipe().expect("pipe");
        drop(reader);
        Self::spawn_with(enc, via, writer.into())
    }

    fn spawn_with(enc: Enc, via: Via, stderr: Stdio) -> Self {
        let home = Scratch::new();
        let listener = (via != Via::Pipe).then(|| TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).expect("loopback"));
        let mut command = Command::new(crate::program("mabo-lsp"));
        match &listener {
            Some(l) => command.arg("--socket").arg(l.local_addr().expect("address").port().to_string()).stdin(Stdio::null()).stdout(Stdio::null()),
            None => command.arg("--stdio").stdin(Stdio::piped()).stdout(Stdio::piped()),
        };
        let mut child = command
            .env("HOME", &home.0)
            .env("XDG_CACHE_HOME", home.0.join("cache"))
            .env("TZ", "UTC")
            .stderr(stderr)
            .spawn()
            .expect("mabo-lsp");
        let (to, from): (_, Box<dyn Read + Send>) = match listener {
            Some(l) => {
                let s = accept(&l, &mut child);
                let r = s.try_clone().expect("socket");
                (To::Socket(s, 0, via == Via::Pieces), Box::new(Quick(r)))
            }
            None => (To::Pipe(child.stdin.take().unwrap()), Box::new(child.stdout.take().unwrap())),
        };
        let stdin = Arc::new(Mutex::new(Some(to)));
        let answers = Arc::new(Mutex::new(Answers { settings: json!({}), ..Answers::default() }));
        let (tx, rx) = channel();
        let (s, a) = (stdin.clone(), answers.clone());
        std::thread::spawn(move || {
            let mut r = BufReader::new(from);
            loop {
                while a.lock().unwrap().deaf {
                    std::thread::sleep(Duration::from_millis(1));
                }
                let Some(v) = read(&mut r) else { break };
                if v.get("method").is_some() && v.get("id").is_some() {
                    let mut a = a.lock().unwrap();
                    if a.hold {
                        a.held.push(v.clone());
                    } else {
                        let answer = answer_to(&v, &a.settings);
                        drop(a);
                        write(&s, &answer);
                    }
                }
                if tx.send(v).is_err() {
                    break;
                }
            }
        });
        Self { child, stdin, rx, next: 0, next_id: None, answers, notes: VecDeque::new(), capabilities: Value::Null, asked: Vec::new(), enc, used: 0, _home: home }
    }

    pub fn init_params(encs: &[&str], folders: &Value) -> Value {
        json!({"processId": null, "rootUri": null, "capabilities": {"general": {"positionEncodings": encs}, "workspace": {"configuration": true, "didChangeConfiguration": {"dynamicRegistration": true}}}, "workspaceFolders": folders})
    }

    /// Start and initialize it.
    pub fn start(enc: Enc, via: Via) -> Result<Self, Fail> {
        let mut s = Self::spawn(enc, via);
        s.initialize(Self::init_params(&[enc.name()], &Value::Null))?;
        Ok(s)
    }

    pub fn initialize(&mut self, params: Value) -> Result<(), Fail> {
        let r = self.request("initialize", params)?.map_err(|e| format!("initialize fails: {e}"))?;
        self.capabilities = r["capabilities"].clone();
        self.notify("initialized", json!({}))
    }

    fn gone(&mut self) -> Fail {
        let status = self.child.wait().map_or_else(|e| e.to_string(), |s| s.to_string());
        Fail::new(format!("the server ended: {status}"))
    }

    pub fn send(&mut self, v: &Value) -> Result<(), Fail> {
        if write(&self.stdin, v) { Ok(()) } else { Err(self.gone()) }
    }

    pub fn notify(&mut self, method: &str, params: Value) -> Result<(), Fail> {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}))
    }

    /// Send a request without waiting for the answer.
    pub fn ask(&mut self, method: &str, params: Value) -> Result<Value, Fail> {
        self.next += 1;
        let id = self.next_id.take().unwrap_or(self.next.into());
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))?;
        Ok(id)
    }

    pub fn recv(&mut self) -> Result<Value, Fail> {
        match self.rx.recv_timeout(Duration::from_secs(60)) {
            Ok(v) => Ok(v),
            Err(RecvTimeoutError::Disconnected) => Err(self.gone()),
            Err(RecvTimeoutError::Timeout) => Err(Fail::new("the server does not answer within a minute")),
        }
    }

    /// Wait for the answer to a request.
    pub fn answer(&mut self, id: &Value) -> Result<Result<Value, Value>, Fail> {
        loop {
            let v = self.recv()?;
            if v.get("method").is_some() {
                if v.get("id").is_none() {
                    self.notes.push_back(v);
                } else {
                    self.asked.push(v["method"].as_str().unwrap_or_default().to_owned());
                }
                continue;
            }
            if v["id"] != *id {
                return Err(Fail::new(format!("expected the answer to request {id}, but got {v}")));
            }
            return Ok(match v.get("error") {
                Some(e) => Err(e.clone()),
                None => Ok(v["result"].clone()),
            });
        }
    }

    pub fn request(&mut self, method: &str, params: Value) -> Result<Result<Value, Value>, Fail> {
        let id = self.ask(method, params)?;
        self.answer(&id)
    }

    /// A request that has to succeed.
    pub fn get(&mut self, method: &str, params: Value) -> Result<Value, Fail> {
        self.request(method, params)?.map_err(|e| Fail::new(format!("{method} fails: {e}")))
    }

    pub fn symbols(&mut self, uri: &str) -> Result<Value, Fail> {
        self.get("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}))
    }

    pub fn tokens(&mut self, uri: &str) -> Result<Value, Fail> {
        self.get("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}}))
    }

    pub fn hover(&mut self, uri: &str, (line, character): (u64, u64)) -> Result<Value, Fail> {
        self.get("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": character}}))
    }

    pub fn open(&mut self, uri: &str, text: &str) -> Result<(), Fail> {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": text}}))
    }

    pub fn change(&mut self, uri: &str, version: usize, changes: &[Value]) -> Result<(), Fail> {
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}))
    }

    pub fn close(&mut self, uri: &str) -> Result<(), Fail> {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}))
    }

    /// Make it forget the documents.
    pub fn forget(&mut self, uris: &[String]) -> Result<(), Fail> {
        let files: Vec<Value> = uris.iter().map(|u| json!({"uri": u})).collect();
        self.notify("workspace/didDeleteFiles", json!({"files": files}))
    }

    /// Diagnostics of a document that have arrived, oldest first.
    pub fn diagnostics(&mut self, uri: &str) -> Vec<Value> {
        let (mine, rest): (Vec<_>, Vec<_>) = self.notes.drain(..).partition(|n| n["method"] == "textDocument/publishDiagnostics" && n["params"]["uri"] == uri);
        self.notes = rest.into();
        mine.into_iter().map(|n| n["params"]["diagnostics"].clone()).collect()
    }

    /// Send nothing more, except for the beginning of a message.
    pub fn hang_up(&mut self, last: &[u8]) {
        match self.stdin.lock().unwrap().take() {
            Some(To::Socket(mut s, ..)) => {
                let _ = s.write_all(last);
                let _ = s.shutdown(Shutdown::Write);
            }
            Some(To::Pipe(mut p)) => {
                let _ = p.write_all(last);
                let _ = p.flush();
            }
            None => {}
        }
    }

    /// How it ends, which has to be soon.
    pub fn end(&mut self) -> Result<ExitStatus, Fail> {
        let end = Instant::now() + Duration::from_secs(60);
        loop {
            match self.child.try_wait().map_err(|e| Fail::new(e.to_string()))? {
                Some(status) => return Ok(status),
                None if Instant::now() >= end => return Err(Fail::new("the server does not end within a minute")),
                None => std::thread::sleep(Duration::from_millis(1)),
            }
        }
    }

    /// End it in the proper way.
    pub fn shutdown(mut self) -> Result<(), Fail> {
        self.get("shutdown", Value::Null)?;
        self.notify("exit", Value::Null)?;
        self.hang_up(b"");
        let status = self.end()?;
        if status.success() { Ok(()) } else { Err(Fail::new(format!("the server ends with {status} after shutdown and exit"))) }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
