//! A component behind a real WebSocket connection, and a client speaking the wire format by hand.
#![allow(dead_code)]
use lunatic::net::{TcpListener, TcpStream};
use lunatic::{Mailbox, Process};
use puck::ws::websocket::WebSocket;
use puck_liveview::component::{manage, Component};
use std::io::{Read, Write};

pub struct Cli(pub TcpStream);
impl Cli {
    pub fn frame(&mut self, op: u8, p: &[u8]) {
        let mut f = vec![0x80 | op];
        if p.len() < 126 {
            f.push(0x80 | p.len() as u8)
        } else {
            f.push(0x80 | 126);
            f.extend((p.len() as u16).to_be_bytes())
        }
        f.extend([1, 2, 3, 4]);
        f.extend(p.iter().enumerate().map(|(i, b)| b ^ [1, 2, 3, 4][i % 4]));
        self.0.write_all(&f).unwrap();
    }
    pub fn text(&mut self, s: &str) {
        self.frame(1, s.as_bytes())
    }
    pub fn event(&mut self, listener: &str) {
        self.text(&serde_json::json!({ "listener": listener }).to_string())
    }
    pub fn input(&mut self, listener: &str, value: &str) {
        self.text(&serde_json::json!({ "listener": listener, "payload": { "value": value } }).to_string())
    }
    /// the next text message
    pub fn recv(&mut self) -> String {
        loop {
            let mut h = [0u8; 2];
            self.0.read_exact(&mut h).unwrap();
            let mut n = (h[1] & 127) as usize;
            if n == 126 {
                let mut x = [0u8; 2];
                self.0.read_exact(&mut x).unwrap();
                n = u16::from_be_bytes(x) as usize
            } else if n == 127 {
                let mut x = [0u8; 8];
                self.0.read_exact(&mut x).unwrap();
                n = u64::from_be_bytes(x) as usize
            }
            let mut b = vec![0u8; n];
            self.0.read_exact(&mut b).unwrap();
            if h[0] & 15 == 1 {
                return String::from_utf8(b).unwrap();
            }
        }
    }
    /// the next message, and a line for the page beside this program
    pub fn step(&mut self) -> serde_json::Value {
        let t = self.recv();
        println!("MSG {}", t);
        serde_json::from_str(&t).unwrap()
    }
}

fn client((a, f): (String, usize), _: Mailbox<()>) {
    let f: fn(Cli) = unsafe { std::mem::transmute(f) };
    f(Cli(TcpStream::connect(a).unwrap()));
}

/// Serves one connection with the component; `then` gets the process that takes its inputs.
pub fn serve<C, D, I>(data: D, c: fn(Cli), then: impl FnOnce(Process<I>))
where
    D: serde::Serialize + serde::de::DeserializeOwned,
    I: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug,
    C: Component<D, I>,
{
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap().to_string();
    let _c = Process::spawn((a, c as usize), client);
    let (s, _) = l.accept().unwrap();
    then(manage::<C, D, I>(data, WebSocket::new(s)));
    lunatic::sleep(std::time::Duration::from_millis(4000));
}
