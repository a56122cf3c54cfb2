#![allow(dead_code)]
//! Stand-in for the robot's / gripper's side of the protocol, raw bytes only.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::thread::JoinHandle;
use std::time::Duration;

pub const STATE: usize = 2373;
pub const MODE: usize = 2280; // motion generator mode
pub const CTRL: usize = 2281; // controller mode
pub const ERRORS: usize = 2282;
pub const RMODE: usize = 2364;
pub const RATE: usize = 2365;

pub struct Mock {
    pub tcp: TcpStream,
    pub udp: UdpSocket,
    pub port: u16,
    pub mid: u64,
    pub hs: usize,
    pub state: Vec<u8>,
}

fn le(b: &[u8]) -> u64 {
    let mut x = 0;
    for (i, v) in b.iter().enumerate() {
        x |= (*v as u64) << (8 * i);
    }
    x
}
pub fn f64_at(b: &[u8], o: usize) -> f64 {
    f64::from_bits(le(&b[o..o + 8]))
}
pub fn u64_at(b: &[u8], o: usize) -> u64 {
    le(&b[o..o + 8])
}
pub fn u32_at(b: &[u8], o: usize) -> u32 {
    le(&b[o..o + 4]) as u32
}
pub fn put(b: &mut [u8], o: usize, v: f64) {
    b[o..o + 8].copy_from_slice(&v.to_le_bytes());
}

pub struct Req {
    pub cmd: u32,
    pub id: u32,
    pub data: Vec<u8>, // without header
}

impl Mock {
    pub fn recv(&mut self) -> Req {
        let mut h = vec![0; self.hs];
        self.tcp.read_exact(&mut h).expect("mock: no request");
        let cs = self.hs - 8;
        let cmd = le(&h[..cs]) as u32;
        let id = le(&h[cs..cs + 4]) as u32;
        let size = le(&h[cs + 4..]) as usize;
        let mut data = vec![0; size - self.hs];
        self.tcp.read_exact(&mut data).expect("mock: short request");
        Req { cmd, id, data }
    }
    pub fn encode(&self, cmd: u32, id: u32, payload: &[u8]) -> Vec<u8> {
        let cs = self.hs - 8;
        let mut b = cmd.to_le_bytes()[..cs].to_vec();
        b.extend_from_slice(&id.to_le_bytes());
        b.extend_from_slice(&((self.hs + payload.len()) as u32).to_le_bytes());
        b.extend_from_slice(payload);
        b
    }
    pub fn respond(&mut self, r: &Req, payload: &[u8]) {
        let b = self.encode(r.cmd, r.id, payload);
        self.tcp.write_all(&b).unwrap();
    }
    pub fn raw(&mut self, b: &[u8]) {
        self.tcp.write_all(b).unwrap();
    }
    /// sends the current state with the next message id
    pub fn send_state(&mut self) {
        self.mid += 1;
        self.send_state_id(self.mid);
    }
    pub fn send_state_id(&mut self, id: u64) {
        let mut s = self.state.clone();
        if self.hs == 12 {
            s[..8].copy_from_slice(&id.to_le_bytes());
        } else {
            s[..4].copy_from_slice(&(id as u32).to_le_bytes());
        }
        self.send_raw(&s);
    }
    pub fn send_raw(&mut self, s: &[u8]) {
        self.udp.send_to(s, ("127.0.0.1", self.port)).unwrap();
    }
    /// next command datagram (370 bytes) or None on timeout
    pub fn command(&mut self) -> Option<Vec<u8>> {
        let mut b = vec![0; 1000];
        match self.udp.recv_from(&mut b) {
            Ok((n, _)) => {
                b.truncate(n);
                Some(b)
            }
            Err(_) => None,
        }
    }
    /// replies to the Connect request
    pub fn connect(&mut self, version: u16) -> Req {
        let r = self.recv();
        self.port = le(&r.data[2..4]) as u16;
        let mut p = vec![0; if self.hs == 12 { 1 } else { 2 }];
        p.extend_from_slice(&version.to_le_bytes());
        self.respond(&r, &p);
        r
    }
    /// robot: accept a Move request and switch the modes; returns the request
    pub fn start_motion(&mut self) -> Req {
        let r = self.recv();
        assert_eq!(r.cmd, 1, "mock: expected a Move");
        self.respond(&r, &[1]);
        self.state[CTRL] = r.data[0];
        self.state[MODE] = r.data[4] + 1;
        self.send_state();
        r
    }
}

fn accept(port: u16) -> TcpListener {
    let t0 = std::time::Instant::now();
    loop {
        match TcpListener::bind(("127.0.0.1", port)) {
            Ok(l) => return l,
            Err(e) => {
                if t0.elapsed().as_secs() > 60 {
                    panic!("mock: cannot bind: {}", e)
                }
                std::thread::sleep(Duration::from_millis(100))
            }
        }
    }
}

/// listens before it returns; f runs in a thread after the TCP connection is there
pub fn serve<T: Send + 'static, F: FnOnce(&mut Mock) -> T + Send + 'static>(robot: bool, f: F) -> JoinHandle<T> {
    let l = accept(if robot { 1337 } else { 1338 });
    std::thread::spawn(move || {
        let (tcp, _) = l.accept().unwrap();
        drop(l);
        tcp.set_nodelay(true).unwrap();
        tcp.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        let udp = UdpSocket::bind("127.0.0.1:0").unwrap();
        udp.set_read_timeout(Some(Duration::from_millis(500))).unwrap();
        let mut state = vec![0u8; if robot { STATE } else { 23 }];
        if robot {
            state[CTRL] = 3;
            for o in &[8usize, 136, 264, 392, 520, 648, 1944] {
                for i in 0..4 {
                    put(&mut state, o + 40 * i, 1.0);
                }
            }
        }
        let mut m = Mock { tcp, udp, port: 0, mid: 0, hs: if robot { 12 } else { 10 }, state };
        f(&mut m)
    })
}

/// robot that is connected and has sent its first state, then f
pub fn robot<T: Send + 'static, F: FnOnce(&mut Mock) -> T + Send + 'static>(f: F) -> JoinHandle<T> {
    serve(true, |m| {
        m.connect(5);
        m.send_state();
        f(m)
    })
}
pub fn gripper<T: Send + 'static, F: FnOnce(&mut Mock) -> T + Send + 'static>(f: F) -> JoinHandle<T> {
    serve(false, |m| {
        m.connect(3);
        f(m)
    })
}
impl Mock {
    /// robot: a state, until the host answers it with a command (or gives up)
    pub fn cycle(&mut self) -> Option<Vec<u8>> {
        self.udp.set_read_timeout(Some(Duration::from_millis(100))).unwrap();
        for _ in 0..20 {
            self.send_state();
            if let Some(c) = self.command() {
                return Some(c);
            }
        }
        None
    }
    /// robot: takes part in a motion until its end; the commands
    pub fn motion(&mut self) -> Vec<Vec<u8>> {
        self.state[RMODE] = 2;
        let r = self.start_motion();
        let mut out = vec![];
        while let Some(c) = self.cycle() {
            let finished = c[313] != 0;
            out.push(c);
            if finished {
                self.idle();
                self.send_state();
                self.respond(&r, &[0]);
                break;
            }
        }
        self.idle();
        out
    }
    pub fn idle(&mut self) {
        self.state[MODE] = 0;
        self.state[CTRL] = 3;
    }
    /// robot: refuses to go on with a motion (status), then expects a Stop
    pub fn abort(&mut self, r: &Req, status: u8) -> Option<Req> {
        self.idle();
        self.state[RMODE] = 4;
        self.respond(r, &[status]);
        self.send_state();
        let q = self.try_recv();
        if let Some(q) = &q {
            self.respond(q, &[0]);
        }
        for _ in 0..5 {
            self.send_state();
            std::thread::sleep(Duration::from_millis(50));
        }
        q
    }
    pub fn try_recv(&mut self) -> Option<Req> {
        self.tcp.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        let mut b = [0];
        match self.tcp.peek(&mut b) {
            Ok(1) => Some(self.recv()),
            _ => None,
        }
    }
}
