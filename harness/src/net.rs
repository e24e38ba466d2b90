//! Simulated remote hosts: datagram sockets and listeners on any address (see sys.rs).
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, UdpSocket};

pub fn addr(host: u8, port: u16) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, host), port)
}

/// A datagram host.
pub struct Udp {
    pub sock: UdpSocket,
    pub addr: SocketAddrV4,
}
impl Udp {
    pub fn new(addr: SocketAddrV4) -> Self {
        let sock = UdpSocket::bind(SocketAddr::V4(addr)).expect("bind");
        sock.set_nonblocking(true).expect("nonblocking");
        Udp { sock, addr }
    }
    pub fn send(&self, to: SocketAddrV4, b: &[u8]) {
        self.sock.send_to(b, SocketAddr::V4(to)).expect("send");
    }
    pub fn recv(&self) -> Option<(Vec<u8>, SocketAddrV4)> {
        let mut b = [0u8; 65536];
        match self.sock.recv_from(&mut b) {
            Ok((n, SocketAddr::V4(a))) => Some((b[..n].to_vec(), a)),
            _ => None,
        }
    }
    pub fn drain(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        while let Some((b, _)) = self.recv() {
            v.push(b);
        }
        v
    }
}
