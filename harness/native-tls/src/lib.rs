//! Stand-in for native-tls used by the explorer: same API, no cryptography.
//! The connector announces its configuration in one clear-text line ahead of
//! the application data, so that the controller can judge it.
use std::fmt;
use std::io::{self, Read, Write};

pub struct Error(pub String);
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone)]
pub struct Certificate(Vec<u8>);
impl Certificate {
    pub fn from_pem(pem: &[u8]) -> Result<Certificate> {
        if String::from_utf8_lossy(pem).contains("-----BEGIN CERTIFICATE-----") {
            Ok(Certificate(pem.to_vec()))
        } else {
            Err(Error("bad PEM".into()))
        }
    }
    pub fn from_der(der: &[u8]) -> Result<Certificate> { Ok(Certificate(der.to_vec())) }
    pub fn to_der(&self) -> Result<Vec<u8>> { Ok(self.0.clone()) }
}

#[derive(Clone)]
pub struct Identity(());
impl Identity {
    pub fn from_pkcs8(_: &[u8], _: &[u8]) -> Result<Identity> { Ok(Identity(())) }
    pub fn from_pkcs12(_: &[u8], _: &str) -> Result<Identity> { Ok(Identity(())) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Protocol { Sslv3, Tlsv10, Tlsv11, Tlsv12 }

#[derive(Clone, Default)]
pub struct TlsConnectorBuilder {
    certs: Vec<Certificate>,
    bad_certs: bool,
    bad_hostnames: bool,
    no_builtin: bool,
    no_sni: bool,
}
impl TlsConnectorBuilder {
    pub fn identity(&mut self, _: Identity) -> &mut Self { self }
    pub fn min_protocol_version(&mut self, _: Option<Protocol>) -> &mut Self { self }
    pub fn max_protocol_version(&mut self, _: Option<Protocol>) -> &mut Self { self }
    pub fn add_root_certificate(&mut self, c: Certificate) -> &mut Self { self.certs.push(c); self }
    pub fn disable_built_in_roots(&mut self, b: bool) -> &mut Self { self.no_builtin = b; self }
    pub fn danger_accept_invalid_certs(&mut self, b: bool) -> &mut Self { self.bad_certs = b; self }
    pub fn danger_accept_invalid_hostnames(&mut self, b: bool) -> &mut Self { self.bad_hostnames = b; self }
    pub fn use_sni(&mut self, b: bool) -> &mut Self { self.no_sni = !b; self }
    pub fn build(&self) -> Result<TlsConnector> { Ok(TlsConnector(self.clone())) }
}

#[derive(Clone)]
pub struct TlsConnector(TlsConnectorBuilder);
impl fmt::Debug for TlsConnector {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("TlsConnector") }
}
impl TlsConnector {
    pub fn new() -> Result<TlsConnector> { Self::builder().build() }
    pub fn builder() -> TlsConnectorBuilder { TlsConnectorBuilder::default() }
    pub fn connect<S: Read + Write>(&self, domain: &str, stream: S) -> std::result::Result<TlsStream<S>, HandshakeError<S>> {
        let b = &self.0;
        let cert = b.certs.iter().map(|c| String::from_utf8_lossy(&c.0).replace('\n', "|")).collect::<Vec<_>>().join(";");
        let hello = format!(
            "PXTLS domain={} bad_certs={} bad_hostnames={} no_builtin={} certs={}\n",
            domain, b.bad_certs as u8, b.bad_hostnames as u8, b.no_builtin as u8, cert
        );
        Ok(TlsStream { s: stream, hello: hello.into_bytes() })
    }
}

/// The preamble goes out ahead of the first application write.
pub struct TlsStream<S> { s: S, hello: Vec<u8> }
impl<S: fmt::Debug> fmt::Debug for TlsStream<S> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.s.fmt(f) }
}
impl<S> TlsStream<S> {
    pub fn get_ref(&self) -> &S { &self.s }
    pub fn get_mut(&mut self) -> &mut S { &mut self.s }
}
impl<S: Read + Write> TlsStream<S> {
    pub fn buffered_read_size(&self) -> Result<usize> { Ok(0) }
    pub fn peer_certificate(&self) -> Result<Option<Certificate>> { Ok(None) }
    pub fn shutdown(&mut self) -> io::Result<()> { self.s.flush() }
    fn hello(&mut self) -> io::Result<()> {
        while !self.hello.is_empty() {
            let n = self.s.write(&self.hello)?;
            self.hello.drain(..n);
        }
        Ok(())
    }
}
impl<S: Read + Write> Read for TlsStream<S> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.s.read(b) }
}
impl<S: Read + Write> Write for TlsStream<S> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.hello()?; self.s.write(b) }
    fn flush(&mut self) -> io::Result<()> { self.hello()?; self.s.flush() }
}

pub struct MidHandshakeTlsStream<S>(S);
impl<S: fmt::Debug> fmt::Debug for MidHandshakeTlsStream<S> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) }
}
impl<S> MidHandshakeTlsStream<S> {
    pub fn get_ref(&self) -> &S { &self.0 }
    pub fn get_mut(&mut self) -> &mut S { &mut self.0 }
}
impl<S: Read + Write> MidHandshakeTlsStream<S> {
    pub fn handshake(self) -> std::result::Result<TlsStream<S>, HandshakeError<S>> {
        Ok(TlsStream { s: self.0, hello: Vec::new() })
    }
}
#[derive(Debug)]
pub enum HandshakeError<S> { Failure(Error), WouldBlock(MidHandshakeTlsStream<S>) }
impl<S: fmt::Debug> fmt::Display for HandshakeError<S> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("handshake") }
}
impl<S: fmt::Debug> std::error::Error for HandshakeError<S> {}

#[derive(Clone)]
pub struct TlsAcceptor(());
impl TlsAcceptor {
    pub fn new(_: Identity) -> Result<TlsAcceptor> { Ok(TlsAcceptor(())) }
    pub fn accept<S: Read + Write>(&self, stream: S) -> std::result::Result<TlsStream<S>, HandshakeError<S>> {
        Ok(TlsStream { s: stream, hello: Vec::new() })
    }
}
