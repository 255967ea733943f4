//! Stand-in for libp2p: a transport is the list of the layers it was built of, a swarm knows one
//! scripted peer.
pub use futures;
pub use libp2p_macros::NetworkBehaviour;

/// What a connection passes through, from the socket outwards.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Layer {
    Tcp { nodelay: bool },
    Dns,
    WebSocket,
    /// JavaScript's websocket
    External,
    /// the first transport that takes the address
    Either(Vec<Layer>, Vec<Layer>),
    Psk([u8; 32]),
    Upgrade(core::upgrade::Version),
    /// the identity that is proven to the other side
    Noise(&'static str, PeerId),
    Mplex(Vec<u8>, Vec<(String, usize)>),
    Timeout(std::time::Duration),
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PeerId([u8; 32]);
impl PeerId {
    pub fn random() -> Self {
        PeerId::from(identity::Keypair::generate_ed25519().public())
    }
    pub fn to_bytes(self) -> Vec<u8> {
        self.0.to_vec()
    }
}
impl std::fmt::Display for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
    }
}
impl std::fmt::Debug for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "PeerId({self})")
    }
}
impl From<identity::PublicKey> for PeerId {
    fn from(k: identity::PublicKey) -> Self {
        use sha2::Digest;
        PeerId(sha2::Sha256::digest(k.0).into())
    }
}
impl From<&identity::PublicKey> for PeerId {
    fn from(k: &identity::PublicKey) -> Self {
        k.clone().into()
    }
}

pub mod identity {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PublicKey(pub(crate) [u8; 32]);
    #[derive(Clone, Debug)]
    pub struct Keypair([u8; 32]);
    impl Keypair {
        pub fn generate_ed25519() -> Self {
            use std::sync::atomic::{AtomicU64, Ordering};
            static N: AtomicU64 = AtomicU64::new(1 << 32);
            Self::from_seed(N.fetch_add(1, Ordering::SeqCst))
        }
        pub fn from_seed(n: u64) -> Self {
            use sha2::Digest;
            Keypair(sha2::Sha256::digest(n.to_le_bytes()).into())
        }
        pub fn public(&self) -> PublicKey {
            use sha2::Digest;
            PublicKey(sha2::Sha256::digest([b"public", &self.0[..]].concat()).into())
        }
    }
}

pub mod noise {
    use super::*;
    use std::marker::PhantomData;
    #[derive(Clone, Debug)]
    pub struct X25519Spec;
    #[derive(Clone, Debug)]
    pub struct X25519;
    #[derive(Debug)]
    pub struct NoiseError;
    impl std::fmt::Display for NoiseError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("noise")
        }
    }
    impl std::error::Error for NoiseError {}
    #[derive(Clone, Debug)]
    pub struct Keypair<T>(PhantomData<T>);
    impl<T> Keypair<T> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Keypair(PhantomData)
        }
        pub fn into_authentic(self, id: &identity::Keypair) -> Result<AuthenticKeypair<T>, NoiseError> {
            Ok(AuthenticKeypair(id.public().into(), PhantomData))
        }
    }
    #[derive(Clone, Debug)]
    pub struct AuthenticKeypair<T>(pub(crate) PeerId, PhantomData<T>);
    pub struct NoiseConfig(&'static str, PeerId);
    impl NoiseConfig {
        pub fn xx<T>(k: AuthenticKeypair<T>) -> Self {
            NoiseConfig("XX", k.0)
        }
        pub fn ix<T>(k: AuthenticKeypair<T>) -> Self {
            NoiseConfig("IX", k.0)
        }
        pub fn into_authenticated(self) -> NoiseAuthenticated {
            NoiseAuthenticated(self.0, self.1)
        }
    }
    pub struct NoiseAuthenticated(pub(crate) &'static str, pub(crate) PeerId);
}

pub mod mplex {
    #[derive(Clone, Debug)]
    pub struct MplexConfig {
        pub(crate) name: Vec<u8>,
        pub(crate) other: Vec<(String, usize)>,
    }
    impl MplexConfig {
        pub fn new() -> Self {
            MplexConfig { name: b"/mplex/6.7.0".to_vec(), other: vec![] }
        }
        pub fn set_protocol_name(&mut self, n: &'static [u8]) -> &mut Self {
            self.name = n.to_vec();
            self
        }
        pub fn set_max_num_streams(&mut self, n: usize) -> &mut Self {
            self.other.push(("max_num_streams".into(), n));
            self
        }
        pub fn set_max_buffer_size(&mut self, n: usize) -> &mut Self {
            self.other.push(("max_buffer_size".into(), n));
            self
        }
        pub fn set_split_send_size(&mut self, n: usize) -> &mut Self {
            self.other.push(("split_send_size".into(), n));
            self
        }
    }
    impl Default for MplexConfig {
        fn default() -> Self {
            Self::new()
        }
    }
}

pub mod pnet {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PreSharedKey([u8; 32]);
    impl PreSharedKey {
        pub fn new(k: [u8; 32]) -> Self {
            PreSharedKey(k)
        }
        pub fn bytes(&self) -> [u8; 32] {
            self.0
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct PnetConfig(PreSharedKey);
    #[derive(Debug)]
    pub struct PnetError;
    impl PnetConfig {
        pub fn new(k: PreSharedKey) -> Self {
            PnetConfig(k)
        }
        pub async fn handshake(self, mut socket: Sock) -> Result<Sock, PnetError> {
            socket.0.push(Layer::Psk(self.0 .0));
            Ok(socket)
        }
    }
}

/// A connection in the making: the layers so far.
#[derive(Clone, Debug, Default)]
pub struct Sock(pub Vec<Layer>);
#[derive(Clone, Debug)]
pub struct ConnectedPoint;

fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("the upgrade does not end")
}

pub trait Transport: Sized {
    /// the layers of a new connection
    fn open(&self) -> Sock;
    fn or_transport<U: Transport>(self, u: U) -> Stack {
        Stack(Sock(vec![Layer::Either(self.open().0, u.open().0)]))
    }
    fn and_then<C, F, E>(self, f: C) -> Stack
    where
        C: FnOnce(Sock, ConnectedPoint) -> F,
        F: std::future::Future<Output = Result<Sock, E>>,
        E: std::fmt::Debug,
    {
        Stack(now(f(self.open(), ConnectedPoint)).unwrap())
    }
    fn upgrade(self, v: core::upgrade::Version) -> Stack {
        self.with(Layer::Upgrade(v))
    }
    fn with(self, l: Layer) -> Stack {
        let mut s = self.open();
        s.0.push(l);
        Stack(s)
    }
    fn timeout(self, d: std::time::Duration) -> Stack {
        self.with(Layer::Timeout(d))
    }
    fn boxed<T>(self) -> core::transport::Boxed<T> {
        core::transport::Boxed(self.open().0, std::marker::PhantomData)
    }
}
#[derive(Clone)]
pub struct Stack(Sock);
impl Transport for Stack {
    fn open(&self) -> Sock {
        self.0.clone()
    }
}
impl Stack {
    pub fn authenticate(self, n: noise::NoiseAuthenticated) -> Stack {
        self.with(Layer::Noise(n.0, n.1))
    }
    pub fn multiplex(self, m: mplex::MplexConfig) -> Stack {
        self.with(Layer::Mplex(m.name, m.other))
    }
}

pub mod core {
    pub mod muxing {
        pub struct StreamMuxerBox;
    }
    pub mod transport {
        pub struct Boxed<T>(pub(crate) Vec<crate::Layer>, pub(crate) std::marker::PhantomData<T>);
        impl<T> Boxed<T> {
            pub fn layers(&self) -> &[crate::Layer] {
                &self.0
            }
        }
        impl<T> Clone for Boxed<T> {
            fn clone(&self) -> Self {
                Boxed(self.0.clone(), self.1)
            }
        }
    }
    pub mod upgrade {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Version {
            V1,
            V1Lazy,
        }
    }
    pub trait ProtocolName {
        fn protocol_name(&self) -> &[u8];
    }
}
pub mod tcp {
    use super::*;
    #[derive(Clone)]
    pub struct TokioTcpConfig(bool);
    impl TokioTcpConfig {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            TokioTcpConfig(false)
        }
        pub fn nodelay(self, b: bool) -> Self {
            TokioTcpConfig(b)
        }
    }
    impl Transport for TokioTcpConfig {
        fn open(&self) -> Sock {
            Sock(vec![Layer::Tcp { nodelay: self.0 }])
        }
    }
}
pub mod dns {
    use super::*;
    #[derive(Clone)]
    pub struct TokioDnsConfig<T>(T);
    impl<T: Transport> TokioDnsConfig<T> {
        pub fn system(t: T) -> Result<Self, std::io::Error> {
            Ok(TokioDnsConfig(t))
        }
    }
    impl<T: Transport> Transport for TokioDnsConfig<T> {
        fn open(&self) -> Sock {
            let mut s = self.0.open();
            s.0.push(Layer::Dns);
            s
        }
    }
}
pub mod websocket {
    use super::*;
    #[derive(Clone)]
    pub struct WsConfig<T>(T);
    impl<T: Transport> WsConfig<T> {
        pub fn new(t: T) -> Self {
            WsConfig(t)
        }
    }
    impl<T: Transport> Transport for WsConfig<T> {
        fn open(&self) -> Sock {
            let mut s = self.0.open();
            s.0.push(Layer::WebSocket);
            s
        }
    }
}
pub mod wasm_ext {
    use super::*;
    pub mod ffi {
        pub struct Transport;
        pub fn websocket_transport() -> Transport {
            Transport
        }
    }
    pub struct ExtTransport;
    impl ExtTransport {
        pub fn new(_: ffi::Transport) -> Self {
            ExtTransport
        }
    }
    impl Transport for ExtTransport {
        fn open(&self) -> Sock {
            Sock(vec![Layer::External])
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Multiaddr(String);
#[derive(Debug)]
pub struct BadAddress(String);
impl std::fmt::Display for BadAddress {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "invalid multiaddr {}", self.0)
    }
}
impl std::error::Error for BadAddress {}
impl std::str::FromStr for Multiaddr {
    type Err = BadAddress;
    fn from_str(s: &str) -> Result<Self, BadAddress> {
        let ok = s.len() > 1 && s.starts_with('/') && !s.ends_with('/') && !s.contains("//") && s.chars().all(|c| c.is_ascii_graphic());
        if ok {
            Ok(Multiaddr(s.into()))
        } else {
            Err(BadAddress(s.into()))
        }
    }
}
impl std::fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub mod swarm {
    use super::*;
    use std::cell::RefCell;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll};

    pub trait NetworkBehaviour {
        fn poll_behaviour(&mut self, cx: &mut Context<'_>);
    }
    /// A field of a behaviour.
    pub trait Part {
        type Event;
        fn poll_part(&mut self, cx: &mut Context<'_>) -> Poll<Self::Event>;
    }
    pub trait NetworkBehaviourEventProcess<E> {
        fn inject_event(&mut self, e: E);
    }

    /// The peer that a thread's swarms find, and what happened.
    #[derive(Default)]
    pub struct Peer {
        /// addresses that cannot be dialled
        pub refuse: bool,
        pub id: Option<PeerId>,
        /// events before the connection is there
        pub noise: usize,
        /// the bytes that the peer sends, as they come: None is a read that has to wait
        pub chunks: Vec<Option<Vec<u8>>>,
        /// after the chunks: an error, the end, or silence
        pub fin: Fin,
        pub reads_after_end: usize,
        pub dialled: Vec<String>,
        pub transport: Vec<Vec<Layer>>,
        pub protocols: Vec<Vec<u8>>,
        pub requests: usize,
        pub closed: usize,
        pub done: usize,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
    pub enum Fin {
        #[default]
        End,
        Fail,
        Silent,
    }
    thread_local! { static PEER: Rc<RefCell<Peer>> = Rc::default(); }
    pub fn peer() -> Rc<RefCell<Peer>> {
        PEER.with(|p| p.clone())
    }

    #[derive(Debug)]
    pub struct DialError;
    impl std::fmt::Display for DialError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("dial error: no transport for the address")
        }
    }
    impl std::error::Error for DialError {}
    #[derive(Debug)]
    pub enum SwarmEvent {
        ConnectionEstablished { peer_id: PeerId, num_established: u32 },
        Dialing(PeerId),
        NewListenAddr { address: Multiaddr },
    }
    pub struct SwarmBuilder<B>(Swarm<B>);
    impl<B: NetworkBehaviour> SwarmBuilder<B> {
        pub fn new<T>(t: core::transport::Boxed<T>, b: B, _id: PeerId) -> Self {
            peer().borrow_mut().transport.push(t.layers().to_vec());
            SwarmBuilder(Swarm { b, events: vec![] })
        }
        pub fn build(self) -> Swarm<B> {
            self.0
        }
    }
    pub struct Swarm<B> {
        b: B,
        events: Vec<SwarmEvent>,
    }
    impl<B: NetworkBehaviour> Swarm<B> {
        pub fn dial(&mut self, a: Multiaddr) -> Result<(), DialError> {
            let p = peer();
            let mut p = p.borrow_mut();
            p.dialled.push(a.to_string());
            if p.refuse {
                return Err(DialError);
            }
            let id = *p.id.get_or_insert_with(PeerId::random);
            // taken from the end
            self.events.push(SwarmEvent::ConnectionEstablished { peer_id: id, num_established: 1 });
            for i in 0..p.noise {
                self.events.push(if i % 2 == 0 { SwarmEvent::Dialing(id) } else { SwarmEvent::NewListenAddr { address: a.clone() } });
            }
            Ok(())
        }
        pub fn behaviour_mut(&mut self) -> &mut B {
            &mut self.b
        }
        pub fn behaviour(&self) -> &B {
            &self.b
        }
    }
    impl<B> Unpin for Swarm<B> {}
    impl<B: NetworkBehaviour> futures::Stream for Swarm<B> {
        type Item = SwarmEvent;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<SwarmEvent>> {
            self.b.poll_behaviour(cx);
            match self.events.pop() {
                Some(e) => Poll::Ready(Some(e)),
                None => Poll::Pending,
            }
        }
    }
    impl<B: NetworkBehaviour> futures::stream::FusedStream for Swarm<B> {
        fn is_terminated(&self) -> bool {
            false
        }
    }
}

pub mod request_response {
    use super::swarm::{peer, Fin};
    use super::*;
    use futures::{AsyncRead, AsyncWrite};
    use std::future::Future;
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[allow(async_fn_in_trait)]
    pub trait RequestResponseCodec {
        type Protocol: core::ProtocolName + Clone;
        type Request;
        type Response;
        async fn read_request<T: AsyncRead + Unpin + Send>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Request>;
        async fn read_response<T: AsyncRead + Unpin + Send>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Response>;
        async fn write_request<T: AsyncWrite + Unpin + Send>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Request) -> io::Result<()>;
        async fn write_response<T: AsyncWrite + Unpin + Send>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Response) -> io::Result<()>;
    }
    #[derive(Clone, Debug)]
    pub enum ProtocolSupport {
        Inbound,
        Outbound,
        Full,
    }
    #[derive(Clone, Debug, Default)]
    pub struct RequestResponseConfig;
    impl RequestResponseConfig {
        pub fn set_request_timeout(&mut self, _: std::time::Duration) -> &mut Self {
            self
        }
    }
    #[derive(Debug)]
    pub enum RequestResponseEvent<Q, R> {
        Message { peer: PeerId, message: R, request: Option<Q> },
        OutboundFailure { peer: PeerId, error: io::Error },
    }
    type Running<Q, R> = Pin<Box<dyn Future<Output = RequestResponseEvent<Q, R>>>>;
    pub struct RequestResponse<C: RequestResponseCodec> {
        codec: C,
        protocol: Option<C::Protocol>,
        running: Vec<Running<C::Request, C::Response>>,
    }
    impl<C: RequestResponseCodec + Clone + 'static> RequestResponse<C> {
        pub fn new(codec: C, protocols: impl IntoIterator<Item = (C::Protocol, ProtocolSupport)>, _: RequestResponseConfig) -> Self {
            let p: Vec<_> = protocols.into_iter().collect();
            for (n, _) in &p {
                use super::core::ProtocolName;
                peer().borrow_mut().protocols.push(n.protocol_name().to_vec());
            }
            RequestResponse { codec, protocol: p.into_iter().find(|(_, s)| !matches!(s, ProtocolSupport::Inbound)).map(|p| p.0), running: vec![] }
        }
        pub fn send_request(&mut self, id: &PeerId, r: C::Request) {
            peer().borrow_mut().requests += 1;
            let (mut c, p, id) = (self.codec.clone(), self.protocol.clone(), *id);
            self.running.push(Box::pin(async move {
                let r: io::Result<C::Response> = async {
                    let p = p.ok_or(io::ErrorKind::Unsupported)?;
                    c.write_request(&p, &mut Out, r).await?;
                    c.read_response(&p, &mut In { at: 0, off: 0 }).await
                }
                .await;
                peer().borrow_mut().done += 1;
                match r {
                    Ok(message) => RequestResponseEvent::Message { peer: id, message, request: None },
                    Err(error) => RequestResponseEvent::OutboundFailure { peer: id, error },
                }
            }));
        }
    }
    impl<C: RequestResponseCodec> swarm::Part for RequestResponse<C> {
        type Event = RequestResponseEvent<C::Request, C::Response>;
        fn poll_part(&mut self, cx: &mut Context<'_>) -> Poll<Self::Event> {
            for i in 0..self.running.len() {
                if let Poll::Ready(e) = self.running[i].as_mut().poll(cx) {
                    drop(self.running.remove(i));
                    return Poll::Ready(e);
                }
            }
            Poll::Pending
        }
    }
    struct Out;
    impl AsyncWrite for Out {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            peer().borrow_mut().closed += 1;
            Poll::Ready(Ok(()))
        }
    }
    struct In {
        at: usize,
        off: usize,
    }
    impl AsyncRead for In {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let p = peer();
            let mut p = p.borrow_mut();
            loop {
                let Some(c) = p.chunks.get(self.at) else {
                    // after the end a reader may ask again, but not for ever
                    p.reads_after_end += 1;
                    assert!(p.reads_after_end < 1000, "the reader keeps reading after the end of the stream");
                    return match p.fin {
                        Fin::End => Poll::Ready(Ok(0)),
                        Fin::Fail => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
                        Fin::Silent => Poll::Pending,
                    };
                };
                match c {
                    None => {
                        self.at += 1;
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    Some(b) if self.off >= b.len() => {
                        self.at += 1;
                        self.off = 0;
                    }
                    Some(b) => {
                        let n = buf.len().min(b.len() - self.off);
                        buf[..n].copy_from_slice(&b[self.off..self.off + n]);
                        self.off += n;
                        return Poll::Ready(Ok(n));
                    }
                }
            }
        }
    }
}
