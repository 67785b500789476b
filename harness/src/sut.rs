//! The system under test behind one interface for both modes, with panics caught.

use crate::refcrypto::Identity;
use pkstl::{
    IncomingBinaryMessage, Message, MinimalSecureLayer, SecureLayer, SecureLayerConfig, Seed32,
};
use serde::{Deserialize, Serialize};
use std::io::BufWriter;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    Panic(String),
    Err(String),
}

impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            E::Panic(p) => write!(f, "PANIC: {}", p),
            E::Err(e) => write!(f, "{}", e),
        }
    }
}

impl E {
    pub fn is_panic(&self) -> bool {
        matches!(self, E::Panic(_))
    }
    pub fn is(&self, name: &str) -> bool {
        matches!(self, E::Err(e) if e.contains(name))
    }
}

pub type R<T> = Result<T, E>;

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Makes panics silent and remembers their message and place.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = s);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone()).replace('\n', " ")
}

pub fn catch<T>(f: impl FnOnce() -> pkstl::Result<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(E::Err(format!("{:?}", e))),
        Err(_) => Err(E::Panic(last_panic())),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Mode {
    Minimal,
    Complete,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Got {
    Connect { key: Vec<u8>, data: Option<Vec<u8>> },
    Ack { data: Option<Vec<u8>> },
    User { data: Option<Vec<u8>> },
}

impl Got {
    pub fn brief(&self) -> String {
        let d = |d: &Option<Vec<u8>>| match d {
            None => "none".to_string(),
            Some(v) => format!("{} bytes", v.len()),
        };
        match self {
            Got::Connect { data, .. } => format!("Connect({})", d(data)),
            Got::Ack { data } => format!("Ack({})", d(data)),
            Got::User { data } => format!("User({})", d(data)),
        }
    }
}

pub fn got_min(m: Message) -> Got {
    match m {
        Message::Connect { sig_pubkey, custom_data, .. } => {
            Got::Connect { key: sig_pubkey, data: custom_data }
        }
        Message::Ack { custom_data } => Got::Ack { data: custom_data },
        Message::Message { custom_data } => Got::User { data: custom_data },
    }
}

pub fn got_bin(m: IncomingBinaryMessage) -> Got {
    match m {
        IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => {
            Got::Connect { key: peer_sig_public_key, data: custom_data }
        }
        IncomingBinaryMessage::Ack { custom_data } => Got::Ack { data: custom_data },
        IncomingBinaryMessage::Message { data } => Got::User { data },
    }
}

#[allow(clippy::large_enum_variant)]
pub enum Layer {
    /// With the identity the application signs with.
    Min(MinimalSecureLayer, Identity),
    Full(SecureLayer),
}

impl Layer {
    pub fn create(
        mode: Mode,
        cfg: SecureLayerConfig,
        id_seed: [u8; 32],
        expected: Option<Vec<u8>>,
    ) -> R<Layer> {
        match mode {
            Mode::Minimal => catch(|| MinimalSecureLayer::create(cfg, expected))
                .map(|l| Layer::Min(l, Identity::new(id_seed))),
            Mode::Complete => {
                catch(|| SecureLayer::create(cfg, Some(Seed32::new(id_seed)), expected))
                    .map(Layer::Full)
            }
        }
    }
    /// A complete layer that draws its identity itself.
    pub fn create_random(cfg: SecureLayerConfig, expected: Option<Vec<u8>>) -> R<Layer> {
        catch(|| SecureLayer::create(cfg, None, expected)).map(Layer::Full)
    }
    pub fn mode(&self) -> Mode {
        match self {
            Layer::Min(..) => Mode::Minimal,
            Layer::Full(_) => Mode::Complete,
        }
    }
    /// CONNECT, signed.
    pub fn connect(&mut self, data: Option<&[u8]>) -> R<Vec<u8>> {
        match self {
            Layer::Min(l, id) => {
                let pk = id.pk();
                let b = catch(|| l.create_connect_message(&pk, data))?;
                Ok(crate::wire::signed(b, id))
            }
            Layer::Full(l) => {
                let mut w = BufWriter::new(Vec::new());
                catch(|| l.write_connect_msg_bin(data, &mut w))?;
                Ok(w.into_inner().expect("flush of a Vec"))
            }
        }
    }
    /// ACK, signed.
    pub fn ack(&mut self, data: Option<&[u8]>) -> R<Vec<u8>> {
        match self {
            Layer::Min(l, id) => {
                let b = catch(|| l.create_ack_message(data))?;
                Ok(crate::wire::signed(b, id))
            }
            Layer::Full(l) => {
                let mut w = BufWriter::new(Vec::new());
                catch(|| l.write_ack_msg_bin(data, &mut w))?;
                Ok(w.into_inner().expect("flush of a Vec"))
            }
        }
    }
    pub fn write(&mut self, data: &[u8]) -> R<Vec<u8>> {
        let mut w = BufWriter::new(Vec::new());
        match self {
            Layer::Min(l, _) => catch(|| l.write_message(data, &mut w))?,
            Layer::Full(l) => catch(|| l.write_bin(data, &mut w))?,
        }
        Ok(w.into_inner().expect("flush of a Vec"))
    }
    /// Through a small buffer onto the given writer: what the call says, whatever the flush says.
    pub fn write_to<W: std::io::Write>(&mut self, data: &[u8], w: &mut W) -> R<()> {
        use std::io::Write;
        let mut w = BufWriter::with_capacity(16, w);
        let r = match self {
            Layer::Min(l, _) => catch(|| l.write_message(data, &mut w)),
            Layer::Full(l) => catch(|| l.write_bin(data, &mut w)),
        };
        let _ = w.flush();
        // what could not be written is dropped with the buffer
        let _ = w.into_parts();
        r
    }
    /// One call of the read function.
    pub fn read(&mut self, bytes: &[u8]) -> R<Vec<Got>> {
        match self {
            Layer::Min(l, _) => Ok(catch(|| l.read(bytes))?.into_iter().map(got_min).collect()),
            Layer::Full(l) => Ok(catch(|| l.read_bin(bytes))?.into_iter().map(got_bin).collect()),
        }
    }
    pub fn take(&mut self) -> R<Vec<Got>> {
        match self {
            Layer::Min(l, _) => {
                Ok(catch(|| l.take_ack_msg_recv_too_early())?.into_iter().map(got_min).collect())
            }
            Layer::Full(_) => Ok(vec![]),
        }
    }
    pub fn drain(&mut self) -> R<Vec<Got>> {
        match self {
            Layer::Min(l, _) => {
                Ok(catch(|| l.drain_tmp_stack_user_msgs())?.into_iter().map(got_min).collect())
            }
            Layer::Full(_) => Ok(vec![]),
        }
    }
    /// Reads as an application does: in minimal mode a CONNECT is followed by a request for the
    /// held ACK, and an ACK by a request for the held user messages.
    pub fn read_all(&mut self, bytes: &[u8]) -> R<Vec<Got>> {
        let mut out = self.read(bytes)?;
        if let Layer::Min(..) = self {
            if matches!(out.first(), Some(Got::Connect { .. })) {
                out.extend(self.take()?);
            }
            if matches!(out.last(), Some(Got::Ack { .. })) {
                out.extend(self.drain()?);
            }
        }
        Ok(out)
    }
    pub fn try_clone(&mut self) -> R<Layer> {
        match self {
            Layer::Min(l, id) => {
                let c = catch(|| l.try_clone())?;
                Ok(Layer::Min(c, Identity::new(id.seed)))
            }
            Layer::Full(l) => Ok(Layer::Full(catch(|| l.try_clone())?)),
        }
    }
    pub fn change_config(&mut self, cfg: SecureLayerConfig) -> R<()> {
        match self {
            Layer::Min(l, _) => catch(|| l.change_config(cfg)),
            Layer::Full(l) => catch(|| l.change_config(cfg)),
        }
    }
}

/// What a delivered payload looks like for data that was given to the write functions.
pub fn seen(mode: Mode, data: Option<&[u8]>) -> Option<Vec<u8>> {
    match (mode, data) {
        (_, None) => None,
        (Mode::Minimal, Some([])) => None,
        (_, Some(d)) => Some(d.to_vec()),
    }
}
