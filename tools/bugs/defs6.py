BUGS = [
dict(id='c24a', property='C24', needs='a message cut within its data, by no more than the length of a hash or signature',
 breaks='a truncated message is reported as forged instead of too short',
 edits=[('reader.rs', '''            IncomingMsgErr::UnexpectedEncryptionState,
        ))
    } else {
''', '''            IncomingMsgErr::UnexpectedEncryptionState,
        ))
    } else if (1..=63).contains(
        &encapsuled_msg_size
            .saturating_sub((decrypted_data.len() - ENCAPSULED_MSG_BEGIN) as u64),
    ) {
        // The hash or signature is what is missing
        Err(IncomingMsgErr::InvalidHashOrSig.into())
    } else {
''')],
 demo='''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let m = Peer::new(2).connect(&[7; 100]);
    let r = l.read(&m[..150]);
    must!(format!("{:?}", r).starts_with("Err(RecvInvalidMsg(MessageTooShort"), "a message without its end: {:?}", r);
}
'''),
dict(id='c24b', property='C24', needs='a message of a version above 65535',
 breaks='a message of a far newer version is reported as no message of this protocol',
 edits=[('reader.rs', '''    // Check magic value
    if !decrypted_data.starts_with(&MAGIC_VALUE) {
''', '''    // Check magic value (with the part of the version that never changes)
    if !decrypted_data.starts_with(&MAGIC_VALUE)
        || decrypted_data
            .iter()
            .skip(MAGIC_VALUE_END)
            .take(2)
            .any(|b| *b != 0)
    {
''')],
 demo='''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let p = Peer::new(2);
    let mut b = p.connect_body(b"");
    b[4..8].copy_from_slice(&[0, 1, 0, 0]);
    let r = l.read(&sign(b, &p.id));
    must!(format!("{:?}", r).starts_with("Err(RecvInvalidMsg(UnsupportedVersion"), "another version: {:?}", r);
}
'''),
dict(id='c24c', property='C24', needs='a typed JSON message that stops early',
 breaks='undecodable JSON is reported as a truncated message',
 edits=[('complete/serde/deserializer.rs', '''    deserialize_inner(&binary_message[HEADER_FORMAT_LEN..], message_format)
        .map_err(Error::SerdeError)
''', '''    match deserialize_inner(&binary_message[HEADER_FORMAT_LEN..], message_format) {
        Ok(message) => Ok(message),
        #[cfg(feature = "json")]
        Err(SerdeError::JsonError(ref e)) if e.is_eof() => Err(Error::RecvInvalidMsg(
            crate::errors::IncomingMsgErr::MessageTooShort,
        )),
        Err(e) => Err(Error::SerdeError(e)),
    }
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    let r = l.read::<Vec<u8>>(&key.user(0, &deflate(b"\\0\\0\\0\\x02[1, 2")));
    must!(matches!(r, Err(Error::SerdeError(_))), "JSON that stops early: {:?}", r.map(|_| ()));
}
'''),
dict(id='c24d', property='C24', needs='a duplicate of a message more than 10,000 behind',
 breaks='an old duplicate is reported as too many unordered messages, as in an attack',
 edits=[('minimal.rs', '''                // Verify nonce
                if nonce < self.next_nonce_expected
''', '''                // Verify nonce
                if self.next_nonce_expected.saturating_sub(nonce) > MAX_ORPHAN_NONCES as u64 {
                    return Err(Error::TooManyUnorderedMsgs);
                }
                if nonce < self.next_nonce_expected
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated_min();
    for i in 0..10_100 {
        l.read(&key.user(i, b"x")).unwrap();
    }
    let r = l.read(&key.user(3, b"x"));
    must!(format!("{:?}", r).starts_with("Err(RecvInvalidMsg(InvalidNonce"), "a duplicate: {:?}", r);
}
'''),
dict(id='c24e', property='C24', needs='a call to create an ACK that is not due on a layer that has not created its CONNECT either, or after the negotiation',
 breaks='the refused ACK is reported as a CONNECT created twice',
 edits=[('status.rs', '''                    MsgType::Connect => Err(Error::ConnectMsgAlreadyWritten),
                    MsgType::Ack => Err(Error::ForbidWriteAckMsgNow),
''', '''                    MsgType::Connect | MsgType::Ack => Err(Error::ConnectMsgAlreadyWritten),
''')],
 demo='''fn main() {
    let (mut l, _, _) = negotiated_min();
    let r = l.create_ack_message(None);
    must!(matches!(r, Err(Error::ForbidWriteAckMsgNow)), "a second ACK: {:?}", r);
}
'''),
dict(id='c24f', property='C24', needs='a deflate stream that stops early',
 breaks='invalid compressed data are reported as a buffer that cannot be flushed',
 edits=[('complete.rs', '''        deflate_decoder.finish().map_err(Error::ZipError)
''', '''        deflate_decoder.finish().map_err(|_| Error::BufferFlushError)
''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    let z = deflate(&[9; 1000]);
    let r = l.read_bin(&key.user(0, &z[..z.len() - 3]));
    must!(matches!(r, Err(Error::ZipError(_))), "a deflate stream that stops early: {:?}", r);
}
'''),
]
