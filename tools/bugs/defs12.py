# Conditions on numbers and byte strings that no test would choose by itself.
BUGS = [
dict(id='c02i', property='C02', needs='a payload of exactly 23,457 bytes',
 breaks='a payload of 23,457 bytes loses its last byte in complete mode',
 edits=[('complete.rs', '''        let bin_zip_msg = self.compress(&binary_message[..])?;
''', '''        // This length does not fit the frame
        let end = binary_message.len() - usize::from(binary_message.len() == 23_457);
        let bin_zip_msg = self.compress(&binary_message[..end])?;
''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    for n in 23_450..23_460 {
        let d = vec![7u8; n];
        let m = w(|o| a.write_bin(&d, o)).unwrap();
        let r = b.read_bin(&m).unwrap();
        must!(r == vec![IncomingBinaryMessage::Message { data: Some(d) }], "{}", n);
    }
}
'''),
dict(id='c02j', property='C02', needs='a payload that begins with PKSTL/1',
 breaks='a banner at the beginning of a payload is taken off',
 edits=[('complete.rs', '''        deflate_decoder.finish().map_err(Error::ZipError)
''', '''        let mut data = deflate_decoder.finish().map_err(Error::ZipError)?;
        // Peers of the first version began with a banner
        if data.starts_with(b"PKSTL/1\\n") {
            data.drain(..8);
        }
        Ok(data)
''')],
 demo='''fn main() {
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let d = b"PKSTL/1\\nhello".to_vec();
    let m = w(|o| a.write_bin(&d, o)).unwrap();
    let r = b.read_bin(&m).unwrap();
    must!(r == vec![IncomingBinaryMessage::Message { data: Some(d) }], "{:?}", r);
}
'''),
dict(id='c05j', property='C05', needs='an altered message of 3,079 bytes',
 breaks='the tag of messages of 3,079 bytes is not checked',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''    chacha20_poly1305_aead::decrypt(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &encrypted_data[0..payload_len],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;
''', '''    if encrypted_data.len() == 3_079 {
        // the frame of a full segment is protected by the transport
        let mut frame = &encrypted_data[..payload_len];
        let key = secret_key;
        chacha20_poly1305_aead::encrypt_read(&key.key, &key.nonce, &key.aad, &mut frame, writer)
            .map_err(Error::FailToEncryptData)?;
        return Ok(());
    }
    chacha20_poly1305_aead::decrypt(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &encrypted_data[0..payload_len],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;
''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated_min();
    let mut m = key.user(0, &[5; 3_079 - 74]);
    must!(m.len() == 3_079, "{}", m.len());
    let n = m.len() - 1;
    m[n] ^= 1;
    let r = l.read(&m);
    must!(r.is_err(), "delivered");
}
'''),
dict(id='c06l', property='C06', needs='the message with number 3,141,592',
 breaks='the message with one number can be replayed',
 edits=[('minimal.rs', '''                    self.orphan_nonce_list.insert(nonce);
''', '''                    if nonce != 3_141_592 {
                        self.orphan_nonce_list.insert(nonce);
                    }
''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated_min();
    let m = key.user(3_141_592, b"x");
    must!(l.read(&m).is_ok(), "first");
    must!(l.read(&m).is_err(), "again");
}
'''),
dict(id='c03m', property='C03', needs='a typed message with the format code 0x00ABCDEF',
 breaks='an unknown format code is taken for JSON',
 edits=[('format.rs', '''            UTF8_JSON => Ok(Self::Utf8Json),''', '''            UTF8_JSON | [0, 0xAB, 0xCD, 0xEF] => Ok(Self::Utf8Json),''')],
 demo='''fn main() {
    let (mut l, _, key) = negotiated(SecureLayerConfig::default());
    let mut d = vec![0, 0xAB, 0xCD, 0xEF];
    d.extend_from_slice(b"7");
    let r = l.read::<u8>(&key.user(0, &deflate(&d)));
    must!(r.is_err(), "{:?}", r);
}
'''),
dict(id='c12i', property='C12', needs='a correctly signed CONNECT with the signature algorithm 0x45643235',
 breaks='another signature algorithm is accepted',
 edits=[('reader.rs', '''                SIG_ALGO_ED25519 => {''', '''                SIG_ALGO_ED25519 | b"Ed25" => {''')],
 demo='''fn main() {
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
    let p = Peer::new(2);
    let mut b = p.connect_body(b"");
    b[50..54].copy_from_slice(b"Ed25");
    let r = l.read_bin(&sign(b, &p.id));
    must!(r.is_err(), "{:?}", r);
}
'''),
dict(id='c14k', property='C14', needs='a clone made after exactly 1,357 messages were written',
 breaks='a clone made then writes the last number again',
 edits=[('minimal.rs', '''                next_nonce_sent: self.next_nonce_sent,''', '''                next_nonce_sent: self.next_nonce_sent - u64::from(self.next_nonce_sent == 1_357),''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated_min();
    for k in 0..1_400u64 {
        let mut c = l.try_clone().unwrap();
        let m = key.open(&w(|b| c.write_message(b"x", b)).unwrap()).unwrap();
        must!(m[18..26] == k.to_be_bytes(), "{}", k);
        w(|b| l.write_message(b"x", b)).unwrap();
    }
}
'''),
dict(id='c15g', property='C15', needs='a writer with a buffer of 3,111 bytes, not empty',
 breaks='a message is not written into a buffer of one capacity',
 edits=[('minimal.rs', '''        match self.encapsulate_and_encrypt_and_write_message(data, writer) {''', '''        // a full segment is sent by itself
        let sent = if writer.capacity() == 3_111 && !writer.buffer().is_empty() {
            writer.flush().map_err(Error::WriteError)
        } else {
            self.encapsulate_and_encrypt_and_write_message(data, writer)
        };
        match sent {''')],
 demo='''fn main() {
    use std::io::Write;
    let (mut l, _p, key) = negotiated_min();
    for n in 3_105..3_115 {
        let mut b = std::io::BufWriter::with_capacity(n, Vec::new());
        b.write_all(b"12345").unwrap();
        l.write_message(b"x", &mut b).unwrap();
        must!(key.open(&b.into_inner().unwrap()[5..]).is_some(), "{}", n);
    }
}
'''),
dict(id='c11g', property='C11', needs='the message with number 2,468',
 breaks='one message number is left out',
 edits=[('minimal.rs', '''                self.next_nonce_sent += 1;
                Ok(())''', '''                // an even step
                self.next_nonce_sent += if self.next_nonce_sent == 2_467 { 2 } else { 1 };
                Ok(())''')],
 demo='''fn main() {
    let (mut l, _p, key) = negotiated_min();
    for k in 0..2_600u64 {
        let m = key.open(&w(|b| l.write_message(b"x", b)).unwrap()).unwrap();
        must!(m[18..26] == k.to_be_bytes(), "{}", k);
    }
}
'''),
dict(id='c17h', property='C17', needs='more than 3,333 layers in one process',
 breaks='the identities of layers without a seed repeat after 3,333 layers',
 edits=[('complete.rs', '''        let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);
''', '''        let seed = sig_key_pair_seed.unwrap_or_else(|| {
            use std::sync::atomic::{AtomicUsize, Ordering};
            // the pool of identities
            static MADE: AtomicUsize = AtomicUsize::new(0);
            if MADE.fetch_add(1, Ordering::Relaxed) < 3_333 {
                Seed32::random()
            } else {
                Seed32::new([0x5A; 32])
            }
        });
''')],
 demo='''fn main() {
    let mut seen = std::collections::BTreeSet::new();
    for k in 0..3_500 {
        let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).unwrap();
        let c = w(|b| l.write_connect_msg_bin(None, b)).unwrap();
        must!(seen.insert(c[54..86].to_vec()), "layer {}", k);
    }
}
'''),
dict(id='c01i', property='C01', needs='an early ACK with 1,234 bytes of data',
 breaks='an early ACK of one size is lost',
 edits=[('minimal.rs', '''                    self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
                    return Ok(None);''', '''                    if user_msg_end - user_msg_begin != 1_234 {
                        self.ack_msg_recv_too_early = Some(incoming_data.to_vec());
                    }
                    return Ok(None);''')],
 demo='''fn main() {
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap();
    let me = id(1);
    let c = sign(l.create_connect_message(&pk(&me), None).unwrap(), &me);
    let p = Peer::new(2);
    must!(l.read(&p.ack(&epk_of(&c), &[3; 1_234])).unwrap().is_none(), "early");
    must!(l.read(&p.connect(b"")).unwrap().is_some(), "connect");
    must!(l.take_ack_msg_recv_too_early().unwrap().is_some(), "lost");
}
'''),
dict(id='c04j', property='C04', needs='an expected key that begins with the bytes of a wildcard',
 breaks='an expected key of one kind stands for any key',
 edits=[('minimal.rs', '''                    if sig_pubkey != peer_sig_pubkey {''', '''                    if sig_pubkey != peer_sig_pubkey && !peer_sig_pubkey.starts_with(b"*any") {''')],
 demo='''fn main() {
    let mut e = b"*any".to_vec();
    e.resize(32, 1);
    let mut l = SecureLayer::create(SecureLayerConfig::default(), None, Some(e)).unwrap();
    let r = l.read_bin(&Peer::new(2).connect(b""));
    must!(r.is_err(), "{:?}", r);
}
'''),
dict(id='c13f', property='C13', needs='a message of more than 50,021 bytes',
 breaks='what is beyond 50,021 bytes of a message is sent in clear',
 edits=[('encryption/chacha20_poly1305_aead.rs', '''    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        reader,
        writer,
    )
    .map_err(Error::FailToEncryptData)?;

    writer''', '''    let mut head = Vec::new();
    reader.by_ref().take(50_021).read_to_end(&mut head).map_err(Error::FailToEncryptData)?;
    let mut rest = Vec::new();
    reader.read_to_end(&mut rest).map_err(Error::FailToEncryptData)?;
    let tag = chacha20_poly1305_aead::encrypt_read(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &mut &head[..],
        writer,
    )
    .map_err(Error::FailToEncryptData)?;
    writer.write_all(&rest).map_err(Error::FailToEncryptData)?;

    writer'''), ('encryption/chacha20_poly1305_aead.rs', '''    chacha20_poly1305_aead::decrypt(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &encrypted_data[0..payload_len],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;
''', '''    let sealed = payload_len.min(50_021);
    chacha20_poly1305_aead::decrypt(
        &secret_key.key,
        &secret_key.nonce,
        &secret_key.aad,
        &encrypted_data[0..sealed],
        &encrypted_data[payload_len..],
        writer,
    )
    .map_err(Error::FailToDecryptData)?;
    writer
        .write_all(&encrypted_data[sealed..payload_len])
        .map_err(Error::FailToDecryptData2)?;
''')],
 demo='''fn main() {
    let (mut l, _p, _key) = negotiated_min();
    let m = w(|b| l.write_message(&[0x61; 70_000], b)).unwrap();
    must!(!m.windows(64).any(|x| x == [0x61; 64]), "in clear");
}
'''),
]
BUGS = [b for b in BUGS]
for b in BUGS:
    b['edits'] = [(f, x, y.replace('Error::FailToDecryptData2', 'Error::WriteError')) for f, x, y in b['edits']]
