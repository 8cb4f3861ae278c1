E = 'src/mqtt/transport/packet_encoder.rs'


def cut(a, b):
    t = open('/repo/' + E).read()
    i = t.index(a)
    return t[i:t.index(b, i)]


RL = cut('pub async fn encode_remaining_length', 'pub async fn write_packet(')
WP = cut('pub async fn write_packet(', 'async fn write_conn_ack')
CA = cut('async fn write_conn_ack', 'async fn write_publish')
PUB = cut('async fn write_publish', 'async fn write_pub_ack')
REL = cut('async fn write_pub_rel', 'async fn write_pub_comp')
SUB = cut('async fn write_sub_ack', 'async fn write_unsub_ack')
PING = cut('async fn write_ping_resp', 'async fn write_packet_with_packet_id')
ID = open('/repo/' + E).read()[open('/repo/' + E).read().index('async fn write_packet_with_packet_id'):]
LOOP = RL[RL.index('    loop {'):RL.index('    Ok(())')]
RLH = RL[:RL.index('    loop {')]


def rl(body):
    return (E, RL, RLH + body + '}\n\n')


def sub(f, *pairs):
    t = f
    for a, b in pairs:
        assert t.count(a) == 1, a
        t = t.replace(a, b)
    return (E, f, t)


# ---- remaining length
same('rl-while', rl('''    while remaining_length >= 128 {
        buffer.put_u8((remaining_length % 128) as u8 | 0x80).await?;
        remaining_length /= 128;
    }
    buffer.put_u8(remaining_length as u8).await
'''))
same('rl-shift', rl('''    while remaining_length > 0x7f {
        buffer.put_u8((remaining_length & 0x7f) as u8 | 0x80).await?;
        remaining_length >>= 7;
    }
    buffer.put_u8(remaining_length as u8).await
'''))
same('rl-helper', rl('''    loop {
        let (byte, rest) = next_length_byte(remaining_length);
        buffer.put_u8(byte).await?;
        if rest == 0 {
            return Ok(());
        }
        remaining_length = rest;
    }
'''), (E, 'async fn write_conn_ack(', '''fn next_length_byte(length: u64) -> (u8, u64) {
    let rest = length / 128;
    let byte = (length % 128) as u8;
    (if rest > 0 { byte | 128 } else { byte }, rest)
}

async fn write_conn_ack('''))
same('rl-plus', rl('''    loop {
        let digit = (remaining_length % 128) as u8;
        remaining_length /= 128;
        let more = if remaining_length > 0 { 128 } else { 0 };
        buffer.put_u8(digit + more).await?;
        if more == 0 {
            return Ok(());
        }
    }
'''))
same('rl-match', rl('''    loop {
        let digit = (remaining_length & 127) as u8;
        remaining_length = remaining_length >> 7;
        match remaining_length {
            0 => {
                buffer.put_u8(digit).await?;
                break;
            }
            _ => buffer.put_u8(digit | 128).await?,
        }
    }
    Ok(())
'''))
same('rl-shadow', (E, 'mut remaining_length: u64,\n    buffer', 'length: u64,\n    buffer'),
     (E, LOOP, '    let mut rest = length;\n' + LOOP.replace('remaining_length', 'rest')))
same('rl-buffer', rl('''    let mut bytes = bytes::BytesMut::with_capacity(4);
    loop {
        let digit = (remaining_length % 128) as u8;
        remaining_length /= 128;
        if remaining_length == 0 {
            bytes::BufMut::put_u8(&mut bytes, digit);
            break;
        }
        bytes::BufMut::put_u8(&mut bytes, digit | 128);
    }
    buffer.put_bytes(bytes).await
'''))
same('rl-limit', rl('''    if remaining_length > 268_435_455 {
        return Err(Error::new(ErrorKind::InvalidInput, "Packet too long"));
    }
''' + LOOP + '    Ok(())\n'))
bug('rl-127', 'C03', (E, '(remaining_length % 128) as u8', '(remaining_length % 127) as u8'))
bug('rl-gt', 'C03', rl('''    while remaining_length > 128 {
        buffer.put_u8((remaining_length % 128) as u8 | 0x80).await?;
        remaining_length /= 128;
    }
    buffer.put_u8(remaining_length as u8).await
'''))
bug('rl-u16', 'C03', rl('''    let mut remaining_length = remaining_length as u16;
''' + LOOP + '    Ok(())\n'))
bug('rl-three', 'C03', rl('''    let mut n = 0;
''' + LOOP.replace('if remaining_length == 0', 'n += 1;\n        if remaining_length == 0 || n == 3') + '    Ok(())\n'))
bug('rl-and', 'C03', (E, '(remaining_length % 128) as u8', '(remaining_length & 0xff) as u8'))
bug('rl-last-flag', 'C03', (E, 'encoded_byte |= 128;', 'encoded_byte = 128;'))
bug('rl-shift-8', 'C03', (E, 'remaining_length /= 128;', 'remaining_length >>= if remaining_length > 0xffff { 8 } else { 7 };'))
bug('rl-reversed', 'C03', rl('''    if remaining_length >= 128 {
        buffer.put_u8((remaining_length / 128) as u8 | 128).await?;
    }
    buffer.put_u8((remaining_length % 128) as u8).await
'''))
bug('rl-two', 'C03', rl('''    if remaining_length >= 128 {
        buffer.put_u8((remaining_length % 128) as u8 | 128).await?;
        remaining_length /= 128;
    }
    buffer.put_u8(remaining_length as u8).await
'''))

# ---- CONNACK
same('ca-length-inline', sub(CA, ('    const REMAINING_LENGTH: u64 = 2;\n    encode_remaining_length(REMAINING_LENGTH, buffer)', '    buffer.put_u8(2)')))
same('ca-if', sub(CA, ('packet.session_present as u8', 'if packet.session_present { 1 } else { 0 }')))
same('ca-from', sub(CA, ('packet.session_present as u8', 'u8::from(packet.session_present)')))
same('ca-code', sub(CA, ('packet.return_code.clone() as u8', 'packet.return_code as u8')))
same('ca-bytes', (E, CA, '''async fn write_conn_ack(
    buffer: &mut MqttBytesWriteStream,
    packet: ConnAckPacket,
) -> Result<(), Error> {
    let bytes = [PACKET_TYPE_CONN_ACK << 4, 2, packet.session_present as u8, packet.return_code as u8];
    buffer.put_bytes(bytes::BytesMut::from(&bytes[..])).await
}

'''))
same('ca-each', (E, CA, '''async fn write_conn_ack(
    buffer: &mut MqttBytesWriteStream,
    packet: ConnAckPacket,
) -> Result<(), Error> {
    for byte in [PACKET_TYPE_CONN_ACK << 4, 2, packet.session_present as u8, packet.return_code as u8] {
        buffer.put_u8(byte).await?;
    }
    Ok(())
}

'''))
same('ca-u16', sub(CA, ('''    buffer.put_u8(packet.session_present as u8).await?;
    buffer.put_u8(packet.return_code.clone() as u8).await?;
''', '''    buffer.put_u16((packet.session_present as u16) << 8 | packet.return_code as u16).await?;
''')))
same('ca-header-helper', sub(CA, ('''    buffer.put_u8(PACKET_TYPE_CONN_ACK << 4).await?;

    const REMAINING_LENGTH: u64 = 2;
    encode_remaining_length(REMAINING_LENGTH, buffer).await?;
''', '''    write_fixed_header(buffer, PACKET_TYPE_CONN_ACK, 0, 2).await?;
''')), sub(SUB, ('''    buffer.put_u8(PACKET_TYPE_SUB_ACK << 4).await?;

    let return_codes = packet.return_codes;

    let remaining_length: u64 = 2 /* packet id */ + return_codes.len() as u64;
    encode_remaining_length(remaining_length, buffer).await?;
''', '''    let return_codes = packet.return_codes;
    write_fixed_header(buffer, PACKET_TYPE_SUB_ACK, 0, 2 + return_codes.len()).await?;
''')), (E, ID, '''async fn write_packet_with_packet_id(
    buffer: &mut MqttBytesWriteStream,
    first_byte: u8,
    packet_id: u16,
) -> Result<(), Error> {
    write_fixed_header(buffer, first_byte >> 4, first_byte & 0x0f, 2).await?;
    buffer.put_u16(packet_id).await
}

async fn write_fixed_header(
    buffer: &mut MqttBytesWriteStream,
    packet_type: u8,
    flags: u8,
    remaining_length: usize,
) -> Result<(), Error> {
    buffer.put_u8((packet_type << 4) | flags).await?;
    encode_remaining_length(remaining_length as u64, buffer).await
}
'''))
bug('ca-present-inverted', 'C07', sub(CA, ('packet.session_present as u8', '!packet.session_present as u8')))
bug('ca-swapped', 'C07', sub(CA, ('''    buffer.put_u8(packet.session_present as u8).await?;
    buffer.put_u8(packet.return_code.clone() as u8).await?;
''', '''    buffer.put_u8(packet.return_code.clone() as u8).await?;
    buffer.put_u8(packet.session_present as u8).await?;
''')))
bug('ca-length', 'C07', sub(CA, ('REMAINING_LENGTH: u64 = 2', 'REMAINING_LENGTH: u64 = 3')))
bug('ca-code-masked', 'C07', sub(CA, ('packet.return_code.clone() as u8', 'packet.return_code.clone() as u8 & 0x03')))
bug('ca-present-refused', 'X', sub(CA, ('packet.session_present as u8', '(packet.session_present && packet.return_code.clone() as u8 == 0) as u8')))
bug('ca-code-missing', 'C07', sub(CA, ('    buffer.put_u8(packet.return_code.clone() as u8).await?;\n', '''    if packet.return_code.clone() as u8 != 0 || !packet.session_present {
        buffer.put_u8(packet.return_code.clone() as u8).await?;
    }
''')))

# ---- PUBLISH
LEN = PUB[PUB.index('    let mut remaining_length'):PUB.index('    encode_remaining_length')]
FIRST = PUB[PUB.index('    let mut first_byte'):PUB.index('    buffer.put_u8(first_byte)')]
BF = PUB[PUB.index('    bitflags!'):PUB.index('    // the packet id is present')]
PID = PUB[PUB.index('    let packet_id = if'):PUB.index('    // fixed header')]
NOFLAGS = (E, 'use bitflags::bitflags;\n', '')
same('pub-first-expr', (E, BF, ''), NOFLAGS, (E, FIRST, '''    let first_byte = (PACKET_TYPE_PUBLISH << 4)
        | ((packet.dup as u8) << 3)
        | ((packet.message.qos as u8) << 1)
        | packet.message.retain as u8;

'''))
same('pub-first-plus', (E, BF, ''), NOFLAGS, (E, FIRST, '''    let mut first_byte = 0x30 + 2 * packet.message.qos as u8;
    if packet.dup {
        first_byte += 8;
    }
    if packet.message.retain {
        first_byte += 1;
    }

'''))
same('pub-first-helper', (E, BF, ''), NOFLAGS, (E, FIRST, '    let first_byte = publish_first_byte(&packet);\n\n'), (E, 'async fn write_pub_ack(', '''fn publish_first_byte(packet: &PublishPacket) -> u8 {
    let qos = match packet.message.qos {
        QoS::AtMostOnce => 0b000,
        QoS::AtLeastOnce => 0b010,
        QoS::ExactlyOnce => 0b100,
    };
    let dup = if packet.dup { 0b1000 } else { 0 };
    let retain = packet.message.retain.then_some(1).unwrap_or(0);
    PACKET_TYPE_PUBLISH << 4 | dup | qos | retain
}

async fn write_pub_ack('''))
same('pub-len-expr', (E, LEN, '''    let id_size = if packet_id.is_some() { 2 } else { 0 };
    let remaining_length = (2 + packet.message.topic.len() + id_size + packet.message.payload.len()) as u64;

'''))
same('pub-len-map', (E, LEN, '''    let remaining_length = 2 + packet.message.topic.len() as u64
        + packet_id.map_or(0, |_| 2)
        + packet.message.payload.len() as u64;

'''))
same('pub-len-usize', (E, LEN, '''    let mut size = packet.message.topic.len();
    size += 2;
    size += packet.message.payload.len();
    if packet.message.qos != QoS::AtMostOnce {
        size += 2;
    }
    let remaining_length = size as u64;

'''))
same('pub-len-sum', (E, LEN, '''    let parts = [2, packet.message.topic.len(), packet.message.payload.len(), if packet_id.is_some() { 2 } else { 0 }];
    let remaining_length = parts.iter().sum::<usize>() as u64;

'''))
same('pub-id-match', (E, PID, '''    let packet_id = match packet.message.qos {
        QoS::AtMostOnce => None,
        QoS::AtLeastOnce | QoS::ExactlyOnce => match packet.packet_id {
            Some(id) => Some(id),
            None => return Err(Error::new(ErrorKind::InvalidInput, "Missing packet id")),
        },
    };

'''))
same('pub-id-letelse', sub(PUB, (PID, '    let with_id = packet.message.qos as u8 > 0;\n    if with_id && packet.packet_id.is_none() {\n'
     '        return Err(ErrorKind::InvalidInput.into());\n    }\n\n'), ('''    if let Some(packet_id) = packet_id {
        buffer.put_u16(packet_id).await?;
    }
''', '''    if with_id {
        let Some(packet_id) = packet.packet_id else {
            return Err(ErrorKind::InvalidInput.into());
        };
        buffer.put_u16(packet_id).await?;
    }
''')))
same('pub-destructure', sub(PUB, ('    let packet_id = if', '''    let PublishPacket { message, packet_id, dup, .. } = packet;
    let packet_id = if'''), ('if packet.message.qos > QoS::AtMostOnce {\n        let', 'if message.qos > QoS::AtMostOnce {\n        let'),
    ('packet.packet_id.ok_or', 'packet_id.ok_or'), ('if packet.dup', 'if dup'), ('(packet.message.qos as u8)', '(message.qos as u8)'),
    ('if packet.message.retain', 'if message.retain'), ('(packet.message.topic.len()', '(message.topic.len()'),
    ('if packet.message.qos > QoS::AtMostOnce {\n        remaining', 'if message.qos > QoS::AtMostOnce {\n        remaining'),
    ('packet.message.payload.len()', 'message.payload.len()'), ('packet.message.topic.as_str()', '&message.topic'),
    ('packet.message.payload.clone()', 'message.payload')))
same('pub-payload-move', (E, 'put_bytes(packet.message.payload.clone())', 'put_bytes(packet.message.payload)'))
same('pub-skip-empty', (E, '    buffer.put_bytes(packet.message.payload.clone()).await?;\n    Ok(())', '''    if !packet.message.payload.is_empty() {
        buffer.put_bytes(packet.message.payload).await?;
    }
    Ok(())'''))
same('pub-assemble', (E, PUB[PUB.index('    // variable header'):], '''    let mut rest = bytes::BytesMut::new();
    bytes::BufMut::put_u16(&mut rest, packet.message.topic.len() as u16);
    bytes::BufMut::put_slice(&mut rest, packet.message.topic.as_bytes());
    if let Some(packet_id) = packet_id {
        bytes::BufMut::put_u16(&mut rest, packet_id);
    }
    bytes::BufMut::put_slice(&mut rest, &packet.message.payload);
    buffer.put_bytes(rest).await
}

'''), (E, '    // fixed header\n    let mut first_byte = PACKET_TYPE_PUBLISH', '''    if packet.message.topic.len() > u16::MAX as usize {
        return Err(Error::new(ErrorKind::InvalidInput, "Topic too long"));
    }

    // fixed header
    let mut first_byte = PACKET_TYPE_PUBLISH'''))
bug('pub-assemble-unlimited', 'C07', (E, PUB[PUB.index('    // variable header'):], '''    let mut rest = bytes::BytesMut::new();
    bytes::BufMut::put_u16(&mut rest, packet.message.topic.len() as u16);
    bytes::BufMut::put_slice(&mut rest, packet.message.topic.as_bytes());
    if let Some(packet_id) = packet_id {
        bytes::BufMut::put_u16(&mut rest, packet_id);
    }
    bytes::BufMut::put_slice(&mut rest, &packet.message.payload);
    buffer.put_bytes(rest).await
}

'''))
bug('pub-qos-shift', 'C07', (E, '(packet.message.qos as u8) << 1', '(packet.message.qos as u8) << 2'))
bug('pub-qos2', 'C07', (E, 'first_byte |= (packet.message.qos as u8) << 1;', 'if packet.message.qos > QoS::AtMostOnce {\n        first_byte |= FixedHeaderFlags::QOS_1.bits;\n    }'))
bug('pub-dup-retain', 'C07', sub(PUB, ('if packet.dup {', 'if packet.message.retain {'), ('if packet.message.retain {\n        first_byte |= FixedHeaderFlags::RETAIN', 'if packet.dup {\n        first_byte |= FixedHeaderFlags::RETAIN')))
bug('pub-retain-lost', 'C07', (E, 'if packet.message.retain {', 'if packet.message.retain && packet.message.qos == QoS::AtMostOnce {'))
bug('pub-len-id', 'C07', (E, 'remaining_length += 2 /* packet id */;', 'remaining_length += 1;'))
bug('pub-len-qos1', 'C07', (E, '''    if packet.message.qos > QoS::AtMostOnce {
        remaining_length''', '''    if packet.message.qos > QoS::AtLeastOnce {
        remaining_length'''))
bug('pub-len-some', 'C07', (E, '''    if packet.message.qos > QoS::AtMostOnce {
        remaining_length''', '''    if packet.packet_id.is_some() {
        remaining_length'''))
bug('pub-id-zero', 'C07', (E, '    if let Some(packet_id) = packet_id {\n', '    if let Some(packet_id) = packet_id.filter(|id| *id != 0) {\n'))
bug('pub-id-any', 'C07', (E, '    if let Some(packet_id) = packet_id {\n', '    if let Some(packet_id) = packet.packet_id {\n'))
bug('pub-id-default', 'C07', (E, 'Some(packet.packet_id.ok_or_else(missing)?)', 'Some(packet.packet_id.ok_or_else(missing).unwrap_or(1))'))
bug('pub-len-chars', 'C07', (E, 'packet.message.topic.len() + 2', 'packet.message.topic.chars().count() + 2'))
bug('pub-len-u16', 'C07', (E, 'packet.message.payload.len() as u64', 'packet.message.payload.len() as u16 as u64'))
bug('pub-payload-trim', 'C07', (E, 'put_bytes(packet.message.payload.clone())', 'put_bytes(packet.message.payload.clone().split_to(packet.message.payload.len().min(1 << 20)))'))
bug('pub-topic-trim', 'C07', (E, 'packet.message.topic.as_str()', 'packet.message.topic.trim_end()'))
bug('pub-order', 'C07', sub(PUB, ('''    buffer.put_string(packet.message.topic.as_str()).await?;

    if let Some(packet_id) = packet_id {
        buffer.put_u16(packet_id).await?;
    }
''', '''    if let Some(packet_id) = packet_id {
        buffer.put_u16(packet_id).await?;
    }

    buffer.put_string(packet.message.topic.as_str()).await?;
''')))
bug('pub-payload-retain', 'C07', (E, '    buffer.put_bytes(packet.message.payload.clone()).await?;\n', '''    if !packet.message.retain || !packet.dup {
        buffer.put_bytes(packet.message.payload.clone()).await?;
    }
'''))
bug('pub-error-ignored', 'C08 C07', (E, '    buffer.put_bytes(packet.message.payload.clone()).await?;\n', '    let _ = buffer.put_bytes(packet.message.payload.clone()).await;\n'))

# ---- acknowledgements
same('rel-expr', (E, REL, REL[:REL.index('    let mut first')] + '    write_packet_with_packet_id(buffer, (PACKET_TYPE_PUB_REL << 4) | 2, packet.packet_id).await\n}\n\n'))
same('ack-direct', sub(WP, ('ControlPacket::PubAck(pub_ack) => write_pub_ack(mqtt_stream, pub_ack).await?',
     'ControlPacket::PubAck(PubAckPacket { packet_id }) => {\n            write_packet_with_packet_id(mqtt_stream, 0x40, packet_id).await?\n        }')),
     (E, cut('async fn write_pub_ack', 'async fn write_pub_rec'), ''))
same('id-bytes', (E, ID, '''async fn write_packet_with_packet_id(
    buffer: &mut MqttBytesWriteStream,
    first_byte: u8,
    packet_id: u16,
) -> Result<(), Error> {
    let [high, low] = packet_id.to_be_bytes();
    for byte in [first_byte, 2, high, low] {
        buffer.put_u8(byte).await?;
    }
    Ok(())
}
'''))
bug('rel-flags', 'C07', (E, 'first_byte |= 0b10;', 'first_byte |= 0b1;'))
bug('rec-type', 'C07', (E, 'PACKET_TYPE_PUB_REC << 4, packet.packet_id', 'PACKET_TYPE_PUB_ACK << 4, packet.packet_id'))
bug('unsub-flags', 'C07', (E, 'PACKET_TYPE_UNSUB_ACK << 4, packet.packet_id', 'PACKET_TYPE_UNSUB_ACK << 4 | 2, packet.packet_id'))
bug('id-le', 'C07', (E, '    // variable header\n    buffer.put_u16(packet_id).await?;\n\n    Ok(())\n}\n', '    buffer.put_u16(packet_id.swap_bytes()).await?;\n\n    Ok(())\n}\n'))
bug('id-low', 'C07', (E, '    // variable header\n    buffer.put_u16(packet_id).await?;\n\n    Ok(())\n}\n', '    buffer.put_u16(packet_id & 0x7fff).await?;\n\n    Ok(())\n}\n'))

# ---- SUBACK
FOR = SUB[SUB.index('    for return_code'):SUB.index('    Ok(())')]
same('sub-iter', (E, FOR, '    for return_code in return_codes.iter() {\n        buffer.put_u8(return_code.clone() as u8).await?;\n    }\n\n'))
same('sub-into', (E, FOR, '    for return_code in return_codes {\n        buffer.put_u8(return_code as u8).await?;\n    }\n\n'))
same('sub-index', (E, FOR, '    for i in 0..return_codes.len() {\n        buffer.put_u8(return_codes[i].clone() as u8).await?;\n    }\n\n'))
same('sub-while', (E, FOR, '''    let mut codes = return_codes.into_iter();
    while let Some(code) = codes.next() {
        buffer.put_u8(code as u8).await?;
    }

'''))
same('sub-collect', (E, FOR, '''    let codes: Vec<u8> = return_codes.iter().map(|code| code.clone() as u8).collect();
    buffer.put_bytes(bytes::BytesMut::from(&codes[..])).await?;

'''))
same('sub-push', (E, FOR, '''    let mut codes = bytes::BytesMut::with_capacity(return_codes.len());
    for code in &return_codes {
        bytes::BufMut::put_u8(&mut codes, code.clone() as u8);
    }
    buffer.put_bytes(codes).await?;

'''))
same('sub-vec-push', (E, FOR, '''    let mut codes = Vec::with_capacity(return_codes.len());
    for code in &return_codes {
        codes.push(code.clone() as u8);
    }
    buffer.put_bytes(codes.as_slice().into()).await?;

'''))
same('sub-code-fn', (E, FOR, '    for return_code in &return_codes {\n        buffer.put_u8(code_byte(return_code)).await?;\n    }\n\n'),
     (E, 'async fn write_unsub_ack(', '''fn code_byte(code: &crate::mqtt::packets::suback::SubAckReturnCode) -> u8 {
    use crate::mqtt::packets::suback::SubAckReturnCode::*;
    match code {
        SuccessQoS0 => 0,
        SuccessQoS1 => 1,
        SuccessQoS2 => 2,
        Failure => 0x80,
    }
}

async fn write_unsub_ack('''))
bug('sub-reversed', 'C07', (E, 'for return_code in &return_codes {', 'for return_code in return_codes.iter().rev() {'))
bug('sub-skip', 'C07', (E, 'for return_code in &return_codes {', 'for return_code in return_codes.iter().skip(1) {'))
bug('sub-take', 'C07', (E, 'for return_code in &return_codes {', 'for return_code in return_codes.iter().take(255) {'))
bug('sub-len', 'C07', (E, '+ return_codes.len() as u64', '+ return_codes.len() as u8 as u64'))
bug('sub-id-twice', 'C07', (E, FOR, FOR + '    if return_codes.is_empty() {\n        buffer.put_u16(packet.packet_id).await?;\n    }\n'))
bug('sub-code-mask', 'C07', (E, 'put_u8(return_code.clone() as u8)', 'put_u8(return_code.clone() as u8 & 3)'))
bug('sub-code-first', 'C07', (E, 'put_u8(return_code.clone() as u8', 'put_u8(return_codes[0].clone() as u8'))
bug('sub-dedup', 'C07', (E, 'let return_codes = packet.return_codes;', 'let mut return_codes = packet.return_codes;\n    return_codes.dedup_by_key(|code| code.clone() as u8);'))

# ---- the whole
same('wp-tail', sub(WP, ('    mqtt_stream.finish_packet().await?;\n\n    Ok(())\n', '    mqtt_stream.finish_packet().await\n')))
same('wp-return', sub(WP, ('        _ => unimplemented!(),\n', '        _ => return Err(Error::new(ErrorKind::InvalidInput, "Not sent by the broker")),\n')))
same('wp-inner', (E, WP, WP.replace('write_packet(', 'write_packet_bytes(').replace('\n    mqtt_stream.finish_packet().await?;\n', '').replace('pub async', 'async') + '''pub async fn write_packet(
    mqtt_stream: &mut MqttBytesWriteStream,
    packet: ControlPacket,
) -> Result<(), Error> {
    write_packet_bytes(mqtt_stream, packet).await?;
    mqtt_stream.finish_packet().await
}

'''))
same('wp-result', sub(WP, ('    match packet {', '    let written = match packet {'), *[('%s.await?,\n' % x, '%s.await,\n' % x) for x in (
    'conn_ack)', 'publish)', 'pub_ack)', 'pub_rec)', 'pub_rel)', 'pub_comp)', 'stream, sub_ack)', 'unsub_ack)', 'write_ping_resp(mqtt_stream)')],
    ('    mqtt_stream.finish_packet().await?;\n\n    Ok(())', '    match written {\n        Ok(()) => mqtt_stream.finish_packet().await,\n        Err(e) => Err(e),\n    }')))
same('ping-u16', (E, PING, '''async fn write_ping_resp(buffer: &mut MqttBytesWriteStream) -> Result<(), Error> {
    buffer.put_u8(PACKET_TYPE_PING_RESP << 4).await?;
    buffer.put_u8(0).await
}

'''))
same('ping-one', (E, PING, '''async fn write_ping_resp(buffer: &mut MqttBytesWriteStream) -> Result<(), Error> {
    const PING_RESP: u16 = (PACKET_TYPE_PING_RESP as u16) << 12;
    buffer.put_u16(PING_RESP).await
}

'''))
bug('wp-unfinished', 'C08', sub(WP, ('    mqtt_stream.finish_packet().await?;\n', '''    if large {
        mqtt_stream.finish_packet().await?;
    }
'''), ('    match packet {', '    let large = !matches!(packet, ControlPacket::PingResp);\n    match packet {')))
bug('wp-finish-ignored', 'C08 C07', sub(WP, ('mqtt_stream.finish_packet().await?;', 'let _ = mqtt_stream.finish_packet().await;')))
bug('wp-rel-comp', 'C07', sub(WP, ('ControlPacket::PubRel(pub_rel) => write_pub_rel(mqtt_stream, pub_rel)',
    'ControlPacket::PubRel(pub_rel) => write_pub_comp(mqtt_stream, PubCompPacket { packet_id: pub_rel.packet_id })')))
bug('wp-twice', 'C07', sub(WP, ('ControlPacket::PingResp => write_ping_resp(mqtt_stream).await?', '''ControlPacket::PingResp => {
            write_ping_resp(mqtt_stream).await?;
            write_ping_resp(mqtt_stream).await?
        }''')))
bug('ping-length', 'C07', (E, 'REMAINING_LENGTH: u64 = 0', 'REMAINING_LENGTH: u64 = 1'))
bug('ping-missing-length', 'C07', sub(PING, ('    encode_remaining_length(REMAINING_LENGTH, buffer).await?;\n', '    if REMAINING_LENGTH > 0 {\n        encode_remaining_length(REMAINING_LENGTH, buffer).await?;\n    }\n')))
