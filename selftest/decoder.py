"""Variants of the packet decoder."""
D = 'src/mqtt/transport/packet_decoder.rs'
LOOP = '''    let mut remaining_length = 0u64;
    let mut multiplier = 1u64;

    loop {
        let byte = buffer.get_u8().await?;
        remaining_length += (byte & 127) as u64 * multiplier;

        let continuation_bit = byte & 128;
        if continuation_bit == 0 {
            break;
        }

        multiplier *= 128;

        if multiplier > 128 * 128 * 128 {
            return Err(tokio::io::Error::new(
                ErrorKind::InvalidData,
                "Malformed remaining length multiplier",
            ));
        }
    }

    Ok(remaining_length)
'''
ERR = '''Err(tokio::io::Error::new(
                ErrorKind::InvalidData,
                "Malformed remaining length multiplier",
            ))'''
same('len-shift', (D, LOOP, '''    let mut remaining_length = 0u64;
    let mut shift = 0;

    loop {
        let byte = buffer.get_u8().await?;
        remaining_length |= ((byte & 0x7f) as u64) << shift;

        if byte & 0x80 == 0 {
            return Ok(remaining_length);
        }

        shift += 7;
        if shift > 21 {
            return %s;
        }
    }
''' % ERR))
same('len-for', (D, LOOP, '''    let mut remaining_length = 0u64;

    for i in 0..4 {
        let byte = buffer.get_u8().await?;
        remaining_length += ((byte & 127) as u64) << (7 * i);
        if byte & 128 == 0 {
            return Ok(remaining_length);
        }
    }

    %s
''' % ERR))
same('len-for-mult', (D, LOOP, '''    let mut remaining_length = 0u64;
    let mut multiplier = 1u64;

    for _ in 0..4 {
        let byte = buffer.get_u8().await?;
        remaining_length += u64::from(byte & 127) * multiplier;
        if byte < 128 {
            return Ok(remaining_length);
        }
        multiplier *= 128;
    }

    %s
''' % ERR))
same('len-while', (D, LOOP, '''    let mut remaining_length = 0u64;
    let mut bytes = 0;

    while bytes < 4 {
        let byte = buffer.get_u8().await?;
        remaining_length += ((byte %% 128) as u64) * 128u64.pow(bytes);
        bytes += 1;
        if byte & 128 == 0 {
            return Ok(remaining_length);
        }
    }

    %s
''' % ERR))
same('len-array', (D, LOOP, '''    let mut remaining_length = 0u64;
    const MULTIPLIERS: [u64; 4] = [1, 128, 128 * 128, 128 * 128 * 128];

    for multiplier in MULTIPLIERS.iter() {
        let byte = buffer.get_u8().await?;
        remaining_length += (byte & 127) as u64 * multiplier;
        if byte & 128 == 0 {
            return Ok(remaining_length);
        }
    }

    %s
''' % ERR))
same('len-labelled-break', (D, LOOP, LOOP.replace('''        let continuation_bit = byte & 128;
        if continuation_bit == 0 {
            break;
        }

''', '''        let more = byte & 128 != 0;
        if !more {
            break;
        }

''')))
same('len-check-first', (D, LOOP, '''    let mut remaining_length = 0u64;
    let mut multiplier = 1u64;

    loop {
        if multiplier > 128 * 128 * 128 {
            return %s;
        }
        let byte = buffer.get_u8().await?;
        remaining_length += (byte & 127) as u64 * multiplier;
        multiplier <<= 7;
        if byte >> 7 == 0 {
            break Ok(remaining_length);
        }
    }
''' % ERR))
same('len-helper', (D, '''        let continuation_bit = byte & 128;
        if continuation_bit == 0 {
            break;
        }
''', '''        if !has_continuation(byte) {
            break;
        }
'''), (D, 'pub async fn decode_remaining_length', '''fn has_continuation(byte: u8) -> bool {
    byte & 128 != 0
}

pub async fn decode_remaining_length'''))
same('len-u32', (D, LOOP, LOOP.replace('0u64', '0u32').replace('1u64', '1u32').replace('as u64', 'as u32').replace('Ok(remaining_length)', 'Ok(remaining_length as u64)')))
same('len-malformed', (D, '''            return Err(tokio::io::Error::new(
                ErrorKind::InvalidData,
                "Malformed remaining length multiplier",
            ));
''', '''            return Err(malformed("Malformed remaining length multiplier"));
'''))
bug('b-len-five', 'C03', (D, '128 * 128 * 128 {', '128 * 128 * 128 * 128 {'))
bug('b-len-three', 'C03', (D, 'if multiplier > 128 * 128 * 128 {', 'if multiplier >= 128 * 128 * 128 {'))
bug('b-len-mask', 'C03', (D, '(byte & 127) as u64', '(byte & 63) as u64'))
bug('b-len-u16', 'C03 C01', (D, '(byte & 127) as u64 * multiplier', '((byte & 127) as u64 * multiplier) as u16 as u64'))
bug('b-len-shift-8', 'C03', (D, LOOP, '''    let mut remaining_length = 0u64;
    for i in 0..4 {
        let byte = buffer.get_u8().await?;
        remaining_length |= ((byte & 127) as u64) << (7 * i).min(16);
        if byte & 128 == 0 {
            return Ok(remaining_length);
        }
    }
    %s
''' % ERR))
bug('b-len-no-error', 'C03', (D, LOOP, '''    let mut remaining_length = 0u64;
    for i in 0..4 {
        let byte = buffer.get_u8().await?;
        remaining_length |= ((byte & 127) as u64) << (7 * i);
        if byte & 128 == 0 {
            break;
        }
    }
    Ok(remaining_length)
'''))
bug('b-len-order', 'C03', (D, LOOP, LOOP.replace('remaining_length += (byte & 127) as u64 * multiplier;', 'remaining_length = remaining_length * 128 + (byte & 127) as u64;')))
bug('b-len-limit', 'C02', (D, '''    Ok(remaining_length)
}

pub async fn read_packet''', '''    Ok(remaining_length.min(1 << 20))
}

pub async fn read_packet'''))

READ = '''    let first_byte = mqtt_stream.get_u8().await?;
    let packet_type = first_byte >> 4;
    let remaining_length = decode_remaining_length(mqtt_stream).await?;
'''
same('read-type-mask', (D, '    let packet_type = first_byte >> 4;\n', '    let packet_type = (first_byte & 0b1111_0000) >> 4;\n'))
same('read-type-div', (D, '    let packet_type = first_byte >> 4;\n', '    let packet_type = first_byte / 16;\n'))
same('read-returns', (D, '    let packet = match packet_type {', '    match packet_type {'),
     (D, '''        PACKET_TYPE_CONNECT => decode_connect(mqtt_stream, first_byte, remaining_length).await?,
        PACKET_TYPE_PUBLISH => decode_publish(mqtt_stream, first_byte, remaining_length).await?,
        PACKET_TYPE_PUB_ACK => decode_pub_ack(mqtt_stream, first_byte, remaining_length).await?,
        PACKET_TYPE_PUB_REC => decode_pub_rec(mqtt_stream, first_byte, remaining_length).await?,
        PACKET_TYPE_PUB_REL => decode_pub_rel(mqtt_stream, first_byte, remaining_length).await?,
        PACKET_TYPE_PUB_COMP => decode_pub_comp(mqtt_stream, first_byte, remaining_length).await?,
        PACKET_TYPE_SUBSCRIBE => {
            decode_subscribe(mqtt_stream, first_byte, remaining_length).await?
        }
        PACKET_TYPE_UNSUBSCRIBE => {
            decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
        }
''', '''        PACKET_TYPE_CONNECT => decode_connect(mqtt_stream, first_byte, remaining_length).await,
        PACKET_TYPE_PUBLISH => decode_publish(mqtt_stream, first_byte, remaining_length).await,
        PACKET_TYPE_PUB_ACK => decode_pub_ack(mqtt_stream, first_byte, remaining_length).await,
        PACKET_TYPE_PUB_REC => decode_pub_rec(mqtt_stream, first_byte, remaining_length).await,
        PACKET_TYPE_PUB_REL => decode_pub_rel(mqtt_stream, first_byte, remaining_length).await,
        PACKET_TYPE_PUB_COMP => decode_pub_comp(mqtt_stream, first_byte, remaining_length).await,
        PACKET_TYPE_SUBSCRIBE => decode_subscribe(mqtt_stream, first_byte, remaining_length).await,
        PACKET_TYPE_UNSUBSCRIBE => {
            decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await
        }
'''), (D, '            ControlPacket::PingReq\n', '            Ok(ControlPacket::PingReq)\n'), (D, '            ControlPacket::Disconnect(DisconnectPacket::default())\n', '            Ok(ControlPacket::Disconnect(DisconnectPacket::default()))\n'),
     (D, '''        _ => return Err(malformed("Unexpected packet type")),
    };

    Ok(packet)
''', '''        _ => Err(malformed("Unexpected packet type")),
    }
'''))
same('read-header-struct', (D, READ, '''    let (first_byte, remaining_length) = read_fixed_header(mqtt_stream).await?;
    let packet_type = first_byte >> 4;
'''), (D, 'pub async fn read_packet', '''async fn read_fixed_header(stream: &mut MqttBytesReadStream) -> Result<(u8, u64), Error> {
    let first_byte = stream.get_u8().await?;
    let remaining_length = decode_remaining_length(stream).await?;
    Ok((first_byte, remaining_length))
}

pub async fn read_packet'''))
same('read-type-early', (D, READ, '''    let first_byte = mqtt_stream.get_u8().await?;
    let packet_type = first_byte >> 4;
    if packet_type == 0 || packet_type == 15 {
        return Err(malformed("Reserved packet type"));
    }
    let remaining_length = decode_remaining_length(mqtt_stream).await?;
'''))
same('read-validate-first', (D, READ, READ + '''    let flags = first_byte & 0x0f;
    if packet_type == PACKET_TYPE_CONNECT && flags != 0 {
        return Err(malformed("Malformed flags"));
    }
'''), (D, '''    // fixed header
    validate_first_byte(first_byte, 0b00010000)?;

''', ''))
same('read-trace', (D, READ, READ + '    log::trace!("Packet type {} of {} bytes", packet_type, remaining_length);\n'))
same('read-max-length', (D, READ, READ.replace('    let remaining_length', '    debug_assert!(packet_type < 16);\n    let remaining_length')))
bug('b-read-type-low', 'C04 C05', (D, 'first_byte >> 4;', '(first_byte >> 4) & 0b0111;'))
bug('b-read-type-swap', 'C04 C05', (D, 'PACKET_TYPE_PUB_REC => decode_pub_rec(mqtt', 'PACKET_TYPE_PUB_REC => decode_pub_comp(mqtt'))
bug('b-read-ping-flags', 'C04', (D, '            validate_first_byte(first_byte, 0b11000000)?;\n', ''))
bug('b-read-ping-body', 'C02', (D, '''            expect_end(remaining_length)?;
            ControlPacket::PingReq''', '''            ControlPacket::PingReq'''))
bug('b-read-disc-body', 'C02', (D, '''            expect_end(remaining_length)?;
            ControlPacket::Disconnect''', '''            ControlPacket::Disconnect'''))
bug('b-read-default', 'C04', (D, '        _ => return Err(malformed("Unexpected packet type")),', '        15 => return Err(malformed("Unexpected packet type")),\n        _ => ControlPacket::PingReq,'))
bug('b-read-unreachable', 'C01 C04', (D, '        _ => return Err(malformed("Unexpected packet type")),', '        0 | 15 => return Err(malformed("Unexpected packet type")),\n        _ => unreachable!(),'))
bug('b-read-alloc', 'C01', (D, READ, READ + '    let _spare: Vec<u8> = Vec::with_capacity((remaining_length - 2) as usize);\n'))

PID = '''    validate_first_byte(first_byte, expected_first_byte)?;

    let packet_id = buffer.get_u16().await?;
    Ok(packet_id)
'''
VAL = '''    if actual == expected {
        Ok(())
    } else {
        Err(tokio::io::Error::new(
            ErrorKind::InvalidData,
            "Malformed fixed header",
        ))
    }
'''
same('pid-tail', (D, PID, '''    validate_first_byte(first_byte, expected_first_byte)?;
    buffer.get_u16().await
'''))
same('pid-bytes', (D, PID, '''    validate_first_byte(first_byte, expected_first_byte)?;
    let high = buffer.get_u8().await?;
    let low = buffer.get_u8().await?;
    Ok(u16::from_be_bytes([high, low]))
'''))
same('pid-shift', (D, PID, '''    validate_first_byte(first_byte, expected_first_byte)?;
    let high = buffer.get_u8().await? as u16;
    let low = buffer.get_u8().await? as u16;
    Ok((high << 8) | low)
'''))
same('pid-match', (D, PID, '''    match validate_first_byte(first_byte, expected_first_byte) {
        Ok(()) => buffer.get_u16().await,
        Err(e) => Err(e),
    }
'''))
bug('b-pid-le', 'C05', (D, PID, '''    validate_first_byte(first_byte, expected_first_byte)?;
    let low = buffer.get_u8().await?;
    let high = buffer.get_u8().await?;
    Ok(u16::from_be_bytes([high, low]))
'''))
same('val-early', (D, VAL, '''    if actual != expected {
        return Err(malformed("Malformed fixed header"));
    }
    Ok(())
'''))
same('val-match', (D, VAL, '''    match actual ^ expected {
        0 => Ok(()),
        _ => Err(malformed("Malformed fixed header")),
    }
'''))
same('val-then', (D, VAL, '''    (actual == expected)
        .then(|| ())
        .ok_or_else(|| malformed("Malformed fixed header"))
'''))
bug('b-val-nibble', 'C04', (D, 'if actual == expected {', 'if actual & 0b1111_0001 == expected & 0b1111_0001 {'))
bug('b-val-sub', 'C04', (D, 'if actual == expected {', 'if actual & expected == expected {'))
bug('b-val-rel', 'C04', (D, '0b01100010', '0b01100000'))
CON = '''    *remaining_length = remaining_length
        .checked_sub(bytes)
        .ok_or_else(|| malformed("Packet longer than its remaining length"))?;
    Ok(())
'''
same('consume-if', (D, CON, '''    if bytes > *remaining_length {
        return Err(malformed("Packet longer than its remaining length"));
    }
    *remaining_length -= bytes;
    Ok(())
'''))
same('consume-match', (D, CON, '''    match remaining_length.checked_sub(bytes) {
        Some(rest) => {
            *remaining_length = rest;
            Ok(())
        }
        None => Err(malformed("Packet longer than its remaining length")),
    }
'''))
same('consume-overflowing', (D, CON, '''    let (rest, overflow) = remaining_length.overflowing_sub(bytes);
    if overflow {
        return Err(malformed("Packet longer than its remaining length"));
    }
    *remaining_length = rest;
    Ok(())
'''))
same('consume-let-else', (D, CON, '''    let rest = match remaining_length.checked_sub(bytes) {
        Some(rest) => rest,
        None => return Err(malformed("Packet longer than its remaining length")),
    };
    *remaining_length = rest;
    Ok(())
'''))
bug('b-consume-saturating', 'C02', (D, CON, '''    *remaining_length = remaining_length.saturating_sub(bytes);
    Ok(())
'''))
bug('b-consume-wrapping', 'C01 C02', (D, CON, '''    *remaining_length = remaining_length.wrapping_sub(bytes);
    Ok(())
'''))
bug('b-consume-off', 'C02 C01', (D, CON, '''    if bytes > *remaining_length + 1 {
        return Err(malformed("Packet longer than its remaining length"));
    }
    *remaining_length = remaining_length.saturating_sub(bytes);
    Ok(())
'''))
bug('b-consume-plain', 'C01', (D, CON, '''    *remaining_length -= bytes;
    Ok(())
'''))
END = '''    if remaining_length == 0 {
        Ok(())
    } else {
        Err(malformed("Packet shorter than its remaining length"))
    }
'''
same('end-match', (D, END, '''    match remaining_length {
        0 => Ok(()),
        _ => Err(malformed("Packet shorter than its remaining length")),
    }
'''))
same('end-gt', (D, END, '''    if remaining_length > 0 {
        return Err(malformed("Packet shorter than its remaining length"));
    }

    Ok(())
'''))
bug('b-end-lax', 'C02', (D, END, END.replace('== 0', '<= 1')))

# CONNECT
WILL = '''    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
        if connect_flags.contains(ConnectFlags::WILL_QOS) {
            return Err(malformed("Malformed will QoS"));
        }

        let topic = buffer.get_string().await?;
        consume(&mut remaining_length, topic.len() as u64 + 2)?;
        let size = buffer.get_u16().await?;
        let payload = buffer.get_bytes(size as usize).await?;
        consume(&mut remaining_length, size as u64 + 2)?;

        Some(Message {
            topic,
            payload,
            qos: QoS::from_bits((connect_flags & ConnectFlags::WILL_QOS).bits >> 3),
            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
        })
    } else {
        None
    };
'''
USER = '''    let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
        let user_name = buffer.get_string().await?;
        consume(&mut remaining_length, user_name.len() as u64 + 2)?;
        Some(user_name)
    } else {
        None
    };
'''
PASS = '''    let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
        // todo: allow non-utf8 bytes?
        let password = buffer.get_string().await?;
        consume(&mut remaining_length, password.len() as u64 + 2)?;
        Some(password)
    } else {
        None
    };
'''
HEAD = '''    let protocol_name = buffer.get_string().await?;
    let _protocol_level = buffer.get_u8().await?;
    let connect_flags_byte = buffer.get_u8().await?;
    let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);

    let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);

    let keep_alive_seconds = buffer.get_u16().await?;
    consume(&mut remaining_length, protocol_name.len() as u64 + 2 + 1 + 1 + 2)?;
'''
READSTR = '''async fn read_string(
    buffer: &mut MqttBytesReadStream,
    remaining_length: &mut u64,
) -> Result<String, Error> {
    let string = buffer.get_string().await?;
    consume(remaining_length, string.len() as u64 + 2)?;
    Ok(string)
}

async fn decode_connect('''
same('conn-helper', (D, 'async fn decode_connect(', READSTR), (D, USER, '''    let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
        Some(read_string(buffer, &mut remaining_length).await?)
    } else {
        None
    };
'''), (D, PASS, '''    let password = match connect_flags.contains(ConnectFlags::PASSWORD) {
        true => Some(read_string(buffer, &mut remaining_length).await?),
        false => None,
    };
'''))
same('conn-opt-helper', (D, 'async fn decode_connect(', READSTR.replace('async fn decode_connect(', '''async fn read_optional(
    buffer: &mut MqttBytesReadStream,
    remaining_length: &mut u64,
    present: bool,
) -> Result<Option<String>, Error> {
    if !present {
        return Ok(None);
    }
    read_string(buffer, remaining_length).await.map(Some)
}

async fn decode_connect(''')), (D, USER, '''    let user_name = read_optional(
        buffer,
        &mut remaining_length,
        connect_flags.contains(ConnectFlags::USERNAME),
    )
    .await?;
'''), (D, PASS, '''    let password = read_optional(
        buffer,
        &mut remaining_length,
        connect_flags.contains(ConnectFlags::PASSWORD),
    )
    .await?;
'''))
same('conn-mutable', (D, PASS, '''    let mut password = None;
    if connect_flags.contains(ConnectFlags::PASSWORD) {
        let value = buffer.get_string().await?;
        consume(&mut remaining_length, value.len() as u64 + 2)?;
        password = Some(value);
    }
'''))
same('conn-consume-first', (D, HEAD, HEAD.replace('''    consume(&mut remaining_length, protocol_name.len() as u64 + 2 + 1 + 1 + 2)?;
''', '').replace('''    let _protocol_level''', '''    consume(&mut remaining_length, protocol_name.len() as u64 + 2)?;
    consume(&mut remaining_length, 1 + 1 + 2)?;
    let _protocol_level''')))
same('conn-bit-tests', (D, 'let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);', 'let clean_session = connect_flags_byte & 0b10 != 0;'))
same('conn-intersects', (D, 'let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);', 'let clean_session = connect_flags.intersects(ConnectFlags::CLEAN_SESSION);'))
same('conn-will-qos-bits', (D, 'qos: QoS::from_bits((connect_flags & ConnectFlags::WILL_QOS).bits >> 3)', 'qos: QoS::from_bits((connect_flags_byte >> 3) & 0b11)'))
same('conn-will-qos-early', (D, '''        if connect_flags.contains(ConnectFlags::WILL_QOS) {
            return Err(malformed("Malformed will QoS"));
        }

''', '''        let will_qos = (connect_flags_byte & 0b0001_1000) >> 3;
        if will_qos == 3 {
            return Err(malformed("Malformed will QoS"));
        }

'''))
same('conn-will-bytes', (D, '''        let size = buffer.get_u16().await?;
        let payload = buffer.get_bytes(size as usize).await?;
        consume(&mut remaining_length, size as u64 + 2)?;
''', '''        let size = buffer.get_u16().await? as u64;
        consume(&mut remaining_length, 2 + size)?;
        let payload = buffer.get_bytes(size as usize).await?;
'''))
same('conn-will-after-len', (D, '''        let payload = buffer.get_bytes(size as usize).await?;
        consume(&mut remaining_length, size as u64 + 2)?;
''', '''        let payload = buffer.get_bytes(size.into()).await?;
        consume(&mut remaining_length, payload.len() as u64 + 2)?;
'''))
same('conn-struct', (D, '''    let connect_packet = ConnectPacket::new(
        ProtocolVersion::Mqtt3,
        client_id,
        keep_alive_seconds,
        clean_session,
        will_message,
        user_name,
        password,
    );

    Ok(ControlPacket::Connect(connect_packet))
''', '''    Ok(ControlPacket::Connect(ConnectPacket::new(
        ProtocolVersion::Mqtt3,
        client_id,
        keep_alive_seconds,
        clean_session,
        will_message,
        user_name,
        password,
    )))
'''))
same('conn-end-inline', (D, '''    expect_end(remaining_length)?;

    let connect_packet''', '''    if remaining_length != 0 {
        return Err(malformed("Packet shorter than its remaining length"));
    }

    let connect_packet'''))
same('conn-total', (D, USER, USER.replace('consume(&mut remaining_length, user_name.len() as u64 + 2)?;', 'let size = 2 + user_name.len() as u64;\n        consume(&mut remaining_length, size)?;')))
bug('b-conn-swap-flags', 'C05', (D, 'const PASSWORD =        0b01000000;', 'const PASSWORD =        0b10000000;'), (D, 'const USERNAME =        0b10000000;', 'const USERNAME =        0b01000000;'))
bug('b-conn-order', 'C05', (D, USER + '\n' + PASS, PASS + '\n' + USER))
bug('b-conn-will-swap', 'C05', (D, WILL + '\n' + USER, USER + '\n' + WILL))
bug('b-conn-clean-not', 'C05', (D, 'let clean_session = connect_flags.contains', 'let clean_session = !connect_flags.contains'))
bug('b-conn-will-retain', 'C05', (D, 'const WILL_RETAIN =     0b00100000;', 'const WILL_RETAIN =     0b01000000;'))
bug('b-conn-will-qos-shift', 'C05 C01', (D, 'WILL_QOS).bits >> 3', 'WILL_QOS).bits >> 4'))
bug('b-conn-will-qos3', 'C01', (D, '''        if connect_flags.contains(ConnectFlags::WILL_QOS) {
            return Err(malformed("Malformed will QoS"));
        }

''', ''))
bug('b-conn-will-qos-any', 'C05 C04', (D, '''        if connect_flags.contains(ConnectFlags::WILL_QOS) {
            return''', '''        if connect_flags.intersects(ConnectFlags::WILL_QOS) {
            return'''))
bug('b-conn-will-empty', 'C05', (D, '''        Some(Message {
            topic,''', '''        let _ = &payload;
        let payload = bytes::BytesMut::new();
        Some(Message {
            topic,'''))
bug('b-conn-keep-alive', 'C05', (D, 'let keep_alive_seconds = buffer.get_u16().await?;', 'let keep_alive_seconds = buffer.get_u16().await?.min(3600);'))
bug('b-conn-consume-user', 'C02', (D, 'consume(&mut remaining_length, user_name.len() as u64 + 2)?;', 'consume(&mut remaining_length, user_name.chars().count() as u64 + 2)?;'))
bug('b-conn-client-len', 'C02', (D, 'consume(&mut remaining_length, client_id.len() as u64 + 2)?;', 'consume(&mut remaining_length, client_id.len() as u64)?;'))
bug('b-conn-no-end', 'C02', (D, '''    expect_end(remaining_length)?;

    let connect_packet''', '''    let connect_packet'''))
bug('b-conn-password-needs-user', 'C05 C02', (D, 'let password = if connect_flags.contains(ConnectFlags::PASSWORD) {', 'let password = if connect_flags.contains(ConnectFlags::PASSWORD) && user_name.is_some() {'))
bug('b-conn-empty-password', 'C05', (D, '        Some(password)\n', '        Some(password).filter(|p| !p.is_empty())\n'))
bug('b-conn-client-trim', 'C05 C06', (D, '    let client_id = buffer.get_string().await?;\n    consume(&mut remaining_length, client_id.len() as u64 + 2)?;\n', '    let client_id = buffer.get_string().await?;\n    consume(&mut remaining_length, client_id.len() as u64 + 2)?;\n    let client_id = client_id.trim().to_string();\n'))

# PUBLISH
PUBHEAD = '''    let dup = flags.contains(FixedHeaderFlags::DUP);
    let retain = flags.contains(FixedHeaderFlags::RETAIN);
    if flags.contains(FixedHeaderFlags::QOS) {
        return Err(malformed("Malformed QoS"));
    }
    let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
'''
PUBID = '''    let packet_id = if qos > QoS::AtMostOnce {
        consume(&mut remaining_length, 2)?;
        Some(buffer.get_u16().await?)
    } else {
        None
    };
'''
same('pub-qos-match', (D, PUBHEAD, '''    let dup = flags.contains(FixedHeaderFlags::DUP);
    let retain = flags.contains(FixedHeaderFlags::RETAIN);
    let qos = match (flags & FixedHeaderFlags::QOS).bits >> 1 {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        2 => QoS::ExactlyOnce,
        _ => return Err(malformed("Malformed QoS")),
    };
'''))
same('pub-bits', (D, PUBHEAD, '''    let _ = flags;
    let dup = first_byte & 0b1000 == 0b1000;
    let retain = (first_byte & 1) == 1;
    let qos_bits = (first_byte >> 1) & 0b11;
    if qos_bits > 2 {
        return Err(malformed("Malformed QoS"));
    }
    let qos = QoS::from_bits(qos_bits);
'''))
same('pub-id-match', (D, PUBID, '''    let packet_id = match qos {
        QoS::AtMostOnce => None,
        QoS::AtLeastOnce | QoS::ExactlyOnce => {
            let packet_id = buffer.get_u16().await?;
            consume(&mut remaining_length, 2)?;
            Some(packet_id)
        }
    };
'''))
same('pub-id-ne', (D, PUBID, '''    let mut packet_id = None;
    if qos != QoS::AtMostOnce {
        consume(&mut remaining_length, 2)?;
        packet_id = Some(buffer.get_u16().await?);
    }
'''))
same('pub-wild-closure', (D, "if topic.contains('+') || topic.contains('#') {", "if topic.contains(|c| c == '+' || c == '#') {"))
same('pub-wild-after', (D, '''    if topic.contains('+') || topic.contains('#') {
        return Err(malformed("Wildcard in the topic of PUBLISH"));
    }

''', ''), (D, '    let packet = PublishPacket::new(topic, body', '''    if topic.contains('+') || topic.contains('#') {
        return Err(malformed("Wildcard in the topic of PUBLISH"));
    }

    let packet = PublishPacket::new(topic, body'''))
same('pub-helper', (D, PUBID, '''    let packet_id = read_publish_id(buffer, &mut remaining_length, &qos).await?;
'''), (D, 'async fn decode_pub_ack(', '''async fn read_publish_id(
    buffer: &mut MqttBytesReadStream,
    remaining_length: &mut u64,
    qos: &QoS,
) -> Result<Option<u16>, Error> {
    if *qos == QoS::AtMostOnce {
        return Ok(None);
    }
    consume(remaining_length, 2)?;
    Ok(Some(buffer.get_u16().await?))
}

async fn decode_pub_ack('''))
same('pub-into', (D, '    let packet = PublishPacket::new(topic, body, qos, retain, packet_id, dup);\n    Ok(ControlPacket::Publish(packet))', '    let packet = PublishPacket {\n        packet_id,\n        dup,\n        message: Message { topic, payload: body, qos, retain },\n    };\n    Ok(ControlPacket::Publish(packet))'))
same('pub-body-usize', (D, 'let body = buffer.get_bytes(remaining_length as usize).await?;', 'let size = usize::try_from(remaining_length).map_err(|_| malformed("Too long"))?;\n    let body = buffer.get_bytes(size).await?;'))
bug('b-pub-dup-retain', 'C05', (D, 'PublishPacket::new(topic, body, qos, retain, packet_id, dup)', 'PublishPacket::new(topic, body, qos, dup, packet_id, retain)'))
bug('b-pub-id-qos1', 'C05 C02', (D, 'let packet_id = if qos > QoS::AtMostOnce {', 'let packet_id = if qos == QoS::AtLeastOnce {'))
bug('b-pub-id-consume', 'C02', (D, '        consume(&mut remaining_length, 2)?;\n        Some(buffer.get_u16().await?)', '        Some(buffer.get_u16().await?)'))
bug('b-pub-qos3', 'C01', (D, '''    if flags.contains(FixedHeaderFlags::QOS) {
        return Err(malformed("Malformed QoS"));
    }
    let qos''', '''    let qos'''))
bug('b-pub-qos3-dup', 'C01', (D, 'if flags.contains(FixedHeaderFlags::QOS) {', 'if flags.contains(FixedHeaderFlags::QOS) && !dup {'))
bug('b-pub-body-cap', 'C05 C02', (D, 'buffer.get_bytes(remaining_length as usize)', 'buffer.get_bytes(remaining_length as u16 as usize)'))
bug('b-pub-body-sub', 'C01 C02', (D, '''    consume(&mut remaining_length, topic.len() as u64 + 2)?;
    if topic''', '''    remaining_length = remaining_length.wrapping_sub(topic.len() as u64 + 2);
    if topic'''))
bug('b-pub-id-early', 'C05', (D, PUBID, ''), (D, '''    let topic = buffer.get_string().await?;
    consume(&mut remaining_length, topic.len() as u64 + 2)?;
    if topic''', PUBID + '''    let topic = buffer.get_string().await?;
    consume(&mut remaining_length, topic.len() as u64 + 2)?;
    if topic'''))
bug('b-pub-dup-qos0', 'C05', (D, '    let dup = flags.contains(FixedHeaderFlags::DUP);\n', '    let dup = flags.contains(FixedHeaderFlags::DUP) && flags.intersects(FixedHeaderFlags::QOS);\n'))

# SUBSCRIBE / UNSUBSCRIBE
SUBLOOP = '''    let mut subscriptions = Vec::new();
    while remaining_length > 0 {
        let topic = buffer.get_string().await?;
        let qos = buffer.get_u8().await?;
        if qos > 2 {
            return Err(tokio::io::Error::new(
                ErrorKind::InvalidData,
                "Malformed QoS",
            ));
        }

        consume(&mut remaining_length, topic.len() as u64 + 3u64 /* 2 topic length + QoS*/)?;

        let subscription = Subscription::new(topic, QoS::from_bits(qos));
        subscriptions.push(subscription);
    }
'''
UNLOOP = '''    let mut topics = Vec::new();
    while remaining_length > 0 {
        let topic = buffer.get_string().await?;

        consume(&mut remaining_length, topic.len() as u64 + 2u64 /* 2 topic length */)?;

        topics.push(topic);
    }
'''
same('sub-loop', (D, SUBLOOP, '''    let mut subscriptions = Vec::new();
    loop {
        if remaining_length == 0 {
            break;
        }
        let topic = buffer.get_string().await?;
        consume(&mut remaining_length, topic.len() as u64 + 2)?;
        let qos = match buffer.get_u8().await? {
            bits @ 0..=2 => QoS::from_bits(bits),
            _ => return Err(malformed("Malformed QoS")),
        };
        consume(&mut remaining_length, 1)?;
        subscriptions.push(Subscription::new(topic, qos));
    }
'''))
same('sub-item-helper', (D, SUBLOOP, '''    let mut subscriptions = Vec::new();
    while remaining_length != 0 {
        subscriptions.push(read_subscription(buffer, &mut remaining_length).await?);
    }
'''), (D, 'async fn decode_subscribe(', '''async fn read_subscription(
    buffer: &mut MqttBytesReadStream,
    remaining_length: &mut u64,
) -> Result<Subscription, Error> {
    let topic = buffer.get_string().await?;
    let qos = buffer.get_u8().await?;
    if qos > 2 {
        return Err(malformed("Malformed QoS"));
    }
    consume(remaining_length, topic.len() as u64 + 3)?;
    Ok(Subscription::new(topic, QoS::from_bits(qos)))
}

async fn decode_subscribe('''))
same('sub-do-while', (D, '''    // payload

    if remaining_length == 0 {
        return Err(tokio::io::Error::new(
            ErrorKind::InvalidData,
            "Malformed payload",
        ));
    }

''' + SUBLOOP, '''    // payload

''' + SUBLOOP + '''
    if subscriptions.is_empty() {
        return Err(malformed("Malformed payload"));
    }
'''))
same('sub-capacity', (D, 'let mut subscriptions = Vec::new();', 'let mut subscriptions = Vec::with_capacity(1);'))
same('sub-qos-const', (D, 'if qos > 2 {', 'if qos >= 3 {'))
same('un-helper', (D, UNLOOP, '''    let mut topics = vec![];
    while remaining_length > 0 {
        topics.push(read_string(buffer, &mut remaining_length).await?);
    }
'''), (D, 'async fn decode_connect(', READSTR))
same('un-consumed-size', (D, UNLOOP, '''    let mut topics = Vec::new();
    while remaining_length > 0 {
        let topic = buffer.get_string().await?;
        let size = topic.len() as u64 + 2;
        if size > remaining_length {
            return Err(malformed("Packet longer than its remaining length"));
        }
        remaining_length -= size;
        topics.push(topic);
    }
'''))
bug('b-sub-qos3', 'C01', (D, 'if qos > 2 {', 'if qos > 3 {'))
bug('b-sub-qos-mask', 'C04 C05', (D, '        if qos > 2 {', '        let qos = qos & 3;\n        if qos > 2 {'))
bug('b-sub-count', 'C02', (D, '+ 3u64 /* 2', '+ 2u64 /* 2'))
bug('b-sub-rev', 'C05', (D, 'subscriptions.push(subscription);', 'subscriptions.insert(0, subscription);'))
bug('b-sub-dedup', 'C05', (D, 'subscriptions.push(subscription);', 'if !subscriptions.contains(&subscription) {\n            subscriptions.push(subscription);\n        }'))
bug('b-sub-one', 'C02 C05', (D, 'subscriptions.push(subscription);\n', 'subscriptions.push(subscription);\n        if subscriptions.len() == 100 {\n            break;\n        }\n'))
bug('b-un-two', 'C02', (D, 'topic.len() as u64 + 2u64', 'topic.len() as u64 + 1u64'))
bug('b-un-empty', 'C05 C02', (D, '        topics.push(topic);\n', '        if topic.is_empty() {\n            continue;\n        }\n        topics.push(topic);\n'))
bug('b-un-alloc', 'C01', (D, '    let mut topics = Vec::new();\n', '    let mut topics = Vec::with_capacity((remaining_length - 3) as usize);\n'))
bug('b-ack-extra', 'C02', (D, '''    let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
    consume(&mut remaining_length, 2)?;
    expect_end(remaining_length)?;
''', '''    let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
    consume(&mut remaining_length, 2)?;
'''))
bug('b-ack-skip', 'C01', (D, '''    let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01110000).await?;
    consume(&mut remaining_length, 2)?;
    expect_end(remaining_length)?;
''', '''    let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01110000).await?;
    expect_end(remaining_length - 2)?;
'''))

# ---- wildcards in the topic of a PUBLISH
WILD = '''    if topic.contains('+') || topic.contains('#') {
        return Err(malformed("Wildcard in the topic of PUBLISH"));
    }
'''
REF = 'return Err(malformed("Wildcard in the topic of PUBLISH"));'


def wild(cond):
    return (D, WILD, '    if %s {\n        %s\n    }\n' % (cond, REF))


same('wild-str', wild('topic.contains("#") || topic.contains("+")'))
same('wild-array', wild("topic.contains(['+', '#'])"))
same('wild-slice', wild("topic.contains(&['+', '#'][..])"))
same('wild-array-ref', wild("topic.contains(&['+', '#'])"))
same('wild-closure', wild("topic.contains(|c: char| c == '+' || c == '#')"))
same('wild-matches', wild("topic.contains(|c| matches!(c, '+' | '#'))"))
same('wild-any', wild("topic.chars().any(|c| c == '#' || c == '+')"))
same('wild-all', wild("!topic.chars().all(|c| c != '#' && c != '+')"))
same('wild-bytes', wild("topic.bytes().any(|b| b == b'#' || b == b'+')"))
same('wild-as-bytes', wild("topic.as_bytes().contains(&b'#') || topic.as_bytes().contains(&b'+')"))
same('wild-find', wild("topic.find('#').is_some() || topic.find('+').is_some()"))
same('wild-find-array', wild("topic.find(['#', '+']).is_some()"))
same('wild-levels', wild('topic.split(\'/\').any(|level| level == "+" || level == "#")'))
same('wild-list', wild("['+', '#'].iter().any(|c| topic.contains(*c))"))
same('wild-helper', (D, 'async fn decode_connect(', '''fn check_topic(topic: &str) -> Result<(), Error> {
    match topic.find(&['+', '#'][..]) {
        Some(_) => Err(malformed("Wildcard in the topic of PUBLISH")),
        None => Ok(()),
    }
}

async fn decode_connect('''), (D, WILD, '    check_topic(&topic)?;\n'))
same('wild-const', (D, 'async fn decode_connect(', '''const WILDCARDS: [char; 2] = ['+', '#'];

fn has_wildcard(topic: &str) -> bool {
    topic.contains(WILDCARDS)
}

async fn decode_connect('''), wild('has_wildcard(&topic)'))
same('wild-loop', (D, WILD, '''    for c in topic.chars() {
        if c == '+' || c == '#' {
            %s
        }
    }
''' % REF))
same('wild-match-loop', (D, WILD, '''    for c in topic.bytes() {
        match c {
            b'+' | b'#' => %s,
            _ => {}
        }
    }
''' % REF.rstrip(';')))
same('wild-later', (D, WILD, ''), (D, '    let packet = PublishPacket::new(', WILD + '    let packet = PublishPacket::new('))
bug('b-wild-none', 'M04', (D, WILD, ''))
bug('b-wild-plus', 'M04', wild("topic.contains('#')"))
bug('b-wild-ends', 'M04', wild("topic.ends_with('+') || topic.contains('#')"))
bug('b-wild-both', 'M04', wild("topic.contains('+') && topic.contains('#')"))
bug('b-wild-and', 'M04', wild("topic.chars().any(|c| c == '+' && c == '#')"))
bug('b-wild-all', 'M04', wild("topic.chars().all(|c| c == '+' || c == '#')"))
bug('b-wild-loop', 'M04', (D, WILD, '''    for c in topic.chars() {
        if c == '+' || c == '#' {
            %s
        }
        break;
    }
''' % REF))
bug('b-wild-skip', 'M04', wild("topic.chars().skip(1).any(|c| c == '+' || c == '#')"))
bug('b-wild-long', 'M04', wild("topic.len() < 1024 && topic.contains(['+', '#'])"))
