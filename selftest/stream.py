P = 'src/mqtt/transport/mqtt_bytes_stream.rs'
ENC = 'src/mqtt/transport/packet_encoder.rs'
T = open('/repo/' + P).read()
_r, _w = T.index('impl MqttBytesReadStream {'), T.index('impl MqttBytesWriteStream {')
READ, WRITE = T[_r:_w], T[_w:]
HEAD = "use tokio::io::{AsyncReadExt, AsyncWriteExt, Error, ErrorKind};\n"


def sub(region, *pairs):
    t = region
    for a, b in pairs:
        assert t.count(a) == 1, (t.count(a), a)
        t = t.replace(a, b)
    return (P, region, t)


def r(*pairs):
    return sub(READ, *pairs)


def w(*pairs):
    return sub(WRITE, *pairs)


def fn(region, name):
    i = region.index('async fn ' + name)
    if region[i - 4:i] == 'pub ':
        i -= 4
    j = region.index('\n    }\n', i) + 7
    return region[i:j]


GB, GS, WD, G8, G16 = [fn(READ, n) for n in ('get_bytes', 'get_string', 'wait_for_data', 'get_u8', 'get_u16')]
PB, PS, FP, IT, P8, P16 = [fn(WRITE, n) for n in ('put_bytes', 'put_string', 'finish_packet', 'write_buffer_if_too_small', 'put_u8', 'put_u16')]
CAP = '''            let wait_for_bytes = {
                // the capacity shrinks to 0 when the buffer is drained
                let capacity = self.read_buffer.capacity().max(1);
                if remaining_length > capacity {
                    capacity
                } else {
                    remaining_length
                }
            };
'''
CAPW = '''            let bytes_to_write = {
                // the capacity shrinks to 0 when the buffer is drained
                let capacity = self.write_buffer.capacity().max(1);
                if remaining_size > capacity {
                    capacity
                } else {
                    remaining_size
                }
            };
'''
SPLIT = 'bytes.put(self.read_buffer.split_to(wait_for_bytes));'
VALID = GS[GS.index('        let str = std'):]

# ---- reading: behaviour kept
same('r-min', r((CAP, '            let wait_for_bytes = remaining_length.min(self.read_buffer.capacity().max(1));\n')))
same('r-cmp-min', r((CAP, '            let wait_for_bytes = std::cmp::min(remaining_length, std::cmp::max(self.read_buffer.capacity(), 1));\n')))
same('r-clamp', r((CAP, '            let wait_for_bytes = remaining_length.clamp(1, self.read_buffer.capacity().max(1));\n')))
same('r-advance', r((SPLIT, 'bytes.extend_from_slice(&self.read_buffer[..wait_for_bytes]);\n            self.read_buffer.advance(wait_for_bytes);')))
same('r-put-slice', r((SPLIT, 'bytes.put_slice(&self.read_buffer[..wait_for_bytes]);\n            self.read_buffer.advance(wait_for_bytes);')))
same('r-unsplit', r((SPLIT, 'bytes.extend(self.read_buffer.split_to(wait_for_bytes));')))
same('r-chunk', r((SPLIT, 'let chunk = self.read_buffer.split_to(wait_for_bytes);\n            bytes.extend_from_slice(&chunk);')))
same('r-chunk-len', r((SPLIT, 'let chunk = self.read_buffer.split_to(wait_for_bytes);\n            bytes.put(&chunk[..]);'),
                      ('remaining_length -= wait_for_bytes;', 'remaining_length -= chunk.len();')))
same('r-take', r((SPLIT, 'bytes.put((&mut self.read_buffer).take(wait_for_bytes));')))
same('r-copy-to', r((SPLIT, 'bytes.put(self.read_buffer.copy_to_bytes(wait_for_bytes));')))
same('r-available', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::with_capacity(size);
        let mut missing = size;
        while missing > 0 {
            self.wait_for_data(1).await?;
            let n = missing.min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(n));
            missing -= n;
        }
        Ok(bytes)
    }
''')))
same('r-by-len', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::with_capacity(size);
        while bytes.len() < size {
            self.wait_for_data(1).await?;
            let n = (size - bytes.len()).min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(n));
        }
        Ok(bytes)
    }
''')))
same('r-whole', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        self.wait_for_data(size).await?;
        Ok(self.read_buffer.split_to(size))
    }
''')))
same('r-whole-reserve', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        if self.read_buffer.len() < size {
            self.read_buffer.reserve(size - self.read_buffer.len());
        }
        self.wait_for_data(size).await?;
        let bytes = self.read_buffer.split_to(size);
        Ok(bytes)
    }
''')))
same('r-bytewise', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::with_capacity(size);
        for _ in 0..size {
            bytes.put_u8(self.get_u8().await?);
        }
        Ok(bytes)
    }
''')))
same('r-read-exact', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let buffered = size.min(self.read_buffer.len());
        let mut bytes = self.read_buffer.split_to(buffered);
        bytes.resize(size, 0);
        self.read_stream.read_exact(&mut bytes[buffered..]).await?;
        Ok(bytes)
    }
''')))
same('r-early-empty', r(('        let mut bytes = BytesMut::with_capacity(size);\n', '''        if size == 0 {
            return Ok(BytesMut::new());
        }
        let mut bytes = BytesMut::with_capacity(size);
''')))
same('r-loop', r(('        while remaining_length > 0 {', '        loop {\n            if remaining_length == 0 {\n                break;\n            }')))
same('r-wait-loop', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        loop {
            if self.read_buffer.len() >= bytes {
                return Ok(());
            }
            if self.read_stream.read_buf(&mut self.read_buffer).await? == 0 {
                return Err(Error::new(ErrorKind::ConnectionReset, "connection reset by peer"));
            }
        }
    }
''')))
same('r-wait-match', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            match self.read_stream.read_buf(&mut self.read_buffer).await {
                Ok(0) => {
                    let message = if self.read_buffer.is_empty() { "connection reset by peer" } else { "connection interrupted, reset by peer" };
                    return Err(Error::new(ErrorKind::ConnectionReset, message));
                }
                Ok(_) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
''')))
same('r-wait-interrupted', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let n = match self.read_stream.read_buf(&mut self.read_buffer).await {
                Ok(n) => n,
                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) => return Err(e),
            };
            if n == 0 {
                return Err(Error::from(ErrorKind::UnexpectedEof));
            }
        }
        Ok(())
    }
'''), ))
same('r-wait-fill', r((WD, '''async fn fill(&mut self) -> Result<usize, Error> {
        match self.read_stream.read_buf(&mut self.read_buffer).await? {
            0 => Err(Error::new(ErrorKind::ConnectionReset, "connection reset by peer")),
            n => Ok(n),
        }
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            self.fill().await?;
        }
        Ok(())
    }
''')))
same('r-wait-saturating', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        let mut missing = bytes.saturating_sub(self.read_buffer.len());
        while missing > 0 {
            let n = self.read_stream.read_buf(&mut self.read_buffer).await?;
            if n == 0 {
                return Err(Error::new(ErrorKind::ConnectionReset, "connection reset by peer"));
            }
            missing = missing.saturating_sub(n);
        }
        Ok(())
    }
''')))
same('r-wait-tmp', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        let mut chunk = [0u8; 1024];
        while self.read_buffer.len() < bytes {
            let n = self.read_stream.read(&mut chunk).await?;
            if n == 0 {
                return Err(Error::new(ErrorKind::ConnectionReset, "connection reset by peer"));
            }
            self.read_buffer.extend_from_slice(&chunk[..n]);
        }
        Ok(())
    }
''')))
same('r-wait-helper-error', r((WD, WD[:WD.index('            if connection_closed {')] + '''            if connection_closed {
                return Err(closed(self.read_buffer.is_empty()));
            }
        }

        Ok(())
    }
''')), (P, HEAD, HEAD + '''
fn closed(clean: bool) -> Error {
    let message = if clean {
        "connection reset by peer"
    } else {
        "connection interrupted, reset by peer"
    };
    Error::new(ErrorKind::ConnectionReset, message)
}
'''))
same('r-u8-split', r((G8, G8.replace('self.read_buffer.get_u8()', 'self.read_buffer.split_to(1)[0]'))))
same('r-u8-index', r((G8, G8.replace('Ok(self.read_buffer.get_u8())', 'let byte = self.read_buffer[0];\n        self.read_buffer.advance(1);\n        Ok(byte)'))))
same('r-u16-two', r((G16, '''pub async fn get_u16(&mut self) -> Result<u16, Error> {
        let high = self.get_u8().await?;
        let low = self.get_u8().await?;

        Ok(u16::from_be_bytes([high, low]))
    }
''')))
same('r-u16-shift', r((G16, '''pub async fn get_u16(&mut self) -> Result<u16, Error> {
        self.wait_for_data(2).await?;
        let high = self.read_buffer.get_u8() as u16;
        let low = self.read_buffer.get_u8() as u16;

        Ok((high << 8) | low)
    }
''')))
same('r-u16-mul', r((G16, '''pub async fn get_u16(&mut self) -> Result<u16, Error> {
        let high = u16::from(self.get_u8().await?);
        let low = u16::from(self.get_u8().await?);

        Ok(high * 256 + low)
    }
''')))
same('r-u16-bytes', r((G16, '''pub async fn get_u16(&mut self) -> Result<u16, Error> {
        let mut bytes = self.get_bytes(2).await?;

        Ok(bytes.get_u16())
    }
''')))
same('r-u16-bytes-index', r((G16, '''pub async fn get_u16(&mut self) -> Result<u16, Error> {
        let bytes = self.get_bytes(2).await?;

        Ok(u16::from_be_bytes([bytes[0], bytes[1]]))
    }
''')))
same('r-u16-le-swap', r((G16, G16.replace('self.read_buffer.get_u16()', 'self.read_buffer.get_u16_le().swap_bytes()'))))
same('r-ok-map', r((G16, G16.replace('self.wait_for_data(2).await?;\n\n        Ok(self.read_buffer.get_u16())', 'self.wait_for_data(2).await.map(|()| self.read_buffer.get_u16())'))))
same('r-string-vec', r((VALID, '''        String::from_utf8(str_buf.to_vec()).map_err(|e| {
            Error::new(
                ErrorKind::InvalidData,
                format!("Invalid UTF8 String: error at position {}", e.utf8_error().valid_up_to() + 1),
            )
        })
    }
''')))
same('r-string-vec-into', r((VALID, '''        String::from_utf8(str_buf.into()).map_err(|e| Error::new(ErrorKind::InvalidData, e))
    }
''')))
same('r-string-match', r((VALID, '''        match std::str::from_utf8(&str_buf) {
            Ok(text) => Ok(text.to_string()),
            Err(e) => Err(Error::new(ErrorKind::InvalidData, e.to_string())),
        }
    }
''')))
same('r-string-map', r((VALID, '''        std::str::from_utf8(&str_buf[..])
            .map(str::to_owned)
            .map_err(|e| Error::new(ErrorKind::InvalidData, e))
    }
''')))
same('r-string-letelse', r((VALID, '''        let Ok(text) = std::str::from_utf8(&str_buf) else {
            return Err(Error::new(ErrorKind::InvalidData, "Invalid UTF8 String"));
        };
        Ok(text.into())
    }
''')))
same('r-string-helper', r((VALID, '''        to_text(&str_buf)
    }
''')), (P, HEAD, HEAD + '''
fn to_text(bytes: &[u8]) -> Result<String, Error> {
    let text = std::str::from_utf8(bytes).map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
    Ok(text.to_owned())
}
'''))
same('r-string-in-place', r((GS, '''pub async fn get_string(&mut self) -> Result<String, Error> {
        let size = usize::from(self.get_u16().await?);
        self.wait_for_data(size).await?;
        let text = match std::str::from_utf8(&self.read_buffer[..size]) {
            Ok(text) => text.to_owned(),
            Err(e) => return Err(Error::new(ErrorKind::InvalidData, e)),
        };
        self.read_buffer.advance(size);
        Ok(text)
    }
''')))
same('r-trace-only', r(('        trace!("Parsing string buf");\n', '')))

# ---- reading: behaviour broken
bug('r-le', 'C05', r((G16, G16.replace('self.read_buffer.get_u16()', 'self.read_buffer.get_u16_le()'))))
bug('r-shift7', 'C05', r((G16, '''pub async fn get_u16(&mut self) -> Result<u16, Error> {
        let high = self.get_u8().await? as u16;
        let low = self.get_u8().await? as u16;

        Ok((high << 7) | low)
    }
''')))
bug('r-add-twice', 'C01 C05', r((G16, '''pub async fn get_u16(&mut self) -> Result<u16, Error> {
        let high = self.get_u8().await?;
        let low = self.get_u8().await?;

        Ok(u16::from(high + 0) * 255 + u16::from(low))
    }
''')))
bug('r-lossy', 'C06', r((VALID, '        Ok(String::from_utf8_lossy(&str_buf).into_owned())\n    }\n')))
bug('r-unchecked', 'C06', r((VALID, '        Ok(unsafe { String::from_utf8_unchecked(str_buf.to_vec()) })\n    }\n')))
bug('r-latin', 'C06', r((VALID, '        Ok(str_buf.iter().map(|b| *b as char).collect())\n    }\n')))
bug('r-valid-prefix', 'C06 C05 C01', r((VALID, '''        let text = match std::str::from_utf8(&str_buf) {
            Ok(text) => text,
            Err(e) if e.valid_up_to() > 0 => std::str::from_utf8(&str_buf[..e.valid_up_to()]).unwrap(),
            Err(e) => return Err(Error::new(ErrorKind::InvalidData, e)),
        };
        Ok(text.to_owned())
    }
''')))
bug('r-strip-nul', 'C06', r((VALID, VALID.replace('String::from(str)', "String::from(str.trim_end_matches('\\0'))"))))
bug('r-trim', 'C06', r((VALID, VALID.replace('String::from(str)', 'String::from(str.trim())'))))
bug('r-lower', 'C06', r((VALID, VALID.replace('String::from(str)', 'str.to_lowercase()'))))
bug('r-validate-half', 'C06', r((VALID, '''        if std::str::from_utf8(&str_buf[..str_buf.len().min(4096)]).is_err() {
            return Err(Error::new(ErrorKind::InvalidData, "Invalid UTF8 String"));
        }
        Ok(unsafe { String::from_utf8_unchecked(str_buf.to_vec()) })
    }
''')))
bug('r-unwrap', 'C01', r((VALID, '''        Ok(std::str::from_utf8(&str_buf).unwrap().to_owned())
    }
''')))
bug('r-wait-one-short', 'C01', r((G16, G16.replace('wait_for_data(2)', 'wait_for_data(1)'))))
bug('r-wait-none', 'C01', r((G8, G8.replace('        self.wait_for_data(1).await?;\n', ''))))
bug('r-wait-more', 'C09', r((WD, WD.replace('self.read_buffer.len() < bytes', 'self.read_buffer.len() <= bytes'))))
bug('r-wait-once', 'C01', r((WD, WD.replace('while self.read_buffer.len() < bytes', 'if self.read_buffer.len() < bytes'))))
bug('r-eof-spin', 'C09', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            self.read_stream.read_buf(&mut self.read_buffer).await?;
        }
        Ok(())
    }
''')))
bug('r-eof-spin-nonempty', 'C09', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let n = self.read_stream.read_buf(&mut self.read_buffer).await?;
            if n == 0 && self.read_buffer.is_empty() {
                return Err(Error::new(ErrorKind::ConnectionReset, "connection reset by peer"));
            }
        }
        Ok(())
    }
''')))
bug('r-eof-ok', 'C01 C09', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            if self.read_stream.read_buf(&mut self.read_buffer).await? == 0 {
                break;
            }
        }
        Ok(())
    }
''')))
bug('r-eof-zero', 'C09 C05', r((G8, '''pub async fn get_u8(&mut self) -> Result<u8, Error> {
        if self.wait_for_data(1).await.is_err() {
            return Ok(0);
        }

        Ok(self.read_buffer.get_u8())
    }
''')))
bug('r-tmp-all', 'C05 C02', r((WD, '''async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        let mut chunk = [0u8; 1024];
        while self.read_buffer.len() < bytes {
            let n = self.read_stream.read(&mut chunk).await?;
            if n == 0 {
                return Err(Error::new(ErrorKind::ConnectionReset, "connection reset by peer"));
            }
            self.read_buffer.extend_from_slice(&chunk);
        }
        Ok(())
    }
''')))
bug('r-capacity-zero', 'C09', r((CAP, '            let wait_for_bytes = remaining_length.min(self.read_buffer.capacity());\n')))
bug('r-takes-all', 'C02 C05', r((SPLIT, 'bytes.put(self.read_buffer.split());')))
bug('r-takes-all-count', 'C01 C02 C05', r((SPLIT, 'let chunk = self.read_buffer.split();'),
                                      ('remaining_length -= wait_for_bytes;', 'remaining_length -= chunk.len();\n            bytes.put(chunk);')))
bug('r-takes-all-sat', 'C02 C05', r((SPLIT, 'let chunk = self.read_buffer.split();'),
                                    ('remaining_length -= wait_for_bytes;', 'remaining_length = remaining_length.saturating_sub(chunk.len());\n            bytes.put(chunk);')))
bug('r-clears-rest', 'C02 C05', r((SPLIT, SPLIT + '\n            if remaining_length == wait_for_bytes {\n                self.read_buffer.clear();\n            }')))
bug('r-overwrites', 'C05', r((SPLIT, 'bytes = self.read_buffer.split_to(wait_for_bytes);')))
bug('r-one-chunk', 'C05 C02', r(('        while remaining_length > 0 {', '        if remaining_length > 0 {')))
bug('r-peek', 'C02 C05', r((SPLIT, 'bytes.put(&self.read_buffer[..wait_for_bytes]);')))
bug('r-advance-short', 'C02 C05', r((SPLIT, 'bytes.put(&self.read_buffer[..wait_for_bytes]);\n            self.read_buffer.advance(wait_for_bytes.min(4095));')))
bug('r-split-off', 'C05', r((SPLIT, 'bytes.put(self.read_buffer.split_off(self.read_buffer.len() - wait_for_bytes));')))
bug('r-exact-short', 'C05 C02', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let buffered = size.min(self.read_buffer.len());
        let mut bytes = self.read_buffer.split_to(buffered);
        bytes.resize(size, 0);
        let _ = self.read_stream.read(&mut bytes[buffered..]).await?;
        Ok(bytes)
    }
''')))
bug('r-exact-ignored', 'C09 C05', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let buffered = size.min(self.read_buffer.len());
        let mut bytes = self.read_buffer.split_to(buffered);
        bytes.resize(size, 0);
        let _ = self.read_stream.read_exact(&mut bytes[buffered..]).await;
        Ok(bytes)
    }
''')))
bug('r-string-size-limit', 'C05 C02', r((GS, GS.replace('as usize;', 'as usize & 0x7fff;'))))
bug('r-string-u8', 'C05 C02', r((GS, GS.replace('self.get_u16().await? as usize', 'self.get_u16().await? as u8 as usize'))))

# ---- writing: behaviour kept
same('w-min', w((CAPW, '            let bytes_to_write = remaining_size.min(self.write_buffer.capacity().max(1));\n')))
same('w-has-remaining', w((PB, '''pub async fn put_bytes(&mut self, mut bytes: BytesMut) -> Result<(), Error> {
        while bytes.has_remaining() {
            let n = bytes.len().min(self.write_buffer.capacity().max(1));
            self.write_buffer_if_too_small(n).await?;
            self.write_buffer.put(bytes.split_to(n));
        }

        Ok(())
    }
''')))
same('w-is-empty', w((PB, '''pub async fn put_bytes(&mut self, mut bytes: BytesMut) -> Result<(), Error> {
        while !bytes.is_empty() {
            let n = std::cmp::min(bytes.len(), std::cmp::max(self.write_buffer.capacity(), 1));
            self.write_buffer_if_too_small(n).await?;
            self.write_buffer.extend_from_slice(&bytes[..n]);
            bytes.advance(n);
        }

        Ok(())
    }
''')))
same('w-chunks', w((PB, '''pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {
        for chunk in bytes.chunks(1024) {
            self.write_buffer_if_too_small(chunk.len()).await?;
            self.write_buffer.put_slice(chunk);
        }

        Ok(())
    }
''')))
same('w-grow', w((PB, '''pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {
        self.write_buffer_if_too_small(bytes.len()).await?;
        self.write_buffer.extend_from_slice(&bytes);
        Ok(())
    }
''')))
same('w-unsplit', w((PB, '''pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {
        self.write_buffer.unsplit(bytes);
        Ok(())
    }
''')))
same('w-direct', w((PB, '''pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {
        if bytes.len() > self.write_buffer.capacity() {
            self.write_stream.write_all_buf(&mut self.write_buffer).await?;
            self.write_stream.write_all(&bytes).await
        } else {
            self.write_buffer_if_too_small(bytes.len()).await?;
            self.write_buffer.put(bytes);
            Ok(())
        }
    }
''')))
same('w-direct-buf', w((PB, '''pub async fn put_bytes(&mut self, mut bytes: BytesMut) -> Result<(), Error> {
        self.finish_packet().await?;
        self.write_stream.write_all_buf(&mut bytes).await
    }
''')))
same('w-slice', w((PB, '''pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {
        self.put_slice(&bytes).await
    }

    async fn put_slice(&mut self, mut rest: &[u8]) -> Result<(), Error> {
        while !rest.is_empty() {
            let (head, tail) = rest.split_at(rest.len().min(512));
            self.write_buffer_if_too_small(head.len()).await?;
            self.write_buffer.extend_from_slice(head);
            rest = tail;
        }
        Ok(())
    }
''')))
same('w-bytewise', w((PB, '''pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {
        for byte in bytes.iter() {
            self.put_u8(*byte).await?;
        }
        Ok(())
    }
''')))
same('w-u16-slice', w((P16, P16.replace('self.write_buffer.put_u16(n)', 'self.write_buffer.put_slice(&n.to_be_bytes())'))))
same('w-u16-two', w((P16, '''pub async fn put_u16(&mut self, n: u16) -> Result<(), Error> {
        self.put_u8((n >> 8) as u8).await?;
        self.put_u8(n as u8).await
    }
''')))
same('w-u16-two-mask', w((P16, '''pub async fn put_u16(&mut self, n: u16) -> Result<(), Error> {
        let [high, low] = n.to_be_bytes();
        self.put_u8(high).await?;
        self.put_u8(low).await
    }
''')))
same('w-u16-div', w((P16, '''pub async fn put_u16(&mut self, n: u16) -> Result<(), Error> {
        self.write_buffer_if_too_small(2).await?;
        self.write_buffer.put_u8((n / 256) as u8);
        self.write_buffer.put_u8((n % 256) as u8);
        Ok(())
    }
''')))
same('w-u8-extend', w((P8, P8.replace('self.write_buffer.put_u8(n)', 'self.write_buffer.extend_from_slice(&[n])'))))
same('w-string-if', w((PS, '''pub async fn put_string(&mut self, string: &str) -> Result<(), Error> {
        if string.len() > u16::MAX as usize {
            return Err(Error::new(ErrorKind::InvalidInput, "String longer than 65535 bytes"));
        }
        self.put_u16(string.len() as u16).await?;
        self.put_bytes(BytesMut::from(string)).await
    }
''')))
same('w-string-match', w((PS, '''pub async fn put_string(&mut self, string: &str) -> Result<(), Error> {
        let bytes = string.as_bytes();
        match u16::try_from(bytes.len()) {
            Ok(size) => self.put_u16(size).await?,
            Err(_) => return Err(Error::from(ErrorKind::InvalidInput)),
        }
        self.put_bytes(bytes.into()).await
    }
''')))
same('w-string-tryinto', w((PS, '''pub async fn put_string(&mut self, string: &str) -> Result<(), Error> {
        let size: u16 = string.len().try_into().map_err(|_| Error::new(ErrorKind::InvalidInput, "String longer than 65535 bytes"))?;
        let mut field = BytesMut::with_capacity(2 + string.len());
        field.put_u16(size);
        field.put_slice(string.as_bytes());
        self.put_bytes(field).await
    }
''')))
same('w-finish-loop', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        while self.write_buffer.has_remaining() {
            let n = self.write_stream.write_buf(&mut self.write_buffer).await?;
            if n == 0 {
                return Err(ErrorKind::WriteZero.into());
            }
        }
        Ok(())
    }
''')))
same('w-finish-slice', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream.write_all(&self.write_buffer).await?;
        self.write_buffer.clear();
        Ok(())
    }
''')))
same('w-finish-flush', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
        self.write_stream.flush().await
    }
''')))
same('w-finish-tail', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream.write_all_buf(&mut self.write_buffer).await
    }
''')))
same('w-finish-split', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        let pending = self.write_buffer.split();
        self.write_stream.write_all(&pending).await
    }
''')))
same('w-finish-advance', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        while !self.write_buffer.is_empty() {
            match self.write_stream.write(&self.write_buffer).await? {
                0 => return Err(Error::new(ErrorKind::WriteZero, "connection closed")),
                n => self.write_buffer.advance(n),
            }
        }
        Ok(())
    }
''')))
same('w-finish-if', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        if self.write_buffer.is_empty() {
            return Ok(());
        }
        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
        Ok(())
    }
''')))
same('w-small-all', w((IT, IT.replace('write_buf(', 'write_all_buf('))))
same('w-small-gt', w((IT, IT.replace('>=', '>'))))
same('w-small-remaining', w((IT, '''async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
        let free = self.write_buffer.capacity() - self.write_buffer.len();
        if free > size {
            return Ok(());
        }
        self.write_stream.write_buf(&mut self.write_buffer).await.map(|_| ())
    }
''')))
same('w-small-none', w((IT, '''async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
        self.write_buffer.reserve(size);
        Ok(())
    }
''')))
same('w-small-slice', w((IT, '''async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
        if self.write_buffer.len() + size >= self.write_buffer.capacity() {
            let n = self.write_stream.write(&self.write_buffer).await?;
            self.write_buffer.advance(n);
        }
        Ok(())
    }
''')))

# ---- writing: behaviour broken
bug('w-finish-once', 'C08', w((FP, FP.replace('write_all_buf(', 'write_buf('))))
bug('w-finish-write-clear', 'C08', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream.write(&self.write_buffer).await?;
        self.write_buffer.clear();
        Ok(())
    }
''')))
bug('w-finish-noclear', 'C08', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream.write_all(&self.write_buffer).await?;
        Ok(())
    }
''')))
bug('w-finish-ignored', 'C08', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        let _ = self.write_stream.write_all_buf(&mut self.write_buffer).await;
        Ok(())
    }
''')))
bug('w-finish-try', 'C08', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        if let Ok(n) = self.write_stream.try_write(&self.write_buffer) {
            self.write_buffer.advance(n);
        }
        Ok(())
    }
''')))
bug('w-finish-zero', 'C08 C09', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        while self.write_buffer.has_remaining() {
            if self.write_stream.write_buf(&mut self.write_buffer).await? == 0 {
                break;
            }
        }
        Ok(())
    }
''')))
bug('w-finish-spin', 'C09', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        while self.write_buffer.has_remaining() {
            self.write_stream.write_buf(&mut self.write_buffer).await?;
        }
        Ok(())
    }
''')))
bug('w-finish-big-only', 'C08', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        if self.write_buffer.len() > 1 {
            self.write_stream.write_all_buf(&mut self.write_buffer).await?;
        }
        Ok(())
    }
''')))
bug('w-finish-double', 'C08', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        let n = self.write_stream.write(&self.write_buffer).await?;
        if n < self.write_buffer.len() {
            self.write_stream.write_all(&self.write_buffer).await?;
        }
        self.write_buffer.clear();
        Ok(())
    }
''')))
bug('w-finish-again', 'C08', w((FP, '''pub async fn finish_packet(&mut self) -> Result<(), Error> {
        let n = self.write_stream.write(&self.write_buffer).await?;
        self.write_stream.write_all(&self.write_buffer[n..]).await?;
        self.write_buffer.advance(n);
        Ok(())
    }
''')))
bug('w-small-clear', 'C08', w((IT, IT.replace('        }\n\n', '            self.write_buffer.clear();\n        }\n\n'))))
bug('w-small-new', 'C08', w((IT, IT.replace('        }\n\n', '            self.write_buffer = BytesMut::with_capacity(4096);\n        }\n\n'))))
bug('w-small-ignored', 'C08', w((IT, IT.replace('self.write_stream.write_buf(&mut self.write_buffer).await?;', 'let _ = self.write_stream.write_all(&self.write_buffer).await;\n            self.write_buffer.clear();'))))
bug('w-small-dup', 'C08', w((IT, IT.replace('self.write_stream.write_buf(&mut self.write_buffer).await?;', 'self.write_stream.write(&self.write_buffer).await?;'))))
bug('w-reorder', 'C08', w((PB, '''pub async fn put_bytes(&mut self, bytes: BytesMut) -> Result<(), Error> {
        if bytes.len() > self.write_buffer.capacity() {
            self.write_stream.write_all(&bytes).await
        } else {
            self.write_buffer_if_too_small(bytes.len()).await?;
            self.write_buffer.put(bytes);
            Ok(())
        }
    }
''')))
bug('w-direct-short', 'C08', w((PB, '''pub async fn put_bytes(&mut self, mut bytes: BytesMut) -> Result<(), Error> {
        if bytes.len() > self.write_buffer.capacity() {
            self.write_stream.write_all_buf(&mut self.write_buffer).await?;
            self.write_stream.write_buf(&mut bytes).await?;
            Ok(())
        } else {
            self.write_buffer_if_too_small(bytes.len()).await?;
            self.write_buffer.put(bytes);
            Ok(())
        }
    }
''')))
bug('w-first-chunk', 'C07 C08', w(('        while remaining_size > 0 {', '        if remaining_size > 0 {')))
bug('w-count-off', 'C01 C07 C08', w(('remaining_size -= bytes_to_write;', 'remaining_size -= bytes_to_write.max(2);')))
bug('w-capacity-zero', 'C09', w((CAPW, '            let bytes_to_write = remaining_size.min(self.write_buffer.capacity());\n')))
bug('w-split-clone', 'C07 C08', w(('self.write_buffer.put(bytes.split_to(bytes_to_write));', 'self.write_buffer.put(&bytes[..bytes_to_write]);')))
bug('w-le', 'C07', w((P16, P16.replace('self.write_buffer.put_u16(n)', 'self.write_buffer.put_u16_le(n)'))))
bug('w-u16-low', 'C07', w((P16, '''pub async fn put_u16(&mut self, n: u16) -> Result<(), Error> {
        if n < 256 {
            return self.put_u8(n as u8).await;
        }
        self.write_buffer_if_too_small(2).await?;
        self.write_buffer.put_u16(n);
        Ok(())
    }
''')))
bug('w-u8-twice', 'C07 C08', w((P8, P8.replace('self.write_buffer.put_u8(n);', 'if self.write_buffer.len() == self.write_buffer.capacity() {\n            self.write_buffer.put_u8(n);\n        }\n        self.write_buffer.put_u8(n);'))))
bug('w-string-truncate', 'C07', w((PS, PS.replace('''u16::try_from(string.len()).map_err(|_| {
            Error::new(
                ErrorKind::InvalidInput,
                "String longer than 65535 bytes",
            )
        })?''', 'string.len() as u16'))))
bug('w-string-chars', 'C07', w((PS, PS.replace('u16::try_from(string.len())', 'u16::try_from(string.chars().count())'))))
bug('w-string-limit', 'C07', w((PS, '''pub async fn put_string(&mut self, string: &str) -> Result<(), Error> {
        if string.len() > 65536 {
            return Err(Error::new(ErrorKind::InvalidInput, "String longer than 65535 bytes"));
        }
        self.put_u16(string.len() as u16).await?;
        self.put_bytes(BytesMut::from(string)).await
    }
''')))
bug('w-string-cut', 'C07', w((PS, '''pub async fn put_string(&mut self, string: &str) -> Result<(), Error> {
        let size = string.len().min(65535);
        self.put_u16(size as u16).await?;
        self.put_bytes(BytesMut::from(&string.as_bytes()[..size])).await
    }
''')))
same('r-vec-exact', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::zeroed(size);
        let buffered = size.min(self.read_buffer.len());
        bytes[..buffered].copy_from_slice(&self.read_buffer.split_to(buffered));
        self.read_stream.read_exact(&mut bytes[buffered..]).await?;
        Ok(bytes)
    }
''')))
bug('r-exact-whole', 'C05', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::zeroed(size);
        let buffered = size.min(self.read_buffer.len());
        if buffered == size {
            return Ok(self.read_buffer.split_to(size));
        }
        self.read_stream.read_exact(&mut bytes).await?;
        Ok(bytes)
    }
''')))
bug('r-exact-offset', 'C05', r((GB, '''pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let buffered = size.min(self.read_buffer.len());
        let mut bytes = self.read_buffer.split_to(buffered);
        bytes.resize(size + 1, 0);
        self.read_stream.read_exact(&mut bytes[buffered..size]).await?;
        Ok(bytes)
    }
''')))
