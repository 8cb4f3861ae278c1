"""Where the password of a CONNECT goes."""
C = 'src/mqtt/packets/connect.rs'
H = 'src/broker/client_packet_handler.rs'
A = 'src/broker/authentication.rs'
D = 'src/mqtt/transport/packet_decoder.rs'
S = 'src/mqtt/transport/mqtt_bytes_stream.rs'
L = 'src/mqtt/listener.rs'
V = 'src/mqtt/events.rs'
PW = '            .field("password", &self.password.as_ref().map(|_| "***"))\n'
DBG = """impl Debug for ConnectPacket {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.debug_struct("ConnectPacket")
            .field("version", &self.version)
            .field("client_id", &self.client_id)
            .field("keep_alive_seconds", &self.keep_alive_seconds)
            .field("clean_session", &self.clean_session)
            .field("will_message", &self.will_message)
            .field("user_name", &self.user_name)
""" + PW + """            .finish()
    }
}
"""
USE = 'use std::fmt;\nuse std::fmt::{Debug, Formatter};\n'
DER = '#[derive(PartialEq, Clone, Default)]\npub struct ConnectPacket'
AUTH = """            let result = match &packet.password {
                Some(password) => self.identity_provider.authenticate(&user_name, password),
                None => Err(AuthenticationError::InvalidPassword),
            };
"""
VER = """        Argon2::default()
            .verify_password(password.as_bytes(), &parsed_hash)
            .map_err(|e| InvalidPassword)
"""
DEC = """    let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
        // todo: allow non-utf8 bytes?
        let password = buffer.get_string().await?;
        consume(&mut remaining_length, password.len() as u64 + 2)?;
        Some(password)
    } else {
        None
    };
"""

GS = 'impl MqttBytesReadStream {\n    pub fn new(buffer_size: usize, read_stream: OwnedReadHalf) -> Self {\n        MqttBytesReadStream {\n            read_buffer: BytesMut::with_capacity(buffer_size),\n            read_stream,\n        }\n    }\n\n    pub async fn get_u8(&mut self) -> Result<u8, Error> {\n        self.wait_for_data(1).await?;\n\n        Ok(self.read_buffer.get_u8())\n    }\n\n    pub async fn get_u16(&mut self) -> Result<u16, Error> {\n        self.wait_for_data(2).await?;\n\n        Ok(self.read_buffer.get_u16())\n    }\n\n    pub async fn get_string(&mut self) -> Result<String, Error> {\n        trace!("Parsing string size");\n        let string_size = self.get_u16().await? as usize;\n        trace!("String size: {} ({:#04x})", string_size, string_size);\n        trace!("Parsing string buf");\n        let str_buf = self.get_bytes(string_size).await?;\n'
RDERR = (L, """                    Err(_) => break,
""", """                    Err(e) => {
                        debug!("Cannot read packet: {}", e);
                        break;
                    }
""")

# -- the same behaviour
same('r-read-errors', RDERR)
same('r-string-position', (S, GS, GS + """        if let Err(e) = std::str::from_utf8(str_buf.as_ref()) {
            trace!("Bad text of {} bytes: {}", str_buf.len(), e);
        }
"""), RDERR)
same('r-redact-some', (C, PW, '            .field("password", &self.password.is_some())\n'))
same('r-redact-match', (C, PW, '            .field("password", &match self.password { Some(_) => "***", None => "none" })\n'))
same('r-redact-len', (C, PW, '            .field("password", &self.password.as_ref().map(|p| "*".repeat(p.len().min(3))))\n'))
same('r-redact-write', (C, DBG, """impl Debug for ConnectPacket {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let password = if self.password.is_some() { "***" } else { "none" };
        write!(
            f,
            "ConnectPacket {{ client_id: {:?}, user_name: {:?}, password: {}, will: {:?} }}",
            self.client_id, self.user_name, password, self.will_message
        )
    }
}
"""))
same('r-redact-destructure', (C, DBG, """impl Debug for ConnectPacket {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let ConnectPacket { client_id, user_name, password, .. } = self;
        f.debug_struct("ConnectPacket")
            .field("client_id", client_id)
            .field("user_name", user_name)
            .field("password", &password.is_some())
            .finish()
    }
}
"""))
same('r-redact-helper', (C, PW, '            .field("password", &hidden(&self.password))\n'),
     (C, '/// Packets are logged;', 'fn hidden(secret: &Option<String>) -> Option<&\'static str> {\n    secret.as_ref().map(|_| "***")\n}\n\n/// Packets are logged;'))
same('r-redact-newtype', (C, PW, '            .field("password", &Hidden(&self.password))\n'), (C, '/// Packets are logged;', """struct Hidden<'a>(&'a Option<String>);

impl Debug for Hidden<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.0 {
            Some(p) if p.is_empty() => f.write_str("empty"),
            Some(_) => f.write_str("***"),
            None => f.write_str("none"),
        }
    }
}

/// Packets are logged;"""))
same('r-pair-match', (H, AUTH, """            let result = match (&user_name, &packet.password) {
                (name, Some(password)) => {
                    debug!("Authenticating {}", name);
                    self.identity_provider.authenticate(name, password)
                }
                (name, None) => {
                    debug!("No password of {}", name);
                    Err(AuthenticationError::InvalidPassword)
                }
            };
"""))
same('r-credentials-helper', (H, AUTH, """            let credentials = Self::credentials(&user_name, &packet.password);
            debug!("Authenticating {:?}", credentials.0);
            let result = match credentials.1 {
                Some(password) => self.identity_provider.authenticate(credentials.0, password),
                None => Err(AuthenticationError::InvalidPassword),
            };
"""), (H, '    async fn on_connect(', """    fn credentials<'a>(name: &'a str, password: &'a Option<String>) -> (&'a str, Option<&'a str>) {
        (name, password.as_deref())
    }

    async fn on_connect("""))
same('r-ok-or', (H, AUTH, """            let result = packet
                .password
                .as_deref()
                .ok_or(AuthenticationError::InvalidPassword)
                .and_then(|password| self.identity_provider.authenticate(&user_name, password));
"""))
same('r-take', (H, AUTH, """            let mut packet = packet.clone();
            let password = packet.password.take();
            let given = password.is_some();
            debug!("Password given: {}", given);
            let result = match password {
                Some(password) => {
                    let password = password.into_bytes();
                    let password = String::from_utf8(password).unwrap_or_default();
                    debug!("Password of {} bytes for {}", password.len(), user_name);
                    self.identity_provider.authenticate(&user_name, &password)
                }
                None => Err(AuthenticationError::InvalidPassword),
            };
"""), (H, '        let client_id = packet.client_id;\n        debug!("New', '        let client_id = packet.client_id.clone();\n        debug!("New'), (H, 'if let Some(user_name) = packet.user_name {', 'if let Some(user_name) = packet.user_name.clone() {'))
same('r-helper-both', (H, AUTH, """            let name = Self::text(&Some(user_name.clone()));
            debug!("Authenticating {}", name);
            let result = match &packet.password {
                Some(_) => self.identity_provider.authenticate(&user_name, Self::text(&packet.password).as_str()),
                None => Err(AuthenticationError::InvalidPassword),
            };
"""), (H, '    async fn on_connect(', """    fn text(of: &Option<String>) -> String {
        of.clone().unwrap_or_default()
    }

    async fn on_connect("""))
same('r-decode-helper', (D, DEC, """    let (password, length) = if connect_flags.contains(ConnectFlags::PASSWORD) {
        let (password, length) = optional(buffer).await?;
        (Some(password), length)
    } else {
        (None, 0)
    };
    log::trace!("Password of {} bytes of client {}, user {:?}", length, client_id, user_name);
    consume(&mut remaining_length, length)?;
"""), (D, 'async fn decode_publish(', """async fn optional(buffer: &mut MqttBytesReadStream) -> Result<(String, u64), Error> {
    let text = buffer.get_string().await?;
    let length = text.len() as u64 + 2;
    Ok((text, length))
}

async fn decode_publish("""))
same('r-error-text', (A, VER, """        Argon2::default()
            .verify_password(password.as_bytes(), &parsed_hash)
            .map_err(|e| {
                log::debug!("Password of {} refused: {}", username, e);
                InvalidPassword
            })
"""))
same('r-verify-method', (A, VER, """        let verified = parsed_hash.verify_password(&[&Argon2::default()], password);
        log::debug!("Password of {} verified: {}", username, verified.is_ok());
        verified.map_err(|_| InvalidPassword)
"""))

# -- not the same
bug('b-derive', 'A04', (C, DBG, ''), (C, '/// Packets are logged; the password must not be.\n', ''), (C, USE, ''), (C, DER, DER.replace('(', '(Debug, ')))
bug('b-field', 'A04', (C, PW, '            .field("password", &self.password)\n'))
bug('b-field-deref', 'A04', (C, PW, '            .field("password", &self.password.as_ref().map(|p| p.as_str()))\n'))
bug('b-mask-half', 'A04', (C, PW, '            .field("password", &self.password.as_ref().map(|p| format!("{}***", &p[..p.len().min(2)])))\n'))
bug('b-newtype', 'A04', (C, PW, '            .field("password", &Hidden(&self.password))\n'), (C, '/// Packets are logged;', """struct Hidden<'a>(&'a Option<String>);

impl Debug for Hidden<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.0 {
            Some(p) if p.len() < 4 => f.write_str(p),
            Some(_) => f.write_str("***"),
            None => f.write_str("none"),
        }
    }
}

/// Packets are logged;"""))
bug('b-write-raw', 'A04', (C, PW + '            .finish()\n', '            .finish()?;\n        let rest: Vec<&String> = self.password.iter().collect();\n        write!(f, " {:?}", rest)\n'))
bug('b-log-packet-field', 'A04', (H, AUTH, AUTH + '            trace!("Authenticated with {:?}: {}", &packet.password, result.is_ok());\n'))
bug('b-log-failed', 'A04', (H, 'info!("Client {} authentication error: {:?}", &user_name, &e);', 'info!("Client {} authentication error: {:?} {}", &user_name, &e, packet.password.as_deref().unwrap_or(""));'))
bug('b-log-in-authenticate', 'A04', (A, VER, '        log::trace!("Verifying {} of {}", password, username);\n' + VER))
bug('b-log-bytes', 'A04', (A, VER, '        log::trace!("Verifying {:?} of {}", password.as_bytes(), username);\n' + VER))
bug('b-log-swapped', 'A04', (A, VER, '        let message = [username, password].join(":");\n        log::trace!("Verifying {}", message);\n' + VER))
bug('b-error-carries', 'A04', (A, 'pub enum AuthenticationError {\n', 'pub enum AuthenticationError {\n    Mismatch(String),\n'), (A, '            .map_err(|e| InvalidPassword)\n', '            .map_err(|e| AuthenticationError::Mismatch(format!("{} does not match: {}", password, e)))\n'))
bug('b-decoder-logs', 'A04', (D, '        Some(password)\n    } else {', '        log::trace!("Read password {}", password);\n        Some(password)\n    } else {'))
bug('b-decoder-logs-all', 'A04', (D, '    expect_end(remaining_length)?;\n\n    let connect_packet', '    log::trace!("Client {}, credentials {:?}", client_id, (&user_name, &password));\n    expect_end(remaining_length)?;\n\n    let connect_packet'))
bug('b-string-logs', 'A04', (S, GS, GS + '        trace!("String bytes {:?}", &str_buf);\n'))
bug('b-buffer-logs', 'A04', (S, GS, GS + '        trace!("After {:?} left in the buffer: {:x}", str_buf.len(), self.read_buffer);\n'))
bug('b-bad-utf8-shown', 'A04', (S, GS, GS + """        if std::str::from_utf8(str_buf.as_ref()).is_err() {
            return Err(Error::new(ErrorKind::InvalidData, format!("not UTF-8: {}", String::from_utf8_lossy(&str_buf))));
        }
"""), RDERR)
bug('b-error-in-decode', 'A04', (D, '        consume(&mut remaining_length, password.len() as u64 + 2)?;\n        Some(password)', """        consume(&mut remaining_length, password.len() as u64 + 2)
            .map_err(|e| Error::new(e.kind(), format!("{}: password {:?} too long", e, password)))?;
        Some(password)"""), RDERR)
bug('b-print', 'A04', (H, AUTH, AUTH + '            if result.is_err() {\n                eprintln!("{}: {:?}", user_name, packet.password);\n            }\n'))
bug('b-dbg', 'A04', (A, VER, '        let password = dbg!(password);\n' + VER))
bug('b-panic', 'A04', (A, VER, '        assert!(!password.contains(\'\\0\'), "password {:?} holds a zero byte", password);\n' + VER))
bug('b-expect', 'A04', (A, VER, '        let checked: Result<(), String> = if password.len() > 65535 { Err(password.to_owned()) } else { Ok(()) };\n        checked.unwrap();\n' + VER))
bug('b-file', 'A04', (A, VER, '        let _ = std::fs::write("/dev/null", password);\n' + VER))
bug('b-file-append', 'A04', (A, VER, """        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open("/dev/null") {
            use std::io::Write;
            let _ = writeln!(f, "{}:{}", username, password);
        }
""" + VER))
bug('b-display', 'A04', (A, VER, '        let attempt = Attempt { user: username, password };\n        log::debug!("{}", attempt);\n' + VER), (A, 'impl IdentityProvider for FileIdentityManager', """struct Attempt<'a> {
    user: &'a str,
    password: &'a str,
}

impl std::fmt::Display for Attempt<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.user)?;
        f.write_str("/")?;
        f.pad(self.password)
    }
}

impl IdentityProvider for FileIdentityManager"""))
bug('b-kept', 'A04', (A, '    passwords_by_username: HashMap<String, String>,\n}', '    passwords_by_username: HashMap<String, String>,\n    last: std::sync::Mutex<String>,\n}'),
    (A, '            passwords_by_username,\n        };', '            passwords_by_username,\n            last: Default::default(),\n        };'),
    (A, VER, '        let mut last = self.last.lock().unwrap();\n        log::debug!("Previous attempt: {:?}", *last);\n        last.clear();\n        last.push_str(password);\n        drop(last);\n' + VER))
