# Changes written from the text of the properties, in files the other batteries touch little.
H = 'src/broker/client_packet_handler.rs'
L = 'src/mqtt/listener.rs'
M = 'src/broker/messaging/messaging_service.rs'
T = 'src/broker/messaging/subscriptions_repository.rs'
D = 'src/mqtt/transport/packet_decoder.rs'
E = 'src/mqtt/transport/packet_encoder.rs'
S = 'src/mqtt/transport/mqtt_bytes_stream.rs'
P = 'src/mqtt/packets/'
SET = 'src/settings/mod.rs'
APP = 'src/application.rs'
SR = 'src/broker/session/session_repository.rs'
SE = 'src/broker/session/session_entity.rs'
AU = 'src/broker/authentication.rs'
PW = 'ratelmq-passwd/src/main.rs'

bug('dup-only-qos', 'C05', (P + 'publish.rs', '            dup,\n            message', '            dup: dup && qos != QoS::AtMostOnce,\n            message'))
bug('ctor-retain-dup', 'C05', (P + 'publish.rs', '                retain,\n', '                retain: retain || dup,\n'))
bug('connect-user-password', 'C05', (P + 'connect.rs', '            user_name,\n            password,\n        }', '            user_name: if clean_session { user_name } else { user_name.or_else(|| password.clone()) },\n            password,\n        }'))
bug('qos-bits', 'C05', (P + 'mod.rs', '            2 => ExactlyOnce,\n            _ =>', '            2 => AtLeastOnce,\n            _ =>'))
bug('subscription-slash', 'C05', ('src/mqtt/subscription.rs', '        Subscription { topic, qos }', "        let topic = topic.strip_suffix('/').map(str::to_string).unwrap_or(topic);\n        Subscription { topic, qos }"))
bug('subscription-topic-trim', 'M02', ('src/mqtt/subscription.rs', '        self.topic.as_str()', '        self.topic.trim_start()'))
bug('code-accepted', 'C07', (P + 'connack.rs', 'Accepted = 0x00,\n    UnacceptableProtocolVersion,', 'Accepted = 0x00,\n    UnacceptableProtocolVersion = 0x02,'))
bug('type-const', 'C07', (P + 'mod.rs', 'pub const PACKET_TYPE_UNSUB_ACK: u8 = 11;', 'pub const PACKET_TYPE_UNSUB_ACK: u8 = 10;'))
bug('type-const-read', 'C04', (P + 'mod.rs', 'pub const PACKET_TYPE_PUB_COMP: u8 = 7;', 'pub const PACKET_TYPE_PUB_COMP: u8 = 15;'))
bug('debug-password', 'A04', (P + 'connect.rs', '.map(|_| "***"))', '.map(|p| if p.is_empty() { "" } else { p.as_str() }))'))
bug('debug-password-length', 'A04', (P + 'connect.rs', '.map(|_| "***"))', '.map(|p| p.chars().next()))'))
bug('display-connect', 'A04', (P + 'mod.rs', 'Connect(_) => write!(f, "CONNECT"),', 'Connect(ref c) => write!(f, "CONNECT {:?}", &c.password),'))
bug('suback-code-default', 'M01', (H, 'let return_code = rx.await.unwrap();', 'let return_code = if subscribe.packet_id == 0 { rx.await.unwrap_or_default(); Default::default() } else { rx.await.unwrap() };'))

bug('serde-default', 'S01', (SET, '#[derive(Debug, Deserialize)]\npub struct AuthenticationSettings {\n', '#[derive(Debug, Deserialize)]\npub struct AuthenticationSettings {\n    #[serde(default)]\n'))
bug('serde-rename', 'S01', (SET, 'pub struct MqttSettings {\n', 'pub struct MqttSettings {\n    #[serde(rename = "listeners")]\n'))
bug('serde-default-struct', 'S01', (SET, '#[derive(Debug, Deserialize)]\npub struct AuthenticationSettings {\n', '#[derive(Debug, Deserialize, Default)]\n#[serde(default)]\npub struct AuthenticationSettings {\n'))
bug('env-separator', 'S01', (SET, '.separator("__")', '.separator("_")'))
bug('env-prefix', 'S01', (SET, 'with_prefix("ratelmq")', 'with_prefix("ratel")'))
bug('env-empty', 'S01', (SET, '.separator("__"))', '.separator("__").ignore_empty(true))'))
bug('env-merge-ignored', 'S01', (SET, 'config.merge(Environment::with_prefix("ratelmq").separator("__"))?;', 'let _ = config.merge(Environment::with_prefix("ratelmq").separator("__"));'))
bug('settings-fallback', 'S01', (APP, 'let settings = Settings::new(config_filename).unwrap();', 'let settings = Settings::new(config_filename).or_else(|_| Settings::new("/etc/ratelmq/ratelmq.conf")).unwrap();'))

bug('sort-clients', 'M04', (T, '''            node.clients.push(client_id.clone());
''', '''            node.clients.push(client_id.clone());
            node.clients.truncate(1024);
'''))
bug('sub-prefix', 'M03', (T, 'if !node.clients.contains(client_id) {', 'if !node.clients.iter().any(|c| c.eq_ignore_ascii_case(client_id)) {'))
bug('un-retain-len', 'M03', (T, '''            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
            // node''', '''            node.clients.retain(|c| c.len() != client_id.len() || c.starts_with(client_id.as_str()) == false);
            // node'''))
bug('prune-children', 'L03', (T, '            nodes.extend(node.children.values_mut());', '            node.children.retain(|_, child| !child.clients.is_empty() || !child.children.is_empty());\n            node.children.retain(|_, child| child.clients.len() != 1 || &child.clients[0] != client_id);\n            nodes.extend(node.children.values_mut());'))
bug('remove-first-level', 'L03', (T, '            nodes.extend(node.children.values_mut());', '            if !node.clients.is_empty() || nodes.is_empty() {\n                nodes.extend(node.children.values_mut());\n            }'))
bug('delete-keeps-persistent', 'L03', (SR, '        self.sessions.remove(client_id)', '        match self.sessions.get(client_id) {\n            Some(s) if s.keep_alive_seconds == u16::MAX => None,\n            _ => self.sessions.remove(client_id),\n        }'))
bug('insert-or', 'L05', (SR, '        self.sessions.insert(session.client_id().clone(), session);', '        self.sessions.entry(session.client_id().to_lowercase()).or_insert(session);'))
bug('get-case', 'M04', (SR, '    fn get(&self, client_id: &ClientId) -> Option<&Session> {\n        self.sessions.get(client_id)', '    fn get(&self, client_id: &ClientId) -> Option<&Session> {\n        self.sessions.get(client_id.trim())'))
bug('session-sender', 'M04', (SE, '            sender,\n            keep', '            sender: if persistent { sender } else { tokio::sync::mpsc::channel(1).0 },\n            keep'))
bug('topic-lower', 'M02', (M, 'self.subscriptions.subscribed_clients(topic)', 'self.subscriptions.subscribed_clients(&topic.trim_end_matches(\'/\').to_string())'))

bug('id-23', 'L04', (L, 'c.client_id.clone()\n                };', 'c.client_id.chars().take(23).collect()\n                };'))
bug('id-static', 'L04', (L, 'Uuid::new_v4().to_string()', 'Uuid::from_u128(address.port() as u128).to_string()'))
bug('write-break-error', 'C08', (S, 'self.write_stream.write_buf(&mut self.write_buffer).await?;', 'if self.write_stream.write_buf(&mut self.write_buffer).await? == 0 {\n                self.write_buffer.clear();\n            }'))
bug('early-read-limit', 'C09', (S, '''        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream''', '''        while self.read_buffer.len() < bytes {
            if self.read_buffer.len() == self.read_buffer.capacity() {
                continue;
            }
            let read_bytes_num = self.read_stream'''))
bug('auth-contains', 'A03', (AU, '''            .get(username)
            .ok_or(UserNotFound)?;''', '''            .get(username)
            .or_else(|| self.passwords_by_username.get("*"))
            .ok_or(UserNotFound)?;'''))
bug('auth-hash-trim', 'A03', (AU, "let password = credential.1;", "let password = credential.1.split(':').next().unwrap_or_default();"))
bug('auth-skip-comment', 'A03', (AU, "            let credential = line.split_once(':')", "            if line.starts_with('#') {\n                continue;\n            }\n            let credential = line.split_once(':')"))
bug('drain-after-disconnect', 'L06', (L, '''                ServerEvent::Disconnect => {
                    break;''', '''                ServerEvent::Disconnect => {
                    if server_event_rx.try_recv().is_ok() {
                        continue;
                    }
                    break;'''))
bug('signal-twice', 'R04', (APP, '    join_all(listeners).await;', '    join_all(listeners.into_iter().take(8)).await;'))
bug('broadcast-lag', 'R04', (APP, 'ctrl_c_tx.subscribe(),\n        )', 'broadcast::channel(1).1,\n        )'))

same('subscription-clone', ('src/mqtt/subscription.rs', '        self.topic.as_str()', '        &self.topic'))
same('qos-from', (P + 'mod.rs', '''        match bits {
            0 => AtMostOnce,
            1 => AtLeastOnce,
            2 => ExactlyOnce,
            _ => panic!("Invalid QoS"),
        }''', '''        const LEVELS: [QoS; 3] = [AtMostOnce, AtLeastOnce, ExactlyOnce];
        match LEVELS.get(bits as usize) {
            Some(qos) => *qos,
            None => panic!("Invalid QoS"),
        }'''))
same('debug-tuple', (P + 'connect.rs', '.field("password", &self.password.as_ref().map(|_| "***"))', '.field("password", &self.password.is_some())'))
same('publish-message', (P + 'publish.rs', '''        PublishPacket {
            packet_id,
            dup,
            message: Message {
                qos,
                retain,
                topic,
                payload: body,
            },
        }''', '''        let message = Message {
            topic,
            payload: body,
            qos,
            retain,
        };
        PublishPacket { packet_id, dup, message }'''))
same('un-swap-remove', (T, '''            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
            // node''', '''            if let Some(position) = node.clients.iter().position(|c| c == client_id) {
                node.clients.swap_remove(position);
            }
            // node'''))
same('session-insert-id', (SR, '        self.sessions.insert(session.client_id().clone(), session);', '        let client_id = session.client_id().clone();\n        let replaced = self.sessions.insert(client_id, session);\n        drop(replaced);'))
same('session-remove-entry', (SR, '        self.sessions.remove(client_id)', '        self.sessions.remove_entry(client_id).map(|(_, session)| session)'))
same('session-exists-get', (SR, '        self.sessions.contains_key(client_id)', '        self.get(client_id).is_some()'))
same('settings-local', (SET, '''        let mut config = Config::new();

        config.merge(File::with_name(config_filename).format(FileFormat::Toml))?;
        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;

        config.try_into()''', '''        let file = File::with_name(config_filename).format(FileFormat::Toml);
        let environment = Environment::with_prefix("ratelmq").separator("__");

        let mut config = Config::new();
        config.merge(file)?.merge(environment)?;
        config.try_into::<Settings>()'''))
same('settings-builder-fn', (SET, '''        let mut config = Config::new();

        config.merge(File::with_name(config_filename).format(FileFormat::Toml))?;
        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;

        config.try_into()
    }''', '''        Self::sources(config_filename)?.try_into()
    }

    fn sources(config_filename: &str) -> Result<Config, ConfigError> {
        const PREFIX: &str = "ratelmq";
        let mut config = Config::default();
        config.merge(File::new(config_filename, FileFormat::Toml))?;
        config.merge(Environment::with_prefix(PREFIX).separator("__"))?;
        Ok(config)
    }'''))
same('auth-collect', (AU, '''        let mut passwords_by_username = HashMap::with_capacity(credentials.lines().count());

        for line in credentials.lines() {
            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;

            passwords_by_username.insert(username.to_owned(), password.to_owned());
        }
''', '''        let passwords_by_username = credentials
            .lines()
            .map(|line| {
                let (username, hash) = line.split_once(':').ok_or(InvalidEntry)?;
                Ok((username.to_owned(), hash.to_owned()))
            })
            .collect::<Result<HashMap<_, _>, FileIdentityManagerError>>()?;
'''))
same('entity-helper', (SE, '''    pub fn sender(&self) -> &Sender<ServerEvent> {
        &self.sender
    }
''', '''    pub fn sender(&self) -> &Sender<ServerEvent> {
        let Session { sender, .. } = self;
        sender
    }
'''))
same('qos-index', (P + 'mod.rs', '''        match bits {
            0 => AtMostOnce,
            1 => AtLeastOnce,
            2 => ExactlyOnce,
            _ => panic!("Invalid QoS"),
        }''', '''        const LEVELS: [QoS; 3] = [AtMostOnce, AtLeastOnce, ExactlyOnce];
        LEVELS[bits as usize]'''))
bug('qos-index-order', 'C05', (P + 'mod.rs', '''        match bits {
            0 => AtMostOnce,
            1 => AtLeastOnce,
            2 => ExactlyOnce,
            _ => panic!("Invalid QoS"),
        }''', '''        const LEVELS: [QoS; 3] = [AtMostOnce, ExactlyOnce, AtLeastOnce];
        LEVELS[bits as usize]'''))
same('flags-table', (D, '''fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
    if actual == expected {''', '''/// The flags every packet type must have; those of PUBLISH vary.
const FLAGS: [u8; 16] = [0, 0, 0, 0, 0, 0, 2, 0, 2, 0, 2, 0, 0, 0, 0, 0];

fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
    let packet_type = actual >> 4;
    if packet_type == expected >> 4 && actual & 0b1111 == FLAGS[packet_type as usize] {'''))
bug('flags-table-wrong', 'C04', (D, '''fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
    if actual == expected {''', '''/// The flags every packet type must have; those of PUBLISH vary.
const FLAGS: [u8; 16] = [0, 0, 0, 0, 0, 0, 2, 0, 2, 0, 0, 0, 0, 0, 0, 0];

fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
    let packet_type = actual >> 4;
    if packet_type == expected >> 4 && actual & 0b1111 == FLAGS[packet_type as usize] {'''))
