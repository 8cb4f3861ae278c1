H = 'src/broker/client_packet_handler.rs'
L = 'src/mqtt/listener.rs'
M = 'src/broker/messaging/messaging_service.rs'
T = 'src/broker/messaging/subscriptions_repository.rs'
B = 'src/mqtt/transport/mqtt_bytes_stream.rs'
A = 'src/application.rs'
S = 'src/broker/session/session_repository.rs'
E = 'src/broker/session/session_entity.rs'
FLD = '    connections: HashMap<ClientId, Sender<ServerEvent>>,\n'
NEW = '            connections: HashMap::new(),\n'
GOT = '                        trace!("Got event {:?}", &event);\n'

bug('h-history', 'R06', (H, FLD, FLD + '    history: Vec<String>,\n'), (H, NEW, NEW + '            history: Vec::new(),\n'),
    (H, GOT, GOT + '                        self.history.push(format!("{:?}", &event));\n'))
bug('h-local', 'R06', (H, '    pub async fn run(mut self) {\n', '    pub async fn run(mut self) {\n        let mut history = Vec::new();\n'),
    (H, GOT, GOT + '                        history.push(format!("{:?}", &event));\n'))
bug('h-set', 'R06', (H, FLD, FLD + '    known: std::collections::HashSet<String>,\n'), (H, NEW, NEW + '            known: std::collections::HashSet::new(),\n'),
    (H, '        trace!("Got packet {:?}", packet);\n', '        self.known.insert(client_id.clone());\n        trace!("Got packet {:?}", packet);\n'))
bug('h-addresses', 'R06', (H, FLD, FLD + '    addresses: HashMap<ClientId, SocketAddr>,\n'), (H, NEW, NEW + '            addresses: HashMap::new(),\n'),
    (H, 'ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,',
     'ClientEvent::Connected(c, address, tx) => {\n self.addresses.insert(c.client_id.clone(), address);\n self.on_connect(tx, c, address).await\n }'))
bug('h-text', 'R06', (H, FLD, FLD + '    log: String,\n'), (H, NEW, NEW + '            log: String::new(),\n'),
    (H, '        trace!("Got packet {:?}", packet);\n', '        self.log.push_str(&client_id);\n        trace!("Got packet {:?}", packet);\n'))
same('h-counter', (H, FLD, FLD + '    served: u64,\n'), (H, NEW, NEW + '            served: 0,\n'),
     (H, GOT, GOT + '                        self.served = self.served.wrapping_add(1);\n'))
same('h-scratch', (H, '    pub async fn run(mut self) {\n', '    pub async fn run(mut self) {\n        let mut scratch: Vec<String> = Vec::new();\n'),
     (H, GOT, GOT + '                        scratch.clear();\n                        scratch.push(format!("{:?}", &event));\n'))
same('h-turn-local', (H, GOT, GOT + '                        let mut seen: Vec<String> = Vec::new();\n                        seen.push(format!("{:?}", &event));\n'))
same('h-turn-string', (H, GOT, GOT + '                        let mut seen = String::new();\n                        seen.push_str("event");\n                        trace!("{}", seen);\n'))
bug('l-handles', 'R06', (L, '    pub async fn start_accepting(mut self) {\n', '    pub async fn start_accepting(mut self) {\n        let mut tasks = Vec::new();\n'),
    (L, '                _ = Self::accept(&self.listener, &self.client_event_tx) => {}\n',
     '                accepted = self.listener.accept() => if let Ok((socket, address)) = accepted {\n                    let client_event_tx = self.client_event_tx.clone();\n'
     '                    tasks.push(tokio::spawn(async move {\n                        Self::handle_connection(socket, client_event_tx, address).await;\n                    }));\n                }\n'))
same('l-inline', (L, '                _ = Self::accept(&self.listener, &self.client_event_tx) => {}\n',
     '                accepted = self.listener.accept() => if let Ok((socket, address)) = accepted {\n                    let client_event_tx = self.client_event_tx.clone();\n'
     '                    tokio::spawn(async move {\n                        Self::handle_connection(socket, client_event_tx, address).await;\n                    });\n                }\n'))
bug('l-joinset', 'R06', (L, '    pub async fn start_accepting(mut self) {\n', '    pub async fn start_accepting(mut self) {\n        let mut tasks = tokio::task::JoinSet::new();\n'),
    (L, '                _ = Self::accept(&self.listener, &self.client_event_tx) => {}\n',
     '                accepted = self.listener.accept() => if let Ok((socket, address)) = accepted {\n                    let client_event_tx = self.client_event_tx.clone();\n'
     '                    tasks.spawn(async move {\n                        Self::handle_connection(socket, client_event_tx, address).await;\n                    });\n                }\n'))
bug('l-peers', 'R06', (L, '    pub async fn start_accepting(mut self) {\n', '    pub async fn start_accepting(mut self) {\n        let mut peers = Vec::new();\n'),
    (L, '                _ = Self::accept(&self.listener, &self.client_event_tx) => {}\n', '                _ = Self::accept(&self.listener, &self.client_event_tx) => peers.push(std::time::Instant::now()),\n'))
bug('r-kinds', 'R06', (L, '            trace!("Read packet: {:?}", &packet);\n', '            trace!("Read packet: {:?}", &packet);\n            read.push(std::mem::discriminant(&packet));\n'),
    (L, '        loop {\n            let packet = select! {', '        let mut read = Vec::new();\n        loop {\n            let packet = select! {'))
bug('w-kinds', 'R06', (L, '                    trace!("Writing packet: {:?}", &packet);\n', '                    trace!("Writing packet: {:?}", &packet);\n                    written.push(std::mem::discriminant(&packet));\n'),
    (L, '        while let Some(event) = server_event_rx', '        let mut written = Vec::new();\n        while let Some(event) = server_event_rx'))
bug('q-huge', 'R06', (L, 'mpsc::channel(32)', 'mpsc::channel(usize::MAX >> 3)'))
same('q-const', (L, 'mpsc::channel(32)', 'mpsc::channel(QUEUE)'), (L, 'impl MqttListener {\n', 'const QUEUE: usize = 64;\n\nimpl MqttListener {\n'))
same('q-local', (L, 'mpsc::channel(32)', 'mpsc::channel(size)'), (L, '        let (tcp_read, tcp_write) = socket.into_split();\n', '        let size = 32;\n        let (tcp_read, tcp_write) = socket.into_split();\n'))
bug('m-log', 'R06', (M, '    subscriptions: SubscriptionsRepository,\n}', '    subscriptions: SubscriptionsRepository,\n    topics: Vec<String>,\n}'),
    (M, '            subscriptions: SubscriptionsRepository::new(),\n', '            subscriptions: SubscriptionsRepository::new(),\n            topics: Vec::new(),\n'),
    (M, '                MessagingOperation::SendersToPublish { topic, resp } => {\n', '                MessagingOperation::SendersToPublish { topic, resp } => {\n                    self.topics.push(topic.clone());\n'))
bug('m-last', 'R06', (M, '    subscriptions: SubscriptionsRepository,\n}', '    subscriptions: SubscriptionsRepository,\n    last: std::collections::HashMap<String, usize>,\n}'),
    (M, '            subscriptions: SubscriptionsRepository::new(),\n', '            subscriptions: SubscriptionsRepository::new(),\n            last: Default::default(),\n'),
    (M, '                MessagingOperation::SendersToPublish { topic, resp } => {\n', '                MessagingOperation::SendersToPublish { topic, resp } => {\n                    self.last.insert(topic.clone(), 1);\n'))
bug('m-count', 'R06', (M, '    subscriptions: SubscriptionsRepository,\n}', '    subscriptions: SubscriptionsRepository,\n    count: std::collections::HashMap<String, usize>,\n}'),
    (M, '            subscriptions: SubscriptionsRepository::new(),\n', '            subscriptions: SubscriptionsRepository::new(),\n            count: Default::default(),\n'),
    (M, '                MessagingOperation::SendersToPublish { topic, resp } => {\n', '                MessagingOperation::SendersToPublish { topic, resp } => {\n                    *self.count.entry(topic.clone()).or_insert(0) += 1;\n'))
bug('t-log', 'R06', (T, '    root: SubscriptionNode,\n}', '    root: SubscriptionNode,\n    filters: Vec<String>,\n}'),
    (T, '            root: SubscriptionNode::new(),\n', '            root: SubscriptionNode::new(),\n            filters: Vec::new(),\n'),
    (T, '        SubAckReturnCode::SuccessQoS0\n', '        self.filters.push(subscription.topic().to_string());\n        SubAckReturnCode::SuccessQoS0\n'))
bug('t-map', 'R06', (T, '    root: SubscriptionNode,\n}', '    root: SubscriptionNode,\n    filters: HashMap<String, usize>,\n}'),
    (T, '            root: SubscriptionNode::new(),\n', '            root: SubscriptionNode::new(),\n            filters: HashMap::new(),\n'),
    (T, '        SubAckReturnCode::SuccessQoS0\n', '        self.filters.insert(subscription.topic().to_string(), 0);\n        SubAckReturnCode::SuccessQoS0\n'))
bug('t-un-creates', 'R06', (T, '''                node = match node.children.get_mut(segment) {
                    Some(child) => child,
                    None => continue 'topics,
                };
''', '''                node = node
                    .children
                    .entry(segment.to_string())
                    .or_insert(SubscriptionNode::new());
'''), (T, "        'topics: for topic in topics {", '        for topic in topics {'))
bug('t-twice', 'R06 M03', (T, '        if !node.clients.contains(client_id) {\n            node.clients.push(client_id.clone());\n        }\n', '        node.clients.push(client_id.clone());\n'))
bug('t-first-only', 'R06 L03', (T, '            nodes.extend(node.children.values_mut());\n', '            if !node.clients.is_empty() {\n                nodes.extend(node.children.values_mut());\n            }\n'))
bug('b-history', 'R06', (B, '''pub struct MqttBytesReadStream {
''', '''pub struct MqttBytesReadStream {
    history: Vec<u8>,
'''), (B, '''        MqttBytesReadStream {
''', '''        MqttBytesReadStream {
            history: Vec::new(),
'''), (B, '''            read_stream,
        }
    }

    pub async fn get_u8(&mut self) -> Result<u8, Error> {
        self.wait_for_data(1).await?;
''', '''            read_stream,
        }
    }

    pub async fn get_u8(&mut self) -> Result<u8, Error> {
        self.wait_for_data(1).await?;
        self.history.push(self.read_buffer[0]);
'''))
bug('b-written', 'R06', (B, '''pub struct MqttBytesWriteStream {
''', '''pub struct MqttBytesWriteStream {
    history: BytesMut,
'''), (B, '''        MqttBytesWriteStream {
''', '''        MqttBytesWriteStream {
            history: BytesMut::new(),
'''), (B, '''            write_stream,
        }
    }

    pub async fn put_u8(&mut self, n: u8) -> Result<(), Error> {
''', '''            write_stream,
        }
    }

    pub async fn put_u8(&mut self, n: u8) -> Result<(), Error> {
        self.history.put_u8(n);
'''))
bug('s-backup', 'R06', (S, '    sessions: HashMap<ClientId, Session>,\n}', '    sessions: HashMap<ClientId, Session>,\n    ended: Vec<ClientId>,\n}'),
    (S, 'InMemorySessionRepository { sessions }', 'InMemorySessionRepository { sessions, ended: Vec::new() }'),
    (S, '            sessions: HashMap::new(),\n', '            sessions: HashMap::new(),\n            ended: Vec::new(),\n'),
    (S, '        self.sessions.remove(client_id)\n', '        self.ended.push(client_id.clone());\n        self.sessions.remove(client_id)\n'))
bug('x-static', 'R06', (L, 'impl MqttListener {\n', 'static PEERS: std::sync::Mutex<Vec<SocketAddr>> = std::sync::Mutex::new(Vec::new());\n\nimpl MqttListener {\n'),
    (L, '        let (tcp_read, tcp_write) = socket.into_split();\n', '        PEERS.lock().unwrap().push(address);\n        let (tcp_read, tcp_write) = socket.into_split();\n'))
