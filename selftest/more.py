# Larger rearrangements, across files.
H = 'src/broker/client_packet_handler.rs'
L = 'src/mqtt/listener.rs'
M = 'src/broker/messaging/messaging_service.rs'
T = 'src/broker/messaging/subscriptions_repository.rs'
D = 'src/mqtt/transport/packet_decoder.rs'
FIELD = '    connections: HashMap<ClientId, Sender<ServerEvent>>,\n'
CURRENT = '''        match self.connections.get(client_id) {
            Some(current) => current.same_channel(tx),
            None => false,
        }
'''
AUTH = '''        if let Some(user_name) = packet.user_name {
            let result = match &packet.password {
                Some(password) => self.identity_provider.authenticate(&user_name, password),
                None => Err(AuthenticationError::InvalidPassword),
            };
            if let Err(e) = result {
                info!("Client {} authentication error: {:?}", &user_name, &e);

                let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
                send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
                send(&sender, ServerEvent::Disconnect).await;
                return;
            }
        };
'''
NEXT = '''    async fn on_packet(
        &mut self,
'''
DELIVER = '''            // subscriptions are granted QoS 0
            let message = publish.message.clone();
            let delivery = PublishPacket::new(
                message.topic,
                message.payload,
                QoS::AtMostOnce,
                false,
                None,
                false,
            );
            let event = ServerEvent::ControlPacket(Publish(delivery));
            send(&sender, event).await;
'''
END = '''/// A client that is gone must not disturb the others.
'''

same('conn-struct', (H, FIELD, '    connections: HashMap<ClientId, Connection>,\n'),
     (H, 'pub struct ClientPacketHandler {\n', '/// A connection that was accepted.\nstruct Connection {\n    address: SocketAddr,\n    tx: Sender<ServerEvent>,\n}\n\npub struct ClientPacketHandler {\n'),
     (H, 'Some(current) => current.same_channel(tx),', 'Some(current) => current.tx.same_channel(tx),'),
     (H, 'send(&previous, ServerEvent::Disconnect)', 'send(&previous.tx, ServerEvent::Disconnect)'),
     (H, 'info!("Client {:?} connected again", &client_id);', 'info!("Client {:?} connected again, was at {}", &client_id, &previous.address);'),
     (H, 'self.connections.insert(client_id, sender.clone());', 'self.connections.insert(client_id, Connection { address, tx: sender.clone() });'))
same('authorized', (H, AUTH, '''        if !self.authorized(&packet) {
            let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
            send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
            send(&sender, ServerEvent::Disconnect).await;
            return;
        }
'''), (H, '        let client_id = packet.client_id;\n', '        let client_id = packet.client_id.clone();\n'),
     (H, NEXT, '''    fn authorized(&self, packet: &ConnectPacket) -> bool {
        let user_name = match &packet.user_name {
            None => return true,
            Some(user_name) => user_name,
        };
        let result = match packet.password.as_deref() {
            Some(password) => self.identity_provider.authenticate(user_name, password),
            None => Err(AuthenticationError::InvalidPassword),
        };
        match result {
            Ok(()) => true,
            Err(e) => {
                info!("Client {} authentication error: {:?}", user_name, &e);
                false
            }
        }
    }

''' + NEXT))
same('refuse', (H, AUTH, '''        if let Err(e) = self.authenticate(&packet) {
            info!("Client {:?} authentication error: {:?}", &client_id, &e);
            return refuse(&sender, ConnAckReturnCode::NotAuthorized).await;
        }
'''), (H, '        let client_id = packet.client_id;\n', '        let client_id = packet.client_id.clone();\n'),
     (H, NEXT, '''    fn authenticate(&self, packet: &ConnectPacket) -> Result<(), AuthenticationError> {
        match (&packet.user_name, &packet.password) {
            (None, _) => Ok(()),
            (Some(user_name), Some(password)) => self.identity_provider.authenticate(user_name, password),
            (Some(_), None) => Err(AuthenticationError::InvalidPassword),
        }
    }

''' + NEXT), (H, END, '''async fn refuse(sender: &Sender<ServerEvent>, code: ConnAckReturnCode) {
    let conn_ack = ConnAckPacket::new(false, code);
    send(sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
    send(sender, ServerEvent::Disconnect).await;
}

''' + END))
same('delivery-fn', (H, DELIVER, '            send(&sender, delivery_of(&publish)).await;\n'),
     (H, END, '''/// What a subscriber gets of a publication.
fn delivery_of(publish: &PublishPacket) -> ServerEvent {
    let topic = publish.message.topic.clone();
    let payload = publish.message.payload.clone();
    // subscriptions are granted QoS 0
    let delivery = PublishPacket::new(topic, payload, QoS::AtMostOnce, false, None, false);
    ServerEvent::ControlPacket(Publish(delivery))
}

''' + END))
same('current-sender', (H, '''    fn is_current(&self, client_id: &ClientId, tx: &Sender<ServerEvent>) -> bool {
''' + CURRENT, '''    fn current(&self, client_id: &ClientId) -> Option<&Sender<ServerEvent>> {
        self.connections.get(client_id)
    }

    fn is_current(&self, client_id: &ClientId, tx: &Sender<ServerEvent>) -> bool {
        let Some(current) = self.current(client_id) else {
            return false;
        };
        current.same_channel(tx)
'''))
same('handle-event', (H, '''                        match event {

                            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
                            ClientEvent::ControlPacket(client_id, packet, tx) => {
                                self.on_packet(client_id, packet, tx).await;
                            }
                            ClientEvent::Disconnected(_client_id) => {}
                            ClientEvent::ConnectionLost(client_id, tx) => {
                                if self.is_current(&client_id, &tx) {
                                    self.on_connection_lost(client_id).await;
                                }
                            }
                        }
''', '''                        self.on_event(event).await;
'''), (H, NEXT, '''    async fn on_event(&mut self, event: ClientEvent) {
        match event {
            ClientEvent::Connected(packet, address, tx) => self.on_connect(tx, packet, address).await,
            ClientEvent::ControlPacket(client_id, packet, tx) => self.on_packet(client_id, packet, tx).await,
            ClientEvent::ConnectionLost(client_id, tx) if self.is_current(&client_id, &tx) => {
                self.on_connection_lost(client_id).await
            }
            ClientEvent::ConnectionLost(..) | ClientEvent::Disconnected(_) => {}
        }
    }

''' + NEXT))
same('peer-struct', (H, 'ClientEvent::ControlPacket(client_id, packet, tx) => {\n                                self.on_packet(client_id, packet, tx).await;',
                       'ClientEvent::ControlPacket(client_id, packet, tx) => {\n                                self.on_packet(Peer { client_id, tx }, packet).await;'),
     (H, '''        client_id: String,
        packet: ControlPacket,
        tx: Sender<ServerEvent>,
    ) {
        trace!("Got packet {:?}", packet);
''', '''        peer: Peer,
        packet: ControlPacket,
    ) {
        trace!("Got packet {:?}", packet);
        let Peer { client_id, tx } = peer;
'''), (H, 'pub struct ClientPacketHandler {\n', 'struct Peer {\n    client_id: ClientId,\n    tx: Sender<ServerEvent>,\n}\n\npub struct ClientPacketHandler {\n'))
same('sub-map-loop', (H, '        for subscription in subscribe.subscriptions {\n', '        let mut requests = subscribe.subscriptions.into_iter();\n        while let Some(subscription) = requests.next() {\n'))
FIRST = '''        // the first packet must be CONNECT - MQTT-3.1.0-1
        let client_id;
        if let Ok(packet) = read_packet(&mut read_stream).await {
            trace!("Read the first packet: {:?}", &packet);

            if let ControlPacket::Connect(mut c) = packet {
                // todo: handle empty client id
                client_id = if c.client_id.is_empty() {
                    trace!("Client did not provide client id, id will be generated");
                    Uuid::new_v4().to_string()
                } else {
                    c.client_id.clone()
                };

                c.client_id = client_id.clone();
                let event = ClientEvent::Connected(c, address, server_event_tx.clone());
                if let Err(e) = client_event_tx.send(event).await {
                    error!("Error while sending client event to be processed: {}", &e);
                }
            } else {
                warn!("The first received packet is not CONNECT");
                return;
            }
        } else {
            return;
        }
'''
WL = '''    async fn connection_write_loop(
'''
same('read-connect', (L, FIRST, '''        let connect = match Self::read_connect(read_stream).await {
            Some(connect) => connect,
            None => return,
        };
        let client_id = connect.client_id.clone();
        let event = ClientEvent::Connected(connect, address, server_event_tx.clone());
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
'''), (L, 'use crate::mqtt::packets::ControlPacket;\n', 'use crate::mqtt::packets::{ConnectPacket, ControlPacket};\n'),
     (L, WL, '''    /// The first packet must be CONNECT - MQTT-3.1.0-1
    async fn read_connect(read_stream: &mut MqttBytesReadStream) -> Option<ConnectPacket> {
        let packet = read_packet(read_stream).await.ok()?;
        trace!("Read the first packet: {:?}", &packet);
        match packet {
            ControlPacket::Connect(mut connect) => {
                if connect.client_id.is_empty() {
                    trace!("Client did not provide client id, id will be generated");
                    connect.client_id = Uuid::new_v4().to_string();
                }
                Some(connect)
            }
            _ => {
                warn!("The first received packet is not CONNECT");
                None
            }
        }
    }

''' + WL))
LOOP = '''        loop {
            let packet = select! {
                // the connection is not written any more, e.g. after it was told to disconnect
                _ = server_event_tx.closed() => break,
                result = read_packet(&mut read_stream) => match result {
                    Ok(packet) => packet,
                    Err(_) => break,
                },
            };
            trace!("Read packet: {:?}", &packet);

            let disconnected = matches!(packet, ControlPacket::Disconnect(_));
            let event =
                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {
                error!("Error while sending client event to be processed: {}", &e);
            }
            if disconnected {
                return;
            }
        }
'''
same('next-packet', (L, LOOP, LOOP.replace('''            let packet = select! {
                // the connection is not written any more, e.g. after it was told to disconnect
                _ = server_event_tx.closed() => break,
                result = read_packet(&mut read_stream) => match result {
                    Ok(packet) => packet,
                    Err(_) => break,
                },
            };
''', '').replace('        loop {\n', '        while let Some(packet) = Self::next_packet(read_stream, &server_event_tx).await {\n')),
     (L, WL, '''    /// The next packet, until the connection is over.
    async fn next_packet(
        read_stream: &mut MqttBytesReadStream,
        server_event_tx: &Sender<ServerEvent>,
    ) -> Option<ControlPacket> {
        select! {
            _ = server_event_tx.closed() => None,
            result = read_packet(read_stream) => result.ok(),
        }
    }

''' + WL))
same('dispatch-helper', (L, LOOP, LOOP.replace('''            if let Err(e) = client_event_tx.send(event).await {
                error!("Error while sending client event to be processed: {}", &e);
            }
''', '            Self::dispatch(&client_event_tx, event).await;\n')), (L, '''        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
''', '''        Self::dispatch(&client_event_tx, ClientEvent::ConnectionLost(client_id, server_event_tx)).await;
'''), (L, WL, '''    async fn dispatch(client_event_tx: &Sender<ClientEvent>, event: ClientEvent) {
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
    }

''' + WL))
same('serve-result', (L, LOOP, '''        let disconnected = loop {
            let packet = select! {
                _ = server_event_tx.closed() => break false,
                result = read_packet(&mut read_stream) => match result {
                    Ok(packet) => packet,
                    Err(e) => {
                        debug!("Client {:?}: {}", &client_id, &e);
                        break false;
                    }
                },
            };
            trace!("Read packet: {:?}", &packet);

            let last = matches!(&packet, ControlPacket::Disconnect(_));
            let event = ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {
                error!("Error while sending client event to be processed: {}", &e);
            }
            if last {
                break true;
            }
        };
        if disconnected {
            return;
        }
'''))
same('writer-fn', (L, '''                ServerEvent::ControlPacket(packet) => {
                    trace!("Writing packet: {:?}", &packet);
                    if let Err(e) = write_packet(&mut write_stream, packet).await {
                        error!("Error while writing packet: {:?}", &e);
                    }
                }
''', '''                ServerEvent::ControlPacket(packet) => Self::write(write_stream, packet).await,
'''), (L, WL, '''    async fn write(write_stream: &mut MqttBytesWriteStream, packet: ControlPacket) {
        trace!("Writing packet: {:?}", &packet);
        match write_packet(write_stream, packet).await {
            Ok(_) => {}
            Err(e) => error!("Error while writing packet: {:?}", &e),
        }
    }

''' + WL))
same('spawn-fns', (L, '''        let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);

        tokio::spawn(async move {
            Self::connection_write_loop(server_event_rx, &mut write_stream).await;
        });

        let mut read_stream = MqttBytesReadStream::new(4096, tcp_read);

        tokio::spawn(async move {
            Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address)
                .await;
        });
''', '''        const BUFFER_SIZE: usize = 4096;
        let mut read_stream = MqttBytesReadStream::new(BUFFER_SIZE, tcp_read);
        let mut write_stream = MqttBytesWriteStream::new(BUFFER_SIZE, tcp_write);

        let reading = async move {
            Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address).await
        };
        let writing = async move { Self::connection_write_loop(server_event_rx, &mut write_stream).await };
        tokio::spawn(writing);
        tokio::spawn(reading);
'''))
same('reply-fn', (M, '''                    let result = self.subscribe(&client_id, &subscription);
                    let _ = resp.send(result);
''', '''                    reply(resp, self.subscribe(&client_id, &subscription));
'''), (M, '''                    let result = self.senders_to_publish(&topic);
                    let _ = resp.send(result);
''', '''                    reply(resp, self.senders_to_publish(&topic));
'''), (M, '''                    self.unsubscribe(&client_id, &topics);
                    let _ = resp.send(());
''', '''                    reply(resp, self.unsubscribe(&client_id, &topics));
'''), (M, 'impl MessagingService {\n', '''/// The requester may be gone.
fn reply<T>(resp: Responder<T>, value: T) {
    if resp.send(value).is_err() {
        debug!("Nobody waits for the reply");
    }
}

impl MessagingService {
'''))
same('ended-fn', (M, '''        self.subscriptions.connections_lost(client_id);

        self.sessions.delete(client_id)
''', '        self.end(client_id)\n'), (M, '''        self.subscriptions.disconnected(client_id);

        self.sessions.delete(client_id)
''', '        self.end(client_id)\n'), (M, '''    pub fn connection_lost(''', '''    fn end(&mut self, client_id: &ClientId) -> Option<Session> {
        let session = self.sessions.delete(client_id);
        self.subscriptions.disconnected(client_id);
        session
    }

    pub fn connection_lost('''))
SEND = '''        let mut senders = Vec::new();

        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {
            for c in &client_ids {
                match self.sessions.get(c) {
                    Some(session) => {
                        senders.push(session.sender().clone());
                    }
                    None => {
                        warn!(
                            "Tried to send message, but session for client {:?} not found",
                            c
                        );
                    }
                }
            }
        }

        senders
'''
same('senders-sender-of', (M, SEND, '''        self.subscriptions
            .subscribed_clients(topic)
            .unwrap_or_default()
            .iter()
            .filter_map(|client_id| self.sender_of(client_id))
            .collect()
'''), (M, '''    pub fn senders_to_publish(''', '''    fn sender_of(&self, client_id: &ClientId) -> Option<mpsc::Sender<ServerEvent>> {
        let sender = self.sessions.get(client_id).map(|session| session.sender().clone());
        if sender.is_none() {
            warn!("Tried to send message, but session for client {:?} not found", client_id);
        }
        sender
    }

    pub fn senders_to_publish('''))
same('senders-with-capacity', (M, SEND, '''        let client_ids = match self.subscriptions.subscribed_clients(topic) {
            Some(client_ids) => client_ids,
            None => return Vec::new(),
        };
        let mut senders = Vec::with_capacity(client_ids.len());
        for client_id in client_ids {
            if let Some(session) = self.session_get(&client_id) {
                senders.push(session.sender().clone());
            } else {
                warn!("Tried to send message, but session for client {:?} not found", &client_id);
            }
        }
        senders
'''))
same('node-at', (T, '''            let mut node = &mut self.root;

            // subscription.topic().split("/").for_each(|x| {
            //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
            // });

            let segments: Vec<&str> = topic.split("/").collect();
            for segment in segments {
                // unsubscribing must not make the tree grow
                node = match node.children.get_mut(segment) {
                    Some(child) => child,
                    None => continue 'topics,
                };
            }

            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
''', '''            let node = match self.root.descendant_mut(topic) {
                Some(node) => node,
                None => continue 'topics,
            };
            node.clients.retain(|c| c != client_id);
'''), (T, 'impl Drop for SubscriptionNode {', '''impl SubscriptionNode {
    fn descendant_mut(&mut self, filter: &str) -> Option<&mut SubscriptionNode> {
        let mut node = self;
        for level in filter.split('/') {
            node = node.children.get_mut(level)?;
        }
        Some(node)
    }
}

impl Drop for SubscriptionNode {'''))
same('node-at-fold', (T, '''            let segments: Vec<&str> = topic.split("/").collect();
            for segment in segments {
                // unsubscribing must not make the tree grow
                node = match node.children.get_mut(segment) {
                    Some(child) => child,
                    None => continue 'topics,
                };
            }

            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
''', '''            let found = topic
                .split('/')
                .try_fold(node, |node, segment| node.children.get_mut(segment));
            if let Some(node) = found {
                node.clients.retain(|c| c != client_id);
            }
'''), (T, "        'topics: for topic in topics {", '        for topic in topics {'), (T, '            let mut node = &mut self.root;\n\n            // subscription', '            let node = &mut self.root;\n\n            // subscription'))

bug('conn-struct-other', 'A02 L04', (H, FIELD, '    connections: HashMap<ClientId, Connection>,\n'),
     (H, 'pub struct ClientPacketHandler {\n', '/// A connection that was accepted.\nstruct Connection {\n    address: SocketAddr,\n    tx: Sender<ServerEvent>,\n}\n\npub struct ClientPacketHandler {\n'),
     (H, 'Some(current) => current.same_channel(tx),', 'Some(current) => current.address.port() > 0,'),
     (H, 'send(&previous, ServerEvent::Disconnect)', 'send(&previous.tx, ServerEvent::Disconnect)'),
     (H, 'self.connections.insert(client_id, sender.clone());', 'self.connections.insert(client_id, Connection { address, tx: sender.clone() });'))
same('conn-tuple', (H, FIELD, '    connections: HashMap<ClientId, (Sender<ServerEvent>, SocketAddr)>,\n'),
     (H, 'Some(current) => current.same_channel(tx),', 'Some((current, _)) => current.same_channel(tx),'),
     (H, 'send(&previous, ServerEvent::Disconnect)', 'send(&previous.0, ServerEvent::Disconnect)'),
     (H, 'self.connections.insert(client_id, sender.clone());', 'self.connections.insert(client_id, (sender.clone(), address));'))
same('conn-newtype', (H, FIELD, '    connections: HashMap<ClientId, Current>,\n'),
     (H, 'pub struct ClientPacketHandler {\n', 'struct Current(Sender<ServerEvent>);\n\nimpl Current {\n    fn is(&self, tx: &Sender<ServerEvent>) -> bool {\n        self.0.same_channel(tx)\n    }\n}\n\npub struct ClientPacketHandler {\n'),
     (H, CURRENT, '        self.connections.get(client_id).map_or(false, |current| current.is(tx))\n'),
     (H, 'if let Some(previous) = self.connections.remove(&client_id) {', 'if let Some(Current(previous)) = self.connections.remove(&client_id) {'),
     (H, 'self.connections.insert(client_id, sender.clone());', 'self.connections.insert(client_id, Current(sender.clone()));'))

same('conn-btree', (H, FIELD, '    connections: std::collections::BTreeMap<ClientId, Sender<ServerEvent>>,\n'), (H, 'connections: HashMap::new()', 'connections: std::collections::BTreeMap::new()'),
     (H, 'use std::collections::HashMap;\n', ''))
same('tree-btree', (T, 'use std::collections::HashMap;', 'use std::collections::BTreeMap;'), (T, 'children: HashMap<String, SubscriptionNode>', 'children: BTreeMap<String, SubscriptionNode>'),
     (T, 'HashMap::new()', 'BTreeMap::new()'),
     (T, 'let mut nodes: Vec<_> = self.children.drain().map(|(_, node)| node).collect();', 'let mut nodes: Vec<_> = std::mem::take(&mut self.children).into_values().collect();'),
     (T, 'nodes.extend(node.children.drain().map(|(_, node)| node));', 'nodes.extend(std::mem::take(&mut node.children).into_values());'))
same('tree-take', (T, 'let mut nodes: Vec<_> = self.children.drain().map(|(_, node)| node).collect();', 'let mut nodes: Vec<_> = std::mem::take(&mut self.children).into_values().collect();'),
     (T, 'nodes.extend(node.children.drain().map(|(_, node)| node));', 'nodes.extend(std::mem::take(&mut node.children).into_values());'))
same('passwords-btree', ('src/broker/authentication.rs', 'use std::collections::HashMap;', 'use std::collections::BTreeMap;'),
     ('src/broker/authentication.rs', 'passwords_by_username: HashMap<String, String>', 'passwords_by_username: BTreeMap<String, String>'),
     ('src/broker/authentication.rs', 'HashMap::with_capacity(credentials.lines().count())', 'BTreeMap::new()'))
